//! Looks up the fields of the record in /repo as it is now, so that the snapshot follows the code.
use std::fmt::Write;
fn main() {
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let toml = std::fs::read_to_string(format!("{}/Cargo.toml", dir)).unwrap();
    let repo = toml.lines().find(|l| l.starts_with("satellite")).and_then(|l| l.split('"').nth(1)).unwrap().to_string();
    let mut todo = vec![std::path::PathBuf::from(format!("{}/src", repo))];
    let mut fields: Vec<(String, String)> = vec![];
    while let Some(d) = todo.pop() {
        let mut es: Vec<_> = std::fs::read_dir(&d).unwrap().map(|e| e.unwrap().path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                todo.push(p);
                continue;
            }
            let Ok(t) = std::fs::read_to_string(&p) else { continue };
            println!("cargo:rerun-if-changed={}", p.display());
            let mut inside = false;
            for l in t.lines() {
                let l = l.split("//").next().unwrap().trim();
                if l.starts_with("pub struct Satrec ") || l == "pub struct Satrec" {
                    inside = true;
                    continue;
                }
                if inside && l.starts_with('}') {
                    inside = false;
                }
                if !inside {
                    continue;
                }
                for part in l.split_terminator(',') {
                    if let Some((n, ty)) = part.trim().strip_prefix("pub ").and_then(|x| x.split_once(':')) {
                        let n = n.trim();
                        if n.chars().all(|c| c.is_alphanumeric() || c == '_') {
                            fields.push((n.into(), ty.trim().into()));
                        }
                    }
                }
            }
        }
    }
    const INT: &[&str] = &["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool"];
    let mut o = String::from("/// Every field of a record, bit for bit.\npub fn snap(s: &satellite::io::Satrec) -> Vec<u64> {\n    let mut v: Vec<u64> = vec![];\n");
    for (n, t) in &fields {
        let e = match t.as_str() {
            "f64" | "f32" => format!("s.{}.to_bits() as u64", n),
            t if INT.contains(&t) => format!("s.{} as u64", n),
            "String" => format!("crate::rng::hash_bytes(2, s.{}.as_bytes())", n),
            "Option<String>" => format!("crate::rng::hash_bytes(1, s.{}.as_deref().unwrap_or(\"\\u{{1}}none\").as_bytes())", n),
            _ => format!("variant(&s.{})", n),
        };
        writeln!(o, "    v.push({});", e).unwrap();
    }
    o += "    v\n}\n";
    let ty = |f: &str| fields.iter().find(|x| x.0 == f).map(|x| x.1.clone());
    let res = match ty("irez").as_deref() {
        Some("f64") | Some("f32") => "s.irez != 0.0",
        Some("bool") => "s.irez",
        Some(t) if INT.contains(&t) => "s.irez != 0",
        // not to be told from outside: allow for the costlier kind
        _ => "deep(s)",
    };
    writeln!(o, "pub fn resonant(s: &satellite::io::Satrec) -> bool {{ {} }}", res).unwrap();
    let deep = match ty("method").as_deref() {
        Some("InitlMethod") => "s.method == satellite::propogation::initl::InitlMethod::D",
        _ => "!(2.0 * std::f64::consts::PI / s.no < 225.0)",
    };
    writeln!(o, "pub fn deep(s: &satellite::io::Satrec) -> bool {{ {} }}", deep).unwrap();
    std::fs::write(format!("{}/fields.rs", std::env::var("OUT_DIR").unwrap()), o).unwrap();
}
