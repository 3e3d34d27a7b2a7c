//! Element sets on their way from publisher to reader: C01, C02, C03, C04.
//!
//! Plan lines:
//!   set NAME|- L1 L2        a published set (NAME is the title line, - for none)
//!   f KIND A B C            a fault of the channel, applied in order to what is in transit
//!   grow N                  deliver the whole text N times over (C01)
//! The text that arrives is then read by every reader.
use crate::core::*;
use crate::refsgp4::{Grav, Model};
use crate::rng::{hash_bytes, Rng};
use crate::rt;
use crate::sut::*;
use crate::tle::*;

#[derive(Clone, Debug)]
pub struct Set {
    name: Option<String>,
    l1: String,
    l2: String,
}

fn sets_of(lines: &[String]) -> Vec<Set> {
    lines
        .iter()
        .filter_map(|l| {
            let c = cells(l);
            if c[0] == "set" && c.len() == 4 {
                Some(Set { name: if c[1] == "-" { None } else { Some(c[1].into()) }, l1: c[2].into(), l2: c[3].into() })
            } else {
                None
            }
        })
        .collect()
}

const FOREIGN: &[&str] = &[
    "# downloaded from a mirror", "<html><body>503 Service Unavailable</body></html>", "No GP data found",
    "1", "2", "0", "1 ", "2 ", "12 34", "0 ", "1 25544U", "2 25544", "----", "1 AAAAAU", "\u{feff}", "NAME",
    "3 99999", "1\t25544", "{\"OBJECT_NAME\":\"X\"}", "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667",
    "1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753",
];
const BLANKS: &[&str] = &["", " ", "\t", "\r", "   \r", "\u{a0}"];
const WIDE: &[&str] = &["é", "°", "—", "中", "🛰", "\u{301}", "\u{202e}", "١"];

/// Faults that keep every line's content: an intact set stays intact (C04).
pub const GENTLE: &[&str] = &["crlf_all", "crlf_line", "pad_line", "blank_line", "swap_sets", "dup_set", "drop_set"];
pub const HARSH: &[&str] = &[
    "drop_line", "dup_line", "swap_lines", "move_line", "trunc_line", "cut_tail", "cut_head", "flip_bit", "set_byte", "ins_byte",
    "del_byte", "wide_char", "join_lines", "split_line", "foreign_line", "nul_byte", "bom", "zero_block", "stale_block",
    "dup_block", "digit", "swap_fields", "tab_for_space", "indent_line", "cr_only", "renumber", "stretch",
];
/// What a stuck carrier repeats within a line.
const TOKENS: &[&str] = &[" ", "0 ", "1 ", "_", "-", ".", "\t", "\r", "0", "9", "A", "(", "é", "\u{a0}", "1 2", "X ", "+", "e", "\0", "\u{feff}"];


/// Apply one fault to the text in transit.
fn apply(text: &mut Vec<u8>, kind: &str, a: u64, b: u64, c: u64) -> bool {
    let mut lines: Vec<Vec<u8>> = text.split(|&x| x == b'\n').map(|l| l.to_vec()).collect();
    let n = lines.len();
    let i = (a % n as u64) as usize;
    let pos = |l: &Vec<u8>, b: u64| if l.is_empty() { 0 } else { (b % l.len() as u64) as usize };
    // sets, as stretches of lines ending with a line 2
    let mut done = true;
    match kind {
        "drop_line" => { lines.remove(i); }
        "dup_line" => { let x = lines[i].clone(); lines.insert(i, x) }
        "swap_lines" => { let j = (b % n as u64) as usize; lines.swap(i, j); done = i != j }
        "move_line" => { let x = lines.remove(i); let j = (b % n as u64) as usize; lines.insert(j.min(lines.len()), x); done = i != j }
        "trunc_line" => { let k = pos(&lines[i], b); lines[i].truncate(k) }
        "cut_tail" => { let k = (a % (text.len() as u64 + 1)) as usize; text.truncate(k); return true }
        "cut_head" => { let k = (a % (text.len() as u64 + 1)) as usize; text.drain(..k); return true }
        "flip_bit" => { let k = pos(&lines[i], b); match lines[i].get_mut(k) { Some(x) => *x ^= 1 << (c % 8), None => done = false } }
        "set_byte" => { let k = pos(&lines[i], b); match lines[i].get_mut(k) { Some(x) => *x = (c % 256) as u8, None => done = false } }
        "ins_byte" => { let k = pos(&lines[i], b); lines[i].insert(k, 32 + (c % 95) as u8) }
        "del_byte" => { let k = pos(&lines[i], b); if k < lines[i].len() { lines[i].remove(k); } else { done = false } }
        "wide_char" => {
            let k = pos(&lines[i], b);
            let w = WIDE[(c % WIDE.len() as u64) as usize].as_bytes();
            let e = (k + (c / 16 % 4) as usize).min(lines[i].len());
            lines[i].splice(k..e, w.iter().copied());
        }
        "join_lines" => { if i + 1 < n { let x = lines.remove(i + 1); lines[i].extend(x) } else { done = false } }
        "split_line" => { let k = pos(&lines[i], b); let x = lines[i].split_off(k); lines.insert(i + 1, x) }
        "foreign_line" => lines.insert(i, FOREIGN[(b % FOREIGN.len() as u64) as usize].as_bytes().to_vec()),
        "nul_byte" => { let k = pos(&lines[i], b); lines[i].insert(k, 0) }
        "bom" => { let x = [b"\xef\xbb\xbf".to_vec(), lines[i].clone()].concat(); lines[i] = x }
        "zero_block" | "stale_block" | "dup_block" => {
            if text.is_empty() { return false }
            let s = [16, 64, 512][(c % 3) as usize];
            let at = (a % text.len() as u64) as usize / s * s;
            let e = (at + s).min(text.len());
            match kind {
                "zero_block" => text[at..e].fill(0),
                "stale_block" => {
                    let src = (b % text.len() as u64) as usize / s * s;
                    for k in 0..e - at { if src + k < text.len() { text[at + k] = text[src + k] } }
                }
                _ => { let x = text[at..e].to_vec(); text.splice(at..at, x); }
            }
            return true;
        }
        "digit" => {
            let l = &mut lines[i];
            let d: Vec<usize> = (0..l.len()).filter(|&k| l[k].is_ascii_digit()).collect();
            if d.is_empty() { done = false } else { let k = d[(b % d.len() as u64) as usize]; l[k] = b'0' + (c % 10) as u8 }
        }
        "swap_fields" => {
            let l = &mut lines[i];
            if l.len() >= 63 { let (x, y) = (20 + (b % 20) as usize, 40 + (c % 20) as usize); l.swap(x, y) } else { done = false }
        }
        "tab_for_space" => {
            let l = &mut lines[i];
            let d: Vec<usize> = (0..l.len()).filter(|&k| l[k] == b' ').collect();
            if d.is_empty() { done = false } else { let k = d[(b % d.len() as u64) as usize]; l[k] = b'\t' }
        }
        "indent_line" => { lines[i].insert(0, if b % 2 == 0 { b' ' } else { b'\t' }) }
        "cr_only" => { if i + 1 < n { let x = lines.remove(i + 1); lines[i].push(b'\r'); lines[i].extend(x) } else { done = false } }
        "stretch" => {
            // mostly some dozen repetitions; sometimes (c large) a run of many kilobytes
            let k = pos(&lines[i], b);
            let w = TOKENS[(c % TOKENS.len() as u64) as usize].as_bytes();
            let n = if c < 4096 { 1 + (b / 128 % 60) as usize } else { (c as usize / 4).min(200_000) / w.len() };
            lines[i].splice(k..k, w.iter().copied().cycle().take(n * w.len()));
        }
        "storm" => {
            // very many lines that belong to no set
            let n = (c % 4096) as usize;
            for j in 0..n {
                let x = match b % 5 {
                    0 => FOREIGN[(a as usize / 7) % FOREIGN.len()].as_bytes().to_vec(),
                    1 => FOREIGN[j % FOREIGN.len()].as_bytes().to_vec(),
                    2 => format!("LINE {}", j).into_bytes(),
                    3 => format!("1 {:05}", j).into_bytes(),
                    _ => format!("2 {:05} ", j % 7).into_bytes(),
                };
                lines.insert(i, x);
            }
        }
        "flood" => {
            // a set sent over and over
            let mut at: Vec<usize> = (0..n.saturating_sub(1)).filter(|&k| lines[k].starts_with(b"1 ") && lines[k + 1].starts_with(b"2 ")).collect();
            if at.is_empty() { return false }
            let k = at.swap_remove((a % at.len() as u64) as usize);
            let g = lines[k..k + 2].to_vec();
            let m = (c % 1024) as usize;
            lines.splice(k..k, g.iter().cloned().cycle().take(2 * m));
        }
        "renumber" => { match lines[i].get_mut(0) { Some(x) => *x = b"12 03"[(b % 5) as usize], None => done = false } }
        "crlf_all" => lines.iter_mut().take(n - 1).for_each(|l| l.push(b'\r')),
        "crlf_line" => lines[i].push(b'\r'),
        "pad_line" => { let k = (b % 40) as usize; lines[i].extend(std::iter::repeat(if c % 4 == 0 { b'\t' } else { b' ' }).take(k)) }
        "blank_line" => lines.insert(i, BLANKS[(b % BLANKS.len() as u64) as usize].as_bytes().to_vec()),
        "swap_sets" | "dup_set" | "drop_set" => {
            // group lines into sets: up to and including each line 2
            let mut groups: Vec<Vec<Vec<u8>>> = vec![vec![]];
            for l in &lines {
                groups.last_mut().unwrap().push(l.clone());
                if l.starts_with(b"2 ") { groups.push(vec![]) }
            }
            let m = groups.len() - 1;
            if m == 0 { return false }
            let (x, y) = ((a % m as u64) as usize, (b % m as u64) as usize);
            match kind {
                "swap_sets" => { groups.swap(x, y); done = x != y }
                "dup_set" => { let g = groups[x].clone(); groups.insert(y, g) }
                _ => { groups.remove(x); }
            }
            lines = groups.into_iter().flatten().collect();
        }
        _ => return false,
    }
    *text = lines.join(&b'\n');
    done
}

pub struct Arrived {
    sets: Vec<Set>,
    pub text: String,
    times: usize,
}

impl Arrived {
    /// A line that is nothing but a line number: whether blanks after it make it the line of an
    /// element set or a title is open, so they are taken off. (The survival check keeps them.)
    pub fn settled(mut self) -> Arrived {
        let bare = |l: &str| l.len() > 1 && (l.trim_end() == "1" || l.trim_end() == "2");
        if self.text.split('\n').any(bare) {
            self.text = self.text.split('\n').map(|l| if bare(l) { l.trim_end() } else { l }).collect::<Vec<_>>().join("\n");
        }
        self
    }
}

pub fn transmit(lines: &[String], st: &mut Stats) -> Arrived {
    let sets = sets_of(lines);
    let mut out: Vec<u8> = vec![];
    for s in &sets {
        if let Some(n) = &s.name {
            out.extend(n.as_bytes());
            out.push(b'\n');
        }
        out.extend(s.l1.as_bytes());
        out.push(b'\n');
        out.extend(s.l2.as_bytes());
        out.push(b'\n');
    }
    let mut times = 1;
    for l in lines {
        let c = cells(l);
        if c[0] == "f" && c.len() == 5 {
            let g = |s: &str| s.parse::<u64>().unwrap_or(0);
            if apply(&mut out, c[1], g(c[2]), g(c[3]), g(c[4])) {
                st.fault(c[1]);
            }
        }
        if c[0] == "grow" && c.len() == 2 {
            times = c[1].parse::<usize>().unwrap_or(1).clamp(1, 4096);
        }
    }
    Arrived { sets, text: String::from_utf8_lossy(&out).into_owned(), times }
}

pub fn gen_faults(r: &mut Rng, v: &mut Plan, kinds: &[&str], n: i64) {
    // swarm: a few fault kinds per run
    let k = r.range(1, 6.min(kinds.len() as i64));
    let use_: Vec<&str> = (0..k).map(|_| *r.pick(kinds)).collect();
    for _ in 0..n {
        let kind = *r.pick(&use_);
        v.push(format!("f\t{}\t{}\t{}\t{}", kind, r.below(1 << 20), r.below(1 << 20), r.below(1 << 12)));
    }
}

fn gen_sets(r: &mut Rng, v: &mut Plan, n: i64) {
    let style = r.below(4); // all named, none named, mixed, mixed
    let mut prev: Option<Pub> = None;
    for _ in 0..n {
        let mut p = gen_any(r);
        if let Some(q) = &prev {
            // re-issued or related sets, which a careless reader could take for one another
            match r.below(8) {
                0 => p = q.clone(),
                1 => p.satnum = q.satnum.clone(),
                2 => { p = q.clone(); p.ma4 = r.range(0, 3_599_999); p.elset = r.range(0, 9999) }
                _ => {}
            }
        }
        restyle(&mut p, r);
        let (a, b) = p.lines();
        let named = match style { 0 => true, 1 => false, _ => r.chance(1, 2) };
        v.push(format!("set\t{}\t{}\t{}", if named { gen_name(r) } else { "-".into() }, a, b));
        prev = Some(p);
    }
}

// ---------------------------------------------------------------- reading
#[derive(Clone, Debug)]
struct FeedRead {
    panic: bool,
    recs: Vec<Content>,
    errs: Vec<(usize, String)>,
    work: u64,
}

fn read_feed(text: &str, probe: bool, limit: u64) -> Vec<u8> {
    let mut w = W::default();
    rt::work_start(limit);
    let r = guard(|| satellite::io::parse_multiple(text));
    let work = rt::work_end();
    w.u(work);
    match r {
        Err(_) => w.u(1),
        Ok((recs, errs)) => {
            w.u(0);
            w.u(recs.len() as u64);
            for x in &recs {
                Content::of(x, probe).put(&mut w);
            }
            w.u(errs.len() as u64);
            for e in &errs {
                let k = match e {
                    satellite::io::SatrecParseError::SatrecMultiError(k, _) => *k as u64,
                    _ => u64::MAX,
                };
                w.u(k);
                w.b(format!("{:?}", e).as_bytes());
            }
        }
    }
    w.0
}
fn get_feed(b: &[u8]) -> FeedRead {
    let mut r = R(b);
    let work = r.u();
    if r.u() == 1 {
        return FeedRead { panic: true, recs: vec![], errs: vec![], work };
    }
    let n = r.u();
    let recs = (0..n).map(|_| Content::get(&mut r)).collect();
    let n = r.u();
    let errs = (0..n).map(|_| (r.u() as usize, r.s())).collect();
    FeedRead { panic: false, recs, errs, work }
}

/// A line pair read by itself in a pristine process.
fn alone(a: &str, b: &str) -> Result<Result<Content, String>, (String, String)> {
    let e = rt::isolate(|| {
        let mut w = W::default();
        match read_pair(a, b) {
            Ok(s) => {
                w.u(0);
                Content::of(&s, true).put(&mut w)
            }
            Err(e) => {
                w.u(1);
                w.b(e.as_bytes())
            }
        }
        w.0
    });
    match &e {
        rt::End::Done(v) => {
            let mut r = R(v);
            Ok(if r.u() == 0 { Ok(Content::get(&mut r)) } else { Err(r.s()) })
        }
        e => Err(abnormal(e)),
    }
}

/// The lines a reader sees.
pub fn nonblank(text: &str) -> Vec<&str> {
    text.split('\n').filter(|l| !l.trim().is_empty()).collect()
}
pub fn is_element(l: &str) -> bool {
    l.starts_with("1 ") || l.starts_with("2 ")
}

struct Pair {
    at: usize,
    intact: bool,
    alone: Result<Content, String>,
    /// names the title line may give it; None when there is no title line
    names: Option<Vec<String>>,
}

/// Every place where a line 1 is directly followed by a line 2.
fn pairs(arr: &Arrived, lines: &[&str]) -> Result<Vec<Pair>, (String, String)> {
    let mut v = vec![];
    let mut memo: std::collections::HashMap<(String, String), Result<Content, String>> = Default::default();
    for i in 0..lines.len().saturating_sub(1) {
        if !(lines[i].starts_with("1 ") && lines[i + 1].starts_with("2 ")) {
            continue;
        }
        let key = (lines[i].to_string(), lines[i + 1].to_string());
        let al = match memo.get(&key) {
            Some(x) => x.clone(),
            None => {
                let x = alone(lines[i], lines[i + 1])?;
                memo.insert(key, x.clone());
                x
            }
        };
        let (a, b) = (lines[i].trim_end(), lines[i + 1].trim_end());
        let intact = arr.sets.iter().any(|s| s.l1 == a && s.l2 == b);
        let names = if i > 0 && !is_element(lines[i - 1]) {
            let t = lines[i - 1];
            let mut n = vec![t.strip_prefix("0 ").unwrap_or(t).trim().to_string()];
            let u = t.trim();
            n.push(u.strip_prefix("0 ").unwrap_or(u).trim().to_string());
            Some(n)
        } else {
            None
        };
        v.push(Pair { at: i, intact, alone: al, names });
    }
    Ok(v)
}

pub fn show(t: &str) -> String {
    let mut s = format!("{:?}", t);
    if s.chars().count() > 400 {
        s = s.chars().take(400).collect::<String>() + "...";
    }
    s
}

// ---------------------------------------------------------------- C01
/// Work allowed to a reader: more than ten times what the crate needs.
pub const READ_BASE: u64 = 60_000;
pub const READ_PER_BYTE: u64 = 500;

pub fn exec_c01(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let arr = transmit(lines, &mut st);
    let text = if arr.times > 1 { arr.text.repeat(arr.times) } else { arr.text.clone() };
    st.sig = hash_bytes(1, text.as_bytes());
    st.nontrivial = !st.faults.is_empty();
    if arr.times > 1 {
        st.fault("bulk_delivery");
    }
    let ls: Vec<&str> = text.split('\n').collect();
    // the pairs a line-oriented caller would hand to the pair readers
    let mut calls: Vec<(&str, String, String)> = vec![("parse_multiple", text.clone(), String::new()), ("parse", text.clone(), String::new())];
    if arr.times == 1 {
        for k in 0..ls.len().min(40) {
            let nx = ls.get(k + 1).copied().unwrap_or("");
            calls.push(("twoline2satrec", ls[k].into(), nx.into()));
            calls.push(("parse_satrec", ls[k].into(), nx.into()));
            if k % 3 == 0 {
                let e = (k + 3).min(ls.len());
                calls.push(("parse", ls[k..e].join("\n"), String::new()));
                calls.push(("parse", ls[k..(k + 2).min(ls.len())].join("\n"), String::new()));
            }
        }
        // what arrived, seen as a pair on its own
        let nb = nonblank(&text);
        if nb.len() >= 2 {
            calls.push(("twoline2satrec", nb[0].into(), nb[1].into()));
            calls.push(("twoline2satrec", nb[1].into(), nb[0].into()));
        }
    }
    let end = rt::isolate(|| {
        let mut w = W::default();
        for (i, (f, a, b)) in calls.iter().enumerate() {
            rt::set_op(i);
            rt::work_start(READ_BASE + READ_PER_BYTE * (a.len() + b.len()) as u64);
            let r = guard(|| match *f {
                "parse_multiple" => satellite::io::parse_multiple(a).0.len() as u64,
                "parse" => satellite::io::parse(a).is_ok() as u64,
                "twoline2satrec" => satellite::io::twoline2satrec(a, b).is_ok() as u64,
                _ => satellite::io::parse_satrec(a, b).is_ok() as u64,
            });
            let work = rt::work_end();
            w.u(match r { Ok(n) => n, Err(_) => u64::MAX });
            w.u(work);
        }
        w.0
    });
    let b = match &end {
        rt::End::Done(b) => b,
        rt::End::OverBudget(op, n) => {
            let (f, a, b) = &calls[*op as usize];
            return Verdict::bad(st, "work", format!("{} had not returned after {} steps of work on {} bytes of text", f, n, a.len() + b.len()));
        }
        e => {
            let (c, m) = abnormal(e);
            let op = match e { rt::End::Crashed(_, op) => *op as usize, _ => 0 };
            return Verdict::bad(st, &c, format!("{}: {} on {}", calls[op].0, m, show(&calls[op].1)));
        }
    };
    let mut r = R(b);
    for (f, a, b) in &calls {
        let n = r.u();
        let work = r.u();
        st.checks += 1;
        st.max(&format!("{}_work_over_bound", f), work as f64 / (READ_BASE + READ_PER_BYTE * (a.len() + b.len()) as u64) as f64);
        if n == u64::MAX {
            return Verdict::bad(st, &format!("panic-{}", f), format!("{} panicked on {}{}", f, show(a), if b.is_empty() { String::new() } else { format!(" / {}", show(b)) }));
        }
        st.probe_n(if n > 0 { "reader_accepted" } else { "reader_rejected" }, 1);
        st.see(n);
    }
    Verdict::ok(st)
}

pub fn gen_c01(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let style = r.below(10);
    let n = if style == 0 { 0 } else { r.range(1, 6) };
    gen_sets(r, &mut v, n);
    let all: Vec<&str> = GENTLE.iter().chain(HARSH.iter()).copied().collect();
    let k = match style { 0 => r.range(0, 8), 1..=4 => 1, 5..=7 => r.range(2, 6), _ => r.range(6, 40) };
    if style <= 5 {
        // single faults: every kind everywhere
        for _ in 0..k {
            let kind = *r.pick(&all);
            v.push(format!("f\t{}\t{}\t{}\t{}", kind, r.below(1 << 20), r.below(1 << 20), r.below(1 << 12)));
        }
    } else {
        gen_faults(r, &mut v, &all, k);
    }
    if r.chance(1, 60) {
        // a line that never seems to end
        v.push(format!("f\tstretch\t{}\t{}\t{}", r.below(1 << 20), r.below(1 << 20), r.range(4096, if deep { 800_000 } else { 400_000 })));
        return v;
    }
    if r.chance(1, 60) {
        v.push(format!("f\t{}\t{}\t{}\t{}", *r.pick(&["storm", "flood"]), r.below(1 << 20), r.below(1 << 20), r.below(1 << 12)));
    }
    if r.chance(1, 40) {
        v.push(format!("grow\t{}", r.range(50, if deep { 3000 } else { 800 })));
    }
    v
}

// ---------------------------------------------------------------- C02 and C03
fn feed_common(lines: &[String], st: &mut Stats) -> Result<(Arrived, FeedRead), Verdict> {
    let arr = transmit(lines, st).settled();
    st.sig = hash_bytes(1, arr.text.as_bytes());
    let end = rt::isolate(|| read_feed(&arr.text, true, rt::DEFAULT_BUDGET));
    let b = match &end {
        rt::End::Done(b) => b.clone(),
        e => {
            let (c, m) = abnormal(e);
            return Err(Verdict::bad(st.clone(), &c, m));
        }
    };
    let f = get_feed(&b);
    if f.panic {
        return Err(Verdict::bad(st.clone(), "panic", format!("parse_multiple panicked on {}: nothing was read", show(&arr.text))));
    }
    Ok((arr, f))
}

pub fn exec_c02(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let (arr, f) = match feed_common(lines, &mut st) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let ls = nonblank(&arr.text);
    let ps = match pairs(&arr, &ls) {
        Ok(p) => p,
        Err((c, m)) => return Verdict::bad(st, &c, m),
    };
    let intact: Vec<&Pair> = ps.iter().filter(|p| p.intact && p.alone.is_ok()).collect();
    st.probe_n("intact_sets", intact.len() as u64);
    st.probe_n("damaged_pairs", (ps.len() - intact.len()) as u64);
    st.nontrivial = !intact.is_empty() && !st.faults.is_empty();
    // feed order, each found
    let mut k = 0;
    for p in &intact {
        let want = p.alone.as_ref().unwrap();
        st.checks += 1;
        let at = (k..f.recs.len()).find(|&j| f.recs[j].same_elements(want));
        match at {
            Some(j) => k = j + 1,
            None => {
                let elsewhere = f.recs.iter().any(|x| x.same_elements(want));
                let class = if elsewhere { "order-or-count" } else { "lost" };
                return Verdict::bad(st, class, format!(
                    "the intact set at lines {}-{} ({}) {} among the {} records read from {}",
                    p.at, p.at + 1, ls[p.at], if elsewhere { "is missing in its place" } else { "is missing or altered" },
                    f.recs.len(), show(&arr.text)));
            }
        }
    }
    // exactly one record each
    for p in &intact {
        let want = p.alone.as_ref().unwrap();
        let have = f.recs.iter().filter(|x| x.same_elements(want)).count();
        // a damaged copy that still reads the same may be read or refused
        let most = ps.iter().filter(|q| matches!(&q.alone, Ok(c) if c.same_elements(want))).count();
        let least = intact.iter().filter(|q| q.alone.as_ref().unwrap().same_elements(want)).count();
        st.checks += 1;
        if have < least || have > most {
            return Verdict::bad(st, "count", format!("the set {:?} arrived intact {} times but was read {} times from {}", ls[p.at], least, have, show(&arr.text)));
        }
    }
    Verdict::ok(st)
}

pub fn exec_c03(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let (arr, f) = match feed_common(lines, &mut st) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let ls = nonblank(&arr.text);
    let ps = match pairs(&arr, &ls) {
        Ok(p) => p,
        Err((c, m)) => return Verdict::bad(st, &c, m),
    };
    st.nontrivial = !ls.is_empty() && !st.faults.is_empty();
    let mut used = vec![false; ls.len()];
    let mut k = 0;
    for (n, x) in f.recs.iter().enumerate() {
        st.checks += 1;
        // the record's pair: the next one that reads the same by itself
        let found = (k..ps.len()).find(|&j| matches!(&ps[j].alone, Ok(c) if c.same_elements(x)));
        let Some(j) = found else {
            return Verdict::bad(st, "invented", format!("record {} ({}) is not what any two adjacent lines of the feed give: {}", n, x.show(), show(&arr.text)));
        };
        let p = &ps[j];
        k = j + 1;
        if ls[p.at].get(2..7).map(|s| s.trim()) != ls[p.at + 1].get(2..7).map(|s| s.trim()) {
            return Verdict::bad(st, "mixed", format!("record {} mixes two objects: {:?} / {:?}", n, ls[p.at], ls[p.at + 1]));
        }
        used[p.at] = true;
        used[p.at + 1] = true;
        let ok = match (&x.name, &p.names) {
            (None, None) => true,
            (Some(a), Some(v)) => v.contains(a),
            _ => false,
        };
        if !ok {
            return Verdict::bad(st, "name", format!("record {} at line {} is named {:?}; the line before it is {:?}", n, p.at, x.name,
                if p.at > 0 { ls[p.at - 1] } else { "" }));
        }
        if p.names.is_some() {
            used[p.at - 1] = true;
            st.probe("named_record");
        } else {
            st.probe("unnamed_record");
        }
    }
    // errors point at lines that gave nothing
    for (i, e) in &f.errs {
        st.checks += 1;
        if *i >= ls.len() {
            return Verdict::bad(st, "error-position", format!("error {} points at line {} of {}: {}", e, i, ls.len(), show(&arr.text)));
        }
        if used[*i] {
            return Verdict::bad(st, "error-for-record", format!("error {} points at line {} which yielded a record: {}", e, i, show(&arr.text)));
        }
    }
    // every unused line is accounted for: rejected pairs one by one, the rest by run
    let mut group = vec![0usize; ls.len()]; // 0: loose
    for (g, p) in ps.iter().enumerate() {
        if !used[p.at] {
            group[p.at] = g + 1;
            group[p.at + 1] = g + 1;
            if p.names.is_some() && !used[p.at - 1] && group[p.at - 1] == 0 {
                group[p.at - 1] = g + 1;
            }
        }
    }
    let mut i = 0;
    while i < ls.len() {
        if used[i] {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < ls.len() && !used[j] && group[j] == group[i] {
            j += 1;
        }
        st.checks += 1;
        st.probe(if group[i] > 0 { "rejected_pair" } else { "loose_lines" });
        if !f.errs.iter().any(|(k, _)| *k >= i && *k < j) {
            let class = if group[i] > 0 { "silent-pair" } else { "silent-line" };
            return Verdict::bad(st, class, format!("lines {}..{} ({:?}) gave no record and no error: {}", i, j - 1, ls[i], show(&arr.text)));
        }
        i = j;
    }
    st.see(f.recs.len() as u64 * 1000 + f.errs.len() as u64);
    Verdict::ok(st)
}

pub fn gen_feed(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let n = if deep { r.range(1, 12) } else { r.range(1, 6) };
    gen_sets(r, &mut v, n);
    let all: Vec<&str> = GENTLE.iter().chain(HARSH.iter()).chain(HARSH.iter()).copied().collect();
    // mostly a handful of faults, so that most sets survive
    let k = match r.below(6) { 0 => 1, 1 | 2 => 2, 3 | 4 => r.range(2, 6), _ => r.range(4, 14) };
    gen_faults(r, &mut v, &all, k);
    if r.chance(1, 150) {
        let n = r.range(20, 4095).min(r.range(20, 4095)).min(r.range(20, 4095));
        let at = r.range(n_sets(&v) as i64, v.len() as i64) as usize;
        v.insert(at, format!("f\t{}\t{}\t{}\t{}", *r.pick(&["storm", "storm", "flood"]), r.below(1 << 20), r.below(1 << 20), n));
    }
    v
}
fn n_sets(v: &Plan) -> usize { v.iter().filter(|l| l.starts_with("set")).count() }
pub fn gen_c02(r: &mut Rng, deep: bool) -> Plan { gen_feed(r, deep) }
pub fn gen_c03(r: &mut Rng, deep: bool) -> Plan { gen_feed(r, deep) }

// ---------------------------------------------------------------- C04
fn near(a: f64, b: f64, rel: f64, abs: f64) -> bool {
    (a - b).abs() <= abs.max(rel * b.abs())
}

/// Does this record carry what was published?
fn carries(c: &Content, p: &Pub, raw_no: bool) -> Result<(), String> {
    let tau = 2.0 * std::f64::consts::PI;
    let per = 1440.0 / tau;
    // the number as published: blanks around it do not count
    let (l1, _) = p.lines();
    if c.satnum != l1[2..7].trim() {
        return Err(format!("satnum {:?} instead of {:?}", c.satnum, l1[2..7].trim()));
    }
    // earth radii, from the published mean motion
    let er = (398600.5 * (60.0 / p.n()).powi(2)).cbrt() / 6378.137;
    if c.epochyr != p.yy {
        return Err(format!("epochyr {} instead of {}", c.epochyr, p.yy));
    }
    let n = if raw_no { p.n() } else { Model::new(Grav::wgs84(), &p.elements(), false).n };
    let want: [(&str, f64, f64, f64); 14] = [
        ("epochdays", p.doy8 as f64 / 1e8, 0.0, 1e-9),
        ("ndot", p.ndot8 as f64 / 1e8 / (per * 1440.0), 1e-12, 0.0),
        ("nddot", p.nddot_f() / (per * 1440.0 * 1440.0), 1e-12, 0.0),
        ("bstar", p.bstar_f(), 1e-12, 0.0),
        ("inclination", Pub::rad(p.incl4), 1e-12, 1e-14),
        ("node", Pub::rad(p.node4), 1e-12, 1e-14),
        ("eccentricity", p.ecc(), 1e-12, 1e-14),
        ("argument of perigee", Pub::rad(p.argp4), 1e-12, 1e-14),
        ("mean anomaly", Pub::rad(p.ma4), 1e-12, 1e-14),
        ("mean motion", n, 1e-10, 0.0),
        ("epoch (Julian date)", p.jd(), 0.0, 2.5e-9),
        ("semi-major axis", er, 1e-9, 0.0),
        ("apogee altitude", er * (1.0 + p.ecc()) - 1.0, 1e-9, 1e-8),
        ("perigee altitude", er * (1.0 - p.ecc()) - 1.0, 1e-9, 1e-8),
    ];
    for (i, (f, w, rel, abs)) in want.iter().enumerate() {
        if !near(c.num[i], *w, *rel, *abs) {
            return Err(format!("{} {:?} instead of {:?}", f, c.num[i], w));
        }
    }
    Ok(())
}

pub fn exec_c04(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let (arr, f) = match feed_common(lines, &mut st) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let ls = nonblank(&arr.text);
    let mut recs = f.recs.iter();
    let mut cur = recs.next();
    for i in 0..ls.len().saturating_sub(1) {
        let (a, b) = (ls[i].trim_end(), ls[i + 1].trim_end());
        let Some(set) = arr.sets.iter().find(|s| s.l1 == a && s.l2 == b) else { continue };
        let Some(p) = Pub::decode(&set.l1, &set.l2) else { continue };
        // would the theory refuse the orbit at its epoch?
        let m = Model::new(Grav::wgs84(), &p.elements(), false).at(0.0);
        if m.margin < 1e-9 || m.state.is_err() {
            st.probe("orbit_refused_at_epoch");
            // skip its record if there is one
            if let Some(c) = cur {
                if carries(c, &p, false).is_ok() {
                    cur = recs.next();
                }
            }
            // its elements can be read all the same
            let (la, lb) = (ls[i], ls[i + 1]);
            let end = rt::isolate(|| {
                let mut w = W::default();
                match guard(|| satellite::io::parse_satrec(la, lb)) {
                    Ok(Ok(s)) => {
                        w.u(0);
                        Content::of(&s, false).put(&mut w)
                    }
                    Ok(Err(e)) => {
                        w.u(1);
                        w.b(format!("{:?}", e).as_bytes())
                    }
                    Err(_) => {
                        w.u(1);
                        w.b(b"PANIC")
                    }
                }
                w.0
            });
            let bytes = match &end {
                rt::End::Done(b) => b,
                e => {
                    let (c, m) = abnormal(e);
                    return Verdict::bad(st, &c, m);
                }
            };
            let mut r = R(bytes);
            st.checks += 1;
            if r.u() == 1 {
                return Verdict::bad(st, "missing", format!("parse_satrec refuses the intact lines {:?} / {:?}: {}", a, b, r.s()));
            }
            if let Err(e) = carries(&Content::get(&mut r), &p, true) {
                return Verdict::bad(st, "field", format!("{:?} / {:?} read by parse_satrec has {}", a, b, e));
            }
            continue;
        }
        st.nontrivial = true;
        st.probe(&format!("orbit_{}", p.class()));
        if p.bstar.0 < 0 || p.nddot.0 < 0 || p.ndot8 < 0 { st.probe("negative_term") }
        if p.bstar.0.abs() < 10_000 && p.bstar.0 != 0 { st.probe("leading_zero_mantissa") }
        st.checks += 1;
        let Some(c) = cur else {
            return Verdict::bad(st, "missing", format!("the intact set {:?} / {:?} gave no record (errors {:?})", a, b, f.errs));
        };
        cur = recs.next();
        if let Err(e) = carries(c, &p, false) {
            return Verdict::bad(st, "field", format!("{:?} / {:?} read from the feed has {}", a, b, e));
        }
        let title = if i > 0 && !is_element(ls[i - 1]) { Some(ls[i - 1].trim()) } else { None };
        let want = title.map(|t| t.strip_prefix("0 ").unwrap_or(t).trim().to_string());
        if c.name != want {
            return Verdict::bad(st, "name", format!("{:?} / {:?} with title {:?} is named {:?}", a, b, title, c.name));
        }
        st.sim_s += 0.0;
        // the other readers, on the lines as they arrived
        let (la, lb) = (ls[i], ls[i + 1]);
        let single = match title { Some(_) => format!("{}\n{}\n{}", ls[i - 1], la, lb), None => format!("{}\n{}", la, lb) };
        let end = rt::isolate(|| {
            let mut w = W::default();
            for k in 0..4 {
                let r = guard(|| match k {
                    0 => satellite::io::parse(&single),
                    1 => satellite::io::parse(&format!("\n\r\n{}\r\n  \n", single)),
                    2 => satellite::io::twoline2satrec(la, lb),
                    _ => satellite::io::parse_satrec(la, lb),
                });
                match r {
                    Ok(Ok(s)) => {
                        w.u(0);
                        Content::of(&s, k != 3).put(&mut w)
                    }
                    Ok(Err(e)) => {
                        w.u(1);
                        w.b(format!("{:?}", e).as_bytes())
                    }
                    Err(_) => {
                        w.u(1);
                        w.b(b"PANIC")
                    }
                }
            }
            w.0
        });
        let bytes = match &end {
            rt::End::Done(b) => b,
            e => {
                let (c, m) = abnormal(e);
                return Verdict::bad(st, &c, m);
            }
        };
        let mut r = R(bytes);
        for k in 0..4 {
            let who = ["parse", "parse (padded)", "twoline2satrec", "parse_satrec"][k];
            st.checks += 1;
            if r.u() == 1 {
                return Verdict::bad(st, "reader-disagrees", format!("{} refuses what the feed reader accepts: {:?} / {:?}: {}", who, a, b, r.s()));
            }
            let x = Content::get(&mut r);
            if let Err(e) = carries(&x, &p, k == 3) {
                return Verdict::bad(st, "field", format!("{:?} / {:?} read by {} has {}", a, b, who, e));
            }
            if k < 3 && !x.same_elements(c) {
                return Verdict::bad(st, "reader-disagrees", format!("{} and the feed reader disagree on {:?} / {:?}: {} against {}", who, a, b, x.show(), c.show()));
            }
            let nm = if k < 2 { &want } else { &None };
            if x.name != *nm {
                return Verdict::bad(st, "name", format!("{:?} / {:?} with title {:?} is named {:?} by {}", a, b, title, x.name, who));
            }
        }
    }
    if let Some(c) = cur {
        return Verdict::bad(st, "extra", format!("an extra record {} was read from {}", c.show(), show(&arr.text)));
    }
    Verdict::ok(st)
}

pub fn gen_c04(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let n = if deep { r.range(1, 10) } else { r.range(1, 5) };
    gen_sets(r, &mut v, n);
    let k = r.range(0, 5);
    gen_faults(r, &mut v, GENTLE, k);
    v
}
