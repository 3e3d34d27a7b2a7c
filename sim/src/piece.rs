//! Consumers of a feed: reading it in pieces with crashes and restarts (C18), and what a rejection says (C19).
//!
//! Plan lines, besides the feed's (see feed.rs):
//!   cut X       a piece ends after the X-th line 2 (modulo their number)
//!   bare        pieces come without their last line end
//!   order S     pieces are read in the order shuffled by S instead of feed order
//!   kill J      the consumer dies after reading the J-th piece, before noting it; a new process reads it again
//!   again J     the consumer reads the J-th piece twice
use crate::core::*;
use crate::feed::*;
use crate::rng::{hash_bytes, Rng};
use crate::rt;
use crate::sut::*;
use satellite::io::SatrecParseError as E;

/// A rejection as the caller sees it.
#[derive(Clone, Debug, PartialEq)]
struct Cause {
    kind: u64,
    lo: u64,
    hi: u64,
    text: String,
    debug: String,
}
const FLOAT: u64 = 0;
const INT: u64 = 1;
const COMPOUND: u64 = 2;
const INIT: u64 = 3;
const LINES: u64 = 4;
const COUNT: u64 = 5;
const OTHER: u64 = 9;

#[allow(unreachable_patterns)]
fn put_cause(e: &E, w: &mut W) {
    let (kind, lo, hi, text) = match e {
        E::FloatParseError(_, a, b, t) => (FLOAT, *a, *b, t.as_str()),
        E::IntParseError(_, a, b, t) => (INT, *a, *b, t.as_str()),
        E::CompoundError(_, t) => (COMPOUND, 0, 0, t.as_str()),
        E::Sgp4InitError(_) => (INIT, 0, 0, ""),
        E::InvalidTLELineCheckFailed => (LINES, 0, 0, ""),
        E::InvalidTLEBadLineCount => (COUNT, 0, 0, ""),
        _ => (OTHER, 0, 0, ""),
    };
    w.u(kind);
    w.u(lo as u64);
    w.u(hi as u64);
    // whether the blanks and the carriage return after a line belong to it is nobody's promise
    w.b(text.trim_end().as_bytes());
    let mut said = format!("{:?}", e);
    for blank in ["\\r\"", "\\t\"", " \""].iter().cycle().take(12) {
        while said.contains(blank) {
            said = said.replace(blank, "\"")
        }
    }
    w.b(said.as_bytes());
}
fn get_cause(r: &mut R) -> Cause {
    Cause { kind: r.u(), lo: r.u(), hi: r.u(), text: r.s(), debug: r.s() }
}

#[derive(Clone, Debug, PartialEq)]
struct Got {
    recs: Vec<Vec<u8>>,
    errs: Vec<(u64, Cause)>,
}
/// One reading of a text; the panic flag first.
fn take(text: &str, w: &mut W) {
    match guard(|| satellite::io::parse_multiple(text)) {
        Err(_) => w.u(1),
        Ok((recs, errs)) => {
            w.u(0);
            w.u(recs.len() as u64);
            for x in &recs {
                let mut c = W::default();
                Content::of(x, true).put(&mut c);
                w.b(&c.0);
            }
            w.u(errs.len() as u64);
            for e in &errs {
                match e {
                    E::SatrecMultiError(k, inner) => {
                        w.u(*k as u64);
                        put_cause(inner, w)
                    }
                    e => {
                        w.u(u64::MAX);
                        put_cause(e, w)
                    }
                }
            }
        }
    }
}
fn got(r: &mut R) -> Option<Got> {
    if r.u() == 1 {
        return None;
    }
    let n = r.u();
    let recs = (0..n).map(|_| r.b()).collect();
    let n = r.u();
    let errs = (0..n).map(|_| (r.u(), get_cause(r))).collect();
    Some(Got { recs, errs })
}
fn show_rec(b: &[u8]) -> String { Content::get(&mut R(b)).show() }

// ---------------------------------------------------------------- C18
pub fn exec_c18(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let arr = transmit(lines, &mut st).settled();
    st.sig = hash_bytes(18, arr.text.as_bytes());
    let raw: Vec<&str> = arr.text.split('\n').collect();
    let ends: Vec<usize> = (0..raw.len().saturating_sub(1)).filter(|&i| raw[i].starts_with("2 ")).collect();
    let (mut cuts, mut kill, mut again, mut bare, mut order) = (vec![], vec![], vec![], false, None);
    for l in lines {
        let c = cells(l);
        let x = c.get(1).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        match c[0] {
            "cut" if !ends.is_empty() => cuts.push(ends[(x % ends.len() as u64) as usize]),
            "kill" => kill.push(x as usize),
            "again" => again.push(x as usize),
            "bare" => bare = true,
            "order" => order = Some(x),
            _ => {}
        }
    }
    cuts.sort();
    cuts.dedup();
    let mut pieces: Vec<String> = vec![];
    let mut at = 0;
    for c in cuts.iter().map(|c| c + 1).chain([raw.len()]) {
        let mut t = raw[at..c].join("\n");
        // without its line end a carriage return would be text
        let keep = !bare || raw[c - 1].len() <= 69 && raw[c - 1].ends_with('\r');
        if keep && c < raw.len() {
            t.push('\n')
        }
        pieces.push(t);
        at = c;
    }
    // who reads what
    let mut seq: Vec<usize> = (0..pieces.len()).collect();
    if let Some(s) = order {
        let mut r = Rng::new(s);
        for i in (1..seq.len()).rev() {
            seq.swap(i, r.us(i + 1))
        }
        if seq.windows(2).any(|w| w[0] > w[1]) {
            st.fault("piece_out_of_order")
        }
    }
    let mut procs: Vec<Vec<usize>> = vec![vec![]];
    for (j, &p) in seq.iter().enumerate() {
        procs.last_mut().unwrap().push(p);
        if again.contains(&j) {
            st.fault("piece_read_twice");
            procs.last_mut().unwrap().push(p);
        }
        for _ in kill.iter().filter(|k| **k == j) {
            st.fault("consumer_killed");
            procs.push(vec![p]);
        }
    }
    let read = |what: &[&str]| {
        rt::isolate(|| {
            let mut w = W::default();
            for t in what {
                take(t, &mut w)
            }
            w.0
        })
    };
    let whole = match read(&[&arr.text]) {
        rt::End::Done(b) => got(&mut R(&b)),
        e => {
            let (c, m) = abnormal(&e);
            return Verdict::bad(st, &c, m);
        }
    };
    let Some(whole) = whole else { return Verdict::bad(st, "panic", format!("parse_multiple panicked on {}", show(&arr.text))) };
    let mut first: Vec<Option<Got>> = vec![None; pieces.len()];
    for ps in &procs {
        let texts: Vec<&str> = ps.iter().map(|p| pieces[*p].as_str()).collect();
        let b = match read(&texts) {
            rt::End::Done(b) => b,
            e => {
                let (c, m) = abnormal(&e);
                return Verdict::bad(st, &c, m);
            }
        };
        let mut r = R(&b);
        for &p in ps {
            let Some(g) = got(&mut r) else { return Verdict::bad(st, "panic", format!("parse_multiple panicked on {}", show(&pieces[p]))) };
            st.checks += 1;
            match &first[p] {
                Some(f) if *f != g => {
                    return Verdict::bad(st, "reread", format!("piece {} reads differently the second time: {}", p, show(&pieces[p])));
                }
                Some(_) => {}
                None => first[p] = Some(g),
            }
        }
    }
    // put together again
    let (mut recs, mut errs, mut before) = (vec![], vec![], 0u64);
    for (p, t) in pieces.iter().enumerate() {
        let g = first[p].take().unwrap();
        recs.extend(g.recs);
        errs.extend(g.errs.into_iter().map(|(k, c)| (k.wrapping_add(before), c)));
        before += nonblank(t).len() as u64;
    }
    st.probe_n("pieces", pieces.len() as u64);
    st.probe_n("records", whole.recs.len() as u64);
    st.probe_n("rejections", whole.errs.len() as u64);
    st.nontrivial = pieces.len() > 1 && !(whole.recs.is_empty() && whole.errs.is_empty());
    let at = |n: usize| format!("{} pieces of {}", n, show(&arr.text));
    st.checks += 1;
    if recs.len() != whole.recs.len() {
        return Verdict::bad(st, "count", format!("{} records in one piece, {} from {}", whole.recs.len(), recs.len(), at(pieces.len())));
    }
    for (i, (a, b)) in whole.recs.iter().zip(&recs).enumerate() {
        st.checks += 1;
        if a != b {
            return Verdict::bad(st, "record", format!("record {} read in one piece is {}, in pieces {}; {}", i, show_rec(a), show_rec(b), at(pieces.len())));
        }
    }
    st.checks += 1;
    if whole.errs != errs {
        let i = whole.errs.iter().zip(&errs).take_while(|(a, b)| a == b).count();
        return Verdict::bad(st, "errors", format!("rejection {} is {:?} in one piece, {:?} in pieces ({} and {} in all); {}", i,
            whole.errs.get(i), errs.get(i), whole.errs.len(), errs.len(), at(pieces.len())));
    }
    st.see(whole.recs.len() as u64 * 1000 + whole.errs.len() as u64);
    Verdict::ok(st)
}

pub fn gen_c18(r: &mut Rng, deep: bool) -> Plan {
    let mut v = gen_feed(r, deep);
    let n = match r.below(4) { 0 => 1, 1 => 2, _ => r.range(1, 6) };
    for _ in 0..n {
        let far = r.chance(1, 2);
        v.push(format!("cut\t{}", r.below(if far { 4096 } else { 6 })));
    }
    if r.chance(1, 2) {
        v.push("bare".into())
    }
    if r.chance(1, 3) {
        v.push(format!("order\t{}", r.below(1 << 16)))
    }
    for _ in 0..r.below(3) {
        let what = *r.pick(&["kill", "again"]);
        v.push(format!("{}\t{}", what, r.below(4)))
    }
    v
}

// ---------------------------------------------------------------- C19
/// What a pair of lines says when it is read alone: by itself, as a text, and without prediction.
struct Alone {
    ok: bool,
    pair: Option<Cause>,
    text: Option<Cause>,
    elements: bool,
}
fn rejected_alone(a: &str, b: &str) -> Result<Alone, (String, String)> {
    let e = rt::isolate(|| {
        let mut w = W::default();
        for r in [guard(|| satellite::io::twoline2satrec(a, b)), guard(|| satellite::io::parse(&format!("{}\n{}", a, b))), guard(|| satellite::io::parse_satrec(a, b))] {
            match r {
                Ok(Ok(_)) => w.u(0),
                Ok(Err(e)) => {
                    w.u(1);
                    put_cause(&e, &mut w)
                }
                Err(_) => w.u(2),
            }
        }
        w.0
    });
    match &e {
        rt::End::Done(b) => {
            let mut r = R(b);
            let mut got = || match r.u() {
                0 => Ok(None),
                1 => Ok(Some(get_cause(&mut r))),
                _ => Err(("panic".to_string(), "a reader panicked".to_string())),
            };
            let (p, t, s) = (got()?, got()?, got()?);
            Ok(Alone { ok: p.is_none(), pair: p, text: t, elements: s.is_none() })
        }
        e => Err(abnormal(e)),
    }
}

/// What is wrong with the cause a rejected pair was given; None when it is true.
fn untrue(c: &Cause, a: &str, b: &str, elements: bool) -> Option<String> {
    let finite = |t: &str| t.trim().parse::<f64>().map_or(false, |x| x.is_finite());
    let quoted = || [a, b].iter().any(|l| l.get(c.lo as usize..c.hi as usize).map(|t| t.trim_end()) == Some(&c.text));
    match c.kind {
        FLOAT | INT => {
            if !quoted() {
                return Some("neither line has that text in those columns".into());
            }
            if if c.kind == INT { c.text.trim().parse::<i64>().is_ok() } else { finite(&c.text) } {
                return Some("that text is a number".into());
            }
            None
        }
        COMPOUND => {
            if [a, b].iter().any(|l| l.trim_end() == c.text) {
                // the line does not have the columns
                return if c.text.len() >= 63 && c.text.is_ascii() { Some("that line has all its columns".into()) } else { None };
            }
            let bare = |t: &str| t.chars().filter(|x| !x.is_whitespace() && !".E".contains(*x)).collect::<String>();
            if ![a, b].iter().any(|l| bare(l).contains(&bare(&c.text))) {
                return Some("neither line has that text".into());
            }
            if finite(&c.text) { Some("that text is a number".into()) } else { None }
        }
        LINES => {
            let n = |l: &str| l.get(2..7).map(|s| s.trim().to_string());
            if n(a).is_some() && n(a) == n(b) { Some("both lines are of one object".into()) } else { None }
        }
        INIT => if elements { None } else { Some("the elements cannot be read".into()) },
        COUNT => Some("both lines are there".into()),
        _ => None,
    }
}

pub fn exec_c19(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let arr = transmit(lines, &mut st).settled();
    st.sig = hash_bytes(19, arr.text.as_bytes());
    let ls = nonblank(&arr.text);
    let end = rt::isolate(|| {
        let mut w = W::default();
        take(&arr.text, &mut w);
        match guard(|| satellite::io::parse(&arr.text)) {
            Ok(Ok(_)) => w.u(0),
            Ok(Err(_)) => w.u(1),
            Err(_) => w.u(2),
        }
        w.0
    });
    let b = match &end {
        rt::End::Done(b) => b,
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    let mut r = R(b);
    let Some(f) = got(&mut r) else { return Verdict::bad(st, "panic", format!("parse_multiple panicked on {}", show(&arr.text))) };
    let single = r.u();
    st.checks += 1;
    if single == 2 || (single == 0 && ls.len() != 2 && ls.len() != 3) {
        return Verdict::bad(st, "single", format!("parse {} {} lines: {}", if single == 2 { "panicked on" } else { "read one set from" }, ls.len(), show(&arr.text)));
    }
    let starts = |i: usize| i + 1 < ls.len() && ls[i].starts_with("1 ") && ls[i + 1].starts_with("2 ");
    let mut told = vec![0u32; ls.len()];
    let mut memo: std::collections::HashMap<(String, String), std::rc::Rc<Alone>> = Default::default();
    for (k, c) in &f.errs {
        let i = *k as usize;
        let say = |class: &str, why: String, st: Stats| Verdict::bad(st, class, format!("rejection {} at line {}: {}; read from {}", c.debug, k, why, show(&arr.text)));
        st.checks += 1;
        if i >= ls.len() {
            return say("position", format!("there are {} lines", ls.len()), st);
        }
        let p = if starts(i) { Some(i) } else if !is_element(ls[i]) && starts(i + 1) { Some(i + 1) } else { None };
        let Some(p) = p else {
            if c.kind != COUNT {
                return say("loose", "that line begins no element set".into(), st);
            }
            if i > 0 && starts(i - 1) {
                return say("loose", "that line is the second of a set".into(), st);
            }
            st.probe("loose_line");
            continue;
        };
        if p == i && i > 0 && !is_element(ls[i - 1]) {
            return say("position", "the title line before it begins that set".into(), st);
        }
        told[p] += 1;
        if told[p] > 1 {
            return say("twice", "that set was rejected before".into(), st);
        }
        let (a, b) = (ls[p], ls[p + 1]);
        let key = (a.to_string(), b.to_string());
        let al = match memo.get(&key) {
            Some(x) => x.clone(),
            None => {
                let mut x = match rejected_alone(a, b) {
                    Ok(x) => x,
                    Err((c, m)) => return Verdict::bad(st, &c, m),
                };
                let one = |l: &str| l.strip_suffix('\r').unwrap_or(l).to_string();
                let all = |l: &str| l.trim_end().to_string();
                for (a2, b2) in [(one(a), one(b)), (all(a), all(b))] {
                    if x.pair.as_ref() == Some(c) {
                        break;
                    }
                    if (&a2[..], &b2[..]) != (a, b) {
                        x = match rejected_alone(&a2, &b2) {
                            Ok(x) => x,
                            Err((c, m)) => return Verdict::bad(st, &c, m),
                        };
                    }
                }
                let x = std::rc::Rc::new(x);
                memo.insert(key, x.clone());
                x
            }
        };
        st.nontrivial = true;
        st.probe(match c.kind { FLOAT => "not_a_number", INT => "not_an_integer", COMPOUND => "unreadable_columns", INIT => "not_predictable", LINES => "two_objects", _ => "other" });
        if al.ok {
            return say("alone", "the same two lines read alone are accepted".into(), st);
        }
        for (who, x) in [("twoline2satrec", &al.pair), ("parse", &al.text)] {
            st.checks += 1;
            if x.as_ref() != Some(c) {
                return say("alone", format!("{} alone says {:?}", who, x), st);
            }
        }
        if let Some(why) = untrue(c, a, b, al.elements) {
            return say("untrue", format!("{}: {:?} / {:?}", why, a, b), st);
        }
        st.see(c.kind);
    }
    // every set either gave a record or was rejected
    let sets = (0..ls.len()).filter(|i| starts(*i)).count();
    let rejected = told.iter().sum::<u32>() as usize;
    st.checks += 1;
    if f.recs.len() + rejected < sets {
        return Verdict::bad(st, "untold", format!("{} sets, {} records, but only {} sets rejected; read from {}", sets, f.recs.len(), rejected, show(&arr.text)));
    }
    Verdict::ok(st)
}

pub fn gen_c19(r: &mut Rng, deep: bool) -> Plan {
    let mut v = gen_feed(r, deep);
    // damage inside lines more often than to the order of lines
    gen_faults(r, &mut v, &["set_byte", "digit", "digit", "trunc_line", "wide_char", "flip_bit", "zero_block", "swap_fields"], 3);
    v
}
