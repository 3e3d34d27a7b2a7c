//! Histories of calls on mutable records: C05, C07, C08, C12, C13, C20.
//!
//! Plan lines (tab separated):
//!   rec  L1 L2          a record read from a line pair
//!   reca L1 L2          the same, put into AFSPC operation mode
//!   zero                an uninitialised record
//!   init R A|I|U L1 L2  initialise record R with the elements published in L1/L2
//!   p    R T            predict, T minutes from epoch
//!   d    R SECS.NANOS   predict for a calendar instant
//!   c    R              copy record R (the copy is the next record)
//!   into R K            overwrite record R with a copy of record K
//!   x    R              drop record R (later calls on it are skipped)
//!   s    R T0 T1        predict at T0 and T1 and, where the outcomes differ in kind, close in on
//!                       the time at which the outcome changes
//!   rep  R T0 DT N      N predictions, as fast as a display loop makes them; with T0 "fail" they begin
//!                       at a time at which the record was last seen to fail
use crate::cal::Reading;
use crate::core::*;
use crate::refsgp4::{Grav, Model, Pred};
use crate::rng::Rng;
use crate::rt;
use crate::sut::*;
use crate::tle::*;
use satellite::io::Satrec;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Rec(String, String, bool),
    Zero,
    Init(usize, Mode, Pub),
    P(usize, f64),
    D(usize, Reading),
    C(usize),
    Into(usize, usize),
    X(usize),
    S(usize, f64, f64),
    Rep(usize, f64, f64, usize),
}

fn parse(lines: &[String]) -> Vec<Op> {
    let mut v = vec![];
    let mut n = 0usize;
    for l in lines {
        let c = cells(l);
        let idx = |s: Option<&&str>| -> Option<usize> {
            let k: usize = s?.parse().ok()?;
            if n == 0 { None } else { Some(k % n) }
        };
        let op = match c[0] {
            "rec" | "reca" if c.len() == 3 => Some(Op::Rec(c[1].into(), c[2].into(), c[0] == "reca")),
            "zero" => Some(Op::Zero),
            "init" if c.len() == 5 => (|| Some(Op::Init(idx(c.get(1))?, match c[2] { "A" => Mode::A, "U" => Mode::U, _ => Mode::I }, Pub::decode(c[3], c[4])?)))(),
            "p" if c.len() == 3 => (|| Some(Op::P(idx(c.get(1))?, c[2].parse().ok()?)))(),
            "d" if c.len() == 3 => (|| Some(Op::D(idx(c.get(1))?, Reading::parse(c[2])?)))(),
            "c" if c.len() == 2 => idx(c.get(1)).map(Op::C),
            "into" if c.len() == 3 => (|| Some(Op::Into(idx(c.get(1))?, idx(c.get(2))?)))(),
            "x" if c.len() == 2 => idx(c.get(1)).map(Op::X),
            "s" if c.len() == 4 => (|| Some(Op::S(idx(c.get(1))?, c[2].parse().ok()?, c[3].parse().ok()?)))(),
            "rep" if c.len() == 5 => {
                (|| Some(Op::Rep(idx(c.get(1))?, if c[2] == "fail" { f64::NAN } else { c[2].parse().ok()? }, c[3].parse().ok()?, c[4].parse().ok()?)))()
            }
            _ => None,
        };
        if let Some(o) = op {
            if matches!(o, Op::Rec(..) | Op::Zero | Op::C(_)) {
                n += 1;
            }
            v.push(o);
        }
    }
    v
}

/// What one call gave.
#[derive(Clone, Debug)]
struct Seen {
    op: usize,
    /// the time asked for, where the plan does not say it
    t: f64,
    out: Option<Out>,
    status: u64,
    work: u64,
    deep: bool,
    resonant: bool,
    live: i64,
}

fn build(a: &str, b: &str, afspc: bool) -> Option<Satrec> {
    let mut s = read_pair(a, b).ok()?;
    if a.bytes().map(|c| c as u32).sum::<u32>() % 3 > 0 {
        // what the title line of a three-line set adds
        s.name = Some(format!("OBJECT {}", s.satnum));
    }
    if afspc {
        let p = Pub::decode(a, b)?;
        init(&mut s, true, &p);
    }
    Some(s)
}

/// Steps by which a change of outcome is closed in on.
const SEEK: usize = 36;

fn note(w: &mut W, i: usize, t: f64, out: &Option<Out>, status: u64, work: u64, s: Option<&Satrec>) {
    // what the library and the records hold, apart from this report
    let live = rt::live_bytes() - w.0.capacity() as i64;
    w.u(i as u64);
    w.f(t);
    w.u(out.is_some() as u64);
    if let Some(o) = out {
        o.put(w);
    }
    w.u(status);
    w.u(work);
    w.u(s.map(deep).unwrap_or(false) as u64);
    w.u(s.map(resonant).unwrap_or(false) as u64);
    w.u(live as u64);
}

fn rarity(code: u8) -> u8 {
    match code { 1 => 0, 6 => 1, 4 => 2, _ => 3 }
}

/// The child's side: run the whole history on the real crate.
fn run(ops: &[Op], limit: &dyn Fn(&Satrec, f64) -> u64) -> Vec<u8> {
    run_watched(ops, limit, &mut |_, _, _| ())
}
/// The same, with a look at all records after every operation.
fn run_watched(ops: &[Op], limit: &dyn Fn(&Satrec, f64) -> u64, watch: &mut dyn FnMut(usize, &Op, &[Option<Satrec>])) -> Vec<u8> {
    let mut w = W::default();
    w.0.reserve(1 << 16);
    let mut recs: Vec<Option<Satrec>> = vec![];
    let mut live0 = None;
    // the last time at which each record failed, unusual failures preferred
    let mut failed: HashMap<usize, (u8, f64)> = HashMap::new();
    failed.reserve(64);
    for (i, op) in ops.iter().enumerate() {
        rt::set_op(i);
        let mut out = None;
        let mut work = 0;
        let mut at = None;
        match op {
            Op::Rec(a, b, m) => {
                rt::work_start(rt::DEFAULT_BUDGET);
                recs.push(build(a, b, *m));
                work = rt::work_end();
            }
            Op::Zero => recs.push(Some(Satrec::zero())),
            Op::Init(r, m, p) => {
                at = Some(*r);
                if let Some(s) = &mut recs[*r] {
                    rt::work_start(rt::DEFAULT_BUDGET);
                    out = Some(init(s, *m, p));
                    work = rt::work_end();
                }
            }
            Op::P(r, t) => {
                at = Some(*r);
                if let Some(s) = &mut recs[*r] {
                    rt::work_start(limit(s, *t));
                    let o = predict(s, *t);
                    work = rt::work_end();
                    if let Out::Err(c) = o {
                        let f = failed.entry(*r).or_insert((c, *t));
                        if rarity(c) >= rarity(f.0) { *f = (c, *t) }
                    }
                    out = Some(o);
                }
            }
            Op::D(r, t) => {
                at = Some(*r);
                if let Some(s) = &recs[*r] {
                    let m = (t.ns() as f64 / 60e9) - (s.jdsatepoch - crate::cal::JD_UNIX) * 1440.0;
                    // a resonant record with a damaged epoch may lie millions of years away: its
                    // work grows with that distance by design, so such a call is left out
                    if !resonant(s) || m.abs() < 1.5e9 {
                        rt::work_start(limit(s, m));
                        out = Some(predict_at(s, *t));
                        work = rt::work_end();
                    }
                }
            }
            Op::C(r) => {
                let c = recs[*r].clone();
                recs.push(c);
            }
            Op::Into(r, k) => {
                let c = recs[*k].clone();
                recs[*r] = c;
            }
            Op::X(r) => recs[*r] = None,
            Op::S(r, t0, t1) => {
                if let Some(s) = &mut recs[*r] {
                    let (mut t0, mut t1) = (*t0, *t1);
                    let mut ask = |t: f64| {
                        rt::work_start(limit(s, t));
                        let o = predict(s, t);
                        note(&mut w, i, t, &Some(o.clone()), s.error as u64, rt::work_end(), Some(&*s));
                        match o {
                            Out::Ok(_) => 0,
                            Out::Err(c) => {
                                let f = failed.entry(*r).or_insert((c, t));
                                if rarity(c) >= rarity(f.0) { *f = (c, t) }
                                c as i64
                            }
                            _ => -1,
                        }
                    };
                    let (k0, k1) = (ask(t0), ask(t1));
                    if k0 != k1 {
                        for _ in 0..SEEK {
                            let m = t0 + (t1 - t0) * 0.5;
                            if ask(m) == k0 { t0 = m } else { t1 = m }
                        }
                    }
                }
                watch(i, op, &recs);
                continue;
            }
            Op::Rep(r, t0, dt, n) => {
                at = Some(*r);
                let start = if t0.is_nan() { failed.get(r).map(|f| f.1) } else { Some(*t0) };
                if let (Some(s), Some(t0)) = (&mut recs[*r], start) {
                    let mut most = 0;
                    for k in 0..*n {
                        let t = t0 + dt * k as f64;
                        rt::work_start(limit(s, t));
                        let min = (s.jdsatepoch - crate::cal::JD_UNIX) * 1440.0 + t;
                        if k % 4 == 3 && min.abs() < 1e11 {
                            let ns = (min * 60e9) as i128;
                            out = Some(predict_at(s, Reading::from_ns(ns)));
                        } else {
                            out = Some(predict(s, t));
                        }
                        most = most.max(rt::work_end());
                    }
                    work = most;
                }
            }
        }
        let s = at.and_then(|r| recs[r].as_ref());
        if live0.is_none() {
            live0 = Some(rt::live_bytes());
        }
        let status = match (op, s) {
            (Op::Rec(..), _) => recs.last().and_then(|r| r.as_ref()).map_or(0, |r| {
                1 + Content::of(r, false).num.iter().filter(|x| !x.is_finite()).count() as u64
            }),
            (_, s) => s.map(|s| s.error as u64).unwrap_or(0),
        };
        note(&mut w, i, 0.0, &out, status, work, s);
        watch(i, op, &recs);
    }
    w.0
}

fn decode(b: &[u8]) -> Vec<Seen> {
    let mut r = R(b);
    let mut v = vec![];
    while !r.end() {
        let op = r.u() as usize;
        let t = r.f();
        let out = if r.u() == 1 { Some(Out::get(&mut r)) } else { None };
        v.push(Seen { op, t, out, status: r.u(), work: r.u(), deep: r.u() == 1, resonant: r.u() == 1, live: r.u() as i64 });
    }
    v
}

/// How a record came to be: enough to make a pristine twin of it.
#[derive(Clone, Debug, PartialEq)]
enum Origin {
    None,
    Read(String, String, bool),
    Init(Mode, Pub),
}

struct Solo {
    memo: HashMap<String, Option<Out>>,
}
impl Solo {
    /// The answer of a record made for this one question, in a process that never did anything else.
    fn ask(&mut self, o: &Origin, q: &Op) -> Result<Option<Out>, (String, String)> {
        let key = format!("{:?}|{:?}", o, q);
        if let Some(x) = self.memo.get(&key) {
            return Ok(x.clone());
        }
        let end = rt::isolate(|| {
            let mut w = W::default();
            let (s, i) = match o {
                Origin::None => (None, None),
                Origin::Read(a, b, m) => (build(a, b, *m), None),
                Origin::Init(m, p) => {
                    let mut s = Satrec::zero();
                    let i = init(&mut s, *m, p);
                    (Some(s), Some(i))
                }
            };
            let r = match (s, q) {
                (None, _) => None,
                (Some(_), Op::Init(..)) => i,
                (Some(mut s), Op::P(_, t)) => Some(predict(&mut s, *t)),
                (Some(s), Op::D(_, t)) => Some(predict_at(&s, *t)),
                _ => None,
            };
            w.u(r.is_some() as u64);
            if let Some(r) = r {
                r.put(&mut w);
            }
            w.0
        });
        let b = match &end {
            rt::End::Done(b) => b,
            e => return Err(abnormal(e)),
        };
        let mut r = R(b);
        let x = if r.u() == 1 { Some(Out::get(&mut r)) } else { None };
        self.memo.insert(key, x.clone());
        Ok(x)
    }
}

fn origins(ops: &[Op]) -> Vec<(Option<usize>, Origin)> {
    // for each op: the record it acts on, and that record's origin after the op
    let mut o: Vec<Origin> = vec![];
    let mut v = vec![];
    for op in ops {
        match op {
            Op::Rec(a, b, m) => {
                o.push(Origin::Read(a.clone(), b.clone(), *m));
                v.push((Some(o.len() - 1), o[o.len() - 1].clone()));
            }
            Op::Zero => {
                o.push(Origin::None);
                v.push((Some(o.len() - 1), Origin::None));
            }
            Op::Init(r, m, p) => {
                o[*r] = Origin::Init(*m, p.clone());
                v.push((Some(*r), o[*r].clone()));
            }
            Op::P(r, _) | Op::D(r, _) | Op::X(r) | Op::S(r, ..) | Op::Rep(r, ..) => v.push((Some(*r), o[*r].clone())),
            Op::Into(r, k) => {
                o[*r] = o[*k].clone();
                v.push((Some(*r), o[*r].clone()));
            }
            Op::C(r) => {
                let x = o[*r].clone();
                o.push(x.clone());
                v.push((Some(o.len() - 1), x));
            }
        }
    }
    v
}

/// Common bookkeeping: jumps and failures seen, classes of orbit, simulated time.
fn observe(st: &mut Stats, ops: &[Op], seen: &[Seen], og: &[(Option<usize>, Origin)]) {
    let mut last: HashMap<usize, (f64, bool)> = HashMap::new();
    for s in seen {
        let r = og[s.op].0.unwrap_or(0);
        let t = match &ops[s.op] {
            Op::P(_, t) => Some(*t),
            Op::S(..) => {
                st.probe("closing_in_on_a_change_of_outcome");
                Some(s.t)
            }
            Op::D(_, t) => match &og[s.op].1 {
                Origin::Read(a, b, _) => Pub::decode(a, b).map(|p| (t.ns() - p.epoch_ns()) as f64 / 60e9),
                Origin::Init(_, p) => Some((t.ns() - p.epoch_ns()) as f64 / 60e9),
                _ => Some(t.ns() as f64 / 60e9),
            },
            Op::Rep(_, t0, dt, n) => {
                st.sim_s += (dt * *n as f64).abs() * 60.0;
                if t0.is_nan() {
                    if s.out.is_some() { st.fault("sustained_failure") }
                    None
                } else {
                    Some(t0 + dt * *n as f64)
                }
            }
            _ => None,
        };
        if let Op::C(_) = &ops[s.op] {
            st.fault("copied_mid_history");
        }
        if let Op::Into(..) = &ops[s.op] {
            st.fault("overwritten_with_a_copy");
        }
        if let Op::X(_) = &ops[s.op] {
            st.fault("record_dropped");
        }
        if let (Op::Init(..), Some(_)) = (&ops[s.op], &s.out) {
            st.fault("re_initialised");
        }
        if let Op::Rec(a, b, m) = &ops[s.op] {
            if let Some(p) = Pub::decode(a, b) {
                st.probe(&format!("orbit_{}", p.class()));
            }
            if *m {
                st.probe("afspc_mode");
            }
        }
        if let Op::Init(_, _, p) = &ops[s.op] {
            st.probe(&format!("orbit_{}", p.class()));
        }
        if let (Some(t), Some(o)) = (t, &s.out) {
            let failed = !matches!(o, Out::Ok(_));
            if let Some((lt, lf)) = last.get(&r) {
                let d = t - lt;
                st.sim_s += d.abs() * 60.0;
                if d < 0.0 { st.fault("clock_backwards") }
                if d == 0.0 { st.fault("clock_stopped") }
                if d.abs() > 1440.0 { st.fault("clock_jump_over_a_day") }
                if d.abs() > 525600.0 { st.fault("clock_jump_over_a_year") }
                if lt * t < 0.0 { st.fault("clock_jump_across_epoch") }
                if *lf && !failed { st.probe("success_after_failure") }
            }
            if failed {
                st.fault("prediction_failed");
                if let Out::Err(c) = o { st.probe(&format!("error_code_{}", c)) }
            }
            if s.deep { st.probe("deep_space_prediction") } else { st.probe("near_earth_prediction") }
            if s.resonant { st.probe("resonant_prediction") }
            last.insert(r, (t, failed));
        }
        if let Some(o) = &s.out {
            st.sig = o.hash(st.sig);
        }
    }
}

fn describe(op: &Op) -> String {
    match op {
        Op::P(r, t) => format!("record {} at {:?} min", r, t),
        Op::D(r, t) => format!("record {} at {}", r, t.show()),
        Op::Init(r, m, p) => format!("initialising record {} (mode {:?}) with satellite {}", r, m, p.satnum),
        o => format!("{:?}", o),
    }
}

fn describe_at(op: &Op, t: f64) -> String {
    match op {
        Op::S(r, ..) => format!("record {} at {:?} min", r, t),
        o => describe(o),
    }
}

fn play(lines: &[String]) -> (Vec<Op>, Vec<(Option<usize>, Origin)>, rt::End) {
    let ops = parse(lines);
    let og = origins(&ops);
    let end = rt::isolate(|| run(&ops, &|_, _| rt::DEFAULT_BUDGET));
    (ops, og, end)
}

// ---------------------------------------------------------------- C05 and C13
const TP: f64 = 1e-7; // km: a tenth of a millimetre, far below any dependence on history
const TV: f64 = 1e-10;

fn exec_solo(lines: &[String], reinit: bool) -> Verdict {
    let mut st = Stats::default();
    let (ops, og, end) = play(lines);
    let seen = match &end {
        rt::End::Done(b) => decode(b),
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    observe(&mut st, &ops, &seen, &og);
    let mut solo = Solo { memo: HashMap::new() };
    let mut calls: HashMap<usize, usize> = HashMap::new();
    for s in &seen {
        let (Some(r), o) = (&og[s.op].0, &og[s.op].1) else { continue };
        let Some(got) = &s.out else { continue };
        if *o == Origin::None {
            continue; // an uninitialised record promises nothing
        }
        let q = match &ops[s.op] {
            Op::P(_, t) => Op::P(0, *t),
            Op::D(_, t) => Op::D(0, *t),
            Op::Init(_, m, p) => Op::Init(0, *m, p.clone()),
            Op::S(..) => Op::P(0, s.t),
            _ => continue,
        };
        let want = match solo.ask(o, &q) {
            Ok(w) => w,
            Err((c, m)) => return Verdict::bad(st, &c, format!("{} (asked of a fresh record)", m)),
        };
        let Some(want) = want else { continue };
        st.checks += 1;
        let n = calls.entry(*r).or_insert(0);
        *n += 1;
        if *n > 1 {
            st.nontrivial = true;
        }
        if !got.close(&want, TP, TV) {
            let class = format!("{}-{}", if reinit { "reinit" } else { "history" }, kind_of(got, &want));
            return Verdict::bad(st, &class, format!("call #{} ({}): this record gives {} but a fresh one gives {}",
                s.op, describe(&ops[s.op]), got.text(), want.text()));
        }
        if reinit {
            // initialisation reports the prediction at epoch
            if let Op::Init(..) = &ops[s.op] {
                let w0 = match solo.ask(o, &Op::P(0, 0.0)) {
                    Ok(w) => w,
                    Err((c, m)) => return Verdict::bad(st, &c, m),
                };
                if let Some(w0) = w0 {
                    st.checks += 1;
                    if !got.close(&w0, TP, TV) {
                        return Verdict::bad(st, "init-report", format!("call #{} ({}): initialisation reports {} but the prediction at epoch is {}",
                            s.op, describe(&ops[s.op]), got.text(), w0.text()));
                    }
                }
            }
        }
    }
    Verdict::ok(st)
}

fn kind_of(a: &Out, b: &Out) -> &'static str {
    match (a, b) {
        (Out::Ok(_), Out::Ok(_)) => "value",
        (Out::Panic, _) | (_, Out::Panic) => "panic",
        _ => "outcome",
    }
}

pub fn exec_c05(l: &[String]) -> Verdict { exec_solo(l, false) }
pub fn exec_c13(l: &[String]) -> Verdict { exec_solo(l, true) }

/// A time stream: what a station clock with jumps would ask for.
struct Times {
    t: f64,
    style: u64,
    max: f64,
}
impl Times {
    fn new(r: &mut Rng, max: f64) -> Times {
        Times { t: gen_minutes(r, max), style: r.below(6), max }
    }
    fn next(&mut self, r: &mut Rng) -> f64 {
        let t = match r.below(10) {
            0 => gen_minutes(r, self.max),
            1 => self.t,
            2 => -self.t,
            3 => 0.0,
            _ => match self.style {
                0 => self.t + r.uni(0.0, 10.0),
                1 => self.t - r.uni(0.0, 2000.0),
                2 => self.t + *r.pick(&[720.0, -720.0, 1440.0, 360.0, 719.999, 720.001]),
                3 => self.t * r.uni(-1.5, 1.5),
                4 => self.t + r.uni(-1.0, 1.0) * *r.pick(&[1e-3, 1.0, 700.0, 1e4, 1e6]),
                _ => gen_minutes(r, self.max),
            },
        };
        let t = t.clamp(-self.max, self.max);
        self.t = t;
        t
    }
}

const Y20: f64 = 20.0 * 365.25 * 1440.0;

/// High and all but circular: in some years the moon takes the eccentricity below nothing.
fn gen_negative(r: &mut Rng) -> Pub {
    let k = *r.pick(&[12, 12, 12, 6, 11]);
    let mut p = gen_kind(r, k);
    p.ecc7 = r.logu(1e2, 1e4) as i64;
    if k == 12 { p.mm8 = (r.logu(0.05, 0.3) * 1e8) as i64 }
    p.bstar = (0, 0);
    p
}

/// Sets that will fail sooner or later: decaying, escaping, hitting every error kind.
fn gen_failing(r: &mut Rng) -> Pub {
    if r.chance(1, 5) { return gen_negative(r) }
    let mut p = match r.below(7) {
        0 => gen_kind(r, 3),
        1 => gen_kind(r, 13),
        2 => gen_kind(r, 9),
        3 => gen_kind(r, 11),
        _ => gen_kind(r, 0),
    };
    match r.below(4) {
        0 => p.bstar = (r.range(10_000, 99_999), r.range(0, 2)),
        1 => p.bstar = (-r.range(10_000, 99_999), r.range(-2, 1)),
        2 => p.bstar = (r.range(10_000, 99_999), -1),
        _ => {}
    }
    p
}

fn gen_set(r: &mut Rng) -> Pub {
    if r.chance(1, 4) { gen_failing(r) } else { gen_any(r) }
}

/// The same set with one or two of its elements changed.
fn variant(r: &mut Rng, p: &Pub) -> Pub {
    let o = gen_set(r);
    let mut q = p.clone();
    for _ in 0..1 + r.below(2) {
        match r.below(10) {
            0 => q.satnum = o.satnum.clone(),
            1 => { q.yy = o.yy; q.doy8 = o.doy8 }
            2 => q.bstar = o.bstar,
            3 => q.incl4 = o.incl4,
            4 => q.node4 = o.node4,
            5 => q.ecc7 = if r.chance(1, 2) { o.ecc7 } else { (p.ecc7 + r.range(-50_000, 50_000)).clamp(0, 9_999_999) },
            6 => q.argp4 = o.argp4,
            7 => q.ma4 = o.ma4,
            8 => q.mm8 = if r.chance(1, 2) { o.mm8 } else { (p.mm8 + r.range(-5_000_000, 5_000_000)).clamp(1_000_000, 1_790_000_000) },
            _ => q.doy8 = (q.doy8 + r.range(-10_000_000, 10_000_000)).clamp(100_000_000, 36_599_999_999),
        }
    }
    q
}

fn twin(r: &mut Rng, p: &Pub) -> Pub {
    if r.chance(1, 3) { return variant(r, p) }
    // same object number and epoch, or same elements with another epoch: what a cache might confuse
    let mut q = gen_set(r);
    match r.below(4) {
        0 => { q.satnum = p.satnum.clone(); q.yy = p.yy; q.doy8 = p.doy8; }
        1 => { q = p.clone(); q.doy8 = r.range(1, 360) * 100_000_000 + r.range(0, 99_999_999); q.yy = r.range(0, 99); }
        2 => { q = p.clone(); q.ma4 = r.range(0, 3_599_999); if r.chance(1, 2) { q.bstar = (r.range(10_000, 99_999), -4) } }
        _ => { q = p.clone(); q.satnum = gen_satnum(r); q.node4 = r.range(0, 3_599_999); }
    }
    q
}

fn rec_line(p: &Pub, afspc: bool) -> String {
    let (a, b) = p.lines();
    format!("{}\t{}\t{}", if afspc { "reca" } else { "rec" }, a, b)
}

fn reading_near(r: &mut Rng, p: &Pub, t: f64) -> Reading {
    let ns = p.epoch_ns() + (t * 60e9) as i128 + r.range(0, 999) as i128;
    Reading::from_ns(ns)
}

pub fn gen_c05(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let mut pubs: Vec<Pub> = vec![];
    let nrec = r.range(1, 3) as usize;
    for i in 0..nrec {
        let p = if i > 0 && r.chance(1, 2) { let q = pubs[0].clone(); twin(r, &q) } else { gen_set(r) };
        v.push(rec_line(&p, r.chance(1, 5)));
        pubs.push(p);
    }
    let mut clocks: Vec<Times> = (0..nrec).map(|_| Times::new(r, Y20)).collect();
    let n = r.range(3, if deep { 40 } else { 16 });
    let mut asked: Vec<(usize, f64)> = vec![];
    let mut before = None;
    for _ in 0..n {
        let i = r.us(pubs.len());
        match r.below(15) {
            14 => {
                // another satellite in the same place, asked the same things
                let k = r.us(pubs.len());
                v.push(format!("into\t{}\t{}", i, k));
                pubs[i] = pubs[k].clone();
                for _ in 0..r.range(0, 3) {
                    if let (true, false) = (r.chance(2, 3), asked.is_empty()) {
                        v.push(format!("p\t{}\t{:?}", i, asked[r.us(asked.len())].1));
                    } else if let Some(b) = before {
                        let b: Reading = b;
                        if (b.ns() - pubs[i].epoch_ns()).abs() < (Y20 * 60e9) as i128 {
                            v.push(format!("d\t{}\t{}", i, b.text()));
                        }
                    }
                }
            }
            0 => {
                v.push(format!("c\t{}", i));
                let (p, t) = (pubs[i].clone(), clocks[i].t);
                pubs.push(p);
                clocks.push(Times { t, style: r.below(6), max: Y20 });
            }
            1 | 2 => {
                let t = clocks[i].next(r);
                let mut at = reading_near(r, &pubs[i], t);
                if let (Some(b), true) = (before, r.chance(1, 3)) {
                    // about the instant another record was asked for
                    let b: Reading = b;
                    if (b.ns() - pubs[i].epoch_ns()).abs() < (Y20 * 60e9) as i128 {
                        at = Reading::from_ns(b.ns() + *r.pick(&[0i128, 0, 1, 1000, -1_000_000, 400_000_000]));
                    }
                }
                before = Some(at);
                v.push(format!("d\t{}\t{}", i, at.text()));
            }
            3 | 4 if !asked.is_empty() => {
                // the same question again or almost the same one, perhaps of another record
                let (_, t) = asked[r.us(asked.len())];
                let t = t + *r.pick(&[0.0, 0.0, 1e-9, -1e-6, 1e-4, -0.01, 0.4]);
                v.push(format!("p\t{}\t{:?}", i, t));
            }
            _ => {
                let t = clocks[i].next(r);
                v.push(format!("p\t{}\t{:?}", i, t));
                asked.push((i, t));
            }
        }
    }
    v
}

pub fn gen_c13(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let nrec = r.range(1, 2) as usize;
    let mut known: Vec<Pub> = vec![gen_set(r)];
    // what each record was last given
    let mut holds: Vec<Option<Pub>> = vec![];
    for _ in 0..nrec {
        if r.chance(1, 2) {
            v.push("zero".into());
            holds.push(None);
        } else {
            let p = gen_set(r);
            v.push(rec_line(&p, r.chance(1, 4)));
            known.push(p.clone());
            holds.push(Some(p));
        }
    }
    let n = r.range(2, if deep { 10 } else { 5 });
    let (mut instants, mut minutes) = (vec![], vec![]);
    for _ in 0..n {
        let i = r.us(nrec);
        let mut p = match r.below(6) {
            5 => { let q = holds[i].clone().unwrap_or_else(|| known[0].clone()); variant(r, &q) }
            4 => { let q = known[known.len() - 1].clone(); variant(r, &q) }
            0 => { let q = known[r.us(known.len())].clone(); twin(r, &q) }
            1 => known[r.us(known.len())].clone(),
            2 => {
                let k = *r.pick(&[0, 3, 6, 8, 11, 12]);
                gen_kind(r, k)
            }
            _ => gen_set(r),
        };
        if r.chance(1, 10) {
            // an orbit that fails at once
            p.mm8 = r.range(1_650_000_000, 1_900_000_000);
            p.ecc7 = r.range(0, 9_999_999);
        }
        let (a, b) = p.lines();
        v.push(format!("init\t{}\t{}\t{}\t{}", i, *r.pick(&["A", "A", "I", "I", "I", "U"]), a, b));
        holds[i] = Some(p.clone());
        known.push(p);
        let mut c = Times::new(r, Y20);
        for _ in 0..r.range(0, 4) {
            let p = holds[i].as_ref().unwrap();
            if r.chance(1, 3) {
                // by the calendar, the instants coming back
                let t = c.next(r);
                let mut at = reading_near(r, p, t);
                if !instants.is_empty() && r.chance(1, 2) {
                    let b: Reading = *r.pick(&instants);
                    if (b.ns() - p.epoch_ns()).abs() < (Y20 * 60e9) as i128 { at = b }
                }
                instants.push(at);
                v.push(format!("d\t{}\t{}", i, at.text()));
            } else if !minutes.is_empty() && r.chance(1, 4) {
                v.push(format!("p\t{}\t{:?}", i, *r.pick(&minutes)));
            } else {
                let t = c.next(r);
                minutes.push(t);
                v.push(format!("p\t{}\t{:?}", i, t));
            }
        }
    }
    for i in 0..nrec {
        v.push(format!("p\t{}\t{:?}", i, gen_minutes(r, Y20)));
    }
    v
}

// ---------------------------------------------------------------- C07
/// The theory's answer with an estimate of how far rounding alone can move it.
struct Theory {
    models: Vec<Model>,
}
fn nudge(x: f64, k: u32, salt: u64) -> f64 {
    if k == 0 { return x }
    let s = crate::rng::mix(salt.wrapping_mul(31).wrapping_add(k as u64));
    x * (1.0 + ((s % 2001) as f64 / 1000.0 - 1.0) * 6e-15)
}
impl Theory {
    fn new(p: &Pub, afspc: bool) -> Theory {
        let e = p.elements();
        Theory {
            models: (0..5)
                .map(|k| {
                    let mut f = e.clone();
                    f.bstar = nudge(f.bstar, k, 1);
                    f.ecc = nudge(f.ecc, k, 2);
                    f.argp = nudge(f.argp, k, 3);
                    f.incl = nudge(f.incl, k, 4);
                    f.ma = nudge(f.ma, k, 5);
                    f.n = nudge(f.n, k, 6);
                    f.node = nudge(f.node, k, 7);
                    Model::new(Grav::wgs84(), &f, afspc)
                })
                .collect(),
        }
    }
    /// The prediction, and its spread under rounding in position and velocity; None where
    /// rounding decides between a success and a failure.
    fn at(&self, t: f64) -> Option<(Pred, f64, f64)> {
        let p = self.models[0].at(t);
        let (mut sp, mut sv) = (0.0f64, 0.0f64);
        for (k, m) in self.models.iter().enumerate().skip(1) {
            let q = m.at(nudge(t, k as u32, 9));
            match (&p.state, &q.state) {
                (Ok(a), Ok(b)) => {
                    for i in 0..3 {
                        sp = sp.max((a[i] - b[i]).abs());
                        sv = sv.max((a[i + 3] - b[i + 3]).abs());
                    }
                }
                (Err(a), Err(b)) if a == b => {}
                _ => return None,
            }
        }
        if !(sp < 1.0 && sv < 1e-3) {
            if p.state.is_ok() { return None }
        }
        Some((p, sp, sv))
    }
}

pub fn exec_c07(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let (ops, og, end) = play(lines);
    let seen = match &end {
        rt::End::Done(b) => decode(b),
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    observe(&mut st, &ops, &seen, &og);
    let mut th: HashMap<String, Theory> = HashMap::new();
    for s in &seen {
        // a set the theory can predict at its epoch is not refused
        if let (Op::Rec(a, b, _), 0) = (&ops[s.op], s.status) {
            let Some(p) = Pub::decode(a, b) else { continue };
            let m = th.entry(format!("{:?}false", p)).or_insert_with(|| Theory::new(&p, false));
            if let Some((Pred { state: Ok(_), margin, .. }, ..)) = m.at(0.0) {
                if margin >= 1e-9 {
                    return Verdict::bad(st, "refused", format!("the theory predicts satellite {} ({}) at its epoch, but the set is refused: {:?} / {:?}", p.satnum, p.class(), a, b));
                }
            }
        }
        let (p, afspc) = match &og[s.op].1 {
            Origin::Read(a, b, m) => match Pub::decode(a, b) { Some(p) => (p, *m), None => continue },
            Origin::Init(m, p) => (p.clone(), *m == Mode::A),
            Origin::None => continue,
        };
        let t = match &ops[s.op] {
            Op::P(_, t) => *t,
            Op::S(..) => s.t,
            Op::Init(..) => 0.0,
            _ => continue,
        };
        let Some(got) = &s.out else { continue };
        let key = format!("{:?}{}", p, afspc);
        let m = th.entry(key).or_insert_with(|| Theory::new(&p, afspc));
        let Some((want, sp, sv)) = m.at(t) else {
            st.probe("left_out_rounding_decides");
            continue;
        };
        if want.margin < 1e-11 {
            st.probe("left_out_at_branch_point");
            continue;
        }
        st.checks += 1;
        st.nontrivial = true;
        let tp = 1e-3 + 50.0 * sp;
        let tv = 1e-6 + 50.0 * sv;
        let ok = match (got, &want.state) {
            (Out::Ok(a), Ok(b)) => {
                let dp = (0..3).map(|i| (a[i] - b[i]).abs()).fold(0.0, f64::max);
                let dv = (3..6).map(|i| (a[i] - b[i]).abs()).fold(0.0, f64::max);
                st.max("position_difference_over_tolerance", dp / tp);
                st.max("velocity_difference_over_tolerance", dv / tv);
                a.iter().all(|x| x.is_finite()) && dp <= tp && dv <= tv
            }
            (Out::Err(a), Err(b)) => a == b,
            _ => false,
        };
        if !ok {
            let w = match &want.state { Ok(v) => Out::Ok(*v), Err(c) => Out::Err(*c) };
            return Verdict::bad(st, &format!("theory-{}", kind_of(got, &w)), format!(
                "call #{} ({}; satellite {} {}): the library gives {} but the theory gives {}",
                s.op, describe_at(&ops[s.op], s.t), p.satnum, p.class(), got.text(), w.text()));
        }
    }
    Verdict::ok(st)
}

pub fn gen_c07(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let nrec = r.range(1, 4) as usize;
    for _ in 0..nrec {
        let p = if r.chance(1, 8) { gen_failing(r) } else { gen_any(r) };
        v.push(rec_line(&p, r.chance(1, 3)));
    }
    let mut clocks: Vec<Times> = (0..nrec).map(|_| Times::new(r, Y20)).collect();
    for _ in 0..r.range(4, if deep { 40 } else { 20 }) {
        let i = r.us(nrec);
        if r.chance(1, 40) { v.push(seek(r, i, Y20)); continue }
        v.push(format!("p\t{}\t{:?}", i, clocks[i].next(r)));
    }
    v
}

/// Close in on the moment at which a record begins or ceases to be predictable.
fn seek(r: &mut Rng, i: usize, max: f64) -> String {
    let t0 = if r.chance(2, 3) { 0.0 } else { gen_minutes(r, 14400.0) };
    let far = r.logu(50.0, max.min(1e6)) * if r.chance(3, 4) { 1.0 } else { -1.0 };
    format!("s\t{}\t{:?}\t{:?}", i, t0, far)
}

// ---------------------------------------------------------------- C08
pub fn exec_c08(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let (ops, og, end) = play(lines);
    let seen = match &end {
        rt::End::Done(b) => decode(b),
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    observe(&mut st, &ops, &seen, &og);
    for s in &seen {
        if let Op::Rec(a, b, _) = &ops[s.op] {
            if Pub::decode(a, b).is_none() {
                st.fault("digits_corrupted");
                if s.status > 0 {
                    st.probe("corrupted_digits_accepted");
                    st.nontrivial = true;
                }
            }
            st.checks += 1;
            if s.status > 1 {
                return Verdict::bad(st, "record-not-finite", format!("{:?} / {:?} was accepted with {} of its numbers not finite", a, b, s.status - 1));
            }
        }
        let Some(got) = &s.out else { continue };
        if og[s.op].1 == Origin::None {
            continue;
        }
        st.checks += 1;
        let what = describe_at(&ops[s.op], s.t);
        match got {
            Out::Ok(v) => {
                if !v.iter().all(|x| x.is_finite()) {
                    return Verdict::bad(st, "not-finite", format!("call #{} ({}) succeeded with {}", s.op, what, got.text()));
                }
                let r = v[..3].iter().map(|x| x * x).sum::<f64>().sqrt();
                if r < 6378.137 * (1.0 - 1e-9) {
                    return Verdict::bad(st, "inside-earth", format!("call #{} ({}) succeeded {} km from the centre", s.op, what, r));
                }
            }
            Out::Err(_) => st.nontrivial = true,
            Out::Panic => return Verdict::bad(st, "panic", format!("call #{} ({}) panicked", s.op, what)),
        }
        if matches!(ops[s.op], Op::P(..) | Op::S(..) | Op::Init(..)) {
            let want = if let Out::Err(c) = got { *c as u64 } else { 0 };
            if s.status != want {
                return Verdict::bad(st, "status", format!("call #{} ({}) gave {} but the record's status is {}", s.op, what, got.text(), s.status));
            }
        }
    }
    Verdict::ok(st)
}

/// Damage a few characters of otherwise good lines, staying with characters that keep numbers numbers.
fn damage(r: &mut Rng, a: &mut Vec<u8>, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        let l: &mut Vec<u8> = if r.chance(1, 2) { a } else { b };
        // fields that matter
        let f: &[(usize, usize)] = if l[0] == b'1' {
            &[(18, 20), (20, 32), (33, 43), (44, 52), (53, 61), (53, 61), (59, 61)]
        } else {
            &[(8, 16), (17, 25), (26, 33), (34, 42), (43, 51), (52, 63), (52, 56)]
        };
        let (lo, hi) = *r.pick(f);
        let k = lo + r.us(hi - lo);
        l[k] = match r.below(8) {
            0 => *r.pick(b"-+ .eE"),
            1 => b'9',
            2 => b'0',
            _ => b'0' + r.below(10) as u8,
        };
        if r.chance(1, 10) {
            // letters that some number readers take for numbers
            let w: &[u8] = *r.pick(&[&b"nan"[..], b"inf", b"-inf", b"NaN", b"infinity", b"1e9", b"0x1"]);
            let n = w.len().min(hi - lo);
            for x in l[lo..hi].iter_mut() { *x = b' ' }
            l[lo..lo + n].copy_from_slice(&w[..n]);
        }
        if r.chance(1, 12) {
            // a whole field overwritten, as by a stale block
            let c = *r.pick(b"0 9");
            for x in l[lo..hi].iter_mut() {
                if x.is_ascii_digit() { *x = c }
            }
        }
    }
}

fn gen_corrupt(r: &mut Rng) -> (String, String) {
    let p = gen_set(r);
    let (a, b) = p.lines();
    let (mut a, mut b) = (a.into_bytes(), b.into_bytes());
    damage(r, &mut a, &mut b);
    (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap())
}

/// Any instant chrono can express.
fn any_reading(r: &mut Rng) -> Reading {
    let y = match r.below(5) {
        0 => *r.pick(&[-262142, 262141, 0, 1, 9999, 10000, -1]),
        1 => r.range(-262142, 262141),
        2 => r.range(1000, 4000),
        _ => r.range(1950, 2090),
    };
    let secs = crate::cal::days_from_civil(y, r.range(1, 12), r.range(1, 28)) * 86400 + r.range(0, 86399);
    Reading { secs, nanos: r.below(1_000_000_000) as u32 }
}

pub fn gen_c08(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let nrec = r.range(2, 6) as usize;
    let mut res = vec![];
    for _ in 0..nrec {
        if r.chance(2, 3) {
            let (a, b) = gen_corrupt(r);
            res.push(may_resonate(&b));
            v.push(format!("rec\t{}\t{}", a, b));
        } else {
            let p = if r.chance(1, 2) { gen_failing(r) } else { gen_any(r) };
            res.push(may_resonate(&p.lines().1));
            v.push(rec_line(&p, r.chance(1, 4)));
        }
    }
    for _ in 0..r.range(6, if deep { 60 } else { 30 }) {
        let i = r.us(res.len());
        match r.below(10) {
            0 => v.push(format!("d\t{}\t{}", i, any_reading_for(r, res[i]).text())),
            1 => {
                let most = if !res[i] || r.chance(1, 10) { 2e8 } else { 2e7 };
                v.push(format!("p\t{}\t{:?}", i, r.logu(1e3, most) * if r.chance(1, 2) { 1.0 } else { -1.0 }))
            }
            2 => {
                v.push(format!("c\t{}", i));
                res.push(res[i]);
            }
            3 => v.push(seek(r, i, Y20)),
            _ => v.push(format!("p\t{}\t{:?}", i, gen_minutes(r, 2.0 * Y20))),
        }
    }
    v
}

/// Far instants cost a resonant record hundreds of millions of integration steps: keep those nearer.
fn any_reading_for(r: &mut Rng, resonant: bool) -> Reading {
    let x = any_reading(r);
    if !resonant { return x }
    let lim = if r.chance(1, 30) { 60_000_000_000 } else { 2_500_000_000 };
    Reading { secs: x.secs.clamp(-lim, lim), nanos: x.nanos }
}
fn may_resonate(l2: &str) -> bool {
    match l2.get(52..63).and_then(|s| s.trim().parse::<f64>().ok()) {
        Some(mm) => (0.7..1.3).contains(&mm) || (1.8..2.2).contains(&mm),
        None => true,
    }
}

// ---------------------------------------------------------------- C12
/// Work allowed to one prediction: a constant, plus a term linear in the distance from
/// epoch for deep-space records. More than ten times what the crate needs.
pub const NEAR: u64 = 4_000;
pub const DEEP: u64 = 8_000;
pub const PER_STEP: u64 = 300;
fn allowed(s: &Satrec, t: f64) -> u64 {
    if deep(s) {
        let k = (t.abs() / 720.0).min(1e12) as u64;
        DEEP + PER_STEP * (k + 2)
    } else {
        NEAR
    }
}

pub fn exec_c12(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let ops = parse(lines);
    let og = origins(&ops);
    let end = rt::isolate(|| run(&ops, &allowed));
    let seen = match &end {
        rt::End::Done(b) => decode(b),
        rt::End::OverBudget(op, n) => {
            let o = &ops[*op as usize];
            return Verdict::bad(st, "work", format!("call #{} ({}) had not returned after {} steps of work", op, describe(o), n));
        }
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    observe(&mut st, &ops, &seen, &og);
    let mut phases: Vec<(usize, i64, usize)> = vec![];
    for s in &seen {
        if let Some(o) = &s.out {
            st.checks += 1;
            st.nontrivial = true;
            if let Out::Panic = o {
                return Verdict::bad(st, "panic", format!("call #{} ({}) did not return: it panicked", s.op, describe(&ops[s.op])));
            }
            match &ops[s.op] {
                Op::P(_, t) if s.deep => st.max("deep_work_over_bound", s.work as f64 / (DEEP + PER_STEP * ((t.abs() / 720.0).min(1e12) as u64 + 2)) as f64),
                Op::P(..) => st.max("near_work_over_bound", s.work as f64 / NEAR as f64),
                _ => {}
            }
        }
        if let Op::Rep(_, _, _, n) = &ops[s.op] {
            if s.out.is_some() {
                phases.push((*n, s.live, s.op));
                st.fault("sustained_load");
            }
        } else {
            phases.clear();
            if let Op::P(..) = &ops[s.op] { phases.push((1, s.live, s.op)) }
        }
        // three equal stretches of predictions in a row: memory may settle, not keep growing
        if phases.len() >= 4 {
            let k = phases.len();
            let (g1, g2) = (phases[k - 2].1 - phases[k - 3].1, phases[k - 1].1 - phases[k - 2].1);
            let n = phases[k - 1].0 as i64;
            st.checks += 1;
            st.probe("memory_phases_compared");
            if g1 >= n && g2 >= n && n >= 100 {
                return Verdict::bad(st, "memory", format!(
                    "memory held grew by {} and then {} bytes over two successive stretches of {} predictions", g1, g2, n));
            }
        }
    }
    Verdict::ok(st)
}

pub fn gen_c12(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let nrec = r.range(1, 4) as usize;
    let mut res = vec![];
    for _ in 0..nrec {
        if r.chance(1, 4) {
            let (a, b) = gen_corrupt(r);
            v.push(format!("rec\t{}\t{}", a, b));
            res.push(may_resonate(&b));
        } else {
            let p = gen_set(r);
            res.push(may_resonate(&p.lines().1));
            v.push(rec_line(&p, r.chance(1, 4)));
        }
    }
    if r.chance(1, 4) {
        // a record that keeps failing, asked again and again
        let negative = r.chance(1, 2);
        let p = if negative { gen_negative(r) } else { gen_failing(r) };
        res.push(may_resonate(&p.lines().1));
        v.push(rec_line(&p, r.chance(1, 4)));
        let i = res.len() - 1;
        for _ in 0..r.range(2, 6) {
            v.push(format!("p\t{}\t{:?}", i, gen_minutes(r, Y20)));
        }
        if negative {
            for _ in 0..20 {
                v.push(format!("p\t{}\t{:?}", i, r.uni(-Y20, Y20)));
            }
        } else {
            for _ in 0..r.range(1, 3) { v.push(seek(r, i, Y20)) }
        }
        let n = r.range(150, 300);
        for _ in 0..5 {
            v.push(format!("rep\t{}\tfail\t0.0\t{}", i, n));
        }
    }
    if r.chance(1, 3) {
        // sustained load
        let i = r.us(nrec);
        let n = r.range(300, if deep { 3000 } else { 800 });
        let dt = *r.pick(&[0.01, 1.0, -7.3, 0.0, 33.0]);
        let t0 = gen_minutes(r, 20000.0);
        v.push(format!("p\t{}\t{:?}", i, t0));
        for k in 0..4 {
            v.push(format!("rep\t{}\t{:?}\t{:?}\t{}", i, t0 + dt * (n * k) as f64, dt, n));
        }
    }
    for _ in 0..r.range(4, 20) {
        let i = r.us(nrec);
        match r.below(12) {
            // far away, then close again: the work must follow the time asked for, not the last one
            0 | 1 => {
                let most = if !res[i] || r.chance(1, 5) { 2e8 } else { 2e7 };
                v.push(format!("p\t{}\t{:?}", i, r.logu(1e6, most) * if r.chance(1, 2) { 1.0 } else { -1.0 }));
                v.push(format!("p\t{}\t{:?}", i, r.uni(-1000.0, 1000.0)));
            }
            2 => {
                let x = any_reading_for(r, res[i]);
                v.push(format!("d\t{}\t{}", i, x.text()));
            }
            3 => v.push(format!("p\t{}\t{:?}", i, 720.0 * r.range(-3000, 3000) as f64 + *r.pick(&[0.0, 1e-7, -1e-7]))),
            4 if !res[i] => v.push(format!("p\t{}\t{:?}", i, r.logu(1e8, 1.4e11) * if r.chance(1, 2) { 1.0 } else { -1.0 })),
            _ => v.push(format!("p\t{}\t{:?}", i, gen_minutes(r, 2.0 * Y20))),
        }
    }
    v
}

// ---------------------------------------------------------------- C20
/// What a record says about its object.
fn says(s: &Satrec) -> (Content, u64) {
    let mut c = Content::of(s, false);
    c.status = 0;
    (c, mode_of(s))
}
fn same_said(a: &(Content, u64), b: &(Content, u64)) -> bool {
    a.0.name == b.0.name && a.0.same_elements(&b.0) && a.1 == b.1
}

pub fn exec_c20(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let ops = parse(lines);
    let og = origins(&ops);
    let end = rt::isolate(|| {
        // per record: what it said when it was made, and all of its fields
        let mut held: Vec<Option<((Content, u64), Vec<u64>)>> = vec![];
        let mut wrong: Option<(usize, &str, String)> = None;
        let mut checks = 0;
        let log = run_watched(&ops, &|_, _| rt::DEFAULT_BUDGET, &mut |i, op, recs| {
            if wrong.is_some() {
                return;
            }
            let now = |k: usize| recs[k].as_ref().map(|s| (says(s), snap(s)));
            let mut used = usize::MAX;
            match op {
                Op::Rec(..) | Op::Zero => held.push(now(recs.len() - 1)),
                Op::C(r) => { let h = held[*r].clone(); held.push(h) }
                Op::Into(r, k) => held[*r] = held[*k].clone(),
                Op::X(r) => held[*r] = None,
                Op::Init(r, _, p) => {
                    if let (Some(s), Some(h)) = (&recs[*r], &held[*r]) {
                        let e = p.elements();
                        let mut want = says(s);
                        want.0.name = h.0 .0.name.clone();
                        // bstar inclo nodeo ecco argpo mo
                        for (k, x) in [(3, e.bstar), (4, e.incl), (5, e.node), (6, e.ecc), (7, e.argp), (8, e.ma)] {
                            want.0.num[k] = x
                        }
                        checks += 1;
                        if s.error == 0 && !same_said(&says(s), &want) {
                            wrong = Some((i, "initialised", format!("initialised with {}, it says {}", want.0.show(), says(s).0.show())));
                        }
                    }
                    held[*r] = now(*r)
                }
                Op::P(r, _) | Op::S(r, _, _) | Op::Rep(r, _, _, _) => used = *r,
                Op::D(..) => {}
            }
            for k in 0..recs.len() {
                let (Some(s), Some(h)) = (&recs[k], &mut held[k]) else { continue };
                checks += 1;
                if !same_said(&says(s), &h.0) {
                    wrong.get_or_insert((i, "element", format!("record {} said {}; now it says {}", k, h.0 .0.show(), says(s).0.show())));
                }
                if k == used {
                    h.1 = snap(s)
                } else if h.1 != snap(s) && !s.jdsatepoch.is_nan() {
                    wrong.get_or_insert((i, "bystander", format!("record {} was not predicted from with leave to change it, but changed in field {:?}", k, snap(s).iter().zip(&h.1).position(|(a, b)| a != b))));
                }
            }
        });
        let mut w = W::default();
        w.u(checks);
        match wrong {
            None => w.u(0),
            Some((i, class, why)) => {
                w.u(1);
                w.u(i as u64);
                w.b(class.as_bytes());
                w.b(why.as_bytes());
            }
        }
        w.0.extend(log);
        w.0
    });
    let b = match &end {
        rt::End::Done(b) => b,
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    let mut r = R(b);
    st.checks += r.u();
    let wrong = if r.u() == 1 { Some((r.u() as usize, r.s(), r.s())) } else { None };
    let seen = decode(r.0);
    observe(&mut st, &ops, &seen, &og);
    st.nontrivial = seen.iter().any(|s| s.out.is_some());
    match wrong {
        Some((i, class, why)) => Verdict::bad(st, &class, format!("after operation {} ({}): {}", i, describe(&ops[i]), why)),
        None => Verdict::ok(st),
    }
}

pub fn gen_c20(r: &mut Rng, deep: bool) -> Plan {
    match r.below(6) {
        // records as they come out of damaged sets
        0 => gen_c08(r, deep),
        // re-initialised ones
        1 | 2 => gen_c13(r, deep),
        _ => {
            let mut v = gen_c05(r, deep);
            for _ in 0..r.below(3) {
                let k = r.us(3);
                v.push(if r.chance(1, 2) { seek(r, k, Y20) } else { format!("rep\t{}\tfail\t{:?}\t{}", r.below(3), r.uni(-1.0, 1.0), r.range(2, 40)) });
            }
            v
        }
    }
}
