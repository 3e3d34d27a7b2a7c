//! Concurrent callers (C06) and different hosts (C14).
//!
//! Plan lines:
//!   rec L1 L2                    a record, shared by all callers
//!   cold                         no call is made before the callers start; each reads its own records (C06)
//!   t TID CALL...                one call made by caller TID (C06)
//!   o CALL...                    one call of the sequence (C14)
//!   s MODE COUNT PICK STALL      a scheduling decision (C06)
//!   host WALL MONO TICK RAND TZ THREAD WARM   a host to run the sequence on (C14)
//! CALLs:
//!   d R SECS.NANOS | p R T | pair R | feed R R... | parse R | init R A|I | gst SECS.NANOS
//!   view X Y Z GMST LAT LON H | jump NS (C14: the host's clocks jump)
//! `p` acts on the caller's own copy of record R, which it keeps for all its calls.
use crate::cal::Reading;
use crate::core::*;
use crate::rng::{hash, hash_bytes, Rng};
use crate::rt::{self, Decision, Host, Mode};
use crate::sut::*;
use crate::tle::*;
use satellite::io::Satrec;
use satellite::{transforms, Geodedic, Vec3};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum Call {
    D(usize, Reading),
    P(usize, f64),
    Pair(usize),
    Feed(Vec<usize>),
    Parse(usize),
    Init(usize, bool),
    Gst(Reading),
    View([f64; 7]),
    Jump(i64),
}

fn call(c: &[&str]) -> Option<Call> {
    let i = |k: usize| -> Option<usize> { c.get(k)?.parse().ok() };
    Some(match *c.first()? {
        "d" => Call::D(i(1)?, Reading::parse(c.get(2)?)?),
        "p" => Call::P(i(1)?, c.get(2)?.parse().ok()?),
        "pair" => Call::Pair(i(1)?),
        "feed" => Call::Feed(c[1..].iter().filter_map(|s| s.parse().ok()).collect()),
        "parse" => Call::Parse(i(1)?),
        "init" => Call::Init(i(1)?, *c.get(2)? == "A"),
        "gst" => Call::Gst(Reading::parse(c.get(1)?)?),
        "view" => {
            let mut v = [0.0; 7];
            for (k, x) in v.iter_mut().enumerate() {
                *x = c.get(k + 1)?.parse().ok()?
            }
            Call::View(v)
        }
        "jump" => Call::Jump(c.get(1)?.parse().ok()?),
        _ => return None,
    })
}

struct World {
    recs: Vec<(String, String)>,
    /// nothing is done before the callers start: each reads its records itself
    cold: bool,
}
impl World {
    fn of(lines: &[String]) -> World {
        World {
            cold: lines.iter().any(|l| l == "cold"),
            recs: lines
                .iter()
                .filter_map(|l| {
                    let c = cells(l);
                    if c[0] == "rec" && c.len() == 3 { Some((c[1].to_string(), c[2].to_string())) } else { None }
                })
                .collect(),
        }
    }
    fn pair(&self, i: usize) -> Option<&(String, String)> {
        if self.recs.is_empty() { None } else { Some(&self.recs[i % self.recs.len()]) }
    }
}

fn put_err<T>(w: &mut W, r: std::thread::Result<Result<T, satellite::io::SatrecParseError>>, f: impl FnOnce(&mut W, T)) {
    match r {
        Ok(Ok(x)) => {
            w.u(0);
            f(w, x)
        }
        Ok(Err(e)) => {
            w.u(1);
            w.b(format!("{:?}", e).as_bytes())
        }
        Err(_) => w.u(2),
    }
}

fn own_record<'a>(world: &World, own: &'a mut HashMap<usize, Option<Satrec>>, k: usize) -> &'a mut Option<Satrec> {
    own.entry(k).or_insert_with(|| world.pair(k).and_then(|(a, b)| read_pair(a, b).ok()))
}

/// Make one call and write down everything it returned, bit for bit.
fn make(c: &Call, world: &World, shared: &[Option<Satrec>], own: &mut HashMap<usize, Option<Satrec>>) -> Vec<u8> {
    let mut w = W::default();
    let n = shared.len();
    match c {
        Call::D(r, t) => {
            let s = match shared.get(r % n.max(1)) {
                Some(None) if world.cold => own_record(world, own, r % n).as_ref(),
                s => s.and_then(|s| s.as_ref()),
            };
            match s {
                Some(s) => predict_at(s, *t).put(&mut w),
                None => w.u(9),
            }
        }
        Call::P(r, t) => {
            if n > 0 {
                let k = r % n;
                let s = if world.cold { own_record(world, own, k) } else { own.entry(k).or_insert_with(|| shared[k].clone()) };
                match s {
                    Some(s) => {
                        predict(s, *t).put(&mut w);
                        w.u(s.error as u64)
                    }
                    None => w.u(9),
                }
            }
        }
        Call::Init(r, m) => {
            if let Some((a, b)) = world.pair(*r) {
                if let Some(p) = Pub::decode(a, b) {
                    let mut s = Satrec::zero();
                    init(&mut s, *m, &p).put(&mut w);
                    predict(&mut s, 1234.5).put(&mut w);
                }
            }
        }
        Call::Pair(r) => {
            if let Some((a, b)) = world.pair(*r) {
                let x = guard(|| satellite::io::twoline2satrec(a, b));
                put_err(&mut w, x, |w, s| {
                    for x in snap(&s) {
                        w.u(x)
                    }
                });
            }
        }
        Call::Parse(r) => {
            if let Some((a, b)) = world.pair(*r) {
                let t = format!("0 SAT {}\r\n{}\r\n{}\r\n", r, a, b);
                let x = guard(|| satellite::io::parse(&t));
                put_err(&mut w, x, |w, s| {
                    for x in snap(&s) {
                        w.u(x)
                    }
                });
            }
        }
        Call::Feed(v) => {
            let mut t = String::new();
            for (k, r) in v.iter().enumerate() {
                if let Some((a, b)) = world.pair(*r) {
                    if k % 2 == 0 {
                        t += &format!("SAT {}\n", k)
                    }
                    t += &format!("{}\n{}\n", a, b);
                    if k % 3 == 2 {
                        t += "1 broken\n"
                    }
                }
            }
            match guard(|| satellite::io::parse_multiple(&t)) {
                Ok((recs, errs)) => {
                    w.u(recs.len() as u64);
                    for s in &recs {
                        for x in snap(s) {
                            w.u(x)
                        }
                    }
                    w.b(format!("{:?}", errs).as_bytes())
                }
                Err(_) => w.u(u64::MAX),
            }
        }
        Call::Gst(t) => {
            let d = t.chrono();
            match guard(|| (satellite::propogation::gstime::gstime_datetime(d), satellite::ext::jday_datetime(d))) {
                Ok((a, b)) => {
                    w.f(a);
                    w.f(b)
                }
                Err(_) => w.u(u64::MAX),
            }
        }
        Call::View(v) => {
            let e = Vec3 { x: v[0], y: v[1], z: v[2] };
            let o = Geodedic { latitude: v[4], longitude: v[5], height: v[6] };
            match guard(|| {
                let f = transforms::eci_to_ecf(&e, v[3]);
                let g = transforms::eci_to_geodedic(&e, v[3]);
                let b = transforms::ecf_to_look_angles(&o, &f);
                let i = transforms::ecf_to_eci(&f, v[3]);
                let d = satellite::doppler_factor::doppler_factor(
                    Vec3 { x: f.x, y: f.y, z: f.z }, Vec3 { x: v[0], y: v[1], z: v[2] }, Vec3 { x: 1.0, y: 2.0, z: 3.0 });
                [f.x, f.y, f.z, g.latitude, g.longitude, g.height, b.azimuth, b.elevation, b.range, i.x, i.y, i.z, d]
            }) {
                Ok(x) => {
                    for k in x {
                        w.f(k)
                    }
                }
                Err(_) => w.u(u64::MAX),
            }
        }
        Call::Jump(ns) => rt::host_jump(*ns),
    }
    w.0
}

/// Almost the same call: another record at the same instant, or the same record a moment apart.
fn neighbour(c: &Call, k: u64) -> Option<Call> {
    const NS: [i128; 6] = [1, 1_000, 1_000_000, 300_000_000, 1_000_000_000, 60_000_000_000];
    let d = NS[(k % 6) as usize] * if k % 4 < 2 { 1 } else { -1 };
    let moved = |t: &Reading| Reading::from_ns(t.ns() + d);
    Some(match c {
        Call::D(r, t) if k % 3 == 0 => Call::D(r + 1, *t),
        Call::D(r, t) => Call::D(*r, moved(t)),
        Call::P(r, t) if k % 3 == 0 => Call::P(r + 1, *t),
        Call::P(r, t) => Call::P(*r, t + d as f64 / 60e9),
        Call::Pair(r) | Call::Parse(r) => Call::Pair(r + 1),
        Call::Feed(v) => Call::Feed(v.iter().map(|r| r + 1).collect()),
        Call::Init(r, m) => if k % 2 == 0 { Call::Init(*r, !m) } else { Call::Init(r + 1, *m) },
        Call::Gst(t) => Call::Gst(moved(t)),
        Call::View(v) => {
            let mut v = *v;
            v[(k % 7) as usize] += 1e-6;
            Call::View(v)
        }
        Call::Jump(_) => return None,
    })
}

fn load_all(w: &World) -> Vec<Option<Satrec>> {
    w.recs.iter().map(|(a, b)| read_pair(a, b).ok()).collect()
}

fn text(c: &Call) -> String {
    match c {
        Call::D(r, t) => format!("predicting shared record {} at {}", r, t.show()),
        Call::P(r, t) => format!("predicting its own copy of record {} at {:?} min", r, t),
        Call::Pair(r) => format!("reading the line pair of record {}", r),
        Call::Parse(r) => format!("reading the set of record {}", r),
        Call::Feed(v) => format!("reading a feed of {} sets", v.len()),
        Call::Init(r, _) => format!("initialising with the elements of record {}", r),
        Call::Gst(t) => format!("sidereal time at {}", t.show()),
        Call::View(_) => "converting between frames".into(),
        Call::Jump(n) => format!("host clock jump of {} ns", n),
    }
}

/// Readable form of a result where it is a prediction.
fn result(c: &Call, b: &[u8]) -> String {
    match c {
        Call::D(..) | Call::P(..) if b.len() >= 8 => Out::get(&mut R(b)).text(),
        Call::Gst(_) if b.len() == 16 => {
            let mut r = R(b);
            format!("gmst {:?} (jd {:?})", r.f(), r.f())
        }
        _ => format!("{} bytes, digest {:016x}", b.len(), hash_bytes(3, b)),
    }
}

// ---------------------------------------------------------------- C06
fn schedule(lines: &[String]) -> Vec<Decision> {
    lines
        .iter()
        .filter_map(|l| {
            let c = cells(l);
            if c[0] != "s" || c.len() != 5 {
                return None;
            }
            let mode = match c[1] { "all" => Mode::All, "shared" => Mode::Shared, "global" => Mode::Global, "ops" => Mode::Ops, _ => return None };
            Some(Decision { mode, count: c[2].parse().ok()?, pick: c[3].parse().ok()?, stall: c[4].parse().ok()? })
        })
        .collect()
}

pub fn exec_c06(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let world = World::of(lines);
    let plan = schedule(lines);
    let mut tasks: Vec<(u64, Vec<Call>)> = vec![];
    for l in lines {
        let c = cells(l);
        if c[0] == "t" && c.len() >= 3 {
            let (Ok(id), Some(k)) = (c[1].parse::<u64>(), call(&c[2..])) else { continue };
            match tasks.iter().position(|t| t.0 == id) {
                Some(t) => tasks[t].1.push(k),
                None if tasks.len() < 8 => tasks.push((id, vec![k])),
                None => {}
            }
        }
    }
    // each question alone, in a fresh process
    let mut memo: HashMap<String, Vec<u8>> = HashMap::new();
    for (_, cs) in &tasks {
        for c in cs {
            let key = format!("{:?}", c);
            if memo.contains_key(&key) {
                continue;
            }
            let end = rt::isolate(|| make(c, &world, &load_all(&world), &mut HashMap::new()));
            match &end {
                rt::End::Done(b) => {
                    memo.insert(key, b.clone());
                }
                e => {
                    let (c, m) = abnormal(e);
                    return Verdict::bad(st, &c, format!("{} (made alone)", m));
                }
            }
        }
    }
    // and all together
    if world.cold {
        st.probe("cold_start");
    }
    let end = rt::isolate(|| {
        let shared = if world.cold { vec![None; world.recs.len()] } else { load_all(&world) };
        let before: Vec<Vec<u64>> = shared.iter().map(|s| s.as_ref().map(snap).unwrap_or_default()).collect();
        let results: Vec<std::sync::Mutex<Vec<Vec<u8>>>> = tasks.iter().map(|_| std::sync::Mutex::new(vec![])).collect();
        let changed = std::sync::Mutex::new(None::<(usize, usize)>);
        let boxes: Vec<Box<dyn FnOnce() + Send + '_>> = tasks
            .iter()
            .enumerate()
            .map(|(i, (_, cs))| {
                let (shared, before, world, results, changed) = (&shared, &before, &world, &results, &changed);
                Box::new(move || {
                    let mut own = HashMap::new();
                    for c in cs {
                        let b = make(c, world, shared, &mut own);
                        results[i].lock().unwrap().push(b);
                        for (k, s) in shared.iter().enumerate() {
                            if let Some(s) = s {
                                let now = snap(s);
                                if now != before[k] {
                                    changed.lock().unwrap().get_or_insert((i, k));
                                }
                            }
                        }
                        rt::op_boundary();
                    }
                }) as Box<dyn FnOnce() + Send + '_>
            })
            .collect();
        let ss = rt::run_tasks(boxes, plan.clone());
        let mut w = W::default();
        for x in [ss.switches, ss.stalls, ss.blocks, ss.events, ss.trace, ss.at_shared, ss.at_global] {
            w.u(x)
        }
        match *changed.lock().unwrap() {
            None => w.u(0),
            Some((i, k)) => {
                w.u(1);
                w.u(i as u64);
                w.u(k as u64)
            }
        }
        for r in &results {
            let r = r.lock().unwrap();
            w.u(r.len() as u64);
            for b in r.iter() {
                w.b(b)
            }
        }
        w.0
    });
    let b = match &end {
        rt::End::Done(b) => b,
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, format!("{} with {} callers", m, tasks.len()));
        }
    };
    let mut r = R(b);
    let (sw, stalls, blocks, events, trace, ash, agl) = (r.u(), r.u(), r.u(), r.u(), r.u(), r.u(), r.u());
    st.faults_n("thread_switch", sw);
    st.faults_n("thread_stalled", stalls);
    st.faults_n("lock_wait", blocks);
    st.probe_n("preempted_at_shared_access", ash);
    st.probe_n("preempted_at_global_access", agl);
    st.probe_n("events", events);
    st.sig = trace;
    st.nontrivial = sw > 0;
    if r.u() == 1 {
        let (i, k) = (r.u(), r.u());
        return Verdict::bad(st, "record-changed", format!("shared record {} changed while caller {} predicted from it", k, i));
    }
    for (i, (_, cs)) in tasks.iter().enumerate() {
        let n = r.u() as usize;
        let rs: Vec<Vec<u8>> = (0..n).map(|_| r.b()).collect();
        for (c, got) in cs.iter().zip(&rs) {
            st.checks += 1;
            let want = &memo[&format!("{:?}", c)];
            if got != want {
                return Verdict::bad(st, "interference", format!("caller {} {}: got {} but alone it gets {}", i, text(c), result(c, got), result(c, want)));
            }
        }
        if n != cs.len() {
            return Verdict::bad(st, "incomplete", format!("caller {} completed {} of {} calls", i, n, cs.len()));
        }
    }
    Verdict::ok(st)
}

fn gen_world(r: &mut Rng, v: &mut Plan) -> Vec<Pub> {
    let n = r.range(1, 3);
    let mut ps: Vec<Pub> = vec![];
    for _ in 0..n {
        let mut p = gen_any(r);
        if let Some(q) = ps.first() {
            match r.below(4) {
                0 => { p.satnum = q.satnum.clone(); p.yy = q.yy; p.doy8 = q.doy8 }
                1 => { p = q.clone(); p.ma4 = r.range(0, 3_599_999) }
                2 => { p = q.clone(); p.node4 = r.range(0, 3_599_999); p.satnum = gen_satnum(r) }
                _ => {}
            }
        }
        let (a, b) = p.lines();
        v.push(format!("rec\t{}\t{}", a, b));
        ps.push(p);
    }
    ps
}

/// Calls of one run cluster around a few instants, so that callers meet on the same or almost the same ones.
#[derive(Default)]
struct Asked {
    at: Vec<Reading>,
    min: Vec<f64>,
}
fn gen_call(r: &mut Rng, ps: &[Pub], focus: u64, asked: &mut Asked) -> String {
    let i = r.us(ps.len());
    const NS: [i64; 7] = [0, 0, 1, 1_000, 1_000_000, 400_000_000, 30_000_000_000];
    let (mut ats, mut mins) = (std::mem::take(&mut asked.at), std::mem::take(&mut asked.min));
    let mut at = |r: &mut Rng| {
        // an instant of another record's days may be decades from this one's epoch: resonant orbits stay home
        let cheap = !ps[i].class().contains("resonant") || ps[i].class().contains("non");
        let near: Vec<Reading> = ats.iter().copied().filter(|x| cheap || (x.ns() - ps[i].epoch_ns()).abs() < 180_000_000_000_000_000).collect();
        let x = if !near.is_empty() && r.chance(1, 2) {
            Reading::from_ns(near[r.us(near.len())].ns() + (*r.pick(&NS) * *r.pick(&[1, -1])) as i128)
        } else {
            let t = gen_minutes(r, 3e6);
            Reading::from_ns(ps[i].epoch_ns() + (t * 60e9) as i128 + r.range(0, 999) as i128)
        };
        ats.push(x);
        x.text()
    };
    let mut min = |r: &mut Rng| {
        let t = if !mins.is_empty() && r.chance(1, 2) {
            mins[r.us(mins.len())] + (*r.pick(&NS) * *r.pick(&[1, -1])) as f64 / 60e9
        } else {
            gen_minutes(r, 3e6)
        };
        mins.push(t);
        t
    };
    let k = if r.chance(2, 3) { focus } else { r.below(9) };
    let line = match k {
        0 | 1 => format!("d\t{}\t{}", i, at(r)),
        2 => format!("p\t{}\t{:?}", i, min(r)),
        3 => format!("pair\t{}", i),
        4 => format!("parse\t{}", i),
        5 => {
            let n = r.range(1, 4);
            let mut s = "feed".to_string();
            for _ in 0..n {
                s += &format!("\t{}", r.us(ps.len()))
            }
            s
        }
        6 => format!("gst\t{}", at(r)),
        7 => {
            let d = r.uni(6500.0, 50000.0);
            let (a, b) = (r.uni(-1.5, 1.5), r.uni(-3.1, 3.1));
            format!("view\t{:?}\t{:?}\t{:?}\t{:?}\t{:?}\t{:?}\t{:?}", d * a.cos() * b.cos(), d * a.cos() * b.sin(), d * a.sin(),
                r.uni(0.0, 6.28), r.uni(-1.5, 1.5), r.uni(-3.1, 3.1), r.uni(0.0, 5.0))
        }
        _ => format!("init\t{}\t{}", i, if r.chance(1, 2) { "A" } else { "I" }),
    };
    asked.at = ats;
    asked.min = mins;
    line
}

pub fn gen_c06(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let ps = gen_world(r, &mut v);
    if r.chance(1, 3) {
        v.push("cold".into());
    }
    let nt = r.range(2, if deep { 5 } else { 4 });
    let focus = r.below(9);
    let mut asked = Asked::default();
    for t in 0..nt {
        let f = if r.chance(2, 3) { focus } else { r.below(9) };
        for _ in 0..r.range(1, 4) {
            let c = gen_call(r, &ps, f, &mut asked);
            v.push(format!("t\t{}\t{}", t, c));
        }
    }
    let style = r.below(6);
    let n = r.range(2, if deep { 40 } else { 16 });
    for _ in 0..n {
        let mode = match style {
            0 => "all",
            1 => "shared",
            2 => "global",
            3 => "ops",
            _ => *r.pick(&["all", "shared", "global"]),
        };
        let count = match mode {
            "all" => if r.chance(1, 3) { r.range(1, 60) } else { r.logu(1.0, 12000.0) as i64 + 1 },
            "shared" => if r.chance(1, 2) { r.range(1, 12) } else { r.logu(1.0, 1500.0) as i64 + 1 },
            "global" => r.range(1, 10),
            _ => r.range(1, 3),
        };
        let stall = if r.chance(1, 5) { r.range(1, 6) } else { 0 };
        v.push(format!("s\t{}\t{}\t{}\t{}", mode, count, r.below(8), stall));
    }
    v
}

// ---------------------------------------------------------------- C14
#[derive(Clone, Debug)]
struct Where {
    host: Host,
    tz: String,
    thread: u64,
    warm: u64,
}

fn hosts(lines: &[String]) -> Vec<Where> {
    let mut v = vec![Where { host: Host::plain(), tz: "UTC".into(), thread: 0, warm: 0 }];
    for l in lines {
        let c = cells(l);
        if c[0] == "host" && c.len() == 8 {
            if let (Ok(w), Ok(m), Ok(t), Ok(r), Ok(th), Ok(wa)) = (c[1].parse(), c[2].parse(), c[3].parse(), c[4].parse(), c[6].parse(), c[7].parse()) {
                v.push(Where { host: Host { wall: w, mono: m, tick: t, rand: r }, tz: c[5].into(), thread: th, warm: wa });
            }
        }
    }
    v
}

pub fn exec_c14(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let world = World::of(lines);
    let calls: Vec<Call> = lines
        .iter()
        .filter_map(|l| {
            let c = cells(l);
            if c[0] == "o" { call(&c[1..]) } else { None }
        })
        .collect();
    let mut first: Option<Vec<Vec<u8>>> = None;
    for (hi, h) in hosts(lines).iter().enumerate() {
        let end = rt::isolate(|| {
            std::env::set_var("TZ", &h.tz);
            if h.warm % 2 == 1 {
                std::env::set_var("LANG", "de_DE.UTF-8");
                std::env::set_var("LC_ALL", "de_DE.UTF-8");
                std::env::set_var("HOME", "/nonexistent");
                std::env::set_var("RUST_BACKTRACE", "1");
            }
            if hi > 0 {
                rt::host_env(h.host.rand as u64 | 1);
            }
            rt::host_on(&h.host);
            let body = || {
                // earlier, unrelated work of the process
                let mut hold = vec![];
                for k in 0..h.warm {
                    if let Ok(mut s) = read_pair("1 00005U 58002B   00179.78495062  .00000023  00000-0  28098-4 0  4753",
                        "2 00005  34.2682 348.7242 1859667 331.7664  19.3264 10.82419157413667") {
                        predict(&mut s, k as f64 * 37.5);
                        hold.push(vec![k as u8; 100 + 37 * k as usize]);
                    }
                    if let Some((a, b)) = world.pair(k as usize) {
                        if let Ok(mut s) = read_pair(a, b) {
                            predict(&mut s, 4321.0 + k as f64);
                            predict_at(&s, Reading { secs: 1_000_000_000 + k as i64, nanos: 5 });
                        }
                    }
                    let _ = guard(|| satellite::propogation::gstime::gstime(2451545.0 + k as f64));
                    let e = Vec3 { x: 7000.0, y: 10.0 * k as f64, z: 300.0 };
                    let _ = guard(|| transforms::eci_to_geodedic(&e, 1.0));
                }
                if h.warm == 7 {
                    // a process long at work
                    let mut t = String::new();
                    for k in 0..120 {
                        if k % 3 == 0 { t.push_str(&format!("0 OBJECT {}\n", k)) }
                        if let Some((a, b)) = world.pair(k) {
                            t.push_str(&format!("{}\n{}\n", a, if k % 7 == 3 { a } else { b }));
                        }
                    }
                    let f = guard(|| satellite::io::parse_multiple(&t));
                    if let Ok((mut recs, _)) = f {
                        for k in 0..150 + (h.host.rand % 150) as usize {
                            if recs.is_empty() { break }
                            let n = recs.len();
                            predict(&mut recs[k % n], (k * 7) as f64 - 1000.0);
                            let q = &recs[k * 5 % n];
                            predict_at(q, Reading { secs: ((q.jdsatepoch - crate::cal::JD_UNIX) * 86400.0) as i64 + 1_003 * k as i64, nanos: 5 });
                            let _ = guard(|| satellite::propogation::gstime::gstime(2440000.0 + k as f64 * 33.3));
                        }
                    }
                }
                if h.warm > 0 {
                    // and questions almost like the ones to come
                    let others = load_all(&world);
                    let mut own = HashMap::new();
                    for (k, c) in calls.iter().enumerate() {
                        if let Some(n) = neighbour(c, h.host.rand.wrapping_add(k as u64 * 7)) {
                            make(&n, &world, &others, &mut own);
                        }
                    }
                }
                rt::host_on(&h.host);
                let shared = load_all(&world);
                let mut own = HashMap::new();
                let mut w = W::default();
                for c in &calls {
                    let b = make(c, &world, &shared, &mut own);
                    w.b(&b);
                }
                let (a, b, c) = rt::host_reads();
                w.u(a);
                w.u(b);
                w.u(c);
                w.u(rt::other_host_reads());
                w.0
            };
            if h.thread > 0 {
                // on another thread, after `thread - 1` threads came and went
                for _ in 1..h.thread {
                    std::thread::spawn(|| ()).join().unwrap();
                }
                std::thread::scope(|s| s.spawn(body).join().unwrap())
            } else {
                body()
            }
        });
        let b = match &end {
            rt::End::Done(b) => b,
            e => {
                let (c, m) = abnormal(e);
                return Verdict::bad(st, &c, format!("{} on host {:?}", m, h));
            }
        };
        let mut r = R(b);
        let rs: Vec<Vec<u8>> = calls.iter().map(|_| r.b()).collect();
        st.probe_n("host_clock_read_by_crate", r.u());
        st.probe_n("host_random_read_by_crate", r.u());
        st.probe_n("host_variable_read_by_crate", r.u());
        st.probe_n("host_process_or_file_read_by_crate", r.u());
        match &first {
            None => {
                for x in &rs {
                    st.sig = hash(st.sig, hash_bytes(7, x));
                }
                first = Some(rs);
            }
            Some(f) => {
                st.nontrivial = true;
                st.fault("other_wall_clock");
                if h.host.tick <= 0 { st.fault("clock_stopped_or_backwards") }
                if h.tz != "UTC" { st.fault("other_time_zone") }
                if h.thread > 0 { st.fault("other_thread") }
                if h.warm > 0 { st.fault("earlier_work_in_process") }
                if h.warm == 7 { st.fault("much_earlier_work_in_process") }
                st.fault("other_random_source");
                st.fault("other_environment");
                st.fault("other_process_directory_processors_files");
                st.see(h.host.wall as u64);
                for (k, c) in calls.iter().enumerate() {
                    if let Call::Jump(_) = c {
                        st.fault("host_clock_jump");
                        continue;
                    }
                    st.checks += 1;
                    if rs[k] != f[k] {
                        return Verdict::bad(st, "host-dependent", format!("call #{} ({}): {} on the plain host but {} on host #{} (wall clock {}, TZ {}, thread {}, {} earlier calls)",
                            k, text(c), result(c, &f[k]), result(c, &rs[k]), hi, Reading::from_ns(h.host.wall as i128).show(), h.tz, h.thread, h.warm));
                    }
                }
            }
        }
    }
    Verdict::ok(st)
}

pub fn gen_c14(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let ps = gen_world(r, &mut v);
    let mut asked = Asked::default();
    for _ in 0..r.range(2, if deep { 20 } else { 10 }) {
        let k = r.below(9);
        let c = gen_call(r, &ps, k, &mut asked);
        v.push(format!("o\t{}", c));
        if r.chance(1, 4) {
            v.push(format!("o\tjump\t{}", r.range(-1_000_000_000_000_000, 1_000_000_000_000_000)));
        }
    }
    const TZS: &[&str] = &["UTC", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "XYZ14", "ABC-14", "garbage", ""];
    for _ in 0..r.range(2, 5) {
        // wall clocks: now-ish, the epochs of the sets, year ends, before 1970, far future
        let wall = match r.below(6) {
            0 => r.range(-600_000_000, 4_000_000_000),
            1 => (ps[0].epoch_ns() / 1_000_000_000) as i64 + r.range(-100_000, 100_000),
            2 => crate::cal::days_from_civil(r.range(1970, 2060), 1, 1) * 86400 + r.range(-2, 2),
            3 => crate::cal::days_from_civil(r.range(1990, 2060), r.range(1, 12), r.range(1, 28)) * 86400 + r.range(0, 86399),
            4 => 0,
            _ => r.range(1_500_000_000, 2_000_000_000),
        } * 1_000_000_000 + r.range(0, 999_999_999);
        let tick = match r.below(4) { 0 => 0, 1 => -r.range(0, 1_000_000_000), 2 => r.range(0, 86_400_000_000_000), _ => 1000 };
        v.push(format!("host\t{}\t{}\t{}\t{}\t{}\t{}\t{}", wall, r.range(0, 1 << 60), tick, r.below(1 << 40), *r.pick(TZS), r.below(4), *r.pick(&[0, 0, 1, 2, 3, 4, 5, 7])));
    }
    v
}
