//! Deterministic simulation of satellite-rs and its callers.
//!
//!   sim check ID          run the seeded search for one property
//!   sim replay FILE       run one recorded plan
//!   sim show ID RUN       print the plan of one run (VERIF_SEED)
//!   sim digest ID N W     digest of the traces of N runs on W workers
//!   sim selftest          the reference model against published vectors
//!   sim list              the properties

mod cal;
mod clock;
mod conc;
mod core;
mod feed;
mod hist;
mod piece;
mod refsgp4;
mod rng;
mod rt;
mod sut;
mod tle;

use crate::core::{Plan, Scenario, Stats, Verdict, Violation};
use rng::{hash, hash_bytes, mix, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[global_allocator]
static ALLOC: rt::Counting = rt::Counting;

mod registry;
use registry::SCENARIOS;

fn scenario(id: &str) -> &'static Scenario {
    match SCENARIOS.iter().find(|s| s.id == id) {
        Some(s) => s,
        None => fail(&format!("unknown property {}", id)),
    }
}

fn fail(msg: &str) -> ! {
    eprintln!("sim: {}", msg);
    std::process::exit(2)
}

fn run_seed(seed: u64, id: &str, run: u64) -> u64 {
    mix(hash(hash_bytes(mix(seed), id.as_bytes()), run))
}
fn plan_of(s: &Scenario, seed: u64, run: u64, deep: bool) -> Plan {
    (s.gen)(&mut Rng::new(run_seed(seed, s.id, run)), deep)
}
fn digest_of(plan: &[String], v: &Verdict) -> u64 {
    let mut h = 0;
    for l in plan {
        h = hash_bytes(h, l.as_bytes());
    }
    h = hash(h, v.stats.sig);
    h = hash(h, v.stats.checks);
    for (k, n) in v.stats.faults.iter().chain(v.stats.probes.iter()) {
        h = hash(hash_bytes(h, k.as_bytes()), *n);
    }
    for (k, x) in &v.stats.maxima {
        h = hash(hash_bytes(h, k.as_bytes()), x.to_bits());
    }
    if let Some(x) = &v.violation {
        h = hash_bytes(hash_bytes(h, x.class.as_bytes()), x.msg.as_bytes());
    }
    h
}

/// What one worker brings back.
#[derive(Default)]
struct Batch {
    runs: u64,
    nontrivial: u64,
    stats: Stats,
    sigs: BTreeSet<u64>,
    forks: u64,
    digest: u64,
    bad: Option<(u64, Violation)>,
    capped: bool,
}

impl Batch {
    fn put(&self) -> Vec<u8> {
        let mut w = sut::W::default();
        for v in [self.runs, self.nontrivial, self.forks, self.digest, self.capped as u64, self.stats.checks] {
            w.u(v)
        }
        w.f(self.stats.sim_s);
        for m in [&self.stats.faults, &self.stats.probes] {
            w.u(m.len() as u64);
            for (k, v) in m {
                w.b(k.as_bytes());
                w.u(*v)
            }
        }
        w.u(self.stats.maxima.len() as u64);
        for (k, v) in &self.stats.maxima {
            w.b(k.as_bytes());
            w.f(*v)
        }
        w.u(self.sigs.len() as u64);
        for s in &self.sigs {
            w.u(*s)
        }
        match &self.bad {
            None => w.u(0),
            Some((i, v)) => {
                w.u(1);
                w.u(*i);
                w.b(v.class.as_bytes());
                w.b(v.msg.as_bytes())
            }
        }
        w.0
    }
    /// Merge; order of merging does not matter.
    fn add(&mut self, b: &[u8]) {
        let mut r = sut::R(b);
        self.runs += r.u();
        self.nontrivial += r.u();
        self.forks += r.u();
        self.digest = self.digest.wrapping_add(r.u());
        self.capped |= r.u() == 1;
        self.stats.checks += r.u();
        self.stats.sim_s += r.f();
        for _ in 0..r.u() {
            let k = r.s();
            let v = r.u();
            *self.stats.faults.entry(k).or_insert(0) += v;
        }
        for _ in 0..r.u() {
            let k = r.s();
            let v = r.u();
            *self.stats.probes.entry(k).or_insert(0) += v;
        }
        for _ in 0..r.u() {
            let k = r.s();
            let v = r.f();
            self.stats.max(&k, v);
        }
        for _ in 0..r.u() {
            let s = r.u();
            self.sigs.insert(s);
        }
        if r.u() == 1 {
            let i = r.u();
            let v = Violation { class: r.s(), msg: r.s() };
            if self.bad.as_ref().map_or(true, |b| i < b.0) {
                self.bad = Some((i, v));
            }
        }
    }
}

/// Runs `runs` seeds on `workers` processes; stops early at a violation, in such a way
/// that the reported one is always that of the smallest run number.
fn explore(s: &'static Scenario, seed: u64, deep: bool, runs: u64, workers: usize, cap_s: f64) -> Batch {
    let best: &AtomicU64 = unsafe { &*(rt::shared(4096) as *const AtomicU64) };
    best.store(u64::MAX, SeqCst);
    let t0 = rt::real_secs();
    let parts = rt::fan_out(workers, |w| {
        let mut b = Batch::default();
        let mut i = w as u64;
        while i < runs && i < best.load(SeqCst) {
            if rt::real_secs() - t0 > cap_s {
                b.capped = true;
                break;
            }
            let plan = plan_of(s, seed, i, deep);
            let v = (s.exec)(&plan);
            b.runs += 1;
            b.stats.checks += v.stats.checks;
            b.stats.sim_s += v.stats.sim_s;
            for (k, n) in &v.stats.faults {
                *b.stats.faults.entry(k.clone()).or_insert(0) += n;
            }
            for (k, n) in &v.stats.probes {
                *b.stats.probes.entry(k.clone()).or_insert(0) += n;
            }
            for (k, x) in &v.stats.maxima {
                b.stats.max(k, *x);
            }
            if v.stats.nontrivial {
                b.nontrivial += 1;
                b.sigs.insert(v.stats.sig);
            }
            b.digest = b.digest.wrapping_add(mix(digest_of(&plan, &v) ^ i));
            if let Some(x) = v.violation {
                best.fetch_min(i, SeqCst);
                b.bad = Some((i, x));
                break;
            }
            i += workers as u64;
        }
        b.forks = rt::forks();
        b.put()
    });
    let mut all = Batch::default();
    for (w, p) in parts.into_iter().enumerate() {
        match p {
            Some(v) => all.add(&v),
            None => fail(&format!("worker {} of {} failed", w, s.id)),
        }
    }
    all
}

// ---------------------------------------------------------------- minimisation
fn class_of(s: &Scenario, plan: &[String]) -> Option<Violation> {
    catch_unwind(AssertUnwindSafe(|| (s.exec)(plan))).ok().and_then(|v| v.violation)
}

/// Smaller values to try in place of a number, simplest first.
fn simpler(c: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    if let Ok(i) = c.parse::<i64>() {
        for v in [0, 1, i / 1000, i / 10, i / 2, i - i.signum()] {
            if v.unsigned_abs() < i.unsigned_abs() {
                out.push(v.to_string());
            }
        }
    } else if let Ok(x) = c.parse::<f64>() {
        if x.is_finite() && c.contains(|k: char| k.is_ascii_digit()) {
            for v in [0.0, 1.0, (x / 1000.0).round(), x.round(), (x * 100.0).round() / 100.0, (x / 2.0).round()] {
                let t = format!("{:?}", v);
                if t != c && t.len() < c.len() {
                    out.push(t);
                }
            }
        }
    }
    out.dedup();
    out
}

fn minimise(s: &Scenario, plan: &[String], class: &str, cap_s: f64) -> (Plan, u64) {
    let t0 = rt::real_secs();
    let mut cur: Plan = plan.to_vec();
    let mut tried = 0u64;
    let mut fails = |p: &[String]| {
        tried += 1;
        class_of(s, p).map_or(false, |v| v.class == class)
    };
    loop {
        let before = cur.clone();
        // drop lines, in halving chunks
        let mut chunk = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() && rt::real_secs() - t0 < cap_s {
                let mut c = cur.clone();
                c.drain(i..(i + chunk).min(c.len()));
                if fails(&c) {
                    cur = c
                } else {
                    i += chunk
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // simplify numbers
        for i in 0..cur.len() {
            let n = cur[i].split('\t').count();
            for k in 1..n {
                let mut again = true;
                while again && rt::real_secs() - t0 < cap_s {
                    again = false;
                    let cells: Vec<String> = cur[i].split('\t').map(|x| x.to_string()).collect();
                    for t in simpler(&cells[k]) {
                        let mut cc = cells.clone();
                        cc[k] = t;
                        let mut c = cur.clone();
                        c[i] = cc.join("\t");
                        if fails(&c) {
                            cur = c;
                            again = true;
                            break;
                        }
                    }
                }
            }
        }
        if cur == before || rt::real_secs() - t0 >= cap_s {
            break;
        }
    }
    (cur, tried)
}

// ---------------------------------------------------------------- output
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jnum(x: f64) -> String {
    if x.is_finite() { format!("{}", x) } else { "null".into() }
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}
fn clip(l: &str) -> String {
    let mut t: String = l.chars().take(240).collect();
    if t.len() < l.len() {
        t.push_str("...");
    }
    t
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

fn check(id: &str) -> i32 {
    let s = scenario(id);
    let seed = env_seed();
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let deep = tier == "thorough";
    let runs = std::env::var("SIM_RUNS").ok().and_then(|v| v.parse().ok()).unwrap_or(if deep { s.thorough } else { s.quick });
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8usize);
    let cap = std::env::var("SIM_CAP_S").ok().and_then(|v| v.parse().ok()).unwrap_or(if deep { 3000.0 } else { 400.0 });
    println!("simulating {} ({}): VERIF_SEED={} tier={} runs={} workers={}", id, s.title, seed as i64, tier, runs, workers);
    if rt::guards() == 0 {
        fail("the crate under test is not instrumented");
    }
    let t0 = rt::real_secs();
    let b = explore(s, seed, deep, runs, workers, cap);
    let wall = rt::real_secs() - t0;
    let mut replay = None;
    if let Some((run, v)) = &b.bad {
        println!("run {} violates {}: [{}] {}", run, id, v.class, clip(&v.msg));
        let plan = plan_of(s, seed, *run, deep);
        let (min, tried) = minimise(s, &plan, &v.class, 120.0);
        // the recorded text is that of the minimised plan
        let now = class_of(s, &min).unwrap_or_else(|| v.clone());
        let dir = format!("{}/replays", verif_dir());
        std::fs::create_dir_all(&dir).unwrap_or_else(|e| fail(&format!("{}: {}", dir, e)));
        let path = format!("{}/{}-{}-{}.replay", dir, id, seed as i64, run);
        let mut t = format!(
            "# property={} seed={} tier={} run={} class={}\n# {}\n# {} plan lines, minimised from {} in {} executions\n",
            id, seed as i64, tier, run, now.class, now.msg.replace(['\n', '\r'], " "), min.len(), plan.len(), tried
        );
        for l in &min {
            t.push_str(l);
            t.push('\n');
        }
        std::fs::write(&path, t).unwrap_or_else(|e| fail(&format!("{}: {}", path, e)));
        println!("minimised: {} of {} plan lines: {}", min.len(), plan.len(), clip(&now.msg));
        // it must fail the same way in a fresh process
        let me = std::env::current_exe().unwrap_or_else(|e| fail(&e.to_string()));
        let o = std::process::Command::new(me).arg("replay").arg(&path).output().unwrap_or_else(|e| fail(&e.to_string()));
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        if o.status.code() != Some(1) || !text.contains(&format!("class={} ", now.class)) {
            eprint!("{}", text);
            fail("the replay file does not reproduce the violation");
        }
        replay = Some(path);
    }
    let (hit, total) = rt::coverage();
    let samples: Vec<String> = (0..3)
        .filter(|i| *i < b.runs)
        .map(|i| {
            let p = plan_of(s, seed, i, deep);
            let l: Vec<String> = p.iter().take(25).map(|l| js(&clip(l))).collect();
            format!("{{\"run\": {}, \"run_seed\": {}, \"plan_lines\": {}, \"plan\": [{}]}}", i, js(&format!("{:016x}", run_seed(seed, id, i))), p.len(), l.join(", "))
        })
        .collect();
    let per_h = b.runs as f64 / wall * 3600.0;
    let maxima: Vec<String> = b.stats.maxima.iter().map(|(k, v)| format!("{}: {}", js(k), jnum(*v))).collect();
    let ev = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"runs_planned\": {}, \"stopped_by_time_cap\": {}, \"nontrivial_runs\": {},\n  \"runs_per_hour\": {}, \"seeds_per_hour\": {}, \"isolated_processes\": {},\n  \"facts_checked\": {}, \"simulated_seconds\": {},\n  \"faults_injected\": {},\n  \"rare_conditions_reached\": {},\n  \"distinct_measure\": \"distinct hashes of (schedule or fault trace, outcomes) over non-trivial runs\",\n  \"crate_edges_reached\": {}, \"crate_edges_total\": {},\n  \"maxima\": {{{}}},\n  \"trace_digest\": {},\n  \"components_real\": {}, \"components_stubbed\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        js(id), js(if deep { "thorough" } else { "quick" }), seed as i64,
        b.runs, b.sigs.len(), js(s.rule), runs, b.capped, b.nontrivial,
        per_h.round(), per_h.round(), b.forks, b.stats.checks, jnum(b.stats.sim_s),
        jmap(&b.stats.faults), jmap(&b.stats.probes), hit, total, maxima.join(", "), js(&format!("{:016x}", b.digest)),
        js(registry::REAL), js(registry::STUB), samples.join(", "),
        registry::ASSUMPTIONS.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "),
        wall, b.bad.is_some() as u32
    );
    let dir = format!("{}/evidence", verif_dir());
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| fail(&format!("{}: {}", dir, e)));
    std::fs::write(format!("{}/{}.json", dir, id), ev).unwrap_or_else(|e| fail(&e.to_string()));
    println!(
        "{} runs ({} distinct non-trivial), {} facts, {} isolated processes, {:.0} runs/h, crate edges {}/{}, {:.1} s",
        b.runs, b.sigs.len(), b.stats.checks, b.forks, per_h, hit, total, wall
    );
    match replay {
        Some(p) => {
            println!("VIOLATION property={} replay={}", id, p);
            1
        }
        None => {
            println!("property {} held", id);
            0
        }
    }
}

fn replay(path: &str) -> i32 {
    let t = std::fs::read_to_string(path).unwrap_or_else(|e| fail(&format!("{}: {}", path, e)));
    let id = t.split_whitespace().find_map(|w| w.strip_prefix("property=")).unwrap_or_else(|| fail("no property in the file")).to_string();
    let s = scenario(&id);
    let plan: Plan = t.lines().filter(|l| !l.starts_with("# ")).map(|l| l.to_string()).collect();
    let v = (s.exec)(&plan);
    println!("digest {:016x}", digest_of(&plan, &v));
    match v.violation {
        Some(x) => {
            println!("class={} {}", x.class, x.msg);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        None => {
            println!("property {} held on this plan", id);
            0
        }
    }
}

fn main() {
    rt::quiet_panics();
    rt::init_cov();
    rt::init_shared();
    let a: Vec<String> = std::env::args().collect();
    let get = |i: usize| a.get(i).cloned().unwrap_or_default();
    let code = match get(1).as_str() {
        "check" => check(&get(2)),
        "replay" => replay(&get(2)),
        "show" => {
            let s = scenario(&get(2));
            let p = plan_of(s, env_seed(), get(3).parse().unwrap_or(0), std::env::var("VERIF_TIER").as_deref() == Ok("thorough"));
            println!("# property={}", s.id);
            for l in p {
                println!("{}", l)
            }
            0
        }
        "digest" => {
            let s = scenario(&get(2));
            let deep = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
            let b = explore(s, env_seed(), deep, get(3).parse().unwrap_or(100), get(4).parse().unwrap_or(8), 1e9);
            println!("{} runs={} digest={:016x}", s.id, b.runs, b.digest);
            0
        }
        "selftest" => refsgp4_selftest(),
        "list" => {
            for s in SCENARIOS {
                println!("{} {}", s.id, s.title)
            }
            0
        }
        _ => fail("usage: sim check|replay|show|digest|selftest|list"),
    };
    std::process::exit(code)
}

fn refsgp4_selftest() -> i32 {
    registry::selftest()
}
