//! What every scenario gives the driver.
use crate::rng::Rng;
use crate::rt::End;
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Stats {
    /// fault kinds that fired, by name
    pub faults: BTreeMap<String, u64>,
    /// rare conditions reached, by name
    pub probes: BTreeMap<String, u64>,
    /// simulated seconds covered
    pub sim_s: f64,
    /// single checked facts
    pub checks: u64,
    /// signature of what happened (schedule, faults, outcomes)
    pub sig: u64,
    /// the run exercised the property (a fault fired inside work that was then checked)
    pub nontrivial: bool,
    /// largest work seen by kind of call
    pub maxima: BTreeMap<String, f64>,
}
impl Stats {
    pub fn fault(&mut self, k: &str) { *self.faults.entry(k.to_string()).or_insert(0) += 1 }
    pub fn faults_n(&mut self, k: &str, n: u64) { if n > 0 { *self.faults.entry(k.to_string()).or_insert(0) += n } }
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.to_string()).or_insert(0) += 1 }
    pub fn probe_n(&mut self, k: &str, n: u64) { if n > 0 { *self.probes.entry(k.to_string()).or_insert(0) += n } }
    pub fn max(&mut self, k: &str, v: f64) {
        let e = self.maxima.entry(k.to_string()).or_insert(f64::MIN);
        if v > *e { *e = v }
    }
    pub fn see(&mut self, v: u64) { self.sig = crate::rng::hash(self.sig, v) }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub struct Verdict {
    pub stats: Stats,
    pub violation: Option<Violation>,
}
impl Verdict {
    pub fn ok(stats: Stats) -> Verdict { Verdict { stats, violation: None } }
    pub fn bad(stats: Stats, class: &str, msg: String) -> Verdict {
        Verdict { stats, violation: Some(Violation { class: class.into(), msg }) }
    }
}

pub type Plan = Vec<String>;
pub struct Scenario {
    pub id: &'static str,
    pub title: &'static str,
    pub gen: fn(&mut Rng, bool) -> Plan,
    pub exec: fn(&[String]) -> Verdict,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

/// How an isolated execution that did not finish is reported.
pub fn abnormal(e: &End) -> (String, String) {
    match e {
        End::Done(_) => unreachable!(),
        End::OverBudget(op, n) => ("no-return".into(), format!("call #{} had not returned after {} steps of work", op, n)),
        End::Deadlock => ("deadlock".into(), "all callers blocked on each other".into()),
        End::Crashed(w, op) if w == "harness" => panic!("harness failure in child at op {}", op),
        End::Crashed(w, op) => (if w == "hang" { "no-return" } else { "crash" }.into(), format!("process ended by {} in call #{}", w, op)),
    }
}

pub fn cells(l: &str) -> Vec<&str> { l.split('\t').collect() }
