//! Calls into the crate under test, with every way a call can end made a value.
//! Only ever executed inside an isolated child.

use crate::cal::Reading;
use crate::tle::Pub;
use satellite::io::Satrec;
use satellite::propogation::dpper::DpperOpsMode;
use satellite::propogation::sgp4::{SGP4Error, SGP4Result};
use satellite::propogation::sgp4init::SGP4InitOptions;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
pub enum Out {
    Ok([f64; 6]),
    Err(u8),
    Panic,
}

impl Out {
    pub fn same_bits(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Ok(a), Out::Ok(b)) => a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()),
            (Out::Err(a), Out::Err(b)) => a == b,
            (Out::Panic, Out::Panic) => true,
            _ => false,
        }
    }
    pub fn close(&self, o: &Out, tp: f64, tv: f64) -> bool {
        match (self, o) {
            (Out::Ok(a), Out::Ok(b)) => (0..6).all(|i| {
                a[i].to_bits() == b[i].to_bits() || (a[i] - b[i]).abs() <= if i < 3 { tp } else { tv } || (a[i].is_nan() && b[i].is_nan())
            }),
            (Out::Err(a), Out::Err(b)) => a == b,
            (Out::Panic, Out::Panic) => true,
            _ => false,
        }
    }
    pub fn text(&self) -> String {
        match self {
            Out::Ok(v) => format!("r=({:?},{:?},{:?})km v=({:?},{:?},{:?})km/s", v[0], v[1], v[2], v[3], v[4], v[5]),
            Out::Err(c) => format!("error {}", c),
            Out::Panic => "PANIC".into(),
        }
    }
    pub fn put(&self, w: &mut W) {
        match self {
            Out::Ok(v) => {
                w.u(0);
                for x in v {
                    w.f(*x)
                }
            }
            Out::Err(c) => {
                w.u(1);
                w.u(*c as u64)
            }
            Out::Panic => w.u(2),
        }
    }
    pub fn get(r: &mut R) -> Out {
        match r.u() {
            0 => Out::Ok([r.f(), r.f(), r.f(), r.f(), r.f(), r.f()]),
            1 => Out::Err(r.u() as u8),
            _ => Out::Panic,
        }
    }
    pub fn hash(&self, h: u64) -> u64 {
        let mut w = W::default();
        self.put(&mut w);
        crate::rng::hash_bytes(h, &w.0)
    }
}

fn out(r: std::thread::Result<Result<SGP4Result, SGP4Error>>) -> Out {
    match r {
        Ok(Ok(s)) => Out::Ok([s.position.x, s.position.y, s.position.z, s.velocity.x, s.velocity.y, s.velocity.z]),
        Ok(Err(e)) => Out::Err(e.code()),
        Err(_) => Out::Panic,
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> std::thread::Result<T> {
    catch_unwind(AssertUnwindSafe(f))
}

pub fn predict(rec: &mut Satrec, t: f64) -> Out {
    out(guard(|| satellite::propogation::sgp4::sgp4(rec, t)))
}
pub fn predict_at(rec: &Satrec, at: Reading) -> Out {
    let d = at.chrono();
    out(guard(|| satellite::propogation::propogate_datetime(rec, d)))
}
/// Operation modes: AFSPC, improved, and neither.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode { A, I, U }
impl From<bool> for Mode {
    fn from(afspc: bool) -> Mode { if afspc { Mode::A } else { Mode::I } }
}
pub fn init(rec: &mut Satrec, mode: impl Into<Mode>, p: &Pub) -> Out {
    let el = p.elements();
    let o = SGP4InitOptions {
        opsmode: match mode.into() {
            Mode::A => DpperOpsMode::A,
            Mode::I => DpperOpsMode::I,
            Mode::U => DpperOpsMode::UNDEFINED,
        },
        satn: p.satnum.clone(),
        epoch: el.jd - 2433281.5,
        xbstar: el.bstar,
        xecco: el.ecc,
        xargpo: el.argp,
        xinclo: el.incl,
        xmo: el.ma,
        xno: el.n,
        xnodeo: el.node,
    };
    let r = out(guard(|| satellite::propogation::sgp4init::sgp4init(rec, o)));
    // initialisation takes the epoch in its own scale; calendar predictions go by this one
    rec.jdsatepoch = el.jd;
    r
}
pub fn read_pair(a: &str, b: &str) -> Result<Satrec, String> {
    match guard(|| satellite::io::twoline2satrec(a, b)) {
        Ok(Ok(r)) => Ok(r),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(_) => Err("PANIC".into()),
    }
}

/// Which variant an enumeration holds.
#[allow(dead_code)]
fn variant<T>(x: &T) -> u64 {
    use std::hash::{Hash, Hasher};
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    std::mem::discriminant(x).hash(&mut h);
    h.finish()
}

pub fn mode_of(s: &Satrec) -> u64 { variant(&s.operationmode) }

// snap, resonant, deep: written by build.rs from the record's definition
include!(concat!(env!("OUT_DIR"), "/fields.rs"));

/// What a reader decoded, and what the record predicts: the observable content.
#[derive(Clone, Debug, PartialEq)]
pub struct Content {
    pub name: Option<String>,
    pub satnum: String,
    pub epochyr: i64,
    /// epochdays ndot nddot bstar inclo nodeo ecco argpo mo no jdsatepoch a alta altp
    pub num: Vec<f64>,
    pub probe: Vec<u64>,
    pub status: u64,
}
impl Content {
    pub fn of(s: &Satrec, probe: bool) -> Content {
        let mut pr = vec![];
        if probe {
            for t in [0.0, 97.0, -1500.0] {
                let mut c = s.clone();
                pr.push(predict(&mut c, t).hash(5));
            }
        }
        Content {
            name: s.name.clone(),
            satnum: s.satnum.clone(),
            epochyr: s.epochyr,
            num: vec![s.epochdays, s.ndot, s.nddot, s.bstar, s.inclo, s.nodeo, s.ecco, s.argpo, s.mo, s.no, s.jdsatepoch, s.a, s.alta, s.altp],
            probe: pr,
            status: s.error as u64,
        }
    }
    pub fn same_elements(&self, o: &Content) -> bool {
        self.satnum == o.satnum
            && self.epochyr == o.epochyr
            && self.num.iter().zip(&o.num).all(|(a, b)| a.to_bits() == b.to_bits())
            && self.probe == o.probe
            && self.status == o.status
    }
    pub fn put(&self, w: &mut W) {
        w.u(self.name.is_some() as u64);
        w.b(self.name.as_deref().unwrap_or("").as_bytes());
        w.b(self.satnum.as_bytes());
        w.u(self.epochyr as u64);
        w.u(self.status);
        w.u(self.num.len() as u64);
        for x in &self.num {
            w.f(*x)
        }
        w.u(self.probe.len() as u64);
        for x in &self.probe {
            w.u(*x)
        }
    }
    pub fn get(r: &mut R) -> Content {
        let has = r.u() == 1;
        let name = r.s();
        let satnum = r.s();
        let epochyr = r.u() as i64;
        let status = r.u();
        let n = r.u();
        let num = (0..n).map(|_| r.f()).collect();
        let n = r.u();
        let probe = (0..n).map(|_| r.u()).collect();
        Content { name: if has { Some(name) } else { None }, satnum, epochyr, num, probe, status }
    }
    pub fn show(&self) -> String {
        format!("name={:?} satnum={:?} epochyr={} epochdays={:?} ndot={:?} nddot={:?} bstar={:?} incl={:?} node={:?} ecc={:?} argp={:?} ma={:?} no={:?} jd={:?} a={:?} alta={:?} altp={:?}",
            self.name, self.satnum, self.epochyr, self.num[0], self.num[1], self.num[2], self.num[3], self.num[4], self.num[5],
            self.num[6], self.num[7], self.num[8], self.num[9], self.num[10], self.num[11], self.num[12], self.num[13])
    }
}

// ---------------------------------------------------------------- codec
#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn u(&mut self, v: u64) { self.0.extend_from_slice(&v.to_le_bytes()) }
    pub fn f(&mut self, v: f64) { self.u(v.to_bits()) }
    pub fn b(&mut self, v: &[u8]) { self.u(v.len() as u64); self.0.extend_from_slice(v) }
}
pub struct R<'a>(pub &'a [u8]);
impl R<'_> {
    pub fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    pub fn f(&mut self) -> f64 { f64::from_bits(self.u()) }
    pub fn b(&mut self) -> Vec<u8> {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a.to_vec()
    }
    pub fn s(&mut self) -> String { String::from_utf8_lossy(&self.b()).into_owned() }
    pub fn end(&self) -> bool { self.0.is_empty() }
}
