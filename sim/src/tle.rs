//! The publisher: element sets as integers at the precision of the text, their
//! encoding to two 69-column lines, and an independent decoding of such lines.

use crate::cal;
use crate::refsgp4::Elements;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Pub {
    pub satnum: String,
    pub cls: char,
    pub intl: String,
    pub yy: i64,
    /// day of year in 1e-8 day
    pub doy8: i64,
    /// 1e-8 rev/day^2
    pub ndot8: i64,
    pub nddot: (i64, i64),
    pub bstar: (i64, i64),
    pub elset: i64,
    pub incl4: i64,
    pub node4: i64,
    pub ecc7: i64,
    pub argp4: i64,
    pub ma4: i64,
    /// 1e-8 rev/day
    pub mm8: i64,
    pub rev: i64,
    /// how a positive mantissa is signed
    pub plus: bool,
    /// how numbers are padded: 1 object number with blanks, 2 day with blanks, 4 angles with
    /// zeros, 8 mean motion with zeros, 16 counters with zeros
    pub style: u8,
}

fn lead_blank(s: &str) -> bool {
    s.starts_with(' ')
}
fn blanks(s: &str) -> String {
    let t = s.trim_start_matches('0');
    if !t.bytes().all(|b| b.is_ascii_digit()) || t.is_empty() { return s.to_string() }
    format!("{:>1$}", t, s.len())
}

fn checksum(s: &str) -> u32 {
    s.bytes().map(|b| match b { b'0'..=b'9' => (b - b'0') as u32, b'-' => 1, _ => 0 }).sum::<u32>() % 10
}

fn expo(m: i64, e: i64, plus: bool) -> String {
    let sign = if m < 0 { '-' } else if plus { '+' } else { ' ' };
    format!("{}{:05}{}{}", sign, m.abs(), if e < 0 || (e == 0 && !plus) { '-' } else { '+' }, e.abs())
}

impl Pub {
    pub fn lines(&self) -> (String, String) {
        let sgn = if self.ndot8 < 0 { '-' } else if self.plus { '+' } else { ' ' };
        let num = if self.style & 1 != 0 { blanks(&self.satnum) } else { self.satnum.clone() };
        let day = format!("{:03}", self.doy8 / 100_000_000);
        let count = |v: i64, w: usize| if self.style & 16 != 0 { format!("{:0w$}", v) } else { format!("{:>w$}", v) };
        let mut a = format!(
            "1 {}{} {:<8} {:02}{}.{:08} {}.{:08} {} {} 0 {}",
            num, self.cls, self.intl, self.yy, if self.style & 2 != 0 { blanks(&day) } else { day }, self.doy8 % 100_000_000,
            sgn, self.ndot8.abs(), expo(self.nddot.0, self.nddot.1, self.plus),
            expo(self.bstar.0, self.bstar.1, self.plus), count(self.elset, 4)
        );
        a.push_str(&checksum(&a).to_string());
        let deg = |v: i64| if self.style & 4 != 0 { format!("{:03}.{:04}", v / 10000, v % 10000) } else { format!("{:>3}.{:04}", v / 10000, v % 10000) };
        let mm = self.mm8 / 100_000_000;
        let mut b = format!(
            "2 {} {} {} {:07} {} {} {}.{:08}{}",
            num, deg(self.incl4), deg(self.node4), self.ecc7, deg(self.argp4), deg(self.ma4),
            if self.style & 8 != 0 { format!("{:02}", mm) } else { format!("{:>2}", mm) }, self.mm8 % 100_000_000, count(self.rev, 5)
        );
        b.push_str(&checksum(&b).to_string());
        debug_assert!(a.len() == 69 && b.len() == 69);
        (a, b)
    }

    /// Decode lines this publisher wrote (strict: exactly its own format).
    pub fn decode(a: &str, b: &str) -> Option<Pub> {
        if a.len() != 69 || b.len() != 69 || !a.is_ascii() || !b.is_ascii() {
            return None;
        }
        let int = |s: &str| -> Option<i64> {
            let t = s.trim_start();
            if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) { return None }
            t.parse().ok()
        };
        let fixed = |s: &str| -> Option<i64> { int(&s.replacen('.', "", 1)) };
        let signed = |s: &str| -> Option<i64> {
            let neg = s.starts_with('-');
            if !matches!(s.as_bytes()[0], b'-' | b' ' | b'+') { return None }
            Some(int(&s[1..])? * if neg { -1 } else { 1 })
        };
        let ex = |s: &str| -> Option<(i64, i64)> {
            let e = int(&s[7..8])?;
            Some((signed(&s[..6])?, if &s[6..7] == "-" { -e } else { e }))
        };
        let nd = &a[33..43];
        let lead0 = |s: &str| s.starts_with('0');
        let style = lead_blank(&a[2..7]) as u8 | (lead_blank(&a[20..23]) as u8) << 1
            | ([&b[8..11], &b[17..20], &b[34..37], &b[43..46]].iter().any(|s| lead0(s)) as u8) << 2 | (lead0(&b[52..54]) as u8) << 3
            | ((lead0(&a[64..68]) || lead0(&b[63..68])) as u8) << 4;
        let p = Pub {
            style,
            satnum: a[2..7].replace(' ', "0"),
            cls: a.as_bytes()[7] as char,
            intl: a[9..17].trim_end().to_string(),
            yy: int(&a[18..20])?,
            doy8: fixed(&a[20..32])?,
            ndot8: signed(&format!("{}{}", &nd[..1], &nd[2..]))?,
            nddot: ex(&a[44..52])?,
            bstar: ex(&a[53..61])?,
            elset: int(&a[64..68])?,
            incl4: fixed(&b[8..16])?,
            node4: fixed(&b[17..25])?,
            ecc7: int(&b[26..33])?,
            argp4: fixed(&b[34..42])?,
            ma4: fixed(&b[43..51])?,
            mm8: fixed(&b[52..63])?,
            rev: int(&b[63..68])?,
            plus: a.as_bytes()[53] == b'+' || a.as_bytes()[44] == b'+' || a.as_bytes()[33] == b'+' || &a[50..52] == "+0" || &a[59..61] == "+0",
        };
        let (x, y) = p.lines();
        if x == a && y == b { Some(p) } else { None }
    }

    pub fn year(&self) -> i64 {
        if self.yy < 57 { self.yy + 2000 } else { self.yy + 1900 }
    }
    /// exact epoch instant
    pub fn epoch_ns(&self) -> i128 {
        let jan0 = cal::days_from_civil(self.year(), 1, 1) - 1;
        jan0 as i128 * cal::DAY_NS + self.doy8 as i128 * 864_000
    }
    pub fn jd(&self) -> f64 {
        let jan0 = cal::days_from_civil(self.year(), 1, 1) - 1;
        cal::JD_UNIX + jan0 as f64 + self.doy8 as f64 / 1e8
    }
    fn pow(m: (i64, i64)) -> f64 {
        // exact decimal value, correctly rounded
        format!("{}e{}", m.0, m.1 - 5).parse().unwrap()
    }
    pub fn bstar_f(&self) -> f64 { Pub::pow(self.bstar) }
    pub fn nddot_f(&self) -> f64 { Pub::pow(self.nddot) }
    pub fn ecc(&self) -> f64 { self.ecc7 as f64 / 1e7 }
    pub fn rad(v4: i64) -> f64 { v4 as f64 / 1e4 * (std::f64::consts::PI / 180.0) }
    /// rad/min
    pub fn n(&self) -> f64 { self.mm8 as f64 / 1e8 * 2.0 * std::f64::consts::PI / 1440.0 }
    pub fn elements(&self) -> Elements {
        Elements {
            jd: self.jd(), bstar: self.bstar_f(), ecc: self.ecc(), argp: Pub::rad(self.argp4),
            incl: Pub::rad(self.incl4), ma: Pub::rad(self.ma4), n: self.n(), node: Pub::rad(self.node4),
        }
    }

    pub fn class(&self) -> &'static str {
        let mm = self.mm8 as f64 / 1e8;
        let e = self.ecc();
        let peri = perigee(mm, e);
        if mm > 6.4 {
            if peri < 98.0 { "near_below_98km" } else if peri < 156.0 { "near_below_156km" }
            else if peri < 220.0 { "near_below_220km" } else if e < 1e-4 { "near_circular" } else { "near_earth" }
        } else if mm > 0.8 && mm < 1.2 { "deep_day_resonant" }
        else if mm > 1.893 && mm < 2.117 && e >= 0.5 { "deep_half_day_resonant" }
        else if self.incl4 < 114_000 { "deep_low_inclination" }
        else { "deep_non_resonant" }
    }
}

const MU: f64 = 398600.5;
const RE: f64 = 6378.137;
/// Rev/day of an orbit with this semi-major axis.
fn mm_of(a: f64) -> f64 {
    (MU / (a * a * a)).sqrt() * 86400.0 / (2.0 * std::f64::consts::PI)
}
fn a_of(mm: f64) -> f64 {
    let n = mm * 2.0 * std::f64::consts::PI / 86400.0;
    (MU / (n * n)).cbrt()
}
pub fn perigee(mm: f64, e: f64) -> f64 {
    a_of(mm) * (1.0 - e) - RE
}

fn gen_incl(r: &mut Rng) -> i64 {
    match r.below(14) {
        0 => 0,
        1 => r.range(1, 300),
        2 => 1_800_000 - r.range(1, 3000),
        3 => 1_800_000,
        4 => r.range(29_000, 31_000),          // about 3 degrees
        5 => r.range(112_000, 117_000),        // about 0.2 rad
        6 => 634_349 + r.range(-50, 50),       // critical
        7 => 900_000 + r.range(-20, 20),
        8 => 1_770_000 + r.range(-1000, 1000), // about 177 degrees
        9 => r.range(0, 200_000),
        _ => r.range(0, 1_700_000),
    }
}
fn gen_angle(r: &mut Rng) -> i64 {
    match r.below(12) {
        0 => 0,
        1 => 3_599_999 - r.range(0, 3),
        2 => r.range(0, 20),
        3 => *r.pick(&[900_000, 1_800_000, 2_700_000]),
        _ => r.range(0, 3_599_999),
    }
}

pub fn gen_satnum(r: &mut Rng) -> String {
    match r.below(8) {
        0 => format!("{:05}", r.range(1, 99)),
        1 => format!("{}{:04}", *r.pick(&['A', 'B', 'T', 'Z']), r.range(0, 9999)),
        2 => "99999".into(),
        _ => format!("{:05}", r.range(1, 99999)),
    }
}

/// A plausible element set; `kind` picks the orbit family.
pub fn gen_kind(r: &mut Rng, kind: u64) -> Pub {
    let (mm, ecc): (f64, f64) = match kind {
        // near earth
        0 | 1 | 2 => {
            let h = r.uni(230.0, 2500.0);
            let e = if r.chance(1, 5) { 0.0 } else { r.logu(1e-7, 0.2) };
            (mm_of((RE + h) / (1.0 - e)), e)
        }
        // low perigees, around the drag branches
        3 => {
            let base = *r.pick(&[220.0, 156.0, 98.0, 130.0, 190.0]);
            let h = base + r.uni(-25.0, 25.0);
            let e = r.logu(1e-4, 0.3);
            (mm_of((RE + h) / (1.0 - e)), e)
        }
        // eccentric, near the 225 minute boundary
        4 => {
            let mm = 6.4 + r.uni(-0.1, 0.1);
            (mm, r.uni(0.0, 1.0 - (RE + 180.0) / a_of(mm)))
        }
        5 => {
            let mm = r.uni(6.5, 11.0);
            (mm, r.uni(0.0, 1.0 - (RE + 160.0) / a_of(mm)))
        }
        // geosynchronous and other day-resonant
        6 | 7 => (if r.chance(1, 2) { r.uni(0.99, 1.01) } else { r.uni(0.801, 1.199) }, if r.chance(2, 3) { r.logu(1e-6, 0.02) } else { r.uni(0.0, 0.7) }),
        // half-day resonant
        8 | 9 => {
            let e = match r.below(4) {
                0 => *r.pick(&[0.5, 0.65, 0.7, 0.715]) + r.uni(-0.003, 0.003),
                _ => r.uni(0.5, 0.75),
            };
            (if r.chance(1, 2) { r.uni(2.0, 2.01) } else { r.uni(1.893, 2.117) }, e)
        }
        // half-day, circular
        10 => (r.uni(1.9, 2.11), r.uni(0.0, 0.49)),
        // deep, not resonant
        11 => {
            let mm = r.uni(2.12, 6.39);
            (mm, r.uni(0.0, 1.0 - (RE + 180.0) / a_of(mm)))
        }
        12 => {
            let mm = r.logu(0.05, 0.79);
            (mm, r.uni(0.0, 0.9))
        }
        // very eccentric
        _ => {
            let mm = r.uni(0.1, 3.0);
            (mm, 1.0 - (RE + r.uni(150.0, 2000.0)) / a_of(mm))
        }
    };
    let ecc7 = ((ecc * 1e7).round() as i64).clamp(0, 9_999_999);
    let mm8 = ((mm * 1e8).round() as i64).clamp(1_000_000, 1_790_000_000);
    let mant = |r: &mut Rng| match r.below(5) { 0 => 0, 1 => r.range(1, 999), _ => r.range(10_000, 99_999) };
    let mut bm = mant(r);
    if r.chance(1, 5) { bm = -bm }
    let be = match r.below(8) { 0 => 0, 1 => -1, 2 => -2, 3 => r.range(-9, 0), _ => r.range(-5, -3) };
    let mut nm = if r.chance(1, 2) { 0 } else { mant(r) };
    if r.chance(1, 4) { nm = -nm }
    let yy = r.range(0, 99);
    let leap = (if yy < 57 { 2000 + yy } else { 1900 + yy }) % 4 == 0;
    let days = if leap { 366 } else { 365 };
    let day = match r.below(8) {
        0 => 1,
        1 => days,
        2 => *r.pick(&[31, 32, 59, 60, 61, 90, 91, 92, 181, 182, 304, 305, 334, 335]),
        _ => r.range(1, days),
    };
    let frac = match r.below(6) { 0 => 0, 1 => 99_999_999, 2 => 50_000_000, _ => r.range(0, 99_999_999) };
    Pub {
        satnum: gen_satnum(r),
        cls: 'U',
        intl: if r.chance(1, 10) { String::new() } else { format!("{:02}{:03}{}", r.range(57, 99), r.range(1, 150), *r.pick(&["A", "B", "AB", "CDE"])) },
        yy,
        doy8: day * 100_000_000 + frac,
        ndot8: match r.below(4) { 0 => 0, 1 => -r.range(0, 99_999), _ => r.range(0, 999_999) },
        nddot: (nm, if nm == 0 { 0 } else { r.range(-9, 0) }),
        bstar: (bm, if bm == 0 { 0 } else { be }),
        elset: r.range(0, 9999),
        incl4: gen_incl(r),
        node4: gen_angle(r),
        ecc7,
        argp4: gen_angle(r),
        ma4: gen_angle(r),
        mm8,
        rev: r.range(0, 99999),
        plus: r.chance(1, 12),
        style: 0,
    }
}

/// Less common but legal ways to publish: other paddings, classes and exponents.
pub fn restyle(p: &mut Pub, r: &mut Rng) {
    if r.chance(1, 4) { p.style = r.below(32) as u8 }
    if r.chance(1, 8) { p.cls = *r.pick(&['C', 'S', ' ']) }
    if p.bstar.0 != 0 && r.chance(1, 8) { p.bstar.1 = r.range(-9, 9) }
    if p.nddot.0 != 0 && r.chance(1, 8) { p.nddot.1 = r.range(-9, 9) }
    if p.bstar.0 == 0 && r.chance(1, 8) { p.bstar.1 = r.range(-9, 9) }
    if r.chance(1, 12) { p.ndot8 = r.range(-99_999_999, 99_999_999) }
    // normalised so that the text decodes to the same choice
    let (a, b) = p.lines();
    if let Some(q) = Pub::decode(&a, &b) { *p = q }
}

pub const KINDS: u64 = 14;
pub fn gen_any(r: &mut Rng) -> Pub {
    let k = r.below(KINDS);
    gen_kind(r, k)
}

pub fn gen_name(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "0 ISS (ZARYA)".into(),
        1 => format!("{}-{:03}A", r.range(1957, 2020), r.range(1, 99)),
        2 => "X".into(),
        3 => "0ZERO".into(),
        4 => "СПУТНИК 7".into(),
        5 => format!("0 OBJECT {}", r.range(1, 99)),
        6 => "SAT   WITH  GAPS".into(),
        7 => format!("NAME THAT IS MUCH LONGER THAN TWENTY-FOUR COLUMNS AND THEN SOME MORE {}", r.below(10)),
        8 => (*r.pick(&["0 0 X", "0 0 0", "00 7", "1KUNS-PF", "2MASS", "1998", "25544", "0 25544", "0 1 X", "0 2", "0x1", "0 0ZERO", "3SAT", "12 MONKEYS", "1-2"])).into(),
        9 => (*r.pick(&["#7", "// X", "\"QUOTED\"", "A_", "__", "-", ".", "SAT;1", "A,B", "(X)", "[DEB]", "NAN", "inf", "No. 1", "T\u{e9}l\u{e9}com", "SAT 1 ", "  LED", "0  GAP", "null", "<b>"])).into(),
        _ => format!("SAT {}", r.below(1000)),
    }
}

/// A time offset in minutes for a prediction, within `max` of epoch.
pub fn gen_minutes(r: &mut Rng, max: f64) -> f64 {
    let sign = if r.chance(1, 2) { 1.0 } else { -1.0 };
    let t = match r.below(12) {
        0 => 0.0,
        1 => 720.0 * r.range(0, 40) as f64,
        2 => 720.0 * r.range(0, 4000) as f64 + *r.pick(&[0.0, 1e-9, -1e-9, 1e-3, -1e-3, 360.0]),
        3 => r.uni(0.0, 1.0),
        4 => r.uni(0.0, 100.0),
        5 | 6 => r.uni(0.0, 1440.0),
        7 | 8 => r.uni(0.0, 14400.0),
        9 => r.uni(0.0, 525600.0),
        10 => r.logu(1e-6, max),
        _ => r.uni(0.0, max),
    };
    let t = t.min(max) * sign;
    // keep a text form that round-trips
    if t == 0.0 { 0.0 } else { t }
}
