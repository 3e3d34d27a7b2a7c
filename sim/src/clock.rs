//! Tracking sessions driven by a station clock: C09, C10, C11, C15, C17.
//!
//! Plan lines:
//!   rec L1 L2          a tracked record
//!   obs LAT LON H      the observer (radians, km)
//!   turn K             the caller's sidereal angle is counted K turns ahead
//!   pos X Y Z          a further inertial position to view at each reading
//!   now SECS.NANOS     the clock is read and everything is computed for that reading
//!   set SECS.NANOS / adv NS / stop   the clock is set, advances (negative: runs back), or stands still, and is read
use crate::cal::{self, Reading};
use crate::core::*;
use crate::rng::Rng;
use crate::rt;
use crate::sut::*;
use crate::tle::*;
use satellite::{transforms, Geodedic, Vec3};
use std::f64::consts::PI;

struct Session {
    recs: Vec<Pub>,
    obs: [f64; 3],
    pos: Vec<[f64; 3]>,
    /// where from the observer, and moving how
    mov: Vec<[f64; 6]>,
    now: Vec<Reading>,
    /// whole turns by which the caller's sidereal angle is ahead
    turn: i64,
}

fn session(lines: &[String], st: &mut Stats) -> Session {
    let mut s = Session { recs: vec![], obs: [0.7, 0.2, 0.1], pos: vec![], mov: vec![], now: vec![], turn: 0 };
    for l in lines {
        let c = cells(l);
        let f = |k: usize| -> f64 { c.get(k).and_then(|x| x.parse().ok()).unwrap_or(0.0) };
        match c[0] {
            "rec" if c.len() == 3 => {
                if let Some(p) = Pub::decode(c[1], c[2]) {
                    s.recs.push(p)
                }
            }
            "obs" if c.len() == 4 => s.obs = [f(1), f(2), f(3)],
            "turn" if c.len() == 2 => {
                s.turn = (f(1) as i64).clamp(-2, 2);
                if s.turn != 0 { st.fault("angle_counted_in_another_turn") }
            }
            "pos" if c.len() == 4 => s.pos.push([f(1), f(2), f(3)]),
            "mov" if c.len() == 7 => s.mov.push([f(1), f(2), f(3), f(4), f(5), f(6)]),
            "set" if c.len() == 2 => {
                if let Some(r) = Reading::parse(c[1]) {
                    if !s.now.is_empty() {
                        st.fault("clock_set");
                    }
                    if r.nanos >= 1_000_000_000 {
                        st.fault("leap_second_reading");
                    }
                    s.now.push(r)
                }
            }
            "adv" if c.len() == 2 => {
                if let (Some(last), Ok(d)) = (s.now.last().copied(), c[1].parse::<i64>()) {
                    let r = Reading::from_ns(last.ns() + d as i128);
                    st.fault(match d {
                        0 => "clock_stopped",
                        d if d < 0 => "clock_backwards",
                        d if d < 1_000_000 => "clock_micro_tick",
                        d if d > 86_400_000_000_000 => "clock_jump_over_a_day",
                        _ => "clock_tick",
                    });
                    s.now.push(r)
                }
            }
            _ => {}
        }
    }
    // stay within the range the properties speak about
    let (lo, hi) = (cal::days_from_civil(1950, 1, 1) * 86400, cal::days_from_civil(2091, 1, 1) * 86400 - 1);
    s.now.retain(|r| r.secs >= lo && r.secs <= hi);
    for w in s.now.windows(2) {
        st.sim_s += ((w[1].ns() - w[0].ns()) as f64 / 1e9).abs();
    }
    for r in &s.now {
        st.see(r.ns() as u64);
        let d = r.secs.div_euclid(86400);
        let (_, m, dd) = cal::civil_from_days(d);
        if m == 2 && dd == 29 { st.probe("leap_day") }
        if (m == 12 && dd == 31) || (m == 1 && dd == 1) { st.probe("year_end") }
        if r.secs.rem_euclid(86400) == 0 { st.probe("midnight_second") }
        if r.nanos % 1_000_000 != 0 { st.probe("sub_millisecond") }
    }
    s
}

/// A station clock that ticks, jumps, stops, runs backwards and meets the calendar's corners.
fn gen_clock(r: &mut Rng, v: &mut Plan, around: Option<&Pub>, n: i64) {
    // far readings cost a resonant record tens of thousands of integration steps: mostly stay nearer
    let home = around.filter(|p| p.class().contains("resonant") && !p.class().contains("non"));
    let start = |r: &mut Rng| -> Reading {
        if let Some(p) = home {
            if !r.chance(1, 8) {
                let ns = p.epoch_ns() + (gen_minutes(r, 2e6) * 60e9) as i128;
                let x = Reading::from_ns(ns);
                return match r.below(4) {
                    0 => Reading { secs: x.secs.div_euclid(86400) * 86400 + 86399, nanos: r.below(2_000_000_000) as u32 },
                    1 => Reading { secs: x.secs, nanos: r.below(1_000_000_000) as u32 },
                    _ => x,
                };
            }
        }
        let y = r.range(1950, 2090);
        let leap = cal::days_from_civil(y + 1, 1, 1) - cal::days_from_civil(y, 1, 1) == 366;
        match r.below(9) {
            0 => Reading { secs: cal::days_from_civil(y, 12, 31) * 86400 + 86399, nanos: 1_000_000_000 + r.below(1_000_000_000) as u32 },
            1 => Reading { secs: cal::days_from_civil(y, 6, 30) * 86400 + 86399, nanos: r.below(2_000_000_000) as u32 },
            2 => Reading { secs: cal::days_from_civil(y, 2, if leap { 29 } else { 28 }) * 86400 + r.range(0, 86399), nanos: r.below(1_000_000_000) as u32 },
            3 => Reading { secs: cal::days_from_civil(y, r.range(1, 12), 1) * 86400 - r.range(0, 1), nanos: *r.pick(&[0, 1, 999_999_999, 500_000_000, 999, 1_000_000]) },
            4 => Reading { secs: cal::days_from_civil(2000, 1, 1) * 86400 + 43200 + r.range(-2, 2), nanos: r.below(1_000_000_000) as u32 },
            5 | 6 => match around {
                Some(p) => Reading::from_ns(p.epoch_ns() + (gen_minutes(r, 2e7) * 60e9) as i128 + r.range(0, 999) as i128),
                None => Reading { secs: r.range(cal::days_from_civil(1950, 1, 1), cal::days_from_civil(2090, 12, 30)) * 86400 + r.range(0, 86399), nanos: 0 },
            },
            _ => Reading { secs: r.range(cal::days_from_civil(1950, 1, 1), cal::days_from_civil(2090, 12, 30)) * 86400 + r.range(0, 86399), nanos: r.below(1_000_000_000) as u32 },
        }
    };
    let x = start(r);
    v.push(format!("set\t{}", x.text()));
    let style = r.below(5);
    for _ in 0..n {
        let k = if r.chance(1, 3) { r.below(5) } else { style };
        match k {
            0 => { let x = start(r); v.push(format!("set\t{}", x.text())) }
            1 => v.push(format!("adv\t{}", *r.pick(&[0i64, 1, 1000, 1_000_000, 10_000_000, 250_000_000, 999_999_999, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000]))),
            2 => v.push(format!("adv\t{}", -r.range(0, 5_000_000_000))),
            3 => v.push(format!("adv\t{}", r.range(0, 2_000_000))),
            _ => {
                let d = if home.is_some() { 40 } else { 400 };
                v.push(format!("adv\t{}", r.range(-86_400_000_000_000 * d, 86_400_000_000_000 * d)))
            }
        }
    }
}

// ---------------------------------------------------------------- C09
const AROUND: [f64; 6] = [-1.0, 1.0, -0.5, 0.5, -0.2, 0.2];
pub fn exec_c09(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let s = session(lines, &mut st);
    let end = rt::isolate(|| {
        let mut w = W::default();
        for p in &s.recs {
            let (a, b) = p.lines();
            match read_pair(&a, &b) {
                Err(_) => w.u(0),
                Ok(mut live) => {
                    w.u(1);
                    for now in &s.now {
                        let m = (now.ns() - p.epoch_ns()) as f64 / 60e9;
                        let got = predict_at(&live, *now);
                        // the same question in minutes, and, where that differs, just either side of it
                        let mut f = read_pair(&a, &b).unwrap();
                        let ask = predict(&mut f, m);
                        let same = got.close(&ask, 1e-4, 1e-8);
                        got.put(&mut w);
                        ask.put(&mut w);
                        for d in AROUND {
                            let d = d * 2e-4 / 60.0;
                            let mut f = read_pair(&a, &b).unwrap();
                            if same { ask.put(&mut w) } else { predict(&mut f, m + d).put(&mut w) }
                        }
                        // the record also lives on between readings
                        predict(&mut live, (m * 0.5).clamp(-5e6, 5e6));
                    }
                }
            }
        }
        w.0
    });
    let b = match &end {
        rt::End::Done(b) => b,
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    let mut r = R(b);
    for p in &s.recs {
        if r.u() == 0 {
            continue;
        }
        st.probe(&format!("orbit_{}", p.class()));
        for now in &s.now {
            let got = Out::get(&mut r);
            let ask: Vec<Out> = (0..=AROUND.len()).map(|_| Out::get(&mut r)).collect();
            let say = |c: &str, m: String, st: Stats| Verdict::bad(st, c, format!("satellite {} (epoch {}) at {}: {}", p.satnum, Reading::from_ns(p.epoch_ns()).show(), now.show(), m));
            if let Out::Panic = got {
                return say("panic", "the prediction panicked".into(), st);
            }
            match (&got, &ask[0]) {
                (Out::Ok(g), Out::Ok(w)) => {
                    if !w.iter().all(|x| x.is_finite()) { continue }
                    let v = w[3..].iter().map(|x| x * x).sum::<f64>().sqrt();
                    let rad2 = w[..3].iter().map(|x| x * x).sum::<f64>().max(1.0);
                    let acc = 398600.5 / rad2;
                    let dp = (0..3).map(|i| (g[i] - w[i]).powi(2)).sum::<f64>().sqrt();
                    let dv = (3..6).map(|i| (g[i] - w[i]).powi(2)).sum::<f64>().sqrt();
                    // a fifth of a millisecond of motion (plus a micrometre)
                    let tp = 2e-4 * v * 1.05 + 1e-6;
                    let tv = 2e-4 * acc * 1.5 + 1e-8;
                    // where the model itself jumps (integration steps, wrapped angles) allow its own jump
                    let (mut jp, mut jv) = (0.0f64, 0.0f64);
                    for o in &ask[1..] {
                        if let Out::Ok(o) = o {
                            jp = jp.max((0..3).map(|i| (o[i] - w[i]).powi(2)).sum::<f64>().sqrt());
                            jv = jv.max((3..6).map(|i| (o[i] - w[i]).powi(2)).sum::<f64>().sqrt());
                        }
                    }
                    // past its last sensible value the theory's polynomials run away: no motion to speak of
                    if rad2 > 1e12 || jp > 100.0 * tp {
                        st.probe("left_out_theory_runs_away");
                        continue;
                    }
                    let (tp, tv) = (tp.max(1.2 * jp), tv.max(1.2 * jv));
                    st.checks += 1;
                    st.nontrivial = true;
                    st.max("position_difference_over_tolerance", dp / tp);
                    st.max("velocity_difference_over_tolerance", dv / tv);
                    if !(dp <= tp && dv <= tv) {
                        return say("clock", format!("off by {:.6} km and {:.9} km/s, that is {:.6} s of motion, from the prediction for the exact elapsed time", dp, dv, dp / v), st);
                    }
                }
                (Out::Err(a), Out::Err(b)) if a == b => {
                    st.checks += 1;
                }
                (a, b) => {
                    // a failure may begin or end within the tolerance
                    let steady = ask[1..].iter().all(|o| match (o, b) {
                        (Out::Ok(_), Out::Ok(_)) => true,
                        (Out::Err(x), Out::Err(y)) => x == y,
                        _ => false,
                    });
                    if steady {
                        return say("outcome", format!("{} but for the exact elapsed time {}", a.text(), b.text()), st);
                    }
                    st.probe("left_out_boundary_of_failure");
                }
            }
        }
    }
    Verdict::ok(st)
}

pub fn gen_c09(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let p = gen_any(r);
    let (a, b) = p.lines();
    v.push(format!("rec\t{}\t{}", a, b));
    if r.chance(1, 3) {
        let q = gen_any(r);
        let (a, b) = q.lines();
        v.push(format!("rec\t{}\t{}", a, b));
    }
    let n = r.range(3, if deep { 40 } else { 14 });
    gen_clock(r, &mut v, Some(&p), n);
    v
}

// ---------------------------------------------------------------- C10
/// IAU-1982 sidereal time of an exact instant, in radians.
pub fn gmst_exact(ns: i128) -> f64 {
    let j2000 = (cal::days_from_civil(2000, 1, 1) as i128) * cal::DAY_NS + cal::DAY_NS / 2;
    let e = ns - j2000;
    let day = e.div_euclid(cal::DAY_NS) as f64;
    let part = e.rem_euclid(cal::DAY_NS) as f64 / cal::DAY_NS as f64;
    let t = (day + part) / 36525.0;
    // 876600 h per century is one turn of 86400 s per day: only the day's fraction counts
    let s = 67310.54841 + 86400.0 * part + (8640184.812866 * t) % 86400.0 + 0.093104 * t * t - 6.2e-6 * t * t * t;
    s.rem_euclid(86400.0) / 86400.0 * 2.0 * PI
}
fn angle_gap(a: f64, b: f64) -> f64 {
    let d = (a - b).rem_euclid(2.0 * PI);
    d.min(2.0 * PI - d)
}
/// The instant a Julian date (a double) stands for.
fn ns_of_jd(jd: f64) -> i128 {
    // jd - 2440587.5 is exact for dates of our range up to the double's own grain
    let d = jd - cal::JD_UNIX;
    let day = d.floor();
    day as i128 * cal::DAY_NS + ((d - day) * cal::DAY_NS as f64) as i128
}

pub fn exec_c10(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let s = session(lines, &mut st);
    let end = rt::isolate(|| {
        let mut w = W::default();
        for now in &s.now {
            let d = now.chrono();
            let sod = now.secs.rem_euclid(86400);
            let (y, m, dd) = cal::civil_from_days(now.secs.div_euclid(86400));
            let r = guard(|| {
                let jd = satellite::ext::jday_datetime(d);
                let j2 = satellite::ext::jday(y as f64, m as f64, dd as f64, (sod / 3600) as f64, (sod / 60 % 60) as f64, (sod % 60) as f64, now.nanos as f64 / 1e6);
                [satellite::propogation::gstime::gstime_datetime(d), jd, satellite::propogation::gstime::gstime(jd), j2, satellite::propogation::gstime::gstime(j2)]
            });
            match r {
                Ok(x) => {
                    w.u(0);
                    for k in x {
                        w.f(k)
                    }
                }
                Err(_) => w.u(1),
            }
        }
        w.0
    });
    let b = match &end {
        rt::End::Done(b) => b,
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    let mut r = R(b);
    let mut prev: Option<(i128, f64)> = None;
    for now in &s.now {
        let say = |c: &str, m: String, st: Stats| Verdict::bad(st, c, format!("at {}: {}", now.show(), m));
        if r.u() == 1 {
            return say("panic", "sidereal time panicked".into(), st);
        }
        let (g, jd, gj, j2, g2) = (r.f(), r.f(), r.f(), r.f(), r.f());
        let want = gmst_exact(now.ns());
        st.checks += 4;
        st.nontrivial = true;
        for (who, x) in [("by calendar instant", g), ("by Julian date", gj), ("by calendar fields", g2)] {
            if !(x >= 0.0 && x < 2.0 * PI) {
                return say("range", format!("sidereal time {} is {:?}", who, x), st);
            }
        }
        for (who, x) in [("jday_datetime", jd), ("jday", j2)] {
            let e = (ns_of_jd(x) - now.ns()) as f64 / 1e9;
            st.max("julian_date_error_s", e.abs());
            if e.abs() > 1e-4 {
                return say("julian-date", format!("{} gives {:?}, off by {:.6} s", who, x, e), st);
            }
        }
        let e = angle_gap(g, want);
        st.max("sidereal_error_rad", e);
        if e > 5e-8 {
            return say("sidereal", format!("sidereal time {:?} instead of {:?}: off by {:e} rad ({:.6} s)", g, want, e, e * 13713.4), st);
        }
        let e = angle_gap(gj, gmst_exact(ns_of_jd(jd)));
        if e > 5e-8 {
            return say("sidereal", format!("sidereal time of Julian date {:?} is {:?}, off by {:e} rad", jd, gj, e), st);
        }
        if angle_gap(g, gj) > 5e-8 || angle_gap(g, g2) > 5e-8 {
            return say("disagree", format!("sidereal time by calendar instant {:?}, by Julian date {:?}, by fields {:?}", g, gj, g2), st);
        }
        // between two readings the Earth turned by what elapsed
        if let Some((t0, g0)) = prev {
            let dt = (now.ns() - t0) as f64 / 1e9;
            if dt.abs() < 86400.0 * 30.0 {
                st.checks += 1;
                let turn = dt * 7.292115855e-5 / (1.0);
                if angle_gap(g - g0, turn) > 1e-7 + 2e-12 * dt.abs() {
                    return say("rate", format!("{} s after the last reading the angle advanced by {:?} instead of {:?}", dt, (g - g0).rem_euclid(2.0 * PI), turn.rem_euclid(2.0 * PI)), st);
                }
            }
        }
        prev = Some((now.ns(), g));
    }
    Verdict::ok(st)
}

pub fn gen_c10(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let n = r.range(5, if deep { 60 } else { 25 });
    gen_clock(r, &mut v, None, n);
    v
}

// ---------------------------------------------------------------- C11
const A: f64 = 6378.137;
const B: f64 = 6356.7523142;

/// Independent geodetic to cartesian (parametric latitude form).
fn ecf_of(lat: f64, lon: f64, h: f64) -> [f64; 3] {
    // point on the ellipsoid whose outward normal has latitude `lat`, moved out by h
    let (s, c) = lat.sin_cos();
    let d = (A * A * c * c + B * B * s * s).sqrt();
    let (p, z) = (A * A * c / d + h * c, B * B * s / d + h * s);
    [p * lon.cos(), p * lon.sin(), z]
}
fn len(a: &[f64; 3]) -> f64 { (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt() }
fn gap(a: &[f64; 3], b: &[f64; 3]) -> f64 { len(&[a[0] - b[0], a[1] - b[1], a[2] - b[2]]) }

pub fn exec_c11(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let s = session(lines, &mut st);
    let obs = s.obs;
    let end = rt::isolate(|| {
        let mut w = W::default();
        let recs: Vec<_> = s.recs.iter().filter_map(|p| { let (a, b) = p.lines(); read_pair(&a, &b).ok() }).collect();
        for now in &s.now {
            let d = now.chrono();
            let gm = match guard(|| satellite::propogation::gstime::gstime_datetime(d)) { Ok(g) => g + s.turn as f64 * 2.0 * PI, Err(_) => continue };
            let mut pts: Vec<[f64; 3]> = s.pos.clone();
            for rec in &recs {
                if let Out::Ok(v) = predict_at(rec, *now) {
                    pts.push([v[0], v[1], v[2]]);
                }
            }
            for p in pts {
                let e = Vec3 { x: p[0], y: p[1], z: p[2] };
                let o = Geodedic { latitude: obs[0], longitude: obs[1], height: obs[2] };
                let r = guard(|| {
                    let f = transforms::eci_to_ecf(&e, gm);
                    let i = transforms::ecf_to_eci(&f, gm);
                    let g = transforms::eci_to_geodedic(&e, gm);
                    let b = transforms::geodedic_to_ecf(&g);
                    let l = transforms::ecf_to_look_angles(&o, &f);
                    let t = transforms::topocentric(&o, &f);
                    let q = transforms::geodedic_to_ecf(&o);
                    [f.x, f.y, f.z, i.x, i.y, i.z, g.latitude, g.longitude, g.height, b.x, b.y, b.z, l.azimuth, l.elevation, l.range,
                     t.top_s, t.top_e, t.top_z, q.x, q.y, q.z]
                });
                w.u(now.secs as u64);
                w.u(now.nanos as u64);
                w.f(gm);
                for k in p { w.f(k) }
                match r {
                    Ok(x) => {
                        w.u(0);
                        for k in x { w.f(k) }
                    }
                    Err(_) => w.u(1),
                }
            }
        }
        w.0
    });
    let b = match &end {
        rt::End::Done(b) => b,
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    let mut r = R(b);
    while !r.end() {
        let now = Reading { secs: r.u() as i64, nanos: r.u() as u32 };
        let gm = r.f();
        let p = [r.f(), r.f(), r.f()];
        let say = |c: &str, m: String, st: Stats| Verdict::bad(st, c, format!("at {} (sidereal {:?}), satellite at ({:?},{:?},{:?}) km inertial: {}", now.show(), gm, p[0], p[1], p[2], m));
        let panicked = r.u() == 1;
        if panicked {
            return say("panic", "a conversion panicked".into(), st);
        }
        let x: Vec<f64> = (0..21).map(|_| r.f()).collect();
        let rad = len(&p);
        if !rad.is_finite() {
            continue;
        }
        st.checks += 1;
        st.nontrivial = true;
        let f = [x[0], x[1], x[2]];
        let (sg, cg) = gm.sin_cos();
        let want = [p[0] * cg + p[1] * sg, p[1] * cg - p[0] * sg, p[2]];
        if !(gap(&f, &want) <= 1e-9 * rad) {
            return say("earth-fixed", format!("earth-fixed ({:?},{:?},{:?}) instead of ({:?},{:?},{:?})", f[0], f[1], f[2], want[0], want[1], want[2]), st);
        }
        if !((len(&f) - rad).abs() <= 1e-9 * rad) {
            return say("length", format!("distance {} became {}", rad, len(&f)), st);
        }
        let i = [x[3], x[4], x[5]];
        if !(gap(&i, &p) <= 1e-9 * rad) {
            return say("round-trip", format!("inertial to earth-fixed and back gives ({:?},{:?},{:?})", i[0], i[1], i[2]), st);
        }
        // geodetic view: away from the polar axis, where longitude means something, and above the surface
        let axis = p[0].hypot(p[1]);
        let above = axis * axis / (A * A) + p[2] * p[2] / (B * B) >= 0.999;
        if axis > 1.0 && above {
            st.probe("geodetic_view");
            let (lat, lon, h) = (x[6], x[7], x[8]);
            if !(lat.abs() <= PI / 2.0 + 1e-12) {
                return say("latitude-range", format!("latitude {:?}", lat), st);
            }
            if !(lon.abs() <= PI + 1e-12) {
                return say("longitude-range", format!("longitude {:?}", lon), st);
            }
            let back = ecf_of(lat, lon, h);
            let tol = 1e-6 + 1e-9 * rad + 1e-4 / axis;
            st.max("geodetic_round_trip_km", gap(&back, &f));
            if !(gap(&back, &f) <= tol) {
                return say("geodetic", format!("latitude {:?}, longitude {:?}, height {:?} km is ({:?},{:?},{:?}), not the earth-fixed ({:?},{:?},{:?})",
                    lat, lon, h, back[0], back[1], back[2], f[0], f[1], f[2]), st);
            }
            let b = [x[9], x[10], x[11]];
            if !(gap(&b, &f) <= tol) {
                return say("geodetic-back", format!("converting the geodetic position back gives ({:?},{:?},{:?}), not ({:?},{:?},{:?})", b[0], b[1], b[2], f[0], f[1], f[2]), st);
            }
            if p[2] < 0.0 { st.probe("southern_hemisphere") }
        }
        // the observer's view
        if obs[0].abs() < PI / 2.0 - 1e-6 {
            st.probe("observer_view");
            let o = ecf_of(obs[0], obs[1], obs[2]);
            let q = [x[18], x[19], x[20]];
            if !(gap(&o, &q) <= 1e-7) {
                return say("observer", format!("observer at ({:?},{:?},{:?}) instead of ({:?},{:?},{:?})", q[0], q[1], q[2], o[0], o[1], o[2]), st);
            }
            let (az, el, range) = (x[12], x[13], x[14]);
            let d = [f[0] - o[0], f[1] - o[1], f[2] - o[2]];
            let dist = len(&d);
            if dist < 1.0 {
                continue;
            }
            if !(az >= -1e-12 && az <= 2.0 * PI + 1e-12) {
                return say("azimuth-range", format!("azimuth {:?}", az), st);
            }
            if !(el.abs() <= PI / 2.0 + 1e-12) {
                return say("elevation-range", format!("elevation {:?}", el), st);
            }
            // rebuild from north, east and up
            let (sla, cla) = obs[0].sin_cos();
            let (slo, clo) = obs[1].sin_cos();
            let north = [-sla * clo, -sla * slo, cla];
            let east = [-slo, clo, 0.0];
            let up = [cla * clo, cla * slo, sla];
            let (n, e, u) = (range * el.cos() * az.cos(), range * el.cos() * az.sin(), range * el.sin());
            let re: Vec<f64> = (0..3).map(|k| o[k] + n * north[k] + e * east[k] + u * up[k]).collect();
            let re = [re[0], re[1], re[2]];
            let tol = 1e-6 + 4e-8 * dist * if el.abs() > 1.5 { 1.0 } else { 0.02 };
            st.max("observer_round_trip_over_tolerance", gap(&re, &f) / tol);
            if el > 0.0 { st.probe("above_horizon") }
            if el.abs() > 1.5 { st.probe("near_zenith_or_nadir") }
            if !(gap(&re, &f) <= tol) {
                return say("look-angles", format!("azimuth {:?}, elevation {:?}, range {:?} from the observer ({:?},{:?},{:?}) leads to ({:?},{:?},{:?}), not ({:?},{:?},{:?})",
                    az, el, range, obs[0], obs[1], obs[2], re[0], re[1], re[2], f[0], f[1], f[2]), st);
            }
            let t = [-(d[0] * north[0] + d[1] * north[1] + d[2] * north[2]), d[0] * east[0] + d[1] * east[1], d[0] * up[0] + d[1] * up[1] + d[2] * up[2]];
            if !(gap(&t, &[x[15], x[16], x[17]]) <= 1e-6 + 1e-9 * dist) {
                return say("topocentric", format!("south, east, up ({:?},{:?},{:?}) instead of ({:?},{:?},{:?})", x[15], x[16], x[17], t[0], t[1], t[2]), st);
            }
        }
    }
    Verdict::ok(st)
}

pub fn gen_c11(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let p = gen_any(r);
    let (a, b) = p.lines();
    if r.chance(2, 3) {
        v.push(format!("rec\t{}\t{}", a, b));
    }
    let lat = match r.below(6) { 0 => 0.0, 1 => 1.57, 2 => -1.57, 3 => r.uni(-0.01, 0.01), _ => r.uni(-1.57, 1.57) };
    let lon = match r.below(6) { 0 => 0.0, 1 => PI, 2 => -PI, 3 => PI / 2.0, _ => r.uni(-PI, PI) };
    let h = match r.below(3) { 0 => 0.0, 1 => r.uni(-0.4, 9.0), _ => r.uni(0.0, 1.0) };
    v.push(format!("obs\t{:?}\t{:?}\t{:?}", lat, lon, h));
    for _ in 0..r.range(1, 5) {
        let d = match r.below(4) { 0 => r.uni(6378.2, 6500.0), 1 => r.uni(6378.2, 9000.0), 2 => r.logu(6400.0, 400000.0), _ => r.uni(6400.0, 45000.0) };
        let la = match r.below(6) { 0 => 0.0, 1 => r.uni(1.55, 1.5707), 2 => -r.uni(1.55, 1.5707), _ => r.uni(-1.5, 1.5) };
        let lo = match r.below(6) { 0 => 0.0, 1 => PI, 2 => -PI / 2.0, _ => r.uni(-PI, PI) };
        v.push(format!("pos\t{:?}\t{:?}\t{:?}", d * f64::cos(la) * f64::cos(lo), d * f64::cos(la) * f64::sin(lo), d * f64::sin(la)));
    }
    if r.chance(1, 5) { v.push(format!("turn\t{}", *r.pick(&[-1, 1]))) }
    let n = r.range(3, if deep { 30 } else { 12 });
    gen_clock(r, &mut v, Some(&p), n);
    v
}

// ---------------------------------------------------------------- C15
pub fn exec_c15(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let s = session(lines, &mut st);
    let obs = s.obs;
    let end = rt::isolate(|| {
        let mut w = W::default();
        let recs: Vec<_> = s.recs.iter().filter_map(|p| { let (a, b) = p.lines(); read_pair(&a, &b).ok() }).collect();
        for now in &s.now {
            let d = now.chrono();
            let o = guard(|| {
                let o = Geodedic { latitude: obs[0], longitude: obs[1], height: obs[2] };
                let gm = satellite::propogation::gstime::gstime_datetime(d);
                let q = transforms::ecf_to_eci(&transforms::geodedic_to_ecf(&o), gm);
                [q.x, q.y, q.z]
            });
            let Ok(l) = o else { continue };
            let mut seen: Vec<[f64; 6]> = vec![];
            for rec in &recs {
                if let Out::Ok(v) = predict_at(rec, *now) {
                    seen.push(v)
                }
            }
            for m in &s.mov {
                seen.push([l[0] + m[0], l[1] + m[1], l[2] + m[2], m[3], m[4], m[5]])
            }
            for v in seen {
                let r = guard(|| satellite::doppler_factor::doppler_factor(Vec3 { x: l[0], y: l[1], z: l[2] }, Vec3 { x: v[0], y: v[1], z: v[2] }, Vec3 { x: v[3], y: v[4], z: v[5] }));
                w.u(now.secs as u64);
                w.u(now.nanos as u64);
                for k in v { w.f(k) }
                match r {
                    Ok(f) => {
                        w.u(0);
                        for k in l { w.f(k) }
                        w.f(f)
                    }
                    Err(_) => w.u(1),
                }
            }
        }
        w.0
    });
    let b = match &end {
        rt::End::Done(b) => b,
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    let mut r = R(b);
    while !r.end() {
        let now = Reading { secs: r.u() as i64, nanos: r.u() as u32 };
        let v: Vec<f64> = (0..6).map(|_| r.f()).collect();
        let say = |c: &str, m: String, st: Stats| Verdict::bad(st, c, format!("at {}, satellite at ({:?},{:?},{:?}) km moving ({:?},{:?},{:?}) km/s: {}", now.show(), v[0], v[1], v[2], v[3], v[4], v[5], m));
        if r.u() == 1 {
            return say("panic", "the Doppler factor panicked".into(), st);
        }
        let (l, f) = ([r.f(), r.f(), r.f()], r.f());
        if !v.iter().chain(&l).all(|x| x.is_finite()) {
            continue;
        }
        let here = gap(&[v[0], v[1], v[2]], &l);
        let next = gap(&[v[0] + v[3], v[1] + v[4], v[2] + v[5]], &l);
        let want = 1.0 - (next - here) / 299792.458;
        st.checks += 1;
        st.nontrivial = true;
        st.probe(if next > here { "receding" } else { "approaching" });
        if (next - here).abs() < 0.2 { st.probe("closest_approach") }
        if !((f - want).abs() <= 1e-12 + 1e-14 * here / 299.0) {
            return say("doppler", format!("Doppler factor {:?} instead of {:?}: the range from ({:?},{:?},{:?}) changes from {} to {} km in the next second", f, want, l[0], l[1], l[2], here, next), st);
        }
    }
    Verdict::ok(st)
}

pub fn gen_c15(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let p = gen_any(r);
    // far readings are cheap only for records that need no integration
    let other = gen_any(r);
    let cheap = !other.class().contains("resonant") || other.class().contains("non");
    for q in [p.clone(), other].iter().take(1 + r.us(1 + cheap as usize)) {
        let (a, b) = q.lines();
        v.push(format!("rec\t{}\t{}", a, b));
    }
    let lat = match r.below(5) { 0 => 0.0, 1 => PI / 2.0, 2 => -PI / 2.0, _ => r.uni(-1.57, 1.57) };
    let lon = match r.below(5) { 0 => 0.0, 1 => PI, 2 => -PI, _ => r.uni(-PI, PI) };
    v.push(format!("obs\t{:?}\t{:?}\t{:?}", lat, lon, r.uni(-0.4, 9.0)));
    // passes through and near the zenith, straight at and away from the observer
    for _ in 0..r.range(0, 6) {
        let mut m = [0.0f64; 6];
        let (ax, far) = (r.us(3), r.logu(100.0, 400000.0) * if r.chance(1, 2) { -1.0 } else { 1.0 });
        m[ax] = far;
        for k in 0..3 {
            if k != ax && r.chance(2, 3) {
                m[k] = match r.below(3) { 0 => r.uni(-10.0, 10.0), 1 => r.uni(-far.abs(), far.abs()), _ => r.uni(-0.01, 0.01) };
            }
        }
        match r.below(4) {
            0 => for k in 0..3 { m[3 + k] = m[k] / far * r.uni(-11.0, 11.0) },
            1 => m[3 + r.us(3)] = r.uni(-11.0, 11.0),
            2 => {}
            _ => for k in 0..3 { m[3 + k] = r.uni(-8.0, 8.0) },
        }
        v.push(format!("mov\t{:?}\t{:?}\t{:?}\t{:?}\t{:?}\t{:?}", m[0], m[1], m[2], m[3], m[4], m[5]));
    }
    let n = r.range(4, if deep { 40 } else { 20 });
    gen_clock(r, &mut v, Some(&p), n);
    v
}

// ---------------------------------------------------------------- C17
/// Year and day of the year (1 = 1 January, 00:00) of an instant, the day as the number a caller
/// would write: the last nanoseconds of a year do not round into a day the year does not have.
fn day_of_year(ns: i128) -> (i64, f64) {
    let (y, _, _) = cal::civil_from_days(ns.div_euclid(cal::DAY_NS) as i64);
    let first = cal::days_from_civil(y, 1, 1);
    let len = (cal::days_from_civil(y + 1, 1, 1) - first) as f64;
    let day = (ns - (first - 1) as i128 * cal::DAY_NS) as f64 / cal::DAY_NS as f64;
    (y, if day >= len + 1.0 { f64::from_bits((len + 1.0).to_bits() - 1) } else { day })
}

pub fn exec_c17(lines: &[String]) -> Verdict {
    let mut st = Stats::default();
    let s = session(lines, &mut st);
    let end = rt::isolate(|| {
        let mut w = W::default();
        for now in &s.now {
            let d = now.chrono();
            let sod = now.secs.rem_euclid(86400);
            let (cy, cm, cd) = cal::civil_from_days(now.secs.div_euclid(86400));
            let (y, doy) = day_of_year(now.ns());
            let r = guard(|| {
                let m = satellite::ext::days2mdhms(y as u64, doy);
                let j = satellite::ext::jday(y as f64, m.month, m.day, m.hour, m.minute, m.second, 0.0);
                let f = satellite::ext::jday(cy as f64, cm as f64, cd as f64, (sod / 3600) as f64, (sod / 60 % 60) as f64, (sod % 60) as f64, now.nanos as f64 / 1e6);
                [satellite::ext::jday_datetime(d), f, j, m.month, m.day, m.hour, m.minute, m.second]
            });
            match r {
                Ok(x) => {
                    w.u(0);
                    for k in x {
                        w.f(k)
                    }
                }
                Err(_) => w.u(1),
            }
        }
        w.0
    });
    let b = match &end {
        rt::End::Done(b) => b,
        e => {
            let (c, m) = abnormal(e);
            return Verdict::bad(st, &c, m);
        }
    };
    let mut r = R(b);
    for now in &s.now {
        let say = |c: &str, m: String, st: Stats| Verdict::bad(st, c, format!("at {}: {}", now.show(), m));
        if r.u() == 1 {
            return say("panic", "a calendar conversion panicked".into(), st);
        }
        let x: Vec<f64> = (0..8).map(|_| r.f()).collect();
        st.nontrivial = true;
        for (who, j) in [("jday_datetime", x[0]), ("jday", x[1]), ("jday of the fields of the day of the year", x[2])] {
            st.checks += 1;
            let e = (ns_of_jd(j) - now.ns()) as f64 / 1e9;
            st.max("julian_date_error_s", e.abs());
            if !j.is_finite() || e.abs() > 1e-4 {
                return say("julian-date", format!("{} gives {:?}, off by {:.6} s", who, j, e), st);
            }
        }
        let (y, doy) = day_of_year(now.ns());
        let (mo, dd, h, mi, se) = (x[3], x[4], x[5], x[6], x[7]);
        let text = format!("day {} of {} is read as month {:?}, day {:?}, {:?}:{:?}:{:?}", doy, y, mo, dd, h, mi, se);
        st.checks += 1;
        let whole = [mo, dd, h, mi].iter().all(|v| v.fract() == 0.0);
        if !(whole && (1.0..=12.0).contains(&mo) && dd >= 1.0 && (0.0..24.0).contains(&h) && (0.0..60.0).contains(&mi) && (0.0..60.0).contains(&se)) {
            return say("fields-range", text, st);
        }
        let (ny, nm) = if mo == 12.0 { (y + 1, 1) } else { (y, mo as i64 + 1) };
        let first = cal::days_from_civil(y, mo as i64, 1);
        if dd as i64 > cal::days_from_civil(ny, nm, 1) - first {
            return say("fields-range", text, st);
        }
        let at = (first + dd as i64 - 1) as i128 * cal::DAY_NS + (h * 3600e9 + mi * 60e9) as i128 + (se * 1e9) as i128;
        let e = (at - now.ns()) as f64 / 1e9;
        st.max("calendar_fields_error_s", e.abs());
        if e.abs() > 1e-5 {
            return say("fields", format!("{}: off by {:.9} s", text, e), st);
        }
    }
    Verdict::ok(st)
}

pub fn gen_c17(r: &mut Rng, deep: bool) -> Plan {
    let mut v = vec![];
    let n = r.range(5, if deep { 60 } else { 25 });
    gen_clock(r, &mut v, None, n);
    v
}
