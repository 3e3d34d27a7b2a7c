//! Reference model: the SGP4/SDP4 theory (Spacetrack report 3, Vallado et al. 2006),
//! written independently of the crate under test, with the gravity constants as a
//! parameter so that it can be validated against the published WGS-72 vectors
//! (`sim selftest`).  A prediction also reports how close it came to any branch
//! point (`margin`) and how large its angles grew (`angle`), so that the checker
//! can tell rounding from disagreement.

use std::f64::consts::PI;
const TAU: f64 = 2.0 * PI;

#[derive(Clone, Copy)]
pub struct Grav {
    pub radius: f64,
    pub xke: f64,
    pub j2: f64,
    pub j3: f64,
    pub j4: f64,
}
impl Grav {
    fn new(mu: f64, radius: f64, j2: f64, j3: f64, j4: f64) -> Grav {
        Grav { radius, xke: 60.0 / (radius * radius * radius / mu).sqrt(), j2, j3, j4 }
    }
    pub fn wgs84() -> Grav {
        Grav::new(398600.5, 6378.137, 0.00108262998905, -0.00000253215306, -0.00000161098761)
    }
    pub fn wgs72() -> Grav {
        Grav::new(398600.8, 6378.135, 0.001082616, -0.00000253881, -0.00000165597)
    }
}

#[derive(Clone, Debug)]
pub struct Elements {
    pub jd: f64,
    pub bstar: f64,
    pub ecc: f64,
    pub argp: f64,
    pub incl: f64,
    pub ma: f64,
    /// Kozai mean motion, rad/min
    pub n: f64,
    pub node: f64,
}

#[derive(Clone, Debug)]
pub struct Pred {
    /// position km, velocity km/s, or the error code of the theory
    pub state: Result<[f64; 6], u8>,
    pub margin: f64,
    pub angle: f64,
}

struct Body {
    // periodic coefficients
    e2: f64, e3: f64, i2: f64, i3: f64, l2: f64, l3: f64, l4: f64,
    g2: f64, g3: f64, g4: f64, h2: f64, h3: f64,
    // secular rates contributions
    de: f64, di: f64, dm: f64, dg: f64, dh: f64,
    zm: f64, zn: f64, ze: f64,
}

enum Res { None, Day { d: [f64; 3] }, HalfDay { d: [f64; 10] } }

struct Deep {
    bodies: [Body; 2],
    dedt: f64, didt: f64, dmdt: f64, dargp: f64, dnode: f64,
    res: Res,
    lam0: f64,
    xfact: f64,
}

pub struct Model {
    g: Grav,
    el: Elements,
    afspc: bool,
    pub n: f64,
    pub a: f64,
    gsto: f64,
    simple: bool,
    mdot: f64, argpdot: f64, nodedot: f64, nodecf: f64,
    c1: f64, c4: f64, c5: f64,
    d: [f64; 3],
    t2: f64, t3: f64, t4: f64, t5: f64,
    omgcof: f64, xmcof: f64, eta: f64, delmo: f64,
    deep: Option<Deep>,
    margin: f64,
}

fn rel(a: f64, b: f64) -> f64 {
    ((a - b) / b).abs()
}

/// IAU-82 sidereal time as the theory uses it.
pub fn gmst(jd: f64) -> f64 {
    let t = (jd - 2451545.0) / 36525.0;
    let s = 67310.54841 + t * ((876600.0 * 3600.0 + 8640184.812866) + t * (0.093104 - t * 6.2e-6));
    (s * (PI / 180.0) / 240.0).rem_euclid(TAU)
}

const RPTIM: f64 = 4.37526908801129966e-3;

impl Model {
    pub fn new(g: Grav, el: &Elements, afspc: bool) -> Model {
        let mut margin = f64::INFINITY;
        let mut near = |x: f64| if x.abs() < margin { margin = x.abs() };
        let e = el.ecc;
        let (si, ci) = el.incl.sin_cos();
        let ci2 = ci * ci;
        let beta2 = 1.0 - e * e;
        let beta = beta2.sqrt();
        // un-Kozai
        let a1 = (g.xke / el.n).powf(2.0 / 3.0);
        let k = 0.75 * g.j2 * (3.0 * ci2 - 1.0) / (beta * beta2);
        let d1 = k / (a1 * a1);
        let a0 = a1 * (1.0 - d1 * d1 - d1 * (1.0 / 3.0 + 134.0 * d1 * d1 / 81.0));
        let n = el.n / (1.0 + k / (a0 * a0));
        let a = (g.xke / n).powf(2.0 / 3.0);
        let gsto = if afspc {
            let d70 = el.jd - 2433281.5 - 7305.0;
            let whole = (d70 + 1.0e-8).floor();
            let frac = d70 - whole;
            near(frac - 1.0 + 1.0e-8);
            near(frac);
            let c1 = 1.72027916940703639e-2;
            (1.7321343856509374 + c1 * whole + (c1 + TAU) * frac + d70 * d70 * 5.07551419432269442e-15)
                .rem_euclid(TAU)
        } else {
            gmst(el.jd)
        };
        // atmosphere
        let rp = a * (1.0 - e);
        let perigee = (rp - 1.0) * g.radius;
        near((perigee - 220.0) / 220.0);
        near((perigee - 156.0) / 156.0);
        near((perigee - 98.0) / 98.0);
        let mut simple = perigee < 220.0;
        let s_km = if perigee < 98.0 { 20.0 } else if perigee < 156.0 { perigee - 78.0 } else { 78.0 };
        let s = s_km / g.radius + 1.0;
        let q = ((120.0 - s_km) / g.radius).powi(4);
        let xi = 1.0 / (a - s);
        let eta = a * e * xi;
        let eta2 = eta * eta;
        let eeta = e * eta;
        let psi2 = (1.0 - eta2).abs();
        let coef = q * xi.powi(4);
        let coef1 = coef / psi2.powf(3.5);
        let con41 = 3.0 * ci2 - 1.0;
        let x1mth2 = 1.0 - ci2;
        let c2 = coef1 * n
            * (a * (1.0 + 1.5 * eta2 + eeta * (4.0 + eta2))
                + 0.375 * g.j2 * xi / psi2 * con41 * (8.0 + 3.0 * eta2 * (8.0 + eta2)));
        let c1 = el.bstar * c2;
        let has_e = e > 1.0e-4;
        let c3 = if has_e { -2.0 * coef * xi * (g.j3 / g.j2) * n * si / e } else { 0.0 };
        let c4 = 2.0 * n * coef1 * a * beta2
            * (eta * (2.0 + 0.5 * eta2) + e * (0.5 + 2.0 * eta2)
                - g.j2 * xi / (a * psi2)
                    * (-3.0 * con41 * (1.0 - 2.0 * eeta + eta2 * (1.5 - 0.5 * eeta))
                        + 0.75 * x1mth2 * (2.0 * eta2 - eeta * (1.0 + eta2)) * (2.0 * el.argp).cos()));
        let c5 = 2.0 * coef1 * a * beta2 * (1.0 + 2.75 * (eta2 + eeta) + eeta * eta2);
        // secular gravity
        let ci4 = ci2 * ci2;
        let p2 = 1.0 / ((a * beta2) * (a * beta2));
        let k1 = 1.5 * g.j2 * p2 * n;
        let k2 = 0.5 * k1 * g.j2 * p2;
        let k3 = -0.46875 * g.j4 * p2 * p2 * n;
        let mdot = n + 0.5 * k1 * beta * con41 + 0.0625 * k2 * beta * (13.0 - 78.0 * ci2 + 137.0 * ci4);
        let argpdot = -0.5 * k1 * (1.0 - 5.0 * ci2)
            + 0.0625 * k2 * (7.0 - 114.0 * ci2 + 395.0 * ci4)
            + k3 * (3.0 - 36.0 * ci2 + 49.0 * ci4);
        let hdot1 = -k1 * ci;
        let nodedot = hdot1 + (0.5 * k2 * (4.0 - 19.0 * ci2) + 2.0 * k3 * (3.0 - 7.0 * ci2)) * ci;
        let omgcof = el.bstar * c3 * el.argp.cos();
        let xmcof = if has_e { -(2.0 / 3.0) * coef * el.bstar / eeta } else { 0.0 };
        let nodecf = 3.5 * beta2 * hdot1 * c1;
        let delmo = (1.0 + eta * el.ma.cos()).powi(3);

        near(rel(TAU / n, 225.0));
        let deep = if TAU / n >= 225.0 {
            simple = true;
            Some(Deep::new(&g, el, n, mdot, argpdot, nodedot, gsto, &mut near))
        } else {
            None
        };
        let (mut d, mut t3, mut t4, mut t5) = ([0.0; 3], 0.0, 0.0, 0.0);
        if !simple {
            let q2 = c1 * c1;
            d[0] = 4.0 * a * xi * q2;
            let tmp = d[0] * xi * c1 / 3.0;
            d[1] = (17.0 * a + s) * tmp;
            d[2] = 0.5 * tmp * a * xi * (221.0 * a + 31.0 * s) * c1;
            t3 = d[0] + 2.0 * q2;
            t4 = 0.25 * (3.0 * d[1] + c1 * (12.0 * d[0] + 10.0 * q2));
            t5 = 0.2 * (3.0 * d[2] + 12.0 * c1 * d[1] + 6.0 * d[0] * d[0] + 15.0 * q2 * (2.0 * d[0] + q2));
        }
        Model {
            g, el: el.clone(), afspc, n, a, gsto, simple, mdot, argpdot, nodedot, nodecf, c1, c4, c5, d,
            t2: 1.5 * c1, t3, t4, t5, omgcof, xmcof, eta, delmo, deep, margin,
        }
    }

    pub fn is_deep(&self) -> bool { self.deep.is_some() }
    pub fn resonance(&self) -> u8 {
        match &self.deep { Some(d) => match d.res { Res::None => 0, Res::Day { .. } => 1, Res::HalfDay { .. } => 2 }, None => 0 }
    }
    pub fn is_simple(&self) -> bool { self.simple }

    pub fn at(&self, t: f64) -> Pred {
        let g = &self.g;
        let el = &self.el;
        let mut margin = self.margin;
        let mut near = |x: f64| if x.abs() < margin { margin = x.abs() };
        let mut angle = 0.0f64;

        let m_df = el.ma + self.mdot * t;
        let w_df = el.argp + self.argpdot * t;
        let h_df = el.node + self.nodedot * t;
        angle = angle.max(m_df.abs()).max(w_df.abs()).max(h_df.abs());
        let mut argp = w_df;
        let mut ma = m_df;
        let t2 = t * t;
        let mut node = h_df + self.nodecf * t2;
        let mut tempa = 1.0 - self.c1 * t;
        let mut tempe = el.bstar * self.c4 * t;
        let mut templ = self.t2 * t2;
        if !self.simple {
            let dw = self.omgcof * t;
            let dm = self.xmcof * ((1.0 + self.eta * m_df.cos()).powi(3) - self.delmo);
            ma = m_df + dw + dm;
            argp = w_df - dw - dm;
            let t3 = t2 * t;
            let t4 = t3 * t;
            tempa -= self.d[0] * t2 + self.d[1] * t3 + self.d[2] * t4;
            tempe += el.bstar * self.c5 * (ma.sin() - el.ma.sin());
            templ += self.t3 * t3 + t4 * (self.t4 + t * self.t5);
        }
        let mut n = self.n;
        let mut e = el.ecc;
        let mut incl = el.incl;
        if let Some(d) = &self.deep {
            e += d.dedt * t;
            incl += d.didt * t;
            argp += d.dargp * t;
            node += d.dnode * t;
            ma += d.dmdt * t;
            if let Some((nn, lam)) = d.resonate(el, self.n, self.argpdot, t) {
                n = nn;
                angle = angle.max(lam.abs());
                let theta = (self.gsto + t * RPTIM) % TAU;
                ma = match d.res {
                    Res::HalfDay { .. } => lam - 2.0 * node + 2.0 * theta,
                    _ => lam - node - argp + theta,
                };
            }
        }
        let fail = |code: u8, margin: f64, angle: f64| Pred { state: Err(code), margin, angle };
        near(n);
        if n <= 0.0 {
            return fail(2, margin, angle);
        }
        let a = (g.xke / n).powf(2.0 / 3.0) * tempa * tempa;
        n = g.xke / a.powf(1.5);
        e -= tempe;
        near(e - 1.0);
        near(e + 0.001);
        if !(a.is_finite() && e.is_finite() && templ.is_finite()) {
            near(0.0); // beyond what arithmetic can carry: no answer
        }
        if !(e < 1.0 && e >= -0.001) {
            return fail(1, margin, angle);
        }
        if e < 1.0e-6 {
            e = 1.0e-6;
        }
        ma += self.n * templ;
        let l = ma + argp + node;
        angle = angle.max(l.abs()).max(ma.abs()).max(node.abs());
        if self.deep.is_some() {
            // where the node wraps matters only to Lyddane's modification
            let f = node / TAU;
            near(f - f.round());
        }
        node %= TAU;
        argp %= TAU;
        ma = (l % TAU - argp - node) % TAU;

        let mut ip = incl;
        if let Some(d) = &self.deep {
            let mut p = [0.0f64; 5]; // e i l g h
            for b in &d.bodies {
                let zm = b.zm + b.zn * t;
                let zf = zm + 2.0 * b.ze * zm.sin();
                let (s, c) = zf.sin_cos();
                let f2 = 0.5 * s * s - 0.25;
                let f3 = -0.5 * s * c;
                p[0] += b.e2 * f2 + b.e3 * f3;
                p[1] += b.i2 * f2 + b.i3 * f3;
                p[2] += b.l2 * f2 + b.l3 * f3 + b.l4 * s;
                p[3] += b.g2 * f2 + b.g3 * f3 + b.g4 * s;
                p[4] += b.h2 * f2 + b.h3 * f3;
            }
            ip += p[1];
            e += p[0];
            let (s, c) = ip.sin_cos();
            near(ip - 0.2);
            if ip >= 0.2 {
                let h = p[4] / s;
                argp += p[3] - c * h;
                node += h;
                ma += p[2];
            } else {
                let (sn, cn) = node.sin_cos();
                let alf = s * sn + p[4] * cn + p[1] * c * sn;
                let bet = s * cn - p[4] * sn + p[1] * c * cn;
                node %= TAU;
                near(node);
                if node < 0.0 && self.afspc {
                    node += TAU;
                }
                let ls = ma + argp + c * node + (p[2] + p[3] - p[1] * node * s);
                let old = node;
                node = alf.atan2(bet);
                near(node);
                near(alf.hypot(bet));
                if node < 0.0 && self.afspc {
                    node += TAU;
                }
                near((old - node).abs() - PI);
                if (old - node).abs() > PI {
                    if node < old { node += TAU } else { node -= TAU }
                }
                ma += p[2];
                argp = ls - ma - c * node;
            }
            near(ip);
            if ip < 0.0 {
                ip = -ip;
                node += PI;
                argp -= PI;
            }
            near(e);
            near(e - 1.0);
            if !(e >= 0.0 && e <= 1.0) {
                return fail(3, margin, angle);
            }
        }
        let (sip, cip) = ip.sin_cos();
        let j3oj2 = g.j3 / g.j2;
        let ay = -0.5 * j3oj2 * sip;
        // near earth the theory evaluates this at epoch, where ip = incl
        let lcof = -0.25 * j3oj2 * sip * (3.0 + 5.0 * cip)
            / if (cip + 1.0).abs() > 1.5e-12 { 1.0 + cip } else { 1.5e-12 };
        near((cip + 1.0 - 1.5e-12) * 1.0e3);
        let axn = e * argp.cos();
        let tmp = 1.0 / (a * (1.0 - e * e));
        let ayn = e * argp.sin() + tmp * ay;
        let xl = ma + argp + node + tmp * lcof * axn;
        let u = (xl - node) % TAU;
        // Kepler, with the theory's damped, capped Newton steps
        let mut eo = u;
        let mut step = 1.0e4f64;
        let (mut se, mut ce) = (0.0, 0.0);
        let mut it = 0;
        while step.abs() >= 1.0e-12 && it < 10 {
            se = eo.sin();
            ce = eo.cos();
            step = (u - ayn * ce + axn * se - eo) / (1.0 - ce * axn - se * ayn);
            if step.abs() >= 0.95 {
                step = if step > 0.0 { 0.95 } else { -0.95 };
            }
            eo += step;
            it += 1;
        }
        if it == 10 && step.abs() > 1.0e-9 {
            near(0.0); // not converged: the result is rounding-sensitive
        }
        let ecose = axn * ce + ayn * se;
        let esine = axn * se - ayn * ce;
        let el2 = axn * axn + ayn * ayn;
        let pl = a * (1.0 - el2);
        near(1.0 - el2);
        if !(pl >= 0.0) {
            return fail(4, margin, angle);
        }
        let rl = a * (1.0 - ecose);
        let rdot = a.sqrt() * esine / rl;
        let rvdot = pl.sqrt() / rl;
        let bl = (1.0 - el2).sqrt();
        let tt = esine / (1.0 + bl);
        let sinu = a / rl * (se - ayn - axn * tt);
        let cosu = a / rl * (ce - axn + ayn * tt);
        let su = sinu.atan2(cosu);
        let sin2u = 2.0 * cosu * sinu;
        let cos2u = 1.0 - 2.0 * sinu * sinu;
        let k1 = 0.5 * g.j2 / pl;
        let k2 = k1 / pl;
        let con41 = 3.0 * cip * cip - 1.0;
        let x1mth2 = 1.0 - cip * cip;
        let x7thm1 = 7.0 * cip * cip - 1.0;
        let r = rl * (1.0 - 1.5 * k2 * bl * con41) + 0.5 * k1 * x1mth2 * cos2u;
        let su = su - 0.25 * k2 * x7thm1 * sin2u;
        let node = node + 1.5 * k2 * cip * sin2u;
        let inc = ip + 1.5 * k2 * cip * sip * cos2u;
        let rd = rdot - n * k1 * x1mth2 * sin2u / g.xke;
        let rvd = rvdot + n * k1 * (x1mth2 * cos2u + 1.5 * con41) / g.xke;
        let (ssu, csu) = su.sin_cos();
        let (sn, cn) = node.sin_cos();
        let (si, ci) = inc.sin_cos();
        let uu = [-sn * ci * ssu + cn * csu, cn * ci * ssu + sn * csu, si * ssu];
        let vv = [-sn * ci * csu - cn * ssu, cn * ci * csu - sn * ssu, si * csu];
        near(r - 1.0);
        if !(r >= 1.0) {
            return fail(6, margin, angle);
        }
        let vk = g.radius * g.xke / 60.0;
        let mut out = [0.0; 6];
        for i in 0..3 {
            out[i] = r * uu[i] * g.radius;
            out[i + 3] = (rd * uu[i] + rvd * vv[i]) * vk;
        }
        // how strongly the drag polynomials amplify rounding
        angle = angle.max(1.0);
        Pred { state: Ok(out), margin, angle }
    }
}

impl Deep {
    #[allow(clippy::too_many_arguments)]
    fn new(g: &Grav, el: &Elements, n: f64, mdot: f64, argpdot: f64, nodedot: f64, gsto: f64, near: &mut dyn FnMut(f64)) -> Deep {
        let (sn, cn) = el.node.sin_cos();
        let (sw, cw) = el.argp.sin_cos();
        let (si, ci) = el.incl.sin_cos();
        let e = el.ecc;
        let e2 = e * e;
        let b2 = 1.0 - e2;
        let rt = b2.sqrt();
        let day = el.jd - 2433281.5 + 18261.5;
        let xn = (4.5236020 - 9.2422029e-4 * day) % TAU;
        let (st, ct) = xn.sin_cos();
        let zcil = 0.91375164 - 0.03568096 * ct;
        let zsil = (1.0 - zcil * zcil).sqrt();
        let zshl = 0.089683511 * st / zsil;
        let zchl = (1.0 - zshl * zshl).sqrt();
        let gam = 5.8351514 + 0.0019443680 * day;
        let zx = (0.39785416 * st / zsil).atan2(zchl * ct + 0.91744867 * zshl * st) + gam - xn;
        let (zsgl, zcgl) = zx.sin_cos();

        let body = |zsg: f64, zcg: f64, zsi: f64, zci: f64, zsh: f64, zch: f64, cc: f64, zn: f64, ze: f64, zm: f64| -> Body {
            let a1 = zcg * zch + zsg * zci * zsh;
            let a3 = -zsg * zch + zcg * zci * zsh;
            let a7 = -zcg * zsh + zsg * zci * zch;
            let a8 = zsg * zsi;
            let a9 = zsg * zsh + zcg * zci * zch;
            let a10 = zcg * zsi;
            let a2 = ci * a7 + si * a8;
            let a4 = ci * a9 + si * a10;
            let a5 = -si * a7 + ci * a8;
            let a6 = -si * a9 + ci * a10;
            let x1 = a1 * cw + a2 * sw;
            let x2 = a3 * cw + a4 * sw;
            let x3 = -a1 * sw + a2 * cw;
            let x4 = -a3 * sw + a4 * cw;
            let x5 = a5 * sw;
            let x6 = a6 * sw;
            let x7 = a5 * cw;
            let x8 = a6 * cw;
            let z31 = 12.0 * x1 * x1 - 3.0 * x3 * x3;
            let z32 = 24.0 * x1 * x2 - 6.0 * x3 * x4;
            let z33 = 12.0 * x2 * x2 - 3.0 * x4 * x4;
            let z1 = 6.0 * (a1 * a1 + a2 * a2) + 2.0 * z31 * e2 + b2 * z31;
            let z2 = 12.0 * (a1 * a3 + a2 * a4) + 2.0 * z32 * e2 + b2 * z32;
            let z3 = 6.0 * (a3 * a3 + a4 * a4) + 2.0 * z33 * e2 + b2 * z33;
            let z11 = -6.0 * a1 * a5 + e2 * (-24.0 * x1 * x7 - 6.0 * x3 * x5);
            let z12 = -6.0 * (a1 * a6 + a3 * a5) + e2 * (-24.0 * (x2 * x7 + x1 * x8) - 6.0 * (x3 * x6 + x4 * x5));
            let z13 = -6.0 * a3 * a6 + e2 * (-24.0 * x2 * x8 - 6.0 * x4 * x6);
            let z21 = 6.0 * a2 * a5 + e2 * (24.0 * x1 * x5 - 6.0 * x3 * x7);
            let z22 = 6.0 * (a4 * a5 + a2 * a6) + e2 * (24.0 * (x2 * x5 + x1 * x6) - 6.0 * (x4 * x7 + x3 * x8));
            let z23 = 6.0 * a4 * a6 + e2 * (24.0 * x2 * x6 - 6.0 * x4 * x8);
            let s3 = cc / n;
            let s2 = -0.5 * s3 / rt;
            let s4 = s3 * rt;
            let s1 = -15.0 * e * s4;
            let s5 = x1 * x3 + x2 * x4;
            let s6 = x2 * x3 + x1 * x4;
            let s7 = x2 * x4 - x1 * x3;
            Body {
                e2: 2.0 * s1 * s6,
                e3: 2.0 * s1 * s7,
                i2: 2.0 * s2 * z12,
                i3: 2.0 * s2 * (z13 - z11),
                l2: -2.0 * s3 * z2,
                l3: -2.0 * s3 * (z3 - z1),
                l4: -2.0 * s3 * (-21.0 - 9.0 * e2) * ze,
                g2: 2.0 * s4 * z32,
                g3: 2.0 * s4 * (z33 - z31),
                g4: -18.0 * s4 * ze,
                h2: -2.0 * s2 * z22,
                h3: -2.0 * s2 * (z23 - z21),
                de: s1 * zn * s5,
                di: s2 * zn * (z11 + z13),
                dm: -zn * s3 * (z1 + z3 - 14.0 - 6.0 * e2),
                dg: s4 * zn * (z31 + z33 - 6.0),
                dh: -zn * s2 * (z21 + z23),
                zm,
                zn,
                ze,
            }
        };
        const ZNS: f64 = 1.19459e-5;
        const ZNL: f64 = 1.5835218e-4;
        let zmol = (4.7199672 + (0.22997150 * day - gam)) % TAU;
        let zmos = (6.2565837 + 0.017201977 * day) % TAU;
        let sun = body(-0.98088458, 0.1945905, 0.39785416, 0.91744867, sn, cn, 2.9864797e-6, ZNS, 0.01675, zmos);
        let moon = body(zsgl, zcgl, zsil, zcil, sn * zchl - cn * zshl, zchl * cn + zshl * sn, 4.7968065e-7, ZNL, 0.05490, zmol);

        let low = el.incl < 5.2359877e-2 || el.incl > PI - 5.2359877e-2;
        near(el.incl - 5.2359877e-2);
        near(PI - el.incl - 5.2359877e-2);
        let hs = if low { 0.0 } else { sun.dh };
        let hl = if low { 0.0 } else { moon.dh };
        let (mut dnode, mut dargp) = (hs, sun.dg + moon.dg);
        if si != 0.0 {
            dnode = hs / si + hl / si;
            dargp = sun.dg - ci * (hs / si) + moon.dg - ci / si * hl;
        } else {
            dargp -= ci * hs;
        }
        let dedt = sun.de + moon.de;
        let didt = sun.di + moon.di;
        let dmdt = sun.dm + moon.dm;

        near(rel(n, 0.0052359877));
        near(rel(n, 0.0034906585));
        near(rel(n, 8.26e-3));
        near(rel(n, 9.24e-3));
        let theta = gsto % TAU;
        let mut res = Res::None;
        let (mut lam0, mut xfact) = (0.0, 0.0);
        let ainv = (n / g.xke).powf(2.0 / 3.0);
        if n < 0.0052359877 && n > 0.0034906585 {
            let g200 = 1.0 + e2 * (-2.5 + 0.8125 * e2);
            let g310 = 1.0 + 2.0 * e2;
            let g300 = 1.0 + e2 * (-6.0 + 6.60937 * e2);
            let f220 = 0.75 * (1.0 + ci) * (1.0 + ci);
            let f311 = 0.9375 * si * si * (1.0 + 3.0 * ci) - 0.75 * (1.0 + ci);
            let f330 = 1.875 * (1.0 + ci).powi(3);
            let base = 3.0 * n * n * ainv * ainv;
            res = Res::Day {
                d: [
                    base * f311 * g310 * 2.1460748e-6 * ainv,
                    2.0 * base * f220 * g200 * 1.7891679e-6,
                    3.0 * base * f330 * g300 * 2.2123015e-7 * ainv,
                ],
            };
            lam0 = (el.ma + el.node + el.argp - theta) % TAU;
            xfact = mdot + argpdot + nodedot - RPTIM + dmdt + dargp + dnode - n;
        }
        if (8.26e-3..=9.24e-3).contains(&n) && e >= 0.5 {
            let poly = |c: [f64; 4]| c[0] + c[1] * e + c[2] * e2 + c[3] * e * e2;
            let g201 = -0.306 - (e - 0.64) * 0.440;
            let (g211, g310, g322, g410, g422, g520);
            if e <= 0.65 {
                g211 = poly([3.616, -13.2470, 16.2900, 0.0]);
                g310 = poly([-19.302, 117.3900, -228.4190, 156.5910]);
                g322 = poly([-18.9068, 109.7927, -214.6334, 146.5816]);
                g410 = poly([-41.122, 242.6940, -471.0940, 313.9530]);
                g422 = poly([-146.407, 841.8800, -1629.014, 1083.4350]);
                g520 = poly([-532.114, 3017.977, -5740.032, 3708.2760]);
            } else {
                g211 = poly([-72.099, 331.819, -508.738, 266.724]);
                g310 = poly([-346.844, 1582.851, -2415.925, 1246.113]);
                g322 = poly([-342.585, 1554.908, -2366.899, 1215.972]);
                g410 = poly([-1052.797, 4758.686, -7193.992, 3651.957]);
                g422 = poly([-3581.690, 16178.110, -24462.770, 12422.520]);
                g520 = if e > 0.715 {
                    poly([-5149.66, 29936.92, -54087.36, 31324.56])
                } else {
                    poly([1464.74, -4664.75, 3763.64, 0.0])
                };
            }
            let (g533, g521, g532);
            if e < 0.7 {
                g533 = poly([-919.22770, 4988.6100, -9064.7700, 5542.21]);
                g521 = poly([-822.71072, 4568.6173, -8491.4146, 5337.524]);
                g532 = poly([-853.66600, 4690.2500, -8624.7700, 5341.4]);
            } else {
                g533 = poly([-37995.780, 161616.52, -229838.20, 109377.94]);
                g521 = poly([-51752.104, 218913.95, -309468.16, 146349.42]);
                g532 = poly([-40023.880, 170470.89, -242699.48, 115605.82]);
            }
            let c2 = ci * ci;
            let s2 = si * si;
            let f220 = 0.75 * (1.0 + 2.0 * ci + c2);
            let f221 = 1.5 * s2;
            let f321 = 1.875 * si * (1.0 - 2.0 * ci - 3.0 * c2);
            let f322 = -1.875 * si * (1.0 + 2.0 * ci - 3.0 * c2);
            let f441 = 35.0 * s2 * f220;
            let f442 = 39.3750 * s2 * s2;
            let f522 = 9.84375 * si * (s2 * (1.0 - 2.0 * ci - 5.0 * c2) + 0.33333333 * (-2.0 + 4.0 * ci + 6.0 * c2));
            let f523 = si * (4.92187512 * s2 * (-2.0 - 4.0 * ci + 10.0 * c2) + 6.56250012 * (1.0 + 2.0 * ci - 3.0 * c2));
            let f542 = 29.53125 * si * (2.0 - 8.0 * ci + c2 * (-12.0 + 8.0 * ci + 10.0 * c2));
            let f543 = 29.53125 * si * (-2.0 - 8.0 * ci + c2 * (12.0 + 8.0 * ci - 10.0 * c2));
            let b2 = 3.0 * n * n * ainv * ainv;
            let b3 = b2 * ainv;
            let b4 = b3 * ainv;
            let b5 = b4 * ainv;
            res = Res::HalfDay {
                d: [
                    b2 * 1.7891679e-6 * f220 * g201,
                    b2 * 1.7891679e-6 * f221 * g211,
                    b3 * 3.7393792e-7 * f321 * g310,
                    b3 * 3.7393792e-7 * f322 * g322,
                    2.0 * b4 * 7.3636953e-9 * f441 * g410,
                    2.0 * b4 * 7.3636953e-9 * f442 * g422,
                    b5 * 1.1428639e-7 * f522 * g520,
                    b5 * 1.1428639e-7 * f523 * g532,
                    2.0 * b5 * 2.1765803e-9 * f542 * g521,
                    2.0 * b5 * 2.1765803e-9 * f543 * g533,
                ],
            };
            lam0 = (el.ma + 2.0 * el.node - 2.0 * theta) % TAU;
            xfact = mdot + dmdt + 2.0 * (nodedot + dnode - RPTIM) - n;
        }
        Deep { bodies: [sun, moon], dedt, didt, dmdt, dargp, dnode, res, lam0, xfact }
    }

    /// Euler-Maclaurin integration of the resonance from epoch to `t`: (mean motion, longitude).
    fn resonate(&self, el: &Elements, n0: f64, argpdot: f64, t: f64) -> Option<(f64, f64)> {
        if let Res::None = self.res {
            return None;
        }
        let rates = |lam: f64, n: f64, at: f64| -> (f64, f64, f64) {
            let ldot = n + self.xfact;
            let (nd, ndd) = match &self.res {
                Res::None => (0.0, 0.0),
                Res::Day { d } => {
                    let ph = [0.13130908, 2.8843198, 0.37448087];
                    let (mut nd, mut ndd) = (0.0, 0.0);
                    for k in 0..3 {
                        let m = (k + 1) as f64;
                        let (s, c) = (m * (lam - ph[k])).sin_cos();
                        nd += d[k] * s;
                        ndd += m * d[k] * c;
                    }
                    (nd, ndd)
                }
                Res::HalfDay { d } => {
                    let w = el.argp + argpdot * at;
                    // (multiple of w, multiple of lam, phase)
                    let arg: [(f64, f64, f64); 10] = [
                        (2.0, 1.0, 5.7686396), (0.0, 1.0, 5.7686396),
                        (1.0, 1.0, 0.95240898), (-1.0, 1.0, 0.95240898),
                        (2.0, 2.0, 1.8014998), (0.0, 2.0, 1.8014998),
                        (1.0, 1.0, 1.0508330), (-1.0, 1.0, 1.0508330),
                        (1.0, 2.0, 4.4108898), (-1.0, 2.0, 4.4108898),
                    ];
                    let (mut nd, mut ndd) = (0.0, 0.0);
                    for k in 0..10 {
                        let (s, c) = (arg[k].0 * w + arg[k].1 * lam - arg[k].2).sin_cos();
                        nd += d[k] * s;
                        ndd += arg[k].1 * d[k] * c;
                    }
                    (nd, ndd)
                }
            };
            (ldot, nd, ndd * ldot)
        };
        let h = if t > 0.0 { 720.0 } else { -720.0 };
        let (mut lam, mut n, mut at) = (self.lam0, n0, 0.0f64);
        loop {
            let (ld, nd, ndd) = rates(lam, n, at);
            let left = t - at;
            if left.abs() < 720.0 {
                return Some((n + nd * left + 0.5 * ndd * left * left, lam + ld * left + 0.5 * nd * left * left));
            }
            lam += ld * h + nd * 259200.0;
            n += nd * h + ndd * 259200.0;
            at += h;
        }
    }
}
