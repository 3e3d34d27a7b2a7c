//! Exact calendar arithmetic on integers (proleptic Gregorian, 86400 s days).
//! Instants are nanoseconds since 1970-01-01T00:00:00 as i128.

pub const DAY_NS: i128 = 86_400_000_000_000;
/// JD of 1970-01-01T00:00
pub const JD_UNIX: f64 = 2440587.5;

pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let mp = (m + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn civil_from_days(z: i64) -> (i64, i64, i64) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

/// A reading of a UTC clock: whole seconds since 1970 and nanoseconds; a leap second
/// reads as nanoseconds of 1e9 or more after second 59, as in chrono.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Reading {
    pub secs: i64,
    pub nanos: u32,
}

impl Reading {
    pub fn from_ns(ns: i128) -> Reading {
        Reading { secs: ns.div_euclid(1_000_000_000) as i64, nanos: ns.rem_euclid(1_000_000_000) as u32 }
    }
    pub fn ns(&self) -> i128 {
        self.secs as i128 * 1_000_000_000 + self.nanos as i128
    }
    pub fn parse(s: &str) -> Option<Reading> {
        let (a, b) = s.split_once('.')?;
        let r = Reading { secs: a.parse().ok()?, nanos: b.parse().ok()? };
        if r.nanos >= 2_000_000_000 { None } else { Some(r) }
    }
    pub fn text(&self) -> String {
        format!("{}.{:09}", self.secs, self.nanos)
    }
    /// human form
    pub fn show(&self) -> String {
        let d = self.secs.div_euclid(86400);
        let s = self.secs.rem_euclid(86400);
        let (y, m, dd) = civil_from_days(d);
        format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}+{}ns", y, m, dd, s / 3600, s / 60 % 60, s % 60, self.nanos)
    }
    pub fn chrono(&self) -> chrono::DateTime<chrono::Utc> {
        use chrono::prelude::*;
        let d = self.secs.div_euclid(86400);
        let s = self.secs.rem_euclid(86400);
        let (y, m, dd) = civil_from_days(d);
        let date = NaiveDate::from_ymd_opt(y as i32, m as u32, dd as u32).expect("date");
        let t = NaiveTime::from_hms_nano_opt((s / 3600) as u32, (s / 60 % 60) as u32, (s % 60) as u32, self.nanos)
            .expect("time");
        Utc.from_utc_datetime(&NaiveDateTime::new(date, t))
    }
}
