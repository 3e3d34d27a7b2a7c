//! The properties that are decided by simulation, and what the evidence says about all of them.
use crate::core::Scenario;
use crate::refsgp4::{Elements, Grav, Model};
use crate::{clock, conc, feed, hist, piece};

pub const REAL: &str = "all of the crate /repo (readers, initialisation, prediction, time, transforms), compiled from its working tree with compiler-inserted counters; chrono; the standard library with its allocator, locks and thread-locals; callers' threads (real threads, one released at a time)";
pub const STUB: &str = "the carrier of the feed (line loss, duplication, reordering, mixing, truncation, damage), the callers, the host's wall and monotonic clocks, sleeping, randomness, environment and time zone, futex waits and wake-ups, the choice of the running thread";
pub const ASSUMPTIONS: &[&str] = &[
    "seeded sampling, not enumeration: a clean batch is evidence, not proof",
    "threads interleave under sequential consistency, at the crate's basic-block edges, loads and stores; weak-memory reorderings are not explored",
    "the code under test is compiled without optimisation and with overflow checks",
    "failing memory allocation is not injected: it aborts any Rust program",
];

pub const SCENARIOS: &[Scenario] = &[
    Scenario { id: "C01", title: "readers survive anything a feed can deliver", gen: feed::gen_c01, exec: feed::exec_c01, quick: 25000, thorough: 600000,
        rule: "a run publishes element sets and delivers them through a seeded sequence of carrier faults (loss, duplication, truncation, damage, foreign text); non-trivial when a fault fired and a reader was called on the result" },
    Scenario { id: "C02", title: "damage stays local", gen: feed::gen_c02, exec: feed::exec_c02, quick: 200000, thorough: 4000000,
        rule: "a run publishes element sets and delivers the feed through a seeded sequence of carrier faults; non-trivial when a fault fired and some set still arrived intact" },
    Scenario { id: "C03", title: "nothing is invented, every rejection is reported", gen: feed::gen_c03, exec: feed::exec_c03, quick: 200000, thorough: 4000000,
        rule: "a run publishes element sets and delivers the feed through a seeded sequence of carrier faults; non-trivial when a fault fired" },
    Scenario { id: "C04", title: "intact element sets decode to what was published", gen: feed::gen_c04, exec: feed::exec_c04, quick: 120000, thorough: 2000000,
        rule: "a run publishes element sets and delivers them with framing noise (line endings, padding, blank lines, neighbours) through every reader; non-trivial when noise was applied or a rare field value was published" },
    Scenario { id: "C05", title: "predictions do not depend on history", gen: hist::gen_c05, exec: hist::exec_c05, quick: 30000, thorough: 900000,
        rule: "a run is a seeded history of predictions, copies and clock jumps on several records; each outcome is compared with a fresh record's in a fresh process; non-trivial when a record answered more than once" },
    Scenario { id: "C06", title: "concurrent callers do not influence each other", gen: conc::gen_c06, exec: conc::exec_c06, quick: 40000, thorough: 1500000,
        rule: "a run is a set of caller threads with seeded work under a seeded schedule of preemptions and stalls; non-trivial when the schedule switched threads inside calls" },
    Scenario { id: "C07", title: "predictions follow the published theory", gen: hist::gen_c07, exec: hist::exec_c07, quick: 80000, thorough: 1500000,
        rule: "a run is a seeded history of predictions on records of all orbit classes under clock jumps; each is compared with an independent model of the theory; non-trivial when at least one was comparable" },
    Scenario { id: "C08", title: "prediction outcomes are honest", gen: hist::gen_c08, exec: hist::exec_c08, quick: 10000, thorough: 150000,
        rule: "a run is a seeded history of predictions on records read from damaged or failing sets; non-trivial when damaged digits were accepted or a prediction failed" },
    Scenario { id: "C09", title: "calendar prediction tracks the clock", gen: clock::gen_c09, exec: clock::exec_c09, quick: 3000, thorough: 80000,
        rule: "a run is a seeded clock (ticks, jumps, reversals, stops, leap seconds) driving calendar predictions; non-trivial when a clock fault fired between two checked predictions" },
    Scenario { id: "C10", title: "sidereal time follows the clock", gen: clock::gen_c10, exec: clock::exec_c10, quick: 300000, thorough: 20000000,
        rule: "a run is a seeded clock driving sidereal-time queries; non-trivial when a clock fault fired between two checked queries" },
    Scenario { id: "C11", title: "all views of a satellite agree", gen: clock::gen_c11, exec: clock::exec_c11, quick: 30000, thorough: 1500000,
        rule: "a run is a tracking session (satellite, observers, seeded clock); non-trivial when a clock fault fired between two checked ticks" },
    Scenario { id: "C12", title: "predictions finish within bounded work", gen: hist::gen_c12, exec: hist::exec_c12, quick: 3000, thorough: 100000,
        rule: "a run is a seeded history of predictions with far jumps, failures and sustained load under a step budget per call; non-trivial when a prediction was made" },
    Scenario { id: "C13", title: "re-initialisation is a fresh start", gen: hist::gen_c13, exec: hist::exec_c13, quick: 30000, thorough: 900000,
        rule: "a run is a seeded history of initialisations, predictions and failures on reused records; each outcome is compared with a fresh record's in a fresh process; non-trivial when a record answered more than once" },
    Scenario { id: "C14", title: "results depend only on the arguments", gen: conc::gen_c14, exec: conc::exec_c14, quick: 3000, thorough: 100000,
        rule: "a run makes the same seeded calls on several simulated hosts (clocks, zone, environment, randomness, thread, prior work) and compares bits; non-trivial when hosts differed" },
    Scenario { id: "C15", title: "the Doppler factor follows the change of range", gen: clock::gen_c15, exec: clock::exec_c15, quick: 15000, thorough: 2000000,
        rule: "a run is a tracking session (satellites, observer, seeded clock); non-trivial when a Doppler factor was checked" },
    Scenario { id: "C17", title: "calendar fields and Julian dates name one instant", gen: clock::gen_c17, exec: clock::exec_c17, quick: 300000, thorough: 20000000,
        rule: "a run is a seeded clock (ticks, jumps, reversals, stops, leap seconds) whose readings are converted between calendar fields, day of year and Julian date; non-trivial when a conversion was checked" },
    Scenario { id: "C18", title: "a feed may be read in pieces", gen: piece::gen_c18, exec: piece::exec_c18, quick: 100000, thorough: 4000000,
        rule: "a run delivers a feed through carrier faults to a consumer that reads it in pieces, dies and restarts; non-trivial when there were at least two pieces and something was read or rejected" },
    Scenario { id: "C19", title: "rejections tell the truth", gen: piece::gen_c19, exec: piece::exec_c19, quick: 100000, thorough: 4000000,
        rule: "a run delivers a feed through carrier faults and compares every rejection with the lines it speaks of; non-trivial when a set was rejected" },
    Scenario { id: "C20", title: "a record keeps describing its object", gen: hist::gen_c20, exec: hist::exec_c20, quick: 60000, thorough: 2500000,
        rule: "a run is a seeded history of predictions, failures, copies, overwrites and initialisations; after every operation all records must still say what they said; non-trivial when a prediction was made" },
];

const VEC: &[(&str, [f64; 8], &[(f64, [f64; 6])])] = &[
    // year*1000+day, bstar, incl, node, ecc, argp, ma, mm
    ("00005", [2000179.78495062, 0.28098e-4, 34.2682, 348.7242, 0.1859667, 331.7664, 19.3264, 10.82419157], &[
        (0.0, [7022.46529266, -1400.08296755, 0.03995155, 1.893841015, 6.405893759, 4.534807250]),
        (360.0, [-7154.03120202, -3783.17682504, -3536.19412294, 4.741887409, -4.151817765, -2.093935425]),
        (720.0, [-7134.59340119, 6531.68641334, 3260.27186483, -4.113793027, -2.911922039, -2.557327851]),
    ]),
    ("04632", [2004031.91070959, 0.10000e-3, 11.4628, 273.1101, 0.1450506, 207.6000, 143.9350, 1.20231981], &[
        (0.0, [2334.11450085, -41920.44035349, -0.03867437, 2.826321032, -0.065091664, 0.570936053]),
        (-5184.0, [-29020.02587128, 13819.84419063, -5713.33679183, -1.768068390, -3.235371192, -0.395206135]),
    ]),
    ("08195", [2006176.33215444, 0.11873e-3, 64.1586, 279.0717, 0.6877146, 264.7651, 20.2257, 2.00491383], &[
        (0.0, [2349.89483350, -14785.93811562, 0.02119378, 2.721488096, -3.256811655, 4.498416672]),
        (120.0, [15223.91713658, -17852.95881713, 25280.39558224, 1.079041732, 0.875187372, 2.485682813]),
    ]),
    ("09880", [2006176.56157475, 0.10000e-3, 64.5968, 349.3786, 0.7069051, 270.0229, 16.3320, 2.00813614], &[
        (0.0, [13020.06750784, -2449.07193500, 1.15896030, 4.247363935, 1.597178501, 4.956708611]),
    ]),
    ("28626", [2006176.46683397, 0.10000e-3, 0.0019, 286.9433, 0.0000335, 13.7918, 55.6504, 1.00270176], &[
        (0.0, [42080.71852213, -2646.86387436, 0.81851294, 0.193105177, 3.068688251, 0.000438449]),
    ]),
];

/// The reference model against vectors published with "Revisiting Spacetrack Report #3".
pub fn selftest() -> i32 {
    let mut bad = 0;
    for (name, e, pts) in VEC {
        let y = (e[0] / 1000.0).floor();
        let day = e[0] - y * 1000.0;
        let jd = crate::cal::JD_UNIX + (crate::cal::days_from_civil(y as i64, 1, 1) - 1) as f64 + day;
        let d = std::f64::consts::PI / 180.0;
        let el = Elements { jd, bstar: e[1], incl: e[2] * d, node: e[3] * d, ecc: e[4], argp: e[5] * d, ma: e[6] * d,
            n: e[7] * 2.0 * std::f64::consts::PI / 1440.0 };
        // the published vectors were made in AFSPC mode
        let m = Model::new(Grav::wgs72(), &el, true);
        for (t, want) in *pts {
            match m.at(*t).state {
                Ok(got) => {
                    let dp = (0..3).map(|i| (got[i] - want[i]).abs()).fold(0.0, f64::max);
                    let dv = (3..6).map(|i| (got[i] - want[i]).abs()).fold(0.0, f64::max);
                    let ok = dp < 1e-6 && dv < 1e-8;
                    println!("{} t={}: |dr|={:.1e} km |dv|={:.1e} km/s {}", name, t, dp, dv, if ok { "ok" } else { "BAD" });
                    bad += !ok as i32;
                }
                Err(c) => {
                    println!("{} t={}: error {} BAD", name, t, c);
                    bad += 1
                }
            }
        }
    }
    if bad == 0 { 0 } else { 2 }
}
