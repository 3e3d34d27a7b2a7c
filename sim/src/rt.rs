//! The simulator's runtime: isolation of every execution in a forked child, the
//! compiler-inserted callbacks (work counter, coverage, preemption points), the host
//! seams (clocks, sleeping, randomness, futexes) and the seeded thread scheduler.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- raw system calls
#[inline(always)]
pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
const SYS_FUTEX: usize = 202;
const SYS_CLOCK_GETTIME: usize = 228;
const SYS_GETRANDOM: usize = 318;
const SYS_GETPID: usize = 39;
const SYS_GETCWD: usize = 79;
const SYS_PWRITE: usize = 18;
const SYS_OPENAT: usize = 257;
const SYS_MEMFD: usize = 319;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn alarm(s: u32) -> u32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn __errno_location() -> *mut i32;
    static __data_start: u8;
    static _end: u8;
    static __executable_start: u8;
}

/// The real monotonic clock, for the harness's own wall-clock caps only.
pub fn real_secs() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { raw(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0) };
    ts[0] as f64 + ts[1] as f64 * 1e-9
}

pub fn shared(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0);
        assert!(p as isize != -1, "mmap");
        p
    }
}

// ---------------------------------------------------------------- counters
pub static STEPS: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static COUNTING: AtomicBool = AtomicBool::new(false);
static COV: AtomicUsize = AtomicUsize::new(0);
static NGUARDS: AtomicU32 = AtomicU32::new(0);
const COV_MAX: usize = 1 << 16;
static OPNO: AtomicU64 = AtomicU64::new(0);
static HDR: AtomicUsize = AtomicUsize::new(0);
static BUF: AtomicUsize = AtomicUsize::new(0);
const BUF_LEN: usize = 48 << 20;

#[repr(C)]
struct Hdr {
    status: AtomicU32, // 0 nothing, 1 done, 2 over budget, 3 deadlock, 4 harness panic
    op: AtomicU64,
    len: AtomicU64,
    steps: AtomicU64,
}

fn hdr() -> &'static Hdr {
    unsafe { &*(HDR.load(Relaxed) as *const Hdr) }
}

/// Per-process set-up of the shared areas (call once, before forking workers).
pub fn init_shared() {
    HDR.store(shared(4096) as usize, Relaxed);
    BUF.store(shared(BUF_LEN) as usize, Relaxed);
}
/// Coverage is shared between all workers.
pub fn init_cov() {
    COV.store(shared(COV_MAX) as usize, Relaxed);
}
pub fn coverage() -> (usize, usize) {
    let n = NGUARDS.load(Relaxed) as usize;
    let p = COV.load(Relaxed) as *const u8;
    if p.is_null() { return (0, n) }
    let hit = (1..=n.min(COV_MAX - 1)).filter(|&i| unsafe { *p.add(i) } != 0).count();
    (hit, n)
}
pub fn guards() -> usize {
    NGUARDS.load(Relaxed) as usize
}

/// Work done since the last call of `work_start`: basic-block edges executed in the
/// crate, plus bytes moved or allocated on its behalf (scaled).
pub fn work_start(limit: u64) {
    STEPS.store(0, Relaxed);
    LIMIT.store(limit, Relaxed);
    COUNTING.store(true, Relaxed);
}
pub fn work_end() -> u64 {
    COUNTING.store(false, Relaxed);
    LIMIT.store(u64::MAX, Relaxed);
    STEPS.load(Relaxed)
}
pub fn set_op(n: usize) {
    OPNO.store(n as u64, Relaxed);
}

#[cold]
fn over_budget() -> ! {
    let h = hdr();
    h.op.store(OPNO.load(Relaxed), Relaxed);
    h.steps.store(STEPS.load(Relaxed), Relaxed);
    h.status.store(2, Relaxed);
    unsafe { _exit(77) }
}

#[inline]
fn add_work(n: u64) {
    if COUNTING.load(Relaxed) {
        let s = STEPS.load(Relaxed) + n;
        STEPS.store(s, Relaxed);
        if s > LIMIT.load(Relaxed) {
            COUNTING.store(false, Relaxed);
            over_budget()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    let mut n = NGUARDS.load(Relaxed);
    while p < stop {
        n += 1;
        *p = n;
        p = p.add(1);
    }
    NGUARDS.store(n, Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let id = *g as usize;
    let c = COV.load(Relaxed) as *mut u8;
    if !c.is_null() && id < COV_MAX {
        *c.add(id) = 1;
    }
    add_work(1);
    if SCHED_ON.load(Relaxed) {
        event(0);
    }
}

macro_rules! access {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const u8) {
            if SCHED_ON.load(Relaxed) { event(p as usize) }
        }
    )* };
}
access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
        __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

// ---------------------------------------------------------------- allocator
pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        add_work(2 + l.size() as u64 / 256);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        add_work(2 + n as u64 / 256);
        System.realloc(p, l, n)
    }
}
pub fn live_bytes() -> i64 {
    LIVE.load(Relaxed)
}

// Block moves are work too (a quadratic reader may spend all of it inside memmove).
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    add_work(n as u64 / 32);
    core::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    add_work(n as u64 / 32);
    if (d as usize).wrapping_sub(s as usize) >= n {
        core::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    } else {
        core::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _,
            inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
    d
}

// ---------------------------------------------------------------- host seams
#[derive(Clone, Debug, PartialEq)]
pub struct Host {
    /// wall clock at start, ns since 1970
    pub wall: i64,
    /// monotonic clock at start, ns
    pub mono: i64,
    /// advance per reading, ns (may be zero or negative: a stopped or stepping clock)
    pub tick: i64,
    /// seed of the host's random source
    pub rand: u64,
}
impl Host {
    pub fn plain() -> Host {
        Host { wall: 1_600_000_000_000_000_000, mono: 5_000_000_000, tick: 1000, rand: 7 }
    }
}
static SIM_HOST: AtomicBool = AtomicBool::new(false);
static WALL: AtomicI64 = AtomicI64::new(0);
static MONO: AtomicI64 = AtomicI64::new(0);
static TICK: AtomicI64 = AtomicI64::new(0);
static RND: AtomicU64 = AtomicU64::new(0);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
static RND_READS: AtomicU64 = AtomicU64::new(0);

pub fn host_on(h: &Host) {
    WALL.store(h.wall, Relaxed);
    MONO.store(h.mono, Relaxed);
    TICK.store(h.tick, Relaxed);
    RND.store(h.rand, Relaxed);
    SIM_HOST.store(true, Relaxed);
}
/// A jump of the host's clocks between two calls.
pub fn host_jump(ns: i64) {
    WALL.fetch_add(ns, Relaxed);
    if ns > 0 {
        MONO.fetch_add(ns, Relaxed);
    }
}
pub fn host_reads() -> (u64, u64, u64) {
    (CLOCK_READS.load(Relaxed), RND_READS.load(Relaxed), ENV_READS.load(Relaxed))
}
static ENV_SEED: AtomicU64 = AtomicU64::new(0);
static ENV_READS: AtomicU64 = AtomicU64::new(0);
static HOST_READS: AtomicU64 = AtomicU64::new(0);
pub fn other_host_reads() -> u64 { HOST_READS.load(Relaxed) }
/// From here on every variable that is not set has a value drawn from `seed` (0: none has).
pub fn host_env(seed: u64) {
    ENV_SEED.store(seed, Relaxed);
}
extern "C" {
    static environ: *const *const u8;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let mut n = 0;
    while *name.add(n) != 0 {
        n += 1;
    }
    let name = std::slice::from_raw_parts(name, n);
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let v = *e;
        let mut k = 0;
        while k < n && *v.add(k) == name[k] {
            k += 1;
        }
        if k == n && *v.add(n) == b'=' {
            return v.add(n + 1);
        }
        e = e.add(1);
    }
    let seed = ENV_SEED.load(Relaxed);
    // the standard library's own variables are left alone
    if seed == 0 || name.starts_with(b"RUST") || name.starts_with(b"TZ") || name.starts_with(b"MALLOC") || name.starts_with(b"GCONV") {
        return std::ptr::null();
    }
    ENV_READS.fetch_add(1, Relaxed);
    const VALUES: &[&[u8]] = &[b"1\0", b"0\0", b"true\0", b"A\0", b"3.5\0", b"57\0", b"\0", b"/nonexistent\0", b"wgs72\0"];
    VALUES[(crate::rng::hash_bytes(seed, name) % VALUES.len() as u64) as usize].as_ptr()
}

// The process, its directory, its processors and its files are the host's as well. They are the
// real ones on the plain host (the process number apart, which would differ from run to run).
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if !SIM_HOST.load(Relaxed) {
        return raw(SYS_GETPID, 0, 0, 0, 0, 0, 0) as i32;
    }
    HOST_READS.fetch_add(1, Relaxed);
    4242 + (crate::rng::mix(ENV_SEED.load(Relaxed)) % 50_000) as i32 * (ENV_SEED.load(Relaxed) != 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(p: *mut u8, n: usize) -> *mut u8 {
    let seed = ENV_SEED.load(Relaxed);
    if seed == 0 {
        let r = raw(SYS_GETCWD, p as usize, n, 0, 0, 0, 0);
        if r < 0 {
            *__errno_location() = -r as i32;
            return std::ptr::null_mut();
        }
        return p;
    }
    HOST_READS.fetch_add(1, Relaxed);
    const DIRS: &[&[u8]] = &[b"/\0", b"/home/tracking/stations/north/elements/2026/today/incoming\0", b"\0", b"/tmp/x\0"];
    let d = DIRS[(crate::rng::mix(seed ^ 3) % DIRS.len() as u64) as usize];
    if d.len() == 1 || d.len() > n {
        // the directory was removed
        *__errno_location() = if d.len() == 1 { 2 } else { 34 };
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
    p
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(_pid: i32, n: usize, mask: *mut u8) -> i32 {
    let seed = ENV_SEED.load(Relaxed);
    let cpus = if seed == 0 { 8 } else { HOST_READS.fetch_add(1, Relaxed); 1 + crate::rng::mix(seed ^ 5) as usize % 64 };
    for i in 0..n {
        *mask.add(i) = 0;
    }
    for c in 0..cpus.min(n * 8) {
        *mask.add(c / 8) |= 1 << (c % 8);
    }
    0
}
/// A file the crate opens: real on the plain host, of unforeseen content on any other; what is
/// written goes nowhere.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let name = std::ffi::CStr::from_ptr(path as *const _).to_bytes();
    let system = [&b"/proc/"[..], b"/sys/", b"/dev/", b"/usr/", b"/etc/localtime", b"/lib"].iter().any(|p| name.starts_with(p));
    let seed = ENV_SEED.load(Relaxed);
    let writes = flags & 3 != 0;
    let r = if SIM_HOST.load(Relaxed) && (writes || seed != 0 && !system) {
        HOST_READS.fetch_add(1, Relaxed);
        let h = crate::rng::hash_bytes(seed, name);
        if !writes && h % 4 == 0 {
            -2
        } else {
            let fd = raw(SYS_MEMFD, b"f\0".as_ptr() as usize, 0, 0, 0, 0, 0);
            const TEXTS: &[&[u8]] = &[b"1\n", b"0\n", b"37\n", b"{}\n", b"wgs72\n", b"A\n"];
            if fd >= 0 && !writes {
                let t = TEXTS[(h >> 8) as usize % TEXTS.len()];
                raw(SYS_PWRITE, fd as usize, t.as_ptr() as usize, t.len(), 0, 0, 0);
            }
            fd
        }
    } else {
        raw(SYS_OPENAT, -100isize as usize, path as usize, flags as usize, mode as usize, 0, 0)
    };
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r as i32
}

fn sim_clock(id: i32) -> i64 {
    CLOCK_READS.fetch_add(1, Relaxed);
    let t = TICK.load(Relaxed);
    match id {
        1 | 2 | 3 | 4 | 6 | 7 => MONO.fetch_add(t.max(0), Relaxed),
        _ => WALL.fetch_add(t, Relaxed),
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if SIM_HOST.load(Relaxed) {
        let v = sim_clock(id);
        *ts = [v.div_euclid(1_000_000_000), v.rem_euclid(1_000_000_000)];
        return 0;
    }
    raw(SYS_CLOCK_GETTIME, id as usize, ts as usize, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], _tz: *mut u8) -> i32 {
    let mut ts = [0i64; 2];
    clock_gettime(0, &mut ts);
    *tv = [ts[0], ts[1] / 1000];
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = [0i64; 2];
    clock_gettime(0, &mut ts);
    if !t.is_null() {
        *t = ts[0];
    }
    ts[0]
}
unsafe fn sim_random(p: *mut u8, n: usize) {
    RND_READS.fetch_add(1, Relaxed);
    for i in 0..n {
        let s = RND.fetch_add(0x9e3779b97f4a7c15, Relaxed);
        *p.add(i) = (crate::rng::mix(s) >> 24) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if SIM_HOST.load(Relaxed) {
        sim_random(p, n);
        return n as isize;
    }
    raw(SYS_GETRANDOM, p as usize, n, flags as usize, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const [i64; 2], _b: *mut [i64; 2]) -> i32 {
    let v = *a;
    sim_sleep(v[0] * 1_000_000_000 + v[1]);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, a: *const [i64; 2], _b: *mut [i64; 2]) -> i32 {
    let v = *a;
    let mut ns = v[0] * 1_000_000_000 + v[1];
    if flags & 1 != 0 {
        ns -= sim_clock(id);
    }
    sim_sleep(ns);
    0
}
fn sim_sleep(ns: i64) {
    // simulated time jumps; nobody really sleeps
    host_jump(ns.max(0));
    if SCHED_ON.load(Relaxed) && TASK.with(|t| t.get()) >= 0 {
        yield_now();
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if SCHED_ON.load(Relaxed) && TASK.with(|t| t.get()) >= 0 {
        yield_now();
    }
    0
}

/// std reaches futexes and getrandom through this.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == SYS_FUTEX && SCHED_ON.load(Relaxed) && TASK.with(|t| t.get()) >= 0 {
        let op = b & 0x7f;
        if op == 0 || op == 9 {
            return match sim_futex_wait(a as *const AtomicU32, c as u32, d != 0) {
                0 => 0,
                err => {
                    *__errno_location() = err;
                    -1
                }
            };
        }
        if op == 1 || op == 10 {
            return sim_futex_wake(a, c);
        }
    }
    if n == SYS_GETRANDOM && SIM_HOST.load(Relaxed) {
        sim_random(a as *mut u8, b);
        return b as isize;
    }
    let r = raw(n, a, b, c, d, e, f);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

// ---------------------------------------------------------------- scheduler
thread_local! {
    static TASK: Cell<i32> = const { Cell::new(-1) };
}
static SCHED_ON: AtomicBool = AtomicBool::new(false);

/// What a scheduling decision counts before it preempts.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    /// every instrumented event: block edges, loads, stores
    All,
    /// accesses to memory that is neither the running thread's stack nor constant
    Shared,
    /// accesses to the process's writable globals
    Global,
    /// ends of operations only
    Ops,
}

/// Run the current task for `count` events of `mode`, then hand over to the `pick`-th
/// runnable task and keep the preempted one stalled for `stall` decisions.
#[derive(Clone, Debug, PartialEq)]
pub struct Decision {
    pub mode: Mode,
    pub count: u64,
    pub pick: u64,
    pub stall: u64,
}

const MAXT: usize = 16;
struct Task {
    done: bool,
    stalled_until: u64,
    blocked: Option<(usize, u32)>,
    stack: (usize, usize),
}
struct Sched {
    n: usize,
    cur: usize,
    tasks: Vec<Task>,
    plan: Vec<Decision>,
    next: usize,
    left: u64,
    mode: Mode,
    decisions: u64,
    events: u64,
    switches: u64,
    stalls: u64,
    blocks: u64,
    trace: u64,
    at_shared: u64,
    at_global: u64,
    extra: u64,
}
static mut SCHED: Option<Sched> = None;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU32 = AtomicU32::new(0);
static GO: [AtomicU32; MAXT + 1] = [ZERO; MAXT + 1];

#[allow(static_mut_refs)]
fn sched() -> &'static mut Sched {
    unsafe { SCHED.as_mut().expect("scheduler") }
}
fn fwait(w: &AtomicU32) {
    while w.load(SeqCst) == 0 {
        unsafe { raw(SYS_FUTEX, w as *const _ as usize, 128, 0, 0, 0, 0) };
    }
    w.store(0, SeqCst);
}
fn fwake(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe { raw(SYS_FUTEX, w as *const _ as usize, 129, 1, 0, 0, 0) };
}

impl Sched {
    fn load(&mut self) {
        if self.next < self.plan.len() {
            let d = &self.plan[self.next];
            self.mode = d.mode;
            self.left = d.count.max(1);
        } else {
            // after the plan: long slices, so that even a busy-waiting caller makes way
            self.mode = Mode::All;
            self.left = 50_000;
        }
    }
    fn runnable(&self, i: usize) -> bool {
        let t = &self.tasks[i];
        if t.done {
            return false;
        }
        match t.blocked {
            Some((a, v)) => unsafe { (*(a as *const AtomicU32)).load(SeqCst) != v },
            None => true,
        }
    }
    /// The next task to run (never the `not` one if another can), or None.
    fn choose(&mut self, pick: u64, not: Option<usize>) -> Option<usize> {
        let all: Vec<usize> = (0..self.n).filter(|&i| self.runnable(i)).collect();
        let others: Vec<usize> = all.iter().copied().filter(|&i| Some(i) != not).collect();
        let free: Vec<usize> = others.iter().copied().filter(|&i| self.tasks[i].stalled_until <= self.decisions).collect();
        let from = if !free.is_empty() { &free } else if !others.is_empty() { &others } else { &all };
        if from.is_empty() {
            return None;
        }
        Some(from[(pick % from.len() as u64) as usize])
    }
    fn decide(&mut self, why: u64) -> (u64, u64) {
        let (pick, stall) = if self.next < self.plan.len() {
            let d = &self.plan[self.next];
            (d.pick, d.stall)
        } else {
            self.extra += 1;
            (self.decisions, 0)
        };
        self.next += 1;
        self.decisions += 1;
        self.load();
        self.trace = crate::rng::hash(self.trace, self.events.wrapping_mul(8).wrapping_add(why));
        (pick, stall)
    }
    fn hand_over(&mut self, to: usize) {
        let me = self.cur;
        self.trace = crate::rng::hash(self.trace, to as u64);
        if to == me {
            return;
        }
        self.switches += 1;
        self.cur = to;
        fwake(&GO[to]);
        fwait(&GO[me]);
    }
}

fn kind(addr: usize, st: (usize, usize)) -> u8 {
    unsafe {
        let d = &__data_start as *const u8 as usize;
        let e = &_end as *const u8 as usize;
        let x = &__executable_start as *const u8 as usize;
        if addr >= d && addr < e {
            2
        } else if addr >= x && addr < d {
            0
        } else if addr >= st.0 && addr < st.1 {
            0
        } else {
            1
        }
    }
}

fn event(addr: usize) {
    let me = TASK.with(|t| t.get());
    if me < 0 {
        return;
    }
    let s = sched();
    s.events += 1;
    let hit = if s.mode == Mode::All {
        true
    } else if addr == 0 || s.mode == Mode::Ops {
        false
    } else {
        let k = kind(addr, s.tasks[me as usize].stack);
        (s.mode == Mode::Global && k == 2) || (s.mode == Mode::Shared && k >= 1)
    };
    if !hit {
        return;
    }
    s.left -= 1;
    if s.left == 0 {
        match s.mode {
            Mode::Shared => s.at_shared += 1,
            Mode::Global => s.at_global += 1,
            _ => {}
        }
        preempt(1);
    }
}

fn preempt(why: u64) {
    let s = sched();
    let me = s.cur;
    let (pick, stall) = s.decide(why);
    if stall > 0 {
        s.tasks[me].stalled_until = s.decisions + stall;
        s.stalls += 1;
    }
    if let Some(to) = s.choose(pick, Some(me)) {
        s.hand_over(to);
    }
}

/// An operation of the running task ended: a preemption point of its own.
pub fn op_boundary() {
    if !SCHED_ON.load(Relaxed) || TASK.with(|t| t.get()) < 0 {
        return;
    }
    let s = sched();
    s.events += 1;
    if s.mode == Mode::All || s.mode == Mode::Ops {
        s.left -= 1;
        if s.left == 0 {
            preempt(2);
        }
    }
}

fn yield_now() {
    let s = sched();
    let me = s.cur;
    s.trace = crate::rng::hash(s.trace, 99);
    s.events += 1;
    let p = s.events;
    if let Some(to) = s.choose(p, Some(me)) {
        s.hand_over(to);
    }
}

fn sim_futex_wait(a: *const AtomicU32, v: u32, timed: bool) -> i32 {
    const EAGAIN: i32 = 11;
    const ETIMEDOUT: i32 = 110;
    let s = sched();
    if unsafe { (*a).load(SeqCst) } != v {
        return EAGAIN;
    }
    let me = s.cur;
    s.blocks += 1;
    if timed {
        yield_now();
        return if unsafe { (*a).load(SeqCst) } != v { 0 } else { ETIMEDOUT };
    }
    s.tasks[me].blocked = Some((a as usize, v));
    let ev = s.events;
    match s.choose(ev, Some(me)) {
        Some(to) if to != me => s.hand_over(to),
        Some(_) => {}
        None => deadlock(),
    }
    sched().tasks[me].blocked = None;
    0
}
fn sim_futex_wake(a: usize, n: usize) -> isize {
    let s = sched();
    let mut k = 0;
    for t in s.tasks.iter_mut() {
        if k < n && matches!(t.blocked, Some((b, _)) if b == a) {
            t.blocked = None;
            k += 1;
        }
    }
    k as isize
}

fn deadlock() -> ! {
    let h = hdr();
    h.op.store(OPNO.load(Relaxed), Relaxed);
    h.status.store(3, Relaxed);
    unsafe { _exit(78) }
}

#[derive(Clone, Debug, Default)]
pub struct SchedStats {
    pub switches: u64,
    pub stalls: u64,
    pub blocks: u64,
    pub events: u64,
    pub trace: u64,
    pub at_shared: u64,
    pub at_global: u64,
}

const STACK: usize = 2 << 20;

/// Run the tasks to completion on real threads, one released at a time by the plan.
pub fn run_tasks<'a>(tasks: Vec<Box<dyn FnOnce() + Send + 'a>>, plan: Vec<Decision>) -> SchedStats {
    let n = tasks.len();
    assert!(n <= MAXT);
    let mut s = Sched {
        n, cur: 0,
        tasks: (0..n).map(|_| Task { done: false, stalled_until: 0, blocked: None, stack: (0, 0) }).collect(),
        plan, next: 0, left: 0, mode: Mode::All, decisions: 0, events: 0, switches: 0, stalls: 0, blocks: 0, trace: 0,
        at_shared: 0, at_global: 0, extra: 0,
    };
    s.load();
    unsafe { SCHED = Some(s) };
    for g in GO.iter() {
        g.store(0, SeqCst);
    }
    static READY: AtomicUsize = AtomicUsize::new(0);
    READY.store(0, SeqCst);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (i, t) in tasks.into_iter().enumerate() {
            hs.push(
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(sc, move || {
                        let here = 0u8;
                        let base = &here as *const u8 as usize;
                        sched().tasks[i].stack = (base - STACK, base + 65536);
                        TASK.with(|t| t.set(i as i32));
                        READY.fetch_add(1, SeqCst);
                        fwait(&GO[i]);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
                        TASK.with(|t| t.set(-1));
                        let s = sched();
                        s.tasks[i].done = true;
                        if let Err(_e) = r {
                            let h = hdr();
                            h.status.store(4, Relaxed);
                            unsafe { _exit(79) }
                        }
                        s.events += 1;
                        s.trace = crate::rng::hash(s.trace, 1000 + i as u64);
                        let p = s.events;
                        match s.choose(p, None) {
                            Some(to) => {
                                s.cur = to;
                                fwake(&GO[to]);
                            }
                            None => {
                                if s.tasks.iter().all(|t| t.done) {
                                    SCHED_ON.store(false, SeqCst);
                                    fwake(&GO[MAXT]);
                                } else {
                                    deadlock()
                                }
                            }
                        }
                    })
                    .expect("spawn"),
            );
        }
        while READY.load(SeqCst) < n {
            unsafe { raw(24, 0, 0, 0, 0, 0, 0) };
        }
        if n > 0 {
            SCHED_ON.store(true, SeqCst);
            fwake(&GO[0]);
            fwait(&GO[MAXT]);
        }
        for h in hs {
            let _ = h.join();
        }
    });
    let s = sched();
    SchedStats {
        switches: s.switches, stalls: s.stalls, blocks: s.blocks, events: s.events, trace: s.trace,
        at_shared: s.at_shared, at_global: s.at_global,
    }
}

// ---------------------------------------------------------------- isolation
#[derive(Clone, Debug)]
pub enum End {
    Done(Vec<u8>),
    /// op number, steps
    OverBudget(u64, u64),
    Deadlock,
    Crashed(String, u64),
}

static FORKS: AtomicU64 = AtomicU64::new(0);
pub fn forks() -> u64 {
    FORKS.load(Relaxed)
}

/// Default ceiling on the crate's work in one isolated execution.
pub const DEFAULT_BUDGET: u64 = 400_000_000;
pub const WATCHDOG_S: u32 = 60;

/// Run `f` in a forked child of this (single-threaded, never having run the crate)
/// process, so that it starts from pristine process state.
pub fn isolate<F: FnOnce() -> Vec<u8>>(f: F) -> End {
    let h = hdr();
    h.status.store(0, Relaxed);
    h.op.store(0, Relaxed);
    h.len.store(0, Relaxed);
    FORKS.fetch_add(1, Relaxed);
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            alarm(WATCHDOG_S);
            setrlimit(9, &[6 << 30, 6 << 30]); // RLIMIT_AS
            setrlimit(4, &[0, 0]); // no core files
            host_on(&Host::plain());
            LIMIT.store(DEFAULT_BUDGET, Relaxed);
            STEPS.store(0, Relaxed);
            COUNTING.store(true, Relaxed);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            COUNTING.store(false, Relaxed);
            match r {
                Ok(v) => {
                    if v.len() > BUF_LEN {
                        h.status.store(4, Relaxed);
                        _exit(80);
                    }
                    std::ptr::copy_nonoverlapping(v.as_ptr(), BUF.load(Relaxed) as *mut u8, v.len());
                    h.len.store(v.len() as u64, Relaxed);
                    h.status.store(1, Relaxed);
                    _exit(0)
                }
                Err(_) => {
                    h.status.store(4, Relaxed);
                    _exit(79)
                }
            }
        }
        let mut st = 0i32;
        while waitpid(pid, &mut st, 0) != pid {}
        let op = h.op.load(Relaxed);
        match h.status.load(Relaxed) {
            1 => End::Done(std::slice::from_raw_parts(BUF.load(Relaxed) as *const u8, h.len.load(Relaxed) as usize).to_vec()),
            2 => End::OverBudget(op, h.steps.load(Relaxed)),
            3 => End::Deadlock,
            4 => End::Crashed("harness".into(), op),
            _ => End::Crashed(
                if st & 0x7f == 14 { "hang".into() } else if st & 0x7f != 0 { format!("signal {}", st & 0x7f) } else { format!("exit {}", (st >> 8) & 0xff) },
                op,
            ),
        }
    }
}

/// Silence panics: they are outcomes here, not messages.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("SIM_PANICS").is_some() {
            eprintln!("{}", i);
        }
    }));
}

// ---------------------------------------------------------------- workers
/// Fork `n` workers; each returns a byte string through a pipe.
pub fn fan_out<F: Fn(usize) -> Vec<u8>>(n: usize, f: F) -> Vec<Option<Vec<u8>>> {
    let mut fds = vec![];
    for w in 0..n {
        unsafe {
            let mut p = [0i32; 2];
            assert!(pipe(p.as_mut_ptr()) == 0);
            let pid = fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                close(p[0]);
                init_shared();
                let v = f(w);
                let mut o = 0;
                while o < v.len() {
                    let k = write(p[1], v.as_ptr().add(o), v.len() - o);
                    if k <= 0 {
                        _exit(1)
                    }
                    o += k as usize;
                }
                _exit(0)
            }
            close(p[1]);
            fds.push((pid, p[0]));
        }
    }
    fds.into_iter()
        .map(|(pid, fd)| unsafe {
            let mut v = vec![];
            let mut b = vec![0u8; 65536];
            loop {
                let k = read(fd, b.as_mut_ptr(), b.len());
                if k <= 0 {
                    break;
                }
                v.extend_from_slice(&b[..k as usize]);
            }
            close(fd);
            let mut st = 0;
            while waitpid(pid, &mut st, 0) != pid {}
            if st == 0 { Some(v) } else { None }
        })
        .collect()
}
