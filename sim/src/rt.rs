//! The run-time of one simulated run: the choice sequence that decides everything, the event log,
//! the statistics, and calls into the code under test.
//!
//! A run is a pure function of its choice sequence. In search mode the choices come from a
//! pseudo-random generator seeded with (VERIF_SEED, run number) and are recorded; in replay mode
//! they come from a file. Every decision (workload, schedule, fault) is one `draw`, and the value 0
//! always stands for the simplest alternative, so that deleting or zeroing choices simplifies runs.

use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

extern "C" {
    fn sim_arm(on: i32, countdown: u64);
    fn sim_set_inside(inside: i32) -> i32;
    fn sim_get_armed() -> i32;
    fn sim_get_countdown() -> u64;
    fn sim_get_points() -> u64;
    fn sim_limit_points(n: u64);
    pub fn sim_point();
}

// ---------------------------------------------------------------------------------------------
// Pseudo-random generator (splitmix64)

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, stream: u64, run: u64) -> Rng {
        let mut r = Rng(seed ^ 0x5851_f42d_4c95_7f2d);
        let a = r.next();
        let mut r = Rng(a ^ stream.wrapping_mul(0x9e37_79b9_7f4a_7c15));
        let b = r.next();
        Rng(b ^ run.wrapping_mul(0xd134_2543_de82_ef95))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub enum Source {
    Random(Rng),
    Replay(Vec<u32>),
}

/// The choices of the current run live in memory shared with the parent process, so that they
/// survive a crash of the run.
pub const MAX_CHOICES: usize = 1 << 20;

#[derive(Clone, Copy)]
pub struct Recorder {
    pub len: *mut u32,
    pub buf: *mut u32,
    pub more: *mut Shared,
}

pub const TRACE_ROOM: usize = 4 << 20;

/// What else a run leaves behind when it crashes.
#[repr(C)]
pub struct Shared {
    pub hash: u64,
    /// Why the simulator ended the run, if it did.
    pub reason_len: u32,
    pub trace_len: u32,
    pub reason: [u8; 512],
    pub trace: [u8; TRACE_ROOM],
}

/// Ends the run as a violation from where no panic can pass.
pub fn give_up(reason: &str) -> ! {
    unsafe {
        let m = &mut *sim().rec.more;
        let n = reason.len().min(m.reason.len());
        m.reason[..n].copy_from_slice(&reason.as_bytes()[..n]);
        m.reason_len = n as u32;
        libc::abort()
    }
}

// ---------------------------------------------------------------------------------------------
// Violations

#[derive(Debug, Clone)]
pub struct Viol {
    /// Coarse class: minimisation keeps it fixed.
    pub class: &'static str,
    pub msg: String,
}

pub type Res<T = ()> = Result<T, Viol>;

#[macro_export]
macro_rules! viol {
    ($class:expr, $($arg:tt)*) => {
        return Err($crate::rt::Viol { class: $class, msg: format!($($arg)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond { $crate::viol!($class, $($arg)*) }
    };
}

// ---------------------------------------------------------------------------------------------
// The simulation state

pub struct Sim {
    src: Source,
    pos: usize,
    rec: Recorder,
    pub trace_on: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub events: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub max: BTreeMap<&'static str, u64>,
    /// Hashes of the non-trivial episodes.
    pub episodes: Vec<u64>,
    pub n_episodes: u64,
    ep_hash: u64,
    pub ep_nontrivial: bool,
    pub spans: Vec<(u32, u32)>,
    pub first: Option<Viol>,
    /// Randomness for code under test that asks the operating system for it.
    os_rng: Rng,
    line: String,
    /// Choices being made over again, and how many of them.
    over: Option<(Vec<u32>, usize)>,
    pub sample: Option<Vec<String>>,
    sampling: bool,
}

struct Global(UnsafeCell<Option<Sim>>);
// Only the thread that holds the scheduler's token touches it.
unsafe impl Sync for Global {}
static SIM: Global = Global(UnsafeCell::new(None));

pub fn install(src: Source, rec: Recorder, trace_on: bool) {
    unsafe {
        *rec.len = 0;
        (*rec.more).hash = 0;
        (*rec.more).reason_len = 0;
        (*rec.more).trace_len = 0;
    }
    let sim = Sim {
        src,
        pos: 0,
        rec,
        trace_on,
        trace: Vec::new(),
        hash: 0xcbf2_9ce4_8422_2325,
        events: 0,
        stats: BTreeMap::new(),
        max: BTreeMap::new(),
        episodes: Vec::new(),
        n_episodes: 0,
        ep_hash: 0,
        ep_nontrivial: false,
        spans: Vec::new(),
        first: None,
        os_rng: Rng::new(1, 2, 3),
        line: String::new(),
        over: None,
        sample: None,
        sampling: false,
    };
    unsafe { *SIM.0.get() = Some(sim) };
}

pub fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).as_mut().expect("no simulation") }
}

/// Branches and memory accesses of the code under test so far (traced build).
pub fn points() -> u64 {
    unsafe { sim_get_points() }
}
/// How many of them the next calls may take; 0: no limit.
pub fn limit_points(n: u64) {
    unsafe { sim_limit_points(n) }
}
#[no_mangle]
pub extern "C" fn sim_over_limit() {
    give_up("a call is not done after the number of instructions its number of pieces allows")
}

#[no_mangle]
pub extern "C" fn sim_random() -> u64 {
    sim().os_rng.next()
}

/// One choice among `n` alternatives; 0 is the simplest.
pub fn draw(n: u32) -> u32 {
    debug_assert!(n > 0);
    let s = sim();
    if let Some((list, i)) = &mut s.over {
        *i += 1;
        return list.get(*i - 1).copied().unwrap_or(0) % n;
    }
    let v = if s.pos >= MAX_CHOICES {
        0
    } else {
        match &mut s.src {
            Source::Random(r) => ((r.next() >> 32) * n as u64 >> 32) as u32,
            Source::Replay(list) => list.get(s.pos).copied().unwrap_or(0) % n,
        }
    };
    if s.pos < MAX_CHOICES {
        unsafe {
            *s.rec.buf.add(s.pos) = v;
            *s.rec.len = s.pos as u32 + 1;
        }
    }
    s.pos += 1;
    v
}

pub fn draw_usize(n: usize) -> usize {
    draw(n as u32) as usize
}

/// True with probability `num/den`; the simplest alternative is false.
pub fn chance(num: u32, den: u32) -> bool {
    draw(den) >= den - num
}

/// Whether to go round a loop again: on average `avg` times. Stops when the choices run out.
pub fn more(avg: u32) -> bool {
    draw(avg + 1) != 0
}

/// Picks an index with the given weights; the first is the simplest.
pub fn pick(weights: &[u32]) -> usize {
    let total: u32 = weights.iter().sum();
    let mut v = draw(total.max(1));
    for (i, w) in weights.iter().enumerate() {
        if v < *w {
            return i;
        }
        v -= w;
    }
    0
}

/// A 64-bit value, biased towards small ones and towards the extremes.
pub fn draw_u64() -> u64 {
    match pick(&[4, 4, 3, 2, 3]) {
        0 => draw(4) as u64,
        1 => draw(40) as u64,
        2 => draw(5000) as u64,
        3 => (1u64 << draw(64)).wrapping_add(draw(5) as u64).wrapping_sub(2),
        _ => u64::MAX - draw(4) as u64,
    }
}

pub fn stat(name: &'static str) {
    *sim().stats.entry(name).or_insert(0) += 1;
}
pub fn stat_n(name: &'static str, n: u64) {
    *sim().stats.entry(name).or_insert(0) += n;
}
pub fn stat_max(name: &'static str, n: u64) {
    let e = sim().max.entry(name).or_insert(0);
    *e = (*e).max(n);
}

fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    h
}

pub fn log_event(args: std::fmt::Arguments) {
    use std::fmt::Write;
    let s = sim();
    s.line.clear();
    let _ = s.line.write_fmt(args);
    s.hash = fnv(s.hash, s.line.as_bytes());
    s.ep_hash = fnv(s.ep_hash, s.line.as_bytes());
    s.events += 1;
    let m = unsafe { &mut *s.rec.more };
    m.hash = s.hash;
    if s.trace_on {
        let (at, n) = (m.trace_len as usize, s.line.len());
        if at + n < TRACE_ROOM {
            m.trace[at..at + n].copy_from_slice(s.line.as_bytes());
            m.trace[at + n] = b'\n';
            m.trace_len += n as u32 + 1;
        }
        let l = s.line.clone();
        s.trace.push(l);
    } else if s.sampling && s.sample.as_ref().map_or(false, |v| v.len() < 40) {
        let l = s.line.clone();
        if let Some(v) = s.sample.as_mut() {
            v.push(l)
        }
    }
}

/// Appends to the event log. Reads no clock and draws nothing.
#[macro_export]
macro_rules! ev {
    ($($arg:tt)*) => { $crate::rt::log_event(format_args!($($arg)*)) };
}

/// Something happened that makes the episode more than a fault-free, single-consumer walk.
pub fn nontrivial() {
    sim().ep_nontrivial = true;
}

pub fn want_sample() {
    let s = sim();
    s.sampling = true;
    s.sample = Some(Vec::new());
}

pub fn episode_start() {
    let s = sim();
    s.ep_hash = 0xcbf2_9ce4_8422_2325;
    s.ep_nontrivial = false;
    s.n_episodes += 1;
}

pub fn episode_end() {
    let s = sim();
    if s.ep_nontrivial {
        s.episodes.push(s.ep_hash);
    }
    if s.sampling && s.sample.as_ref().map_or(false, |v| !v.is_empty()) {
        s.sampling = false;
    }
}

pub fn span_start() -> u32 {
    sim().pos as u32
}
pub fn span_end(start: u32) {
    let s = sim();
    if s.trace_on {
        let e = s.pos as u32;
        s.spans.push((start, e));
    }
}

/// Does it over again, with the choices made since `start`: nothing is drawn anew.
pub fn again<R>(start: u32, f: impl FnOnce() -> R) -> R {
    let s = sim();
    let list = (start as usize..s.pos.min(MAX_CHOICES)).map(|i| unsafe { *s.rec.buf.add(i) }).collect();
    s.over = Some((list, 0));
    let r = f();
    sim().over = None;
    r
}

#[cfg(feature = "sets")]
pub use crate::alloc::tag;
#[cfg(not(feature = "sets"))]
pub fn tag(_: u64) -> u64 {
    0
}

// ---------------------------------------------------------------------------------------------
// Calls into the code under test

#[derive(Clone, Copy)]
pub struct Ctl {
    /// Inside a call into the code under test.
    pub active: bool,
    pub calls: u64,
    pub cmps: u64,
    pub steps: u64,
    pub serdes: u64,
    /// Fail the n-th element operation (comparison or step) of this call; 0: none.
    pub fault_at: u64,
    /// Fail the n-th element (de)serialisation of this call; 0: none.
    pub serde_fault_at: u64,
    pub serde_panics: bool,
    /// Give up after this many element operations.
    pub budget: u64,
    /// Run a nested operation at the n-th element operation; 0: none.
    pub reenter_at: u64,
    pub depth: u32,
    pub fault_fired: bool,
    pub overflows: u64,
}

pub const CTL0: Ctl = Ctl {
    active: false,
    calls: 0,
    cmps: 0,
    steps: 0,
    serdes: 0,
    fault_at: 0,
    serde_fault_at: 0,
    serde_panics: false,
    budget: u64::MAX,
    reenter_at: 0,
    depth: 0,
    fault_fired: false,
    overflows: 0,
};

thread_local! {
    static CTL: Cell<Ctl> = const { Cell::new(CTL0) };
    static REENTER: Cell<Option<fn() -> Res>> = const { Cell::new(None) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn ctl() -> Ctl {
    CTL.with(|c| c.get())
}

pub struct FaultMark;
pub struct BudgetMark;
pub struct OverflowMark;
/// A violation found by a nested operation, carried out of the code under test.
pub struct NestedMark(pub Viol);
/// A consumer's own callback gave up.
pub struct ConsumerMark;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    Cmp,
    Step,
}

/// While it lives, the scheduler does not preempt this thread. The end of an element operation is
/// itself a point where it may.
pub struct Quiet(i32, u64, u64);
impl Quiet {
    pub fn new() -> Quiet {
        unsafe {
            let q = Quiet(sim_get_armed(), sim_get_countdown(), tag(0));
            sim_arm(0, 0);
            q
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe {
            tag(self.2);
            sim_arm(self.0, self.1);
            if !std::thread::panicking() {
                sim_point();
            }
        }
    }
}

/// Every comparison and step of the simulated element type comes through here.
pub fn callback(kind: Kind) {
    let _quiet = Quiet::new();
    let mut c = ctl();
    if !c.active {
        return;
    }
    c.calls += 1;
    match kind {
        Kind::Cmp => c.cmps += 1,
        Kind::Step => c.steps += 1,
    }
    if c.calls == c.fault_at {
        c.fault_fired = true;
        CTL.with(|x| x.set(c));
        stat(match kind {
            Kind::Cmp => "fault.comparison_panic",
            Kind::Step => "fault.step_panic",
        });
        resume_unwind(Box::new(FaultMark));
    }
    CTL.with(|x| x.set(c));
    if c.calls > c.budget {
        resume_unwind(Box::new(BudgetMark));
    }
    if c.calls == c.reenter_at {
        if let Some(f) = REENTER.with(|r| r.get()) {
            // The nested operation has control state of its own.
            let inside = unsafe { sim_set_inside(0) };
            CTL.with(|x| x.set(Ctl { depth: c.depth + 1, ..CTL0 }));
            let r = f();
            CTL.with(|x| x.set(c));
            unsafe { sim_set_inside(inside) };
            if let Err(v) = r {
                resume_unwind(Box::new(NestedMark(v)));
            }
        }
    }
}

/// Returns true if this element (de)serialisation must fail.
pub fn serde_callback() -> bool {
    let _quiet = Quiet::new();
    let mut c = ctl();
    if !c.active {
        return false;
    }
    c.serdes += 1;
    let fail = c.serdes == c.serde_fault_at;
    if fail {
        c.fault_fired = true;
    }
    CTL.with(|x| x.set(c));
    if fail {
        if c.serde_panics {
            stat("fault.element_serde_panic");
            resume_unwind(Box::new(FaultMark));
        }
        stat("fault.element_serde_error");
    }
    fail
}

pub fn note_overflow() {
    let mut c = ctl();
    c.overflows += 1;
    CTL.with(|x| x.set(c));
}

#[derive(Clone, Copy, Default)]
pub struct Opts {
    pub fault_at: u64,
    pub serde_fault_at: u64,
    pub serde_panics: bool,
    pub budget: u64,
    pub reenter_at: u64,
    pub reenter: Option<fn() -> Res>,
    /// Instrumented points until the first preemption; 0: none. Scheduled threads only.
    pub preempt: Option<u64>,
}

pub enum Out<R> {
    Ok(R),
    /// The injected fault came out.
    Fault,
    /// The call used up its budget of element operations.
    Budget,
    /// The element type refused to step past its end.
    Overflow,
    Nested(Viol),
    Consumer,
    Panic(String),
}

impl<R> Out<R> {
    pub fn name(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Fault => "fault",
            Out::Budget => "budget",
            Out::Overflow => "overflow",
            Out::Nested(_) => "nested",
            Out::Consumer => "consumer",
            Out::Panic(_) => "panic",
        }
    }
    /// The result of a call in which nothing was injected that may surface.
    pub fn expect_ok(self, what: &dyn std::fmt::Display) -> Res<R> {
        match self {
            Out::Ok(r) => Ok(r),
            Out::Fault => viol!("stray-fault", "{what}: a fault surfaced that was not injected"),
            Out::Budget => viol!(
                "no-progress",
                "{what}: no result after {} element operations",
                ctl_after().calls
            ),
            Out::Overflow => viol!(
                "stepped-past-end",
                "{what}: stepped past the end of the element type's domain, whose step panicked"
            ),
            Out::Nested(v) => Err(v),
            Out::Consumer => viol!("stray-fault", "{what}: a consumer failure surfaced twice"),
            Out::Panic(m) => viol!("unexpected-panic", "{what}: panicked: {m}"),
        }
    }
}

thread_local! { static AFTER: Cell<Ctl> = const { Cell::new(CTL0) }; }

/// The counters of the call that ended last on this thread.
pub fn ctl_after() -> Ctl {
    AFTER.with(|a| a.get())
}

pub const DEFAULT_BUDGET: u64 = 3_000_000;

/// Runs `f`, which calls into the code under test, under the given faults.
pub fn call<R>(o: Opts, f: impl FnOnce() -> R) -> Out<R> {
    let outer = ctl();
    let outer_re = REENTER.with(|r| r.get());
    CTL.with(|c| {
        c.set(Ctl {
            active: true,
            fault_at: o.fault_at,
            serde_fault_at: o.serde_fault_at,
            serde_panics: o.serde_panics,
            budget: if o.budget == 0 { DEFAULT_BUDGET } else { o.budget },
            reenter_at: o.reenter_at,
            depth: outer.depth,
            ..CTL0
        })
    });
    REENTER.with(|r| r.set(o.reenter));
    let inside = unsafe { sim_set_inside(1) };
    if let Some(n) = o.preempt {
        unsafe { sim_arm(1, n) }
    }
    let mark = tag(1);
    let r = catch_unwind(AssertUnwindSafe(f));
    tag(mark);
    if o.preempt.is_some() {
        unsafe { sim_arm(0, 0) }
    }
    unsafe { sim_set_inside(inside) };
    AFTER.with(|a| a.set(ctl()));
    CTL.with(|c| c.set(outer));
    REENTER.with(|r| r.set(outer_re));
    stat("calls");
    match r {
        Ok(v) => Out::Ok(v),
        Err(p) => {
            if p.is::<FaultMark>() {
                Out::Fault
            } else if p.is::<BudgetMark>() {
                Out::Budget
            } else if p.is::<OverflowMark>() {
                Out::Overflow
            } else if p.is::<ConsumerMark>() {
                Out::Consumer
            } else {
                match p.downcast::<NestedMark>() {
                    Ok(n) => Out::Nested(n.0),
                    Err(p) => {
                        let m = if let Some(s) = p.downcast_ref::<&str>() {
                            s.to_string()
                        } else if let Some(s) = p.downcast_ref::<String>() {
                            s.clone()
                        } else {
                            "(no message)".to_string()
                        };
                        Out::Panic(m)
                    }
                }
            }
        }
    }
}

/// A fault-free call whose result is needed.
pub fn plain<R>(what: &dyn std::fmt::Display, f: impl FnOnce() -> R) -> Res<R> {
    call(Opts::default(), f).expect_ok(what)
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|info| {
        // A panic of the harness itself (outside any call into the code under test) is a harness
        // error and must be seen.
        if !ctl().active {
            eprintln!("HARNESS PANIC: {info}");
        } else {
            LAST_PANIC.with(|l| {
                if let Ok(mut l) = l.try_borrow_mut() {
                    *l = info.to_string();
                }
            });
        }
    }));
}
