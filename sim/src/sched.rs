//! The thread scheduler. Caller threads are real threads (thread-local state is theirs), but only
//! the one that holds the token runs. The token changes hands at points the choice sequence picks:
//! between operations, inside element operations, and, in the traced build, at any memory access
//! or branch of the code under test. A thread that would block on a lock passes the token on.

use crate::ev;
use crate::rt::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::thread::Thread;

extern "C" {
    fn sim_arm(on: i32, countdown: u64);
}

const MAX: usize = 8;
/// Hands the token on by itself after this many points, so that spinning threads let others in.
const FAIR: u64 = 60_000;

static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static DONE: [AtomicUsize; MAX] = [const { AtomicUsize::new(1) }; MAX];
static BLOCKED_IN_A_ROW: AtomicU64 = AtomicU64::new(0);
static mut HANDLES: [Option<Thread>; MAX] = [const { None }; MAX];

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

pub fn me() -> usize {
    ME.with(|m| m.get())
}

fn others() -> Vec<usize> {
    let n = COUNT.load(SeqCst);
    let me = me();
    (0..n).filter(|i| *i != me && DONE[*i].load(SeqCst) == 0).collect()
}

#[allow(static_mut_refs)]
fn hand_to(t: usize) {
    CURRENT.store(t, SeqCst);
    unsafe {
        if let Some(h) = &HANDLES[t] {
            h.unpark();
        }
    }
}

fn wait_for_token() {
    let me = me();
    while CURRENT.load(SeqCst) != me {
        std::thread::park();
    }
}

/// Passes the token to another thread, if there is one.
fn switch(reason: &str, forced: bool) {
    let o = others();
    if o.is_empty() {
        return;
    }
    let t = if forced {
        // round robin: needs no choice, and reaches everybody
        let me = me();
        *o.iter().find(|t| **t > me).unwrap_or(&o[0])
    } else {
        o[draw_usize(o.len())]
    };
    ev!("t{} {reason} -> t{t}", me());
    hand_to(t);
    wait_for_token();
}

/// How many points until this thread is preempted in the call it is about to make.
pub fn countdown() -> u64 {
    let n = match pick(&[3, 2, 2, 2, 1]) {
        0 => 0,
        1 => 1 + draw(12) as u64,
        2 => 1 + draw(80) as u64,
        3 => 1 + draw(600) as u64,
        _ => 1 + draw(6000) as u64,
    };
    if n == 0 {
        FAIR
    } else {
        n
    }
}

#[no_mangle]
pub extern "C" fn sim_preempt() {
    if me() == usize::MAX {
        unsafe { sim_arm(0, 0) };
        return;
    }
    let mark = crate::rt::tag(0);
    stat("fault.preemption");
    nontrivial();
    switch("preempted", false);
    BLOCKED_IN_A_ROW.store(0, SeqCst);
    let n = countdown();
    crate::rt::tag(mark);
    unsafe { sim_arm(1, n) };
}

#[no_mangle]
pub extern "C" fn sim_blocked() {
    let mark = crate::rt::tag(0);
    stat("blocked_on_lock");
    let n = BLOCKED_IN_A_ROW.fetch_add(1, SeqCst);
    if n > 2000 || others().is_empty() {
        // Everybody waits for somebody: a deadlock.
        ev!("deadlock");
        give_up("deadlock: every caller waits for a lock");
    }
    switch("blocked", true);
    crate::rt::tag(mark);
}

/// Between operations.
pub fn maybe_yield() {
    BLOCKED_IN_A_ROW.store(0, SeqCst);
    if !others().is_empty() && chance(1, 3) {
        stat("switches_between_calls");
        nontrivial();
        switch("yields", false);
    }
}

/// Runs the bodies as simulated threads until all are done; returns the first violation.
#[allow(static_mut_refs)]
pub fn run(n: usize, body: fn(usize) -> Res) -> Res {
    assert!(n <= MAX);
    COUNT.store(n, SeqCst);
    CURRENT.store(usize::MAX, SeqCst);
    for d in DONE.iter().take(n) {
        d.store(0, SeqCst);
    }
    let mut joins = vec![];
    for i in 0..n {
        let j = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                ME.with(|m| m.set(i));
                wait_for_token();
                let r = std::panic::catch_unwind(|| body(i));
                if let Ok(Err(v)) = &r {
                    ev!("t{i} found a violation");
                    let s = sim();
                    if s.first.is_none() {
                        s.first = Some(v.clone());
                    }
                }
                ev!("t{i} is done");
                DONE[i].store(1, SeqCst);
                let o = others();
                match o.first() {
                    Some(_) => hand_to(o[draw_usize(o.len())]),
                    None => CURRENT.store(usize::MAX - 1, SeqCst),
                }
                if let Err(p) = r {
                    std::panic::resume_unwind(p)
                }
            })
            .expect("thread");
        unsafe { HANDLES[i] = Some(j.thread().clone()) };
        joins.push(j);
    }
    hand_to(draw_usize(n));
    let mut bad = false;
    for j in joins {
        bad |= j.join().is_err();
    }
    if bad {
        panic!("a simulated thread panicked");
    }
    match &sim().first {
        Some(v) => Err(v.clone()),
        None => Ok(()),
    }
}
