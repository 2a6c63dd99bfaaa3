//! Workloads over set operations: C05, C06 and C10.

use crate::anyset::*;
use crate::elem::{domain, set_domain, Dom, Elem, Overflow};
use crate::gen::{choose_domain, gen_bounded, gen_lower, window, Bounded, Lower, Win};
use crate::model::MIter;
use crate::rt::*;
use crate::erase::{Endless, TwoEnded};
use crate::{built_in, ensure, ev, sched};

/// How many pieces the operands of one operation may have in all; more in a few episodes.
static MAX_PIECES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(24);
fn max_pieces() -> u64 {
    MAX_PIECES.load(std::sync::atomic::Ordering::Relaxed)
}
/// Starts an episode with many pieces, or, mostly, one without.
pub fn choose_size(w: Win, big: bool) -> Win {
    MAX_PIECES.store(if big { 100 } else { 24 }, std::sync::atomic::Ordering::Relaxed);
    if big {
        stat("episodes.many_pieces");
        w.widened(1500)
    } else {
        w
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Contains(usize, i128),
    Empty(usize),
    Union(usize, usize),
    Inter(usize, usize),
    Compl(usize),
    Disjoint(usize, usize),
    Intersects(usize, usize),
    ToSet(usize),
    ToInner(usize),
    Iterate(usize),
    Equal(usize, usize),
}

pub enum Got {
    Bool(bool),
    Set(Any),
    Seq(Option<(Vec<Elem>, Option<Vec<Elem>>)>),
}

pub fn gen_op(n: usize, w: &Win) -> Op {
    let i = draw_usize(n);
    let j = || draw_usize(n);
    match pick(&[4, 5, 5, 3, 1, 2, 2, 2, 1, 2, 1]) {
        0 => {
            // next to a bound of the operand more often than not
            Op::Contains(i, w.point())
        }
        1 => Op::Union(i, j()),
        2 => Op::Inter(i, j()),
        3 => Op::Compl(i),
        4 => Op::Empty(i),
        5 => Op::Disjoint(i, j()),
        6 => Op::Intersects(i, j()),
        7 => Op::ToSet(i),
        8 => Op::ToInner(i),
        9 => Op::Iterate(i),
        _ => Op::Equal(i, j()),
    }
}

const ITER: usize = 16;

/// Operands are borrowed from the pool; operations that consume get copies, made inside the call
/// as a caller would make them.
pub fn exec(op: Op, pool: &[&Val], o: Opts) -> Out<Got> {
    match op {
        Op::Contains(i, p) => call(o, || Got::Bool(pool[i].s.contains(Elem::mk(p)))),
        Op::Empty(i) => call(o, || Got::Bool(pool[i].s.is_empty())),
        Op::Union(i, j) => call(o, || Got::Set(pool[i].s.clone().union(pool[j].s.clone()))),
        Op::Inter(i, j) => call(o, || Got::Set(pool[i].s.clone().intersection(pool[j].s.clone()))),
        Op::Compl(i) => call(o, || Got::Set(pool[i].s.clone().complement())),
        Op::Disjoint(i, j) => call(o, || Got::Bool(pool[i].s.clone().disjoint(pool[j].s.clone()))),
        Op::Intersects(i, j) => call(o, || Got::Bool(pool[i].s.clone().intersects(pool[j].s.clone()))),
        Op::ToSet(i) => call(o, || Got::Set(pool[i].s.clone().to_set())),
        Op::ToInner(i) => call(o, || Got::Set(pool[i].s.clone().to_inner())),
        Op::Iterate(i) => call(o, || Got::Seq(pool[i].s.clone().iterate(ITER))),
        Op::Equal(i, j) => call(o, || Got::Bool(pool[i].s == pool[j].s)),
    }
}

/// Compares a result with the model. A new set is returned with its model.
fn judge(op: Op, pool: &[&Val], got: Got, preempt: Option<u64>) -> Res<Option<Val>> {
    let what = format!("{op:?}");
    let set = |got: Got, m: crate::model::MSet| -> Res<Option<Val>> {
        match got {
            Got::Set(s) => {
                check_val(&what, &s, &m, preempt)?;
                Ok(Some(Val { s, m }))
            }
            _ => unreachable!(),
        }
    };
    match op {
        Op::Contains(i, p) => {
            if let Got::Bool(b) = got {
                ensure!(
                    b == pool[i].m.contains(p),
                    "wrong-members",
                    "contains({p}) is {b} for {}",
                    pool[i].m.show()
                );
            }
            Ok(None)
        }
        Op::Empty(i) => {
            if let Got::Bool(b) = got {
                let has = !pool[i].m.elements(domain().lo, domain().hi).is_empty();
                ensure!(!(b && has), "wrong-emptiness", "is_empty is true for {}", pool[i].m.show());
                ensure!(b || !pool[i].m.is_void(), "wrong-emptiness", "is_empty is false for an empty value");
            }
            Ok(None)
        }
        Op::Union(i, j) => set(got, pool[i].m.union(&pool[j].m)),
        Op::Inter(i, j) => set(got, pool[i].m.inter(&pool[j].m)),
        Op::Compl(i) => set(got, pool[i].m.complement()),
        Op::ToSet(i) | Op::ToInner(i) => set(got, pool[i].m.clone()),
        Op::Disjoint(i, j) | Op::Intersects(i, j) => {
            if let (Got::Bool(b), Some(d)) = (got, disjointness(&pool[i].m, &pool[j].m)) {
                let want = if matches!(op, Op::Disjoint(..)) { d } else { !d };
                ensure!(
                    b == want,
                    "wrong-overlap",
                    "{what} is {b} for {} and {}",
                    pool[i].m.show(),
                    pool[j].m.show()
                );
            }
            Ok(None)
        }
        Op::Iterate(i) => {
            if let Got::Seq(Some((front, back))) = got {
                check_seq(&what, &pool[i].m, &front, false)?;
                if let Some(b) = back {
                    if !matches!(pool[i].s, Any::Er(_)) {
                        check_seq(&what, &pool[i].m, &b, true)?;
                    }
                }
            }
            Ok(None)
        }
        Op::Equal(i, j) => {
            if let Got::Bool(b) = got {
                // Equality is structural; it must at least imply the same members, and a value
                // must equal itself.
                if b {
                    let (lo, hi) = (domain().lo, domain().hi);
                    ensure!(
                        pool[i].m.elements(lo, hi) == pool[j].m.elements(lo, hi),
                        "wrong-equality",
                        "{} and {} are reported equal",
                        pool[i].m.show(),
                        pool[j].m.show()
                    );
                } else {
                    ensure!(i != j, "wrong-equality", "a value does not equal itself");
                }
            }
            Ok(None)
        }
    }
}

fn check_seq(what: &str, m: &crate::model::MSet, got: &[Elem], back: bool) -> Res {
    let mut mi = MIter::new(m.elements(domain().lo, domain().hi));
    let got: Vec<i128> = got.iter().map(|x| x.o()).collect();
    let mut want = vec![];
    for _ in 0..ITER {
        match if back { mi.next_back() } else { mi.next() } {
            Some(x) => want.push(x),
            None => break,
        }
    }
    ensure!(got == want, "wrong-iteration", "{what} gives {got:?}, expected {want:?}");
    Ok(())
}

/// Whether the result would grow too big for the episode, or iterate too close to the end of the
/// domain.
pub fn unfit(op: Op, pool: &[&Val]) -> bool {
    match op {
        Op::Union(i, j) | Op::Inter(i, j) | Op::Disjoint(i, j) | Op::Intersects(i, j) => {
            pool[i].m.pieces + pool[j].m.pieces > max_pieces()
        }
        Op::Iterate(i) => {
            matches!(pool[i].s, Any::Lbr(_) | Any::Lbs(_))
                && MIter::new(pool[i].m.elements(domain().lo, domain().hi)).len() < 60
        }
        Op::Compl(i) => pool[i].m.pieces > max_pieces(),
        _ => false,
    }
}

/// A new value made of `n` ranges, mostly of one set type throughout.
fn built(w: &Win, n: u32) -> Res<Val> {
    let mut v = primitive(w);
    for _ in 0..n {
        let p = if if w.short { chance(49, 50) } else { chance(2, 3) } {
            let (r, m) = crate::gen::gen_range::<Elem>(w);
            Val { s: r.into(), m }
        } else {
            primitive(w)
        };
        let a = v.s.clone();
        v.s = plain(&"union", || a.union(p.s))?;
        v.m = v.m.union(&p.m);
    }
    Ok(v)
}

pub fn initial_pool(w: &Win, n: usize) -> Res<Vec<Val>> {
    let mut pool: Vec<Val> = (0..n).map(|_| primitive(w)).collect();
    // Turn some into sets of several pieces, without faults.
    for i in 0..n {
        let k = draw(4);
        if max_pieces() > 24 && chance(2, 3) {
            pool[i] = built(w, 15 + draw(60))?;
        }
        for _ in 0..k {
            let v = primitive(w);
            let a = pool[i].clone();
            let which = pick(&[3, 1, 1]);
            let (s, m) = match which {
                0 => (plain(&"union", || a.s.union(v.s))?, a.m.union(&v.m)),
                1 => {
                    let c = plain(&"complement", || v.s.complement())?;
                    (plain(&"intersection", || a.s.intersection(c))?, a.m.inter(&v.m.complement()))
                }
                _ => (plain(&"complement", || a.s.complement())?, a.m.complement()),
            };
            if m.pieces <= max_pieces() {
                pool[i] = Val { s, m };
            }
        }
        ev!("v{i} = {} {}", pool[i].s.kind(), pool[i].m.show());
    }
    Ok(pool)
}

pub fn refs(pool: &[Val]) -> Vec<&Val> {
    pool.iter().collect()
}

fn check_pool(what: &str, pool: &[Val], all: bool) -> Res {
    for (i, v) in pool.iter().enumerate() {
        if all || draw(3) == 0 {
            check_val(&format!("v{i}, {what}"), &v.s, &v.m, None)?;
        }
    }
    Ok(())
}

pub fn keep(pool: &mut Vec<Val>, v: Val) {
    // sometimes simplify, so that an episode does not drift to full or empty values
    if v.m.pieces > max_pieces() {
        return;
    }
    if pool.len() < 8 {
        pool.push(v);
    } else {
        let i = draw_usize(pool.len());
        pool[i] = v;
    }
}

// ---------------------------------------------------------------------------------------------
// C05

pub fn c05() -> Res {
    choose_domain(false);
    while more(4) {
        let sp = span_start();
        episode_start();
        let ends = chance(1, 3);
        let big = chance(1, 60);
        let w = choose_size(window::<Elem>(8, ends), big);
        let n = 2 + draw_usize(4);
        let mut pool = initial_pool(&w, n)?;
        let storm = chance(1, 8) && !big;
        let avg = if storm { 150 } else { [8, 25, 60][pick(&[3, 2, 1])] };
        while more(avg) {
            let sp = span_start();
            let op = gen_op(pool.len(), &w);
            if unfit(op, &refs(&pool)) {
                continue;
            }
            stat("steps");
            let mut reference: Option<Any> = None;
            let mut failed = 0;
            if chance(2, 3) {
                // fail it, perhaps over and over
                let times = if storm && chance(1, 6) { 1 + draw(300) } else { 1 + pick(&[6, 2, 1]) as u32 };
                let count = if chance(2, 3) {
                    let o = exec(op, &refs(&pool), Opts::default());
                    let n = ctl_after().calls;
                    if let Some(v) = judge(op, &refs(&pool), o.expect_ok(&format!("{op:?}"))?, None)? {
                        reference = Some(v.s);
                    }
                    n
                } else {
                    0
                };
                for _ in 0..times {
                    let at = match count {
                        0 => 1 + [0, 1, 3, 7, 20, 60][pick(&[3, 3, 2, 2, 1, 1])],
                        n => 1 + draw(n as u32) as u64,
                    };
                    let out = exec(op, &refs(&pool), Opts { fault_at: at, ..Opts::default() });
                    ev!("{op:?} failing at {at}: {}", out.name());
                    match out {
                        Out::Fault => {
                            failed += 1;
                            nontrivial();
                        }
                        o => {
                            let got = o.expect_ok(&format!("{op:?}"))?;
                            judge(op, &refs(&pool), got, None)?;
                        }
                    }
                }
                stat_max("max_failures_in_a_row", failed);
                check_pool(&format!("after {op:?} failed {failed} times"), &pool, times == 1)?;
            }
            // What comes next need not be the retry: often something unrelated is built first, and
            // sometimes the failed operation is never tried again.
            let next = if failed > 0 { pick(&[4, 3, 2]) } else { 0 };
            if next == 1 {
                stat("unrelated_value_built_after_failure");
                let v = built(&w, 2 + draw(4))?;
                ev!("built {} {}", v.s.kind(), v.m.show());
                check_val(&format!("a value built after {op:?} failed"), &v.s, &v.m, None)?;
                keep(&mut pool, v);
            }
            if next == 2 || unfit(op, &refs(&pool)) {
                stat("failed_operation_abandoned");
                span_end(sp);
                continue;
            }
            // unharmed: right, whatever happened before
            let out = exec(op, &refs(&pool), Opts::default());
            ev!("{op:?}: {}", out.name());
            let got = out.expect_ok(&format!("{op:?}"))?;
            if let Some(v) = judge(op, &refs(&pool), got, None)? {
                // Where a value was replaced in between, the operands need not be the same ones.
                if let (Some(r), true) = (&reference, next == 0) {
                    let same = plain(&"==", || v.s == *r)?;
                    ensure!(
                        same,
                        "retry-differs",
                        "{op:?} gave {:?} before it failed {failed} times and {:?} afterwards",
                        r,
                        v.s
                    );
                }
                keep(&mut pool, v);
            }
            if chance(1, 12) {
                keep(&mut pool, primitive(&w));
            }
            span_end(sp);
        }
        check_pool("at the end", &pool, true)?;
        episode_end();
        span_end(sp);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C06

/// An operation some caller made, what it was given and what it got.
struct Done {
    op: Op,
    operands: Vec<Val>,
    got: Any,
    who: String,
}

struct Shared {
    done: Vec<Done>,
    pool: Vec<Val>,
    win: Win,
    avg: u32,
    reenter: bool,
    preempt: bool,
}

static mut SHARED: Option<Shared> = None;

#[allow(static_mut_refs)]
fn shared() -> &'static Shared {
    unsafe { SHARED.as_ref().expect("shared values") }
}

/// Keeps a result for the comparison with the same operation made alone.
#[allow(static_mut_refs)]
fn note_done(op: Op, pool: &[&Val], got: &Any, who: String) {
    let done = unsafe { &mut SHARED.as_mut().expect("shared values").done };
    if done.len() < 400 {
        let (op, ix) = match op {
            Op::Union(i, j) => (Op::Union(0, 1), vec![i, j]),
            Op::Inter(i, j) => (Op::Inter(0, 1), vec![i, j]),
            Op::Compl(i) => (Op::Compl(0), vec![i]),
            Op::ToSet(i) => (Op::ToSet(0), vec![i]),
            Op::ToInner(i) => (Op::ToInner(0), vec![i]),
            _ => return,
        };
        let operands = ix.into_iter().map(|i| pool[i].clone()).collect();
        done.push(Done { op, operands, got: got.clone(), who });
    }
}

fn c06_opts() -> Opts {
    let s = shared();
    let depth = ctl().depth;
    let reenter = s.reenter && depth < 2 && chance(1, 3);
    Opts {
        preempt: if s.preempt { Some(sched::countdown()) } else { None },
        reenter_at: if reenter { 1 + [0, 1, 4, 15, 50][pick(&[3, 3, 3, 2, 1])] + draw(3) as u64 } else { 0 },
        reenter: if reenter { Some(nested) } else { None },
        ..Opts::default()
    }
}

/// An operation made from inside an element comparison of another one.
fn nested() -> Res {
    stat("fault.reentrant_call");
    nontrivial();
    let s = shared();
    let pool = refs(&s.pool);
    let op = gen_op(pool.len(), &s.win);
    if unfit(op, &pool) {
        return Ok(());
    }
    let depth = ctl().depth;
    let out = exec(op, &pool, c06_opts());
    ev!("t{} nested({depth}) {op:?}: {}", sched::me(), out.name());
    let got = out.expect_ok(&format!("nested {op:?}"))?;
    if let Some(v) = judge(op, &pool, got, None)? {
        note_done(op, &pool, &v.s, format!("t{} nested({depth})", sched::me()));
    }
    Ok(())
}

enum Live {
    E(Box<dyn Iterator<Item = Elem>>, MIter),
    R(rangetools::BoundedRangeIter<Elem>, MIter),
    S(rangetools::BoundedSetIter<Elem>, MIter),
}

/// One simulated caller.
fn caller(t: usize) -> Res {
    let s = shared();
    let mut mine: Vec<Val> = vec![];
    let mut live: Option<Live> = None;
    while more(s.avg) {
        if sim().first.is_some() {
            break;
        }
        let sp = span_start();
        sched::maybe_yield();
        stat("steps");
        if chance(1, 5) {
            // an iteration kept open across calls
            match &mut live {
                None => {
                    let v = &s.pool[draw_usize(s.pool.len())];
                    let mi = MIter::new(v.m.elements(domain().lo, domain().hi));
                    live = match &v.s {
                        Any::Br(r) => {
                            let it = call(c06_opts(), || r.clone().into_iter()).expect_ok(&"into_iter")?;
                            Some(Live::R(it, mi))
                        }
                        Any::Bs(x) => {
                            let it = call(c06_opts(), || x.clone().into_iter()).expect_ok(&"into_iter")?;
                            Some(Live::S(it, mi))
                        }
                        Any::Lbr(r) if mi.len() > 60 => {
                            let it = call(c06_opts(), || r.clone().into_iter()).expect_ok(&"into_iter")?;
                            Some(Live::E(Box::new(it), mi))
                        }
                        Any::Lbs(x) if mi.len() > 60 => {
                            let it = call(c06_opts(), || x.clone().into_iter()).expect_ok(&"into_iter")?;
                            Some(Live::E(Box::new(it), mi))
                        }
                        _ => None,
                    };
                }
                Some(Live::E(it, m)) => {
                    if m.len() > 30 {
                        let n = draw(6) as usize;
                        let skip = chance(1, 2);
                        let got = call(c06_opts(), || if skip { it.nth(n) } else { it.next() })
                            .expect_ok(&"endless iteration")?
                            .map(|x| x.o());
                        let want = if skip { m.nth(n as u128) } else { m.next() };
                        ev!("t{t} endless iteration: {got:?}");
                        ensure!(got == want, "wrong-iteration", "an endless iteration delivered {got:?}, expected {want:?}");
                    }
                }
                Some(Live::R(it, m)) => step_live(t, it, m)?,
                Some(Live::S(it, m)) => step_live(t, it, m)?,
            }
            if chance(1, 8) {
                live = None;
            }
            span_end(sp);
            continue;
        }
        let mut pool = refs(&s.pool);
        pool.extend(mine.iter());
        let op = gen_op(pool.len(), &s.win);
        if unfit(op, &pool) {
            continue;
        }
        let out = exec(op, &pool, c06_opts());
        ev!("t{t} {op:?}: {}", out.name());
        let got = out.expect_ok(&format!("t{t} {op:?}"))?;
        let pre = if s.preempt && chance(1, 4) { Some(sched::countdown()) } else { None };
        if let Some(v) = judge(op, &pool, got, pre)? {
            note_done(op, &pool, &v.s, format!("t{t}"));
            if v.m.pieces <= max_pieces() / 2 {
                if mine.len() < 4 {
                    mine.push(v);
                } else {
                    let i = draw_usize(mine.len());
                    mine[i] = v;
                }
            }
        }
        span_end(sp);
    }
    for (i, v) in mine.iter().enumerate() {
        check_val(&format!("t{t}'s own result {i}"), &v.s, &v.m, None)?;
    }
    Ok(())
}

fn step_live<I>(t: usize, it: &mut I, m: &mut MIter) -> Res
where
    I: Iterator<Item = Elem> + DoubleEndedIterator,
{
    let n = draw(4) as usize;
    let which = draw(4);
    let got = call(c06_opts(), || match which {
        0 => it.next(),
        1 => it.next_back(),
        2 => it.nth(n),
        _ => it.nth_back(n),
    })
    .expect_ok(&"iteration")?
    .map(|x| x.o());
    let want = match which {
        0 => m.next(),
        1 => m.next_back(),
        2 => m.nth(n as u128),
        _ => m.nth_back(n as u128),
    };
    ev!("t{t} iteration step {which}: {got:?}");
    ensure!(got == want, "wrong-iteration", "an iteration delivered {got:?}, expected {want:?}");
    Ok(())
}

/// Whether a type can be shared with or handed to another thread, found out without requiring it:
/// a type that cannot is a violation, not a harness that does not compile.
struct SendProbe<T>(std::marker::PhantomData<T>);
trait CannotSend {
    const SEND: bool = false;
}
impl<T> CannotSend for SendProbe<T> {}
impl<T: Send> SendProbe<T> {
    const SEND: bool = true;
}
struct SyncProbe<T>(std::marker::PhantomData<T>);
trait CannotSync {
    const SYNC: bool = false;
}
impl<T> CannotSync for SyncProbe<T> {}
impl<T: Sync> SyncProbe<T> {
    const SYNC: bool = true;
}

fn shareable() -> Res {
    use rangetools::*;
    macro_rules! values {
        ($($t:ty),*) => {$(
            ensure!(SendProbe::<$t>::SEND, "not-shareable", "{} cannot be handed to another thread", stringify!($t));
            ensure!(SyncProbe::<$t>::SYNC, "not-shareable", "{} cannot be shared with another thread", stringify!($t));
        )*};
    }
    values!(
        BoundedRange<i32>, LowerBoundedRange<i32>, UpperBoundedRange<i32>, UnboundedRange, EmptyRange<i32>,
        BoundedSet<i32>, LowerBoundedSet<i32>, UpperBoundedSet<i32>, UnboundedSet<i32>,
        LowerBound<i32>, UpperBound<i32>
    );
    macro_rules! iterators {
        ($($t:ty),*) => {$(
            ensure!(SendProbe::<$t>::SEND, "not-shareable", "{} cannot be handed to another thread", stringify!($t));
        )*};
    }
    iterators!(BoundedRangeIter<i32>, LowerBoundedRangeIter<i32>, BoundedSetIter<i32>, LowerBoundedSetIter<i32>);
    Ok(())
}

#[allow(static_mut_refs)]
pub fn c06() -> Res {
    shareable()?;
    choose_domain(false);
    while more(4) {
        let sp = span_start();
        episode_start();
        let ends = chance(1, 3);
        let big = chance(1, 80);
        let w = choose_size(window::<Elem>(8, ends), big);
        let n = 2 + draw_usize(4);
        let pool = initial_pool(&w, n)?;
        let before: Vec<Any> = pool.iter().map(|v| v.s.clone()).collect();
        let threads = [2, 1, 3, 4][pick(&[4, 1, 2, 1])];
        let reenter = chance(1, 2);
        unsafe {
            SHARED = Some(Shared {
                done: vec![],
                pool,
                win: w,
                avg: if big { 4 } else { [5, 12, 30][pick(&[3, 2, 1])] },
                reenter,
                preempt: threads > 1,
            });
        }
        stat(if threads > 1 { "episodes.threads" } else { "episodes.one_thread" });
        ev!("{threads} callers");
        sched::run(threads, caller)?;
        let s = shared();
        check_pool("after all callers are done", &s.pool, true)?;
        for (i, v) in s.pool.iter().enumerate() {
            let same = plain(&"==", || v.s == before[i])?;
            ensure!(same, "shared-changed", "the shared value v{i} changed: {:?}, was {:?}", v.s, before[i]);
        }
        // Everything once more, one operation at a time.
        for d in &s.done {
            stat("operations_repeated_alone");
            let out = exec(d.op, &refs(&d.operands), Opts::default());
            if let Got::Set(alone) = out.expect_ok(&format!("{:?} alone", d.op))? {
                let same = plain(&"==", || alone == d.got)?;
                ensure!(
                    same,
                    "differs-from-alone",
                    "{} {:?} of {} gave {:?}; made alone it gives {:?}",
                    d.who,
                    d.op,
                    d.operands.iter().map(|v| v.m.show()).collect::<Vec<_>>().join(" and "),
                    d.got,
                    alone
                );
            }
        }
        episode_end();
        span_end(sp);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C10

/// Comparisons a set operation may take on operands of `p` pieces in all.
fn set_bound(p: u64) -> u64 {
    40 * (p + 3) * (p + 3) * (p + 3)
}
/// Element operations a single iterator call may take on a set of `p` pieces.
fn iter_bound(p: u64) -> u64 {
    16 * (p + 4)
}

pub fn pieces_of(op: Op, pool: &[&Val]) -> u64 {
    match op {
        Op::Contains(i, _) | Op::Empty(i) | Op::Compl(i) | Op::ToSet(i) | Op::ToInner(i) | Op::Iterate(i) => {
            pool[i].m.pieces
        }
        Op::Union(i, j) | Op::Inter(i, j) | Op::Disjoint(i, j) | Op::Intersects(i, j) | Op::Equal(i, j) => {
            pool[i].m.pieces + pool[j].m.pieces
        }
    }
}

/// The model of the set an operation gives.
pub fn model_of(op: Op, r: &[&Val]) -> Option<crate::model::MSet> {
    Some(match op {
        Op::Union(i, j) => r[i].m.union(&r[j].m),
        Op::Inter(i, j) => r[i].m.inter(&r[j].m),
        Op::Compl(i) => r[i].m.complement(),
        Op::ToSet(i) | Op::ToInner(i) => r[i].m.clone(),
        _ => return None,
    })
}

fn measured<R>(what: &dyn std::fmt::Display, bound: u64, f: impl FnOnce() -> R) -> Res<R> {
    let out = call(Opts { budget: bound, ..Opts::default() }, f);
    if let Out::Budget = out {
        crate::viol!("too-much-work", "{what}: not done after {bound} element operations");
    }
    out.expect_ok(what)
}

fn many_pieces(w: &Win, n: u64) -> Res<Val> {
    let mut v = Val { s: rangetools::BoundedSet::empty().into(), m: crate::model::MSet::empty() };
    for _ in 0..n {
        let p = primitive(w);
        // mostly short pieces: the others swallow what is there
        let p = if matches!(p.s, Any::Rg(_) | Any::RgIncl(_) | Any::Br(_)) || chance(1, 40) {
            p
        } else {
            let (r, m) = crate::gen::gen_range::<Elem>(w);
            Val { s: r.into(), m }
        };
        let pieces = v.m.pieces + p.m.pieces;
        let s = v.s.clone();
        let ps = p.s.clone();
        v.s = measured(&"union", set_bound(pieces), || s.union(ps))?;
        v.m = v.m.union(&p.m);
    }
    Ok(v)
}

/// A value of few pieces after a history of many: ranges of all of `w`, or up to or from its ends,
/// and `n` short ranges inside, in one order or the other. What is absorbed must be gone.
pub fn absorbing(w: &Win, n: u32, step: &mut dyn FnMut(&Any, &Any, u64) -> Res<Any>) -> Res<Val> {
    let (lo, hi) = (w.lo + 4, w.hi - 4);
    let (x, y) = (crate::gen::elem(lo), crate::gen::elem(hi));
    use crate::model::{after, before, MSet, NEG, POS};
    let inner = Win { lo: lo + 1, hi: hi - 1, far: false, short: true, ..*w };
    let cover = match draw(5) {
        0 => Val { s: (x..=y).into(), m: MSet::range(before(lo), after(hi)) },
        1 => Val { s: (x..).into(), m: MSet::range(before(lo), POS) },
        2 => Val { s: (..=y).into(), m: MSet::range(NEG, after(hi)) },
        3 => Val { s: rangetools::UnboundedSet::Full.into(), m: MSet::full() },
        _ => {
            // two sides with a gap
            let g = inner.point();
            let e = crate::gen::elem(g);
            Val {
                s: rangetools::UnboundedSet::new((..e).into(), rangetools::LowerBoundedRange::new(rangetools::LowerBound::excluded(e))).into(),
                m: MSet::range(NEG, before(g)).union(&MSet::range(after(g), POS)),
            }
        }
    };
    let first = chance(1, 2);
    let mut v = if first {
        cover.clone()
    } else {
        // of any set type
        let mut v = Val { s: rangetools::BoundedSet::empty().into(), m: MSet::empty() };
        let sides = draw(4);
        if sides & 1 != 0 {
            v = Val { s: step(&v.s, &(..x).into(), 2)?, m: v.m.union(&MSet::range(NEG, before(lo))) };
        }
        if sides & 2 != 0 {
            let r = rangetools::LowerBoundedRange::new(rangetools::LowerBound::excluded(y));
            v = Val { s: step(&v.s, &r.into(), 3)?, m: v.m.union(&MSet::range(after(hi), POS)) };
        }
        v
    };
    for at in [w.lo, w.hi - 1] {
        // something that stays
        if chance(1, 2) {
            let s: Any = (crate::gen::elem(at)..crate::gen::elem(at + 1)).into();
            v = Val { s: step(&v.s, &s, v.m.pieces + 1)?, m: v.m.union(&MSet::range(before(at), before(at + 1))) };
        }
    }
    for _ in 0..n {
        let (a, _) = inner.pair();
        let b = a.saturating_add(draw(3) as i128).min(inner.hi);
        let p = Val { s: (crate::gen::elem(a)..=crate::gen::elem(b)).into(), m: MSet::range(before(a), after(b)) };
        v.s = step(&v.s, &p.s, v.m.pieces + p.m.pieces)?;
        v.m = v.m.union(&p.m);
    }
    if !first {
        v.s = step(&v.s, &cover.s, v.m.pieces + cover.m.pieces)?;
        v.m = v.m.union(&cover.m);
    }
    stat_max("pieces_absorbed", n as u64);
    Ok(v)
}

fn measured_iter<I>(start: impl Fn() -> I, v: &Val) -> Res
where
    I: Iterator<Item = Elem> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let b = iter_bound(v.m.pieces);
    let mut it = measured(&"into_iter", b, &start)?;
    let mut m = MIter::new(v.m.elements(domain().lo, domain().hi));
    while more(15) {
        stat("steps");
        let which = draw(10);
        let n = match draw(4) {
            0 => draw(5) as usize,
            1 => usize::MAX,
            2 => draw_u64() as usize,
            _ => (m.len().min(usize::MAX as u128) as usize).saturating_sub(draw(3) as usize),
        };
        let fits = m.len() <= usize::MAX as u128;
        // a failure first, now and then: what follows must still be cheap
        if chance(1, 5) {
            let at = 1 + draw(4) as u64;
            let mut c = it.clone();
            let out = call(Opts { fault_at: at, ..Opts::default() }, || match which {
                0 => c.next(),
                1 => c.next_back(),
                2 => c.nth(n),
                _ => c.nth_back(n),
            });
            ev!("on a copy: call {which} failing at {at}: {}", out.name());
            nontrivial();
            match out {
                Out::Fault => {
                    // the copy must still drain cheaply, call by call
                    for _ in 0..4 {
                        measured(&"next after a failure", b, || c.next())?;
                        measured(&"next_back after a failure", b, || c.next_back())?;
                    }
                }
                o => drop(o.expect_ok(&"call")?),
            }
        }
        let got = match which {
            0 => measured(&"next", b, || it.next())?.map(|x| x.o()) == m.next(),
            1 => measured(&"next_back", b, || it.next_back())?.map(|x| x.o()) == m.next_back(),
            2 => measured(&format!("nth({n})"), b, || it.nth(n))?.map(|x| x.o()) == m.nth(n as u128),
            3 => measured(&format!("nth_back({n})"), b, || it.nth_back(n))?.map(|x| x.o()) == m.nth_back(n as u128),
            4 => {
                measured(&"size_hint", b, || it.size_hint())?;
                true
            }
            5 if fits => measured(&"count", b, || it.clone().count())? as u128 == m.len(),
            6 => measured(&"last", b, || it.clone().last())?.map(|x| x.o()) == m.back(),
            7 => measured(&"min", b, || it.clone().min())?.map(|x| x.o()) == m.front(),
            8 => measured(&"max", b, || it.clone().max())?.map(|x| x.o()) == m.back(),
            9 if fits => measured(&"len", b, || it.len())? as u128 == m.len(),
            _ => true,
        };
        let used = ctl_after().calls;
        stat_max("iterator_call_work_percent_of_bound", used * 100 / b);
        ev!("iterator call {which}({n}): {used} element operations");
        ensure!(got, "wrong-element", "iterator call {which}({n}) gave a wrong result");
    }
    Ok(())
}

fn measured_endless<I>(start: impl Fn() -> I, v: &Val) -> Res
where
    I: Iterator<Item = Elem> + Clone,
{
    let b = iter_bound(v.m.pieces);
    let mut it = measured(&"into_iter", b, &start)?;
    let mut m = MIter::new(v.m.elements(domain().lo, domain().hi));
    while more(10) {
        stat("steps");
        let n = match draw(3) {
            0 => draw(5) as usize,
            1 => draw_u64() as usize,
            _ => {
                let k = m.dq.len().saturating_sub(1);
                let f = MIter::new(m.dq.iter().take(k).copied().collect()).len();
                usize::try_from(f.saturating_add(draw(9) as u128)).unwrap_or(usize::MAX)
            }
        };
        if m.len() < (n as u128).saturating_add(10) {
            continue;
        }
        let which = draw(4);
        let ok = match which {
            0 => measured(&"next", b, || it.next())?.map(|x| x.o()) == m.next(),
            1 => measured(&format!("nth({n})"), b, || it.nth(n))?.map(|x| x.o()) == m.nth(n as u128),
            2 => measured(&"min", b, || it.clone().min())?.map(|x| x.o()) == m.front(),
            _ => {
                measured(&"size_hint", b, || it.size_hint())?;
                true
            }
        };
        let used = ctl_after().calls;
        stat_max("iterator_call_work_percent_of_bound", used * 100 / b);
        ev!("endless iterator call {which}({n}): {used} element operations");
        ensure!(ok, "wrong-element", "iterator call {which}({n}) gave a wrong result");
    }
    Ok(())
}

/// Branches and memory accesses a single iterator call may take on a set of `p` pieces.
fn point_bound(p: u64) -> u64 {
    1000 * (p + 4)
}

fn counted<R>(what: &dyn std::fmt::Display, p: u64, f: impl FnOnce() -> R) -> Res<R> {
    let (from, bound) = (points(), point_bound(p));
    limit_points(bound);
    let r = call(Opts { preempt: Some(0), ..Opts::default() }, f).expect_ok(what);
    limit_points(0);
    stat_max("iterator_call_points_percent_of_bound", (points() - from) * 100 / bound);
    r
}

/// Iterators over a built-in element type: in the traced build every branch and memory access
/// counts, elsewhere a call that visits the elements runs into the time limit of the run.
fn built_in_work<T: Dom>() -> Res {
    let ends = chance(1, 2);
    let mut w = window::<T>(8, ends);
    w.far |= chance(1, 2);
    let many = chance(1, 8);
    ev!("element type {}", T::NAME);
    if chance(1, 3) {
        let (v, m) = gen_lower::<T>(&w, many)?;
        let p = m.pieces;
        let mut it = counted(&"into_iter", p, || match v {
            Lower::R(r) => Endless::new(r.into_iter()),
            Lower::S(s) => Endless::new(s.into_iter()),
        })?;
        let mut m = MIter::new(m.elements(T::lo(), T::hi()));
        while more(8) {
            stat("steps");
            let n = draw_u64() as usize;
            if m.len() < (n as u128).saturating_add(10) {
                continue;
            }
            let which = draw(4);
            let ok = match which {
                0 => counted(&"next", p, || it.next())? == m.next(),
                1 => counted(&"nth", p, || it.nth(n))? == m.nth(n as u128),
                2 => {
                    let c = it.clone();
                    counted(&"min", p, || c.min())? == m.front()
                }
                _ => {
                    counted(&"size_hint", p, || it.size_hint())?;
                    true
                }
            };
            ev!("endless iterator call {which}({n})");
            ensure!(ok, "wrong-element", "iterator call {which}({n}) gave a wrong result");
        }
        return Ok(());
    }
    let (v, m) = gen_bounded::<T>(&w, many)?;
    let p = m.pieces;
    let mut it = counted(&"into_iter", p, || match v {
        Bounded::R(r) => TwoEnded::new(r.into_iter()),
        Bounded::S(s) => TwoEnded::new(s.into_iter()),
    })?;
    let mut m = MIter::new(m.elements(T::lo(), T::hi()));
    while more(10) {
        stat("steps");
        let n = match draw(3) {
            0 => draw_u64() as usize,
            1 => (m.len().min(usize::MAX as u128) as usize).saturating_sub(draw(3) as usize),
            _ => draw(5) as usize,
        };
        let which = draw(10);
        let fits = m.len() <= usize::MAX as u128;
        let c = it.clone();
        let ok = match which {
            0 => counted(&"next", p, || it.next())? == m.next(),
            1 => counted(&"next_back", p, || it.next_back())? == m.next_back(),
            2 => counted(&"nth", p, || it.nth(n))? == m.nth(n as u128),
            3 => counted(&"nth_back", p, || it.nth_back(n))? == m.nth_back(n as u128),
            4 => {
                counted(&"size_hint", p, || it.size_hint())?;
                true
            }
            5 if fits => counted(&"count", p, || c.count())? as u128 == m.len(),
            6 => counted(&"last", p, || c.last())? == m.back(),
            7 => counted(&"min", p, || c.min())? == m.front(),
            8 => counted(&"max", p, || c.max())? == m.back(),
            9 if fits => counted(&"len", p, || it.len())? as u128 == m.len(),
            _ => true,
        };
        ev!("iterator call {which}({n})");
        ensure!(ok, "wrong-element", "iterator call {which}({n}) gave a wrong result");
    }
    Ok(())
}

/// Thousands of pieces on a thread with little stack: work, and stack, must not depend on them
/// more than the property allows. Elements are plain integers here.
fn deep(n: i64, shape: u32, order: u32) -> Result<(), String> {
    use rangetools::{BoundedSet, LowerBoundedSet, Rangetools, UnboundedSet, UpperBoundedSet};
    let mut b: BoundedSet<i64> = BoundedSet::empty();
    for k in 0..n {
        let k = if order == 0 { k } else { n - 1 - k };
        b = b.union(4 * k..4 * k + 2);
    }
    let fail = |m: &str| Err(format!("with {n} pieces: {m}"));
    let end = 4 * n;
    match shape {
        5 | 6 => {
            // pieces without an element in them, between two that have one
            use rangetools::{BoundedRange, LowerBound, UpperBound};
            let mut h: BoundedSet<i64> = (-4..-3).to_set();
            for k in 0..n {
                let k = if order == 0 { k } else { n - 1 - k };
                h = h.union(BoundedRange::new(LowerBound::excluded(4 * k), UpperBound::excluded(4 * k + 1)));
            }
            h = h.union(end..end + 1);
            for nth in [false, true] {
                let mut i = h.clone().into_iter();
                let (got, want) = match (shape, nth) {
                    (5, false) => ((i.next(), i.next()), (-4, end)),
                    (5, _) => ((i.nth(0), i.nth(0)), (-4, end)),
                    (_, false) => ((i.next_back(), i.next_back()), (end, -4)),
                    _ => ((i.nth_back(0), i.nth_back(0)), (end, -4)),
                };
                if got != (Some(want.0), Some(want.1)) {
                    return fail("iterating over pieces without elements goes wrong");
                }
            }
            let j = h.clone().into_iter();
            if j.len() != 2 || j.clone().count() != 2 || j.clone().last() != Some(end) || j.clone().min() != Some(-4) || j.max() != Some(end) {
                return fail("measuring pieces without elements goes wrong");
            }
            let mut e = h.union(end + 10..).into_iter();
            if (e.next(), e.nth(1), e.next()) != (Some(-4), Some(end + 10), Some(end + 11)) {
                return fail("an endless iteration over pieces without elements goes wrong");
            }
            return Ok(());
        }
        7 => {
            // over nearly all of them in one call
            let mut i = b.clone().into_iter();
            let mut j = b.clone().into_iter();
            let mut e = b.clone().union(end + 10..).into_iter();
            let k = 2 * n as usize;
            if i.nth(k - 1) != Some(end - 3) || i.next().is_some() || j.nth_back(k - 1) != Some(0) || j.next_back().is_some() {
                return fail("a skip over all but one element goes wrong");
            }
            if e.nth(k + 1) != Some(end + 11) {
                return fail("a skip into the endless part goes wrong");
            }
            if b.clone().into_iter().nth(k).is_some() || b.clone().into_iter().nth_back(k).is_some() {
                return fail("a skip over all elements goes wrong");
            }
            let f = b.into_iter();
            if f.clone().last() != Some(end - 3) || f.clone().max() != Some(end - 3) || f.clone().fold(0, |a, _| a + 1) != k || f.rev().count() != k {
                return fail("going to the end goes wrong");
            }
            return Ok(());
        }
        8 => {
            // operations that take time in the third power
            let c = b.clone().complement();
            if !c.contains(2) || c.contains(4) || !c.contains(-1) || !c.contains(end) {
                return fail("the complement has the wrong members");
            }
            let back: BoundedSet<i64> = c.clone().intersection(-1..end + 1);
            if back.into_iter().len() as i64 != 2 * n + 2 {
                return fail("the intersection of the complement with a range has the wrong size");
            }
            let s = b.clone().union(end + 10..).intersection(c.clone().union(..end + 20));
            if s.into_iter().take(3).collect::<Vec<_>>() != [0, 1, 4] {
                return fail("an intersection of two open sets iterates wrongly");
            }
            let u = c.clone().union(b.clone());
            if !u.contains(0) || !u.contains(2) || !u.contains(end) {
                return fail("the union with the complement has the wrong members");
            }
            if !b.disjoint(c) {
                return fail("not reported disjoint from the complement");
            }
            return Ok(());
        }
        0 => {
            let u = b.clone().union(-1..end + 1);
            if u.into_iter().len() as i64 != end + 2 {
                return fail("a union over all of them has the wrong size");
            }
        }
        1 => {
            let s: LowerBoundedSet<i64> = b.clone().union(end + 10..);
            let u = s.union(-1..);
            if u.into_iter().take(5).collect::<Vec<_>>() != [-1, 0, 1, 2, 3] {
                return fail("a union with an endless range iterates wrongly");
            }
        }
        2 => {
            let s: UpperBoundedSet<i64> = b.clone().union(..-10);
            let u = s.union(..end);
            if !u.contains(end - 1) || u.contains(end) {
                return fail("a union with a range without a start has the wrong members");
            }
        }
        3 => {
            let s: UnboundedSet<i64> = b.clone().union((..-10).union(end + 10..));
            let u = s.union(..end);
            if !u.contains(end - 1) || u.contains(end) || !u.contains(end + 10) {
                return fail("a union with a two-sided set has the wrong members");
            }
        }
        _ => {
            let s: UnboundedSet<i64> = b.clone().union((..-10).union(end + 10..));
            let u = s.union(-5..);
            if !u.contains(end - 1) || !u.contains(-5) || u.contains(-6) {
                return fail("a union with a two-sided set has the wrong members");
            }
        }
    }
    let mut i = b.clone().into_iter();
    if i.len() as i64 != 2 * n || i.nth(n as usize) != Some(4 * (n / 2) + n % 2) {
        return fail("a skip lands on the wrong element");
    }
    let cut = b.clone().intersection(2..end - 2);
    if cut.into_iter().len() as i64 != 2 * (n - 1) {
        return fail("an intersection has the wrong size");
    }
    if !b.disjoint(2..4) {
        return fail("not reported disjoint from a gap");
    }
    Ok(())
}

pub fn c10() -> Res {
    if chance(1, 200) {
        stat("fault.small_stack");
        nontrivial();
        let mut n = [500 + draw(3500) as i64, 4000][draw_usize(2)];
        let (shape, order) = (draw(9), draw(2));
        let mut kb = [256, 128, 64][draw_usize(3)];
        if shape == 8 {
            (n, kb) = (n / 40, 32);
        }
        ev!("deep: {n} pieces, shape {shape}, order {order}, {kb} KiB of stack");
        stat_max("max_pieces", n as u64);
        let h = std::thread::Builder::new()
            .stack_size(kb << 10)
            .spawn(move || deep(n, shape, order))
            .expect("thread");
        return match h.join() {
            Ok(Ok(())) => Ok(()),
            Ok(Err(m)) => crate::viol!("wrong-result", "{m}"),
            Err(_) => crate::viol!("unexpected-panic", "an operation on {n} pieces panicked"),
        };
    }
    if chance(1, 4) {
        set_domain(0, 255, Overflow::Panic);
        while more(4) {
            let sp = span_start();
            episode_start();
            nontrivial();
            stat("episodes.built_in_types");
            let sel = draw(13);
            built_in!(sel, built_in_work())?;
            episode_end();
            span_end(sp);
        }
        return Ok(());
    }
    // Ranges hold up to 2^100 elements: anything that visits elements shows at once.
    match pick(&[3, 1, 1]) {
        0 => set_domain(-(1 << 100), 1 << 100, Overflow::Panic),
        1 => set_domain(i64::MIN as i128, i64::MAX as i128, Overflow::Panic),
        _ => set_domain(0, 1 << 20, Overflow::Panic),
    }
    while more(4) {
        let sp = span_start();
        episode_start();
        let ends = chance(1, 3);
        let mut w = window::<Elem>(8, ends);
        if chance(1, 3) {
            // room for many pieces
            w = w.widened(4000);
            w.far = chance(1, 2);
        }
        let absorb = w.short && chance(1, 6);
        let mut pool: Vec<Val> = vec![];
        for _ in 0..1 + draw(3) {
            let n = match pick(&[3, 3, 2, 1]) {
                0 => 1 + draw(3),
                1 => 3 + draw(8),
                2 => 8 + draw(16),
                _ => 20 + draw(30),
            };
            let v = if absorb && chance(2, 3) {
                let n = 60 + draw(200);
                absorbing(&w, n, &mut |a, b, p| {
                    let (a, b) = (a.clone(), b.clone());
                    measured(&"union", set_bound(p), || a.union(b))
                })?
            } else if chance(1, 4) {
                primitive(&w)
            } else {
                many_pieces(&w, n as u64)?
            };
            ev!("v{} = {} {}", pool.len(), v.s.kind(), v.m.show());
            pool.push(v);
        }
        if pool.iter().any(|v| v.m.pieces > 4) {
            nontrivial();
        }
        while more(8) {
            let sp = span_start();
            if chance(1, 2) {
                let v = &pool[draw_usize(pool.len())];
                match &v.s {
                    Any::Br(r) => measured_iter(|| r.into_iter(), v)?,
                    Any::Bs(s) => measured_iter(|| s.clone().into_iter(), v)?,
                    Any::Lbr(r) => measured_endless(|| r.into_iter(), v)?,
                    Any::Lbs(s) => measured_endless(|| s.clone().into_iter(), v)?,
                    _ => {}
                }
                span_end(sp);
                continue;
            }
            let op = gen_op(pool.len(), &w);
            let r = refs(&pool);
            let p = pieces_of(op, &r);
            if p > 110 || matches!(op, Op::Iterate(_)) {
                continue;
            }
            let b = set_bound(p);
            if chance(1, 3) {
                let at = 1 + draw(1000) as u64;
                let out = exec(op, &r, Opts { fault_at: at, budget: b, ..Opts::default() });
                ev!("{op:?} failing at {at}: {}", out.name());
                match out {
                    Out::Fault => {
                        nontrivial();
                    }
                    Out::Budget => crate::viol!("too-much-work", "{op:?} on {p} pieces: not done after {b} element operations"),
                    o => drop(o.expect_ok(&format!("{op:?}"))?),
                }
            }
            let out = exec(op, &r, Opts { budget: b, ..Opts::default() });
            stat("steps");
            if let Out::Budget = out {
                crate::viol!("too-much-work", "{op:?} on {p} pieces: not done after {b} element operations");
            }
            let used = ctl_after().calls;
            stat_max("set_operation_work_permille_of_bound", used * 1000 / b);
            stat_max("max_pieces", p);
            ev!("{op:?} on {p} pieces: {used} element operations");
            if let Got::Set(s) = out.expect_ok(&format!("{op:?}"))? {
                let m = model_of(op, &r).expect("a set");
                if m.pieces < 70 {
                    keep(&mut pool, Val { s, m });
                }
            }
            span_end(sp);
        }
        episode_end();
        span_end(sp);
    }
    Ok(())
}
