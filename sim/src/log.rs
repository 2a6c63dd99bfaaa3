//! Replicas that apply one log, each in circumstances of its own: C21.
//!
//! Every replica is a thread. The log is the same for all; pace, interleaving, preemptions, failed
//! and retried operations, other work in between, crashes, recovery from somebody's saved state plus
//! the rest of the log, the clock and the operating system's randomness are not.

use crate::anyset::*;
use crate::disk::{gen_fmt, load, save, ty, Fmt, Ty};
use crate::elem::{domain, set_domain, Dom, Elem, Overflow};
use crate::gen::{gen_range, window, Win};
use crate::model::{MIter, MSet};
use crate::rt::*;
use crate::{ensure, ev, sched, viol};
use std::hash::{Hash, Hasher};

const REGS: usize = 5;

#[derive(Clone, Debug)]
enum Entry {
    /// register := a given value
    Set(usize, Any),
    Union(usize, usize, usize),
    Inter(usize, usize, usize),
    Minus(usize, usize, usize),
    Compl(usize, usize),
    ToSet(usize, usize),
    Contains(usize, i128),
    Empty(usize),
    Disjoint(usize, usize),
    Iterate(usize),
}

#[derive(Clone)]
enum Answer {
    Value(usize, Any),
    Bool(bool),
    Seq(Vec<i128>),
}

/// What a replica shows of its state after an entry.
struct Shown {
    by: usize,
    answer: Answer,
    json: Vec<u8>,
    bin: Vec<u8>,
    hash: u64,
}

#[derive(Clone)]
struct Snapshot {
    at: usize,
    regs: Vec<(Ty, Fmt, Vec<u8>)>,
}

struct Group {
    log: Vec<Entry>,
    /// how much of the log there is for the replicas to see
    win: Win,
    start: Vec<Any>,
    shown: Vec<Option<Shown>>,
    snaps: Vec<Snapshot>,
    faults: bool,
    preempt: bool,
}

static mut GROUP: Option<Group> = None;

#[allow(static_mut_refs)]
fn group() -> &'static mut Group {
    unsafe { GROUP.as_mut().expect("group") }
}

fn own(v: Val) -> Res<Val> {
    // the standard ranges have no saved form of this crate's making
    if v.s.is_std() {
        let s = plain(&"to_inner", || v.s.to_inner())?;
        Ok(Val { s, m: v.m })
    } else {
        Ok(v)
    }
}

/// Entries whose operands, by the model, stay of a reasonable size.
fn make_log(w: &Win, start: &[Val], avg: u32) -> Res<Vec<Entry>> {
    let mut m: Vec<MSet> = start.iter().map(|v| v.m.clone()).collect();
    let mut log = vec![];
    // one register collects many short ranges
    let hoard = chance(1, 2);
    while more(avg) && log.len() < 400 {
        let (d, a, b) = (draw_usize(REGS), draw_usize(REGS), draw_usize(REGS));
        let small = |x: &MSet, y: &MSet| x.pieces + y.pieces <= 60;
        if hoard && chance(1, 2) {
            let (r, mr) = gen_range::<Elem>(w);
            if small(&m[0], &mr) {
                let k = 1 + draw_usize(REGS - 1);
                log.push(Entry::Set(k, r.into()));
                m[k] = mr;
                log.push(Entry::Union(0, 0, k));
                m[0] = m[0].union(&m[k]);
                m[0] = { let n = 1 + 2 * m[0].n_intervals(); m[0].clone().at_most(n) };
                continue;
            }
        }
        match pick(&[4, 6, 4, 3, 2, 1, 2, 1, 2, 2]) {
            0 => {
                let v = own(primitive(w))?;
                m[d] = v.m;
                log.push(Entry::Set(d, v.s));
            }
            1 if small(&m[a], &m[b]) => {
                m[d] = m[a].union(&m[b]);
                log.push(Entry::Union(d, a, b));
            }
            2 if small(&m[a], &m[b]) => {
                m[d] = m[a].inter(&m[b]);
                log.push(Entry::Inter(d, a, b));
            }
            3 if small(&m[a], &m[b]) => {
                m[d] = m[a].inter(&m[b].complement());
                log.push(Entry::Minus(d, a, b));
            }
            4 if m[a].pieces <= 30 => {
                m[d] = m[a].complement();
                log.push(Entry::Compl(d, a));
            }
            5 => {
                m[d] = m[a].clone();
                log.push(Entry::ToSet(d, a));
            }
            6 => log.push(Entry::Contains(a, w.point())),
            7 => log.push(Entry::Empty(a)),
            8 if small(&m[a], &m[b]) => log.push(Entry::Disjoint(a, b)),
            9 if MIter::new(m[a].elements(domain().lo, domain().hi)).len() > 60 => log.push(Entry::Iterate(a)),
            _ => {}
        }
    }
    Ok(log)
}

fn exec(e: &Entry, regs: &[Any], o: Opts) -> Out<Answer> {
    call(o, || match e {
        Entry::Set(d, v) => Answer::Value(*d, v.clone()),
        Entry::Union(d, a, b) => Answer::Value(*d, regs[*a].clone().union(regs[*b].clone())),
        Entry::Inter(d, a, b) => Answer::Value(*d, regs[*a].clone().intersection(regs[*b].clone())),
        Entry::Minus(d, a, b) => {
            Answer::Value(*d, regs[*a].clone().intersection(regs[*b].clone().complement()))
        }
        Entry::Compl(d, a) => Answer::Value(*d, regs[*a].clone().complement()),
        Entry::ToSet(d, a) => Answer::Value(*d, regs[*a].clone().to_set()),
        Entry::Contains(a, p) => Answer::Bool(regs[*a].contains(Elem::mk(*p))),
        Entry::Empty(a) => Answer::Bool(regs[*a].is_empty()),
        Entry::Disjoint(a, b) => Answer::Bool(regs[*a].clone().disjoint(regs[*b].clone())),
        Entry::Iterate(a) => match regs[*a].clone().iterate(20) {
            Some((f, b)) => {
                Answer::Seq(f.into_iter().chain(b.into_iter().flatten()).map(|x| x.o()).collect())
            }
            None => Answer::Seq(vec![]),
        },
    })
}

fn hash_of(v: &Any) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    match v {
        Any::Br(x) => x.hash(&mut h),
        Any::Lbr(x) => x.hash(&mut h),
        Any::Ubr(x) => x.hash(&mut h),
        Any::Bs(x) => x.hash(&mut h),
        Any::Lbs(x) => x.hash(&mut h),
        Any::Ubs(x) => x.hash(&mut h),
        Any::Us(x) => x.hash(&mut h),
        _ => {}
    }
    h.finish()
}

fn bytes_of(v: &Any, fmt: Fmt) -> Res<Vec<u8>> {
    let mut b = vec![];
    if let Err(e) = plain(&"saving", || save(v, fmt, &mut b))? {
        viol!("save-failed", "saving {} failed: {e}", v.kind());
    }
    Ok(b)
}

fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned()
}

/// Compares what this replica shows after entry `i` with what another one has shown.
fn show(t: usize, i: usize, answer: Answer) -> Res {
    let g = group();
    let mut s = Shown { by: t, answer, json: vec![], bin: vec![], hash: 0 };
    if let Answer::Value(_, v) = &s.answer {
        s.json = bytes_of(v, Fmt::Json)?;
        s.bin = bytes_of(v, Fmt::Bincode)?;
        s.hash = plain(&"hash", || hash_of(v))?;
    }
    let Some(o) = &g.shown[i] else {
        g.shown[i] = Some(s);
        return Ok(());
    };
    stat("states_compared");
    let who = |x: &Shown| x.by;
    let entry = format!("{:?}", g.log[i]);
    let entry = &entry[..entry.len().min(300)];
    match (&o.answer, &s.answer) {
        (Answer::Bool(a), Answer::Bool(b)) => ensure!(
            a == b,
            "replicas-differ",
            "entry {i} {entry}: replica {} answers {a}, replica {t} {b}",
            who(o)
        ),
        (Answer::Seq(a), Answer::Seq(b)) => ensure!(
            a == b,
            "replicas-differ",
            "entry {i} {entry}: replica {} iterates {a:?}, replica {t} {b:?}",
            who(o)
        ),
        (Answer::Value(_, a), Answer::Value(_, b)) => {
            let same = plain(&"==", || a == b)?;
            ensure!(
                same && s.json == o.json && s.bin == o.bin && s.hash == o.hash,
                "replicas-differ",
                "entry {i} {entry}: replica {} holds {} {}, replica {t} holds {} {} (equal: {same}, same bytes: {}, same hash: {})",
                who(o),
                a.kind(),
                text(&o.json),
                b.kind(),
                text(&s.json),
                s.json == o.json && s.bin == o.bin,
                s.hash == o.hash
            );
        }
        _ => viol!("harness", "answers of different kinds"),
    }
    Ok(())
}

fn snapshot(regs: &[Any], at: usize) -> Res<Snapshot> {
    let mut v = vec![];
    for r in regs {
        let fmt = gen_fmt();
        v.push((ty(r), fmt, bytes_of(r, fmt)?));
    }
    Ok(Snapshot { at, regs: v })
}

fn restore(s: &Snapshot) -> Res<Vec<Any>> {
    let mut regs = vec![];
    for (t, fmt, b) in &s.regs {
        match plain(&"loading", || load(*t, *fmt, &mut &b[..]))? {
            Ok(v) => regs.push(v),
            Err(e) => viol!("load-failed", "a saved state does not load: {e}"),
        }
    }
    Ok(regs)
}

/// Other work of the process a replica lives in.
fn noise(w: &Win) -> Res {
    stat("fault.other_work");
    nontrivial();
    let mut v = primitive(w);
    for _ in 0..1 + draw(4) {
        let p = primitive(w);
        let fault_at = if chance(1, 3) { 1 + draw(12) as u64 } else { 0 };
        let o = Opts { fault_at, ..Opts::default() };
        let (a, b) = (v.s.clone(), p.s.clone());
        let which = draw(3);
        let r = call(o, || match which {
            0 => a.union(b),
            1 => a.intersection(b),
            _ => a.complement(),
        });
        match r {
            Out::Ok(s) => v.s = s,
            Out::Fault if fault_at > 0 => {}
            x => {
                x.expect_ok(&"other work")?;
            }
        }
    }
    Ok(())
}

fn replica(t: usize) -> Res {
    let g = group();
    let mut regs = g.start.clone();
    let mut at = 0;
    let mut crashes = 0;
    let lively = chance(1, 2);
    while at < g.log.len() {
        if sim().first.is_some() {
            break;
        }
        let sp = span_start();
        sched::maybe_yield();
        stat("steps");
        let e = g.log[at].clone();
        if lively {
            match pick(&[30, 2, 2, 1, 1]) {
                1 => noise(&g.win)?,
                2 => {
                    let s = snapshot(&regs, at)?;
                    ev!("t{t} saves its state at {at}");
                    if g.snaps.len() < 20 {
                        g.snaps.push(s);
                    }
                }
                3 if crashes < 6 => {
                    // back from what somebody has saved, or from nothing
                    crashes += 1;
                    stat("fault.replica_crash");
                    nontrivial();
                    let k = draw_usize(g.snaps.len() + 1);
                    if k == 0 {
                        regs = g.start.clone();
                        at = 0;
                    } else {
                        let s = g.snaps[k - 1].clone();
                        regs = restore(&s)?;
                        at = s.at;
                    }
                    ev!("t{t} crashed and is back at {at}");
                    span_end(sp);
                    continue;
                }
                4 => {
                    // moved to another process: saved and loaded
                    stat("fault.state_transfer");
                    nontrivial();
                    regs = restore(&snapshot(&regs, at)?)?;
                    ev!("t{t} moved at {at}");
                }
                _ => {}
            }
        }
        if g.faults && chance(1, 6) {
            // fails, perhaps more than once, before it is done
            for _ in 0..1 + pick(&[6, 2, 1]) {
                let o = Opts { fault_at: 1 + draw([6, 40, 200][pick(&[2, 2, 1])]) as u64, ..opts(g) };
                match exec(&e, &regs, o) {
                    Out::Fault => {
                        nontrivial();
                        ev!("t{t} {at} failed");
                    }
                    Out::Ok(_) => break,
                    x => {
                        x.expect_ok(&"an entry of the log")?;
                    }
                }
            }
        }
        let answer = exec(&e, &regs, opts(g)).expect_ok(&format_args!("entry {at}"))?;
        if let Answer::Value(d, v) = &answer {
            regs[*d] = v.clone();
        }
        ev!("t{t} {at}");
        show(t, at, answer)?;
        at += 1;
        span_end(sp);
    }
    Ok(())
}

fn opts(g: &Group) -> Opts {
    Opts { preempt: if g.preempt { Some(sched::countdown()) } else { None }, ..Opts::default() }
}

pub fn c21() -> Res {
    match pick(&[3, 2, 2]) {
        0 => set_domain(0, 255, Overflow::Panic),
        1 => set_domain(-1000, 1000, Overflow::Panic),
        _ => set_domain(i64::MIN as i128, i64::MAX as i128, Overflow::Panic),
    }
    let d = domain();
    ev!("domain {}..={}", d.lo, d.hi);
    while more(2) {
        let sp = span_start();
        episode_start();
        let ends = chance(1, 3);
        let w = window::<Elem>(30, ends);
        let w = if chance(1, 3) { w.widened(300) } else { w };
        let mut start = vec![];
        for _ in 0..REGS {
            let v = own(primitive(&w))?;
            start.push(v);
        }
        let avg = [12, 40, 120][pick(&[3, 2, 1])];
        let log = make_log(&w, &start, avg)?;
        ev!("log of {} entries", log.len());
        for (i, e) in log.iter().enumerate() {
            ev!("entry {i}: {e:?}");
        }
        let n = 2 + draw_usize(3);
        let shown = log.iter().map(|_| None).collect();
        let (faults, preempt) = (chance(2, 3), chance(1, 2));
        unsafe {
            GROUP = Some(Group {
                log,
                win: w,
                start: start.into_iter().map(|v| v.s).collect(),
                shown,
                snaps: vec![],
                faults,
                preempt,
            })
        };
        sched::run(n, replica)?;
        stat("groups");
        episode_end();
        span_end(sp);
    }
    Ok(())
}
