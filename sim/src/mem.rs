//! Memory: C18. What calls take while they run, what they leave behind, and what is given back.

use crate::alloc;
use crate::anyset::*;
use crate::elem::{domain, set_domain, Elem, Overflow};
use crate::gen::{window, Win};
use crate::rt::*;
use crate::sets::*;
use crate::{ensure, ev};

/// Bytes a set operation may take at a time on operands of `p` pieces in all.
fn set_room(p: u64) -> i64 {
    let p = p as i64 + 4;
    1024 * p + 64 * p * p
}
/// Bytes an iterator over `p` pieces may take, in one call or in all calls together.
fn iter_room(p: u64) -> i64 {
    256 * (p as i64 + 8)
}

/// Bytes a copy of a value of `p` pieces may take.
fn value_room(p: u64) -> i64 {
    256 * (p as i64 + 8)
}

/// Runs a call and bounds the most it takes at a time. Returns what it leaves allocated.
fn room<R>(what: &dyn std::fmt::Display, p: u64, bound: i64, stat_name: &'static str, f: impl FnOnce() -> Out<R>) -> Res<(Out<R>, i64)> {
    let before = alloc::live();
    alloc::reset_peak();
    let out = f();
    let most = alloc::peak() - before;
    stat_max(stat_name, (most * 100 / bound) as u64);
    ensure!(
        most <= bound,
        "too-much-memory",
        "{what} took {most} bytes at a time, on {p} pieces; {bound} would be plenty"
    );
    Ok((out, alloc::live() - before))
}

/// An iterator of any of the four types.
trait It {
    fn call(&mut self, which: u32, n: usize);
    fn copy(&self) -> Box<dyn It>;
}
struct Two<I>(I);
struct One<I>(I);
impl<I: Iterator<Item = Elem> + DoubleEndedIterator + ExactSizeIterator + Clone + 'static> It for Two<I> {
    fn call(&mut self, which: u32, n: usize) {
        match which {
            0 => drop(self.0.next()),
            1 => drop(self.0.next_back()),
            2 => drop(self.0.nth(n)),
            3 => drop(self.0.nth_back(n)),
            4 => drop(self.0.size_hint()),
            5 => drop(self.0.clone().last()),
            6 => drop(self.0.clone().min()),
            7 => drop(self.0.clone().max()),
            8 => {
                if self.0.size_hint().1.is_some() {
                    self.0.clone().count();
                }
            }
            _ => drop(self.0.by_ref().rev().nth(n)),
        }
    }
    fn copy(&self) -> Box<dyn It> {
        Box::new(Two(self.0.clone()))
    }
}
impl<I: Iterator<Item = Elem> + Clone + 'static> It for One<I> {
    fn call(&mut self, which: u32, n: usize) {
        match which {
            0 | 1 => drop(self.0.next()),
            2 | 3 => drop(self.0.nth(n % 3)),
            4 => drop(self.0.size_hint()),
            _ => drop(self.0.clone().min()),
        }
    }
    fn copy(&self) -> Box<dyn It> {
        Box::new(One(self.0.clone()))
    }
}

struct Held {
    it: Box<dyn It>,
    p: u64,
    /// Bytes it holds, as far as they were taken by calls on it.
    bytes: i64,
    /// How often it may still be called: endless iterators keep clear of the end of the domain.
    left: u32,
}

fn open(v: &Val) -> Option<Held> {
    let o = call(Opts::default(), || -> Option<Box<dyn It>> {
        match &v.s {
            Any::Br(r) => Some(Box::new(Two(r.clone().into_iter()))),
            Any::Bs(s) => Some(Box::new(Two(s.clone().into_iter()))),
            Any::Lbr(r) => Some(Box::new(One(r.clone().into_iter()))),
            Any::Lbs(s) => Some(Box::new(One(s.clone().into_iter()))),
            _ => None,
        }
    });
    let left = match &v.s {
        Any::Lbr(_) | Any::Lbs(_) => {
            let n = crate::model::MIter::new(v.m.elements(domain().lo, domain().hi)).len();
            ((n / 4).min(100_000) as u32).saturating_sub(4)
        }
        _ => 100_000,
    };
    match o {
        Out::Ok(Some(it)) => Some(Held { it, p: v.m.pieces, bytes: 0, left }),
        _ => None,
    }
}

/// A seeded history of operations, failures, iterations and drops. Everything is dropped at the end.
fn history(w: &Win, avg: u32) -> Res {
    let n = 1 + draw_usize(3);
    let mut pool = initial_pool(w, n)?;
    let mut held: Vec<Held> = vec![];
    while more(avg) {
        let sp = span_start();
        stat("steps");
        match pick(&[4, 3, 2, 1]) {
            0 => {
                let op = gen_op(pool.len(), w);
                let r = refs(&pool);
                if unfit(op, &r) {
                    continue;
                }
                let p = pieces_of(op, &r);
                let times = if chance(1, 2) { 1 + pick(&[4, 2, 1]) } else { 0 };
                for _ in 0..times {
                    let at = 1 + [0, 1, 3, 7, 20, 60][pick(&[3, 3, 2, 2, 1, 1])] + draw(3) as u64;
                    let (out, left) = room(&format_args!("{op:?}, failing"), p, set_room(p), "set_room_percent", || {
                        exec(op, &r, Opts { fault_at: at, ..Opts::default() })
                    })?;
                    ev!("{op:?} failing at {at}: {}, {left} bytes", out.name());
                    if let Out::Fault = out {
                        nontrivial();
                    } else {
                        out.expect_ok(&format!("{op:?}"))?;
                    }
                }
                let (out, left) =
                    room(&format_args!("{op:?}"), p, set_room(p), "set_room_percent", || exec(op, &r, Opts::default()))?;
                ev!("{op:?}: {left} bytes");
                if let Got::Set(s) = out.expect_ok(&format!("{op:?}"))? {
                    if let Some(m) = model_of(op, &r) {
                        keep(&mut pool, Val { s, m });
                    }
                }
            }
            1 => {
                // one iterator, used for a while
                let i = if held.is_empty() || chance(1, 2) {
                    let v = &pool[draw_usize(pool.len())];
                    let before = alloc::live();
                    alloc::reset_peak();
                    let h = open(v);
                    let most = alloc::peak() - before;
                    ensure!(
                        most <= iter_room(v.m.pieces),
                        "too-much-memory",
                        "into_iter took {most} bytes at a time, on {} pieces; {} would be plenty",
                        v.m.pieces,
                        iter_room(v.m.pieces)
                    );
                    let Some(mut h) = h else { continue };
                    h.bytes = alloc::live() - before;
                    ev!("an iterator over {} pieces: {} bytes", h.p, h.bytes);
                    held.push(h);
                    held.len() - 1
                } else {
                    draw_usize(held.len())
                };
                let many = chance(1, 60);
                let h = &mut held[i];
                let same = if many { Some(draw(2)) } else { None };
                let mut left = if many { 3000 } else { 1 + draw(12) };
                while left > 0 {
                    left -= 1;
                    if h.left == 0 {
                        break;
                    }
                    h.left -= 1;
                    let which = same.unwrap_or_else(|| draw(10));
                    let n = match which {
                        2 | 3 | 9 => draw_u64() as usize,
                        _ => 0,
                    };
                    let fault_at = if !many && chance(1, 4) { 1 + draw(5) as u64 } else { 0 };
                    let bound = iter_room(h.p);
                    let it = &mut h.it;
                    let (out, net) = room(&format_args!("iterator call {which}({n})"), h.p, bound, "iterator_room_percent", || {
                        call(Opts { fault_at, ..Opts::default() }, || it.call(which, n))
                    })?;
                    h.bytes += net;
                    if !many {
                        ev!("iterator {i} call {which}({n}) failing at {fault_at}: {}, {net} bytes", out.name());
                    }
                    match out {
                        Out::Fault => nontrivial(),
                        o => o.expect_ok(&"iterator call")?,
                    }
                    ensure!(
                        h.bytes <= bound,
                        "too-much-memory",
                        "an iterator over {} pieces has come to hold {} bytes; {bound} would be plenty",
                        h.p,
                        h.bytes
                    );
                }
                if chance(1, 4) {
                    // a checkpoint
                    let h = &held[i];
                    let (out, net) = room(&"clone", h.p, iter_room(h.p), "iterator_room_percent", || {
                        call(Opts::default(), || h.it.copy())
                    })?;
                    let c = Held { it: out.expect_ok(&"clone")?, p: h.p, bytes: net, left: h.left };
                    if held.len() < 6 {
                        held.push(c);
                    }
                }
            }
            2 => {
                if !held.is_empty() && chance(2, 3) {
                    let i = draw_usize(held.len());
                    held.swap_remove(i);
                    ev!("iterator {i} dropped");
                } else if pool.len() > 1 {
                    let i = draw_usize(pool.len());
                    pool.swap_remove(i);
                    ev!("v{i} dropped");
                }
            }
            _ if chance(1, 12) && w.hi - w.lo > 100 => {
                let n = 100 + draw(300);
                let v = absorbing(w, n, &mut |a, b, p| {
                    let f = || call(Opts::default(), || a.clone().union(b.clone()));
                    room(&"union", p, set_room(p), "set_room_percent", f)?.0.expect_ok(&"union")
                })?;
                let p = v.m.pieces;
                let c = room(&"clone", p, value_room(p), "value_room_percent", || call(Opts::default(), || v.s.clone()))?;
                c.0.expect_ok(&"clone")?;
                ev!("{n} ranges absorbed: {p} pieces, a copy takes {} bytes", c.1);
                keep(&mut pool, v);
            }
            _ => keep(&mut pool, primitive(w)),
        }
        span_end(sp);
    }
    Ok(())
}

/// Rounds made when something is left behind.
const ROUNDS: usize = 64;

/// Bytes that loading `n` bytes of data may take at a time. serde itself sets aside up to a
/// megabyte on the word of a length it has read.
fn load_room(n: usize) -> i64 {
    (8 << 20) + 1024 * n as i64
}

/// What is left after `f`, which was done before with the choices from `from` on, and the same over
/// and over: a buffer kept for later use is one thing, memory lost for good another. A buffer that
/// grows by doubling needs many rounds to show.
fn no_leak(before: i64, from: u32, f: impl Fn() -> Res) -> Res {
    let kept = alloc::live() - before;
    ev!("all dropped: {kept} bytes kept");
    if kept == 0 {
        return Ok(());
    }
    let mut after = vec![];
    for _ in 0..ROUNDS {
        again(from, &f)?;
        after.push(alloc::live() - before);
    }
    stat("histories_repeated");
    let (mid, end) = (after[ROUNDS / 4 - 1], after[ROUNDS - 1]);
    ensure!(
        end <= mid,
        "leak",
        "when everything is dropped {kept} bytes are not given back; doing the same again {} and {ROUNDS} times makes that {mid} and {end}",
        ROUNDS / 4
    );
    Ok(())
}

fn loading() -> Res {
    let (n, most) = crate::disk::load_for_memory()?;
    stat_max("load_room_percent", (most * 100 / load_room(n)) as u64);
    ensure!(
        most <= load_room(n),
        "too-much-memory",
        "loading {n} bytes of data took {most} bytes at a time; {} would be plenty",
        load_room(n)
    );
    Ok(())
}

pub fn c18() -> Res {
    if chance(1, 4) {
        set_domain(-100_000, 100_000, Overflow::Panic);
        while more(8) {
            let sp = span_start();
            episode_start();
            let before = alloc::live();
            let from = span_start();
            loading()?;
            no_leak(before, from, loading)?;
            stat("loads");
            episode_end();
            span_end(sp);
        }
        return Ok(());
    }
    match pick(&[3, 2, 2]) {
        0 => set_domain(0, 1 << 20, Overflow::Panic),
        1 => set_domain(-(1 << 100), 1 << 100, Overflow::Panic),
        _ => set_domain(-1000, 1000, Overflow::Panic),
    }
    let d = domain();
    ev!("domain {}..={}", d.lo, d.hi);
    let start = alloc::live();
    while more(3) {
        let sp = span_start();
        episode_start();
        let ends = chance(1, 4);
        let mut w = window::<Elem>(8, ends);
        if chance(1, 5) {
            w = w.widened(500);
        }
        let avg = [6, 15, 40][pick(&[3, 2, 1])];
        let before = alloc::live();
        let from = span_start();
        history(&w, avg)?;
        stat("histories_with_everything_dropped");
        no_leak(before, from, || history(&w, avg))?;
        episode_end();
        span_end(sp);
    }
    let kept = alloc::live() - start;
    ensure!(kept <= 64 << 10, "leak", "{kept} bytes are not given back when everything is dropped");
    stat_max("bytes_kept_at_the_end", kept.max(0) as u64);
    stat_n("blocks_allocated", alloc::blocks());
    Ok(())
}
