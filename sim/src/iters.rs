//! Workloads over iterators: C01, C02, C03, C04 and C09.

use crate::elem::{Dom, Elem};
use crate::erase::{Endless, TwoEnded};
use crate::gen::*;
use crate::model::MIter;
use crate::rt::*;
use crate::{built_in, ensure, ev, viol};
use std::panic::resume_unwind;

pub const SMALL: u128 = 300;

fn show<T: Dom>(v: &Option<T>) -> String {
    match v {
        Some(x) => format!("{}", x.o()),
        None => "end".into(),
    }
}
fn show_m(v: &Option<i128>) -> String {
    match v {
        Some(x) => format!("{x}"),
        None => "end".into(),
    }
}

/// What consumers were handed, in order.
#[derive(Default)]
pub struct Hist {
    pub front: Vec<i128>,
    pub back: Vec<i128>,
}

impl Hist {
    /// Independent of the operation-by-operation comparison: over the whole history, nothing is
    /// delivered twice, the front ascends, the back descends, and everything was in the set.
    fn check(&self, initial: &MIter) -> Res {
        ensure!(
            self.front.windows(2).all(|w| w[0] < w[1]),
            "order",
            "front deliveries not ascending: {:?}",
            self.front
        );
        ensure!(
            self.back.windows(2).all(|w| w[0] > w[1]),
            "order",
            "back deliveries not descending: {:?}",
            self.back
        );
        if let (Some(f), Some(b)) = (self.front.last(), self.back.last()) {
            ensure!(f < b, "crossed", "the ends crossed: front delivered {f}, back {b}");
        }
        for v in self.front.iter().chain(&self.back) {
            ensure!(initial.rank(*v).is_some(), "invented", "{v} was never in the set");
        }
        Ok(())
    }
}

/// A number of elements to skip: small, at a seam between pieces, at the end, or huge.
fn skip_count(m: &MIter, from_back: bool) -> usize {
    let len = m.len();
    let near = |x: u128| -> usize {
        let d = draw(3) as u128;
        usize::try_from(x.saturating_add(d).saturating_sub(1)).unwrap_or(usize::MAX)
    };
    match pick(&[10, 8, 4, 2, 2, 2, 1]) {
        0 => draw(5) as usize,
        1 if !m.dq.is_empty() => {
            let j = draw_usize(m.dq.len()) + 1;
            let part: Vec<_> = if from_back {
                m.dq.iter().rev().take(j).copied().collect()
            } else {
                m.dq.iter().take(j).copied().collect()
            };
            near(MIter::new(part).len())
        }
        2 => near(len),
        3 => usize::MAX - draw(2) as usize,
        4 => draw_u64() as usize,
        5 => (draw_u64() as u128 % len.max(1)) as usize,
        _ => near(1u128 << draw(64)),
    }
}

fn cmp_opt<T: Dom>(what: &str, got: Option<T>, want: Option<i128>) -> Res {
    if got.map(|x| x.o()) != want {
        let class = match (&got, &want) {
            (None, Some(_)) => "lost",
            (Some(_), None) => "ran-past-end",
            _ => "wrong-element",
        };
        viol!(class, "{what} delivered {}, expected {}", show(&got), show_m(&want))
    }
    Ok(())
}

fn cmp_vec<T: Dom>(what: &str, got: &[T], want: &[i128]) -> Res {
    let g: Vec<i128> = got.iter().map(|x| x.o()).collect();
    ensure!(g == want, "wrong-sequence", "{what} delivered {g:?}, expected {want:?}");
    Ok(())
}

/// The remaining size, where it can be expressed.
fn check_size(what: &str, hint: (usize, Option<usize>), m: &MIter) -> Res {
    let len = m.len();
    match usize::try_from(len) {
        Ok(n) => ensure!(
            hint == (n, Some(n)),
            "size",
            "{what} is {hint:?}, but {n} elements remain"
        ),
        Err(_) => ensure!(
            hint == (usize::MAX, None),
            "size",
            "{what} is {hint:?}, but more than usize::MAX elements remain"
        ),
    }
    Ok(())
}

/// A consumer that keeps no more than it should ever be handed.
struct Sink<T> {
    v: Vec<T>,
    limit: usize,
}
impl<T> Sink<T> {
    fn new(limit: u128) -> Self {
        Sink { v: vec![], limit: limit as usize + 2 }
    }
    fn push(&mut self, x: T) {
        if self.v.len() >= self.limit {
            resume_unwind(Box::new(BudgetMark));
        }
        self.v.push(x)
    }
}

fn take_front(m: &mut MIter, k: usize) -> Vec<i128> {
    let mut v = vec![];
    for _ in 0..k {
        match m.next() {
            Some(x) => v.push(x),
            None => break,
        }
    }
    v
}
fn take_back(m: &mut MIter, k: usize) -> Vec<i128> {
    let mut v = vec![];
    for _ in 0..k {
        match m.next_back() {
            Some(x) => v.push(x),
            None => break,
        }
    }
    v
}

/// One operation by consumer `who` on a shared two-ended iterator, compared with the model.
pub fn bounded_op<T, I>(who: usize, mix: &[u32], it: &mut I, m: &mut MIter, h: &mut Hist) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let sp = span_start();
    let op = pick(mix);
    match op {
        0 => {
            let want = m.next();
            let got = plain(&"next", || it.next())?;
            ev!("c{who} next -> {}", show(&got));
            cmp_opt("next", got, want)?;
            h.front.extend(want);
        }
        1 => {
            let want = m.next_back();
            let got = plain(&"next_back", || it.next_back())?;
            ev!("c{who} next_back -> {}", show(&got));
            cmp_opt("next_back", got, want)?;
            h.back.extend(want);
        }
        2 => {
            let n = skip_count(m, false);
            let want = m.nth(n as u128);
            let what = format!("nth({n})");
            let got = plain(&what, || it.nth(n))?;
            ev!("c{who} nth({n}) -> {}", show(&got));
            cmp_opt(&what, got, want)?;
            h.front.extend(want);
        }
        3 => {
            let n = skip_count(m, true);
            let want = m.nth_back(n as u128);
            let what = format!("nth_back({n})");
            let got = plain(&what, || it.nth_back(n))?;
            ev!("c{who} nth_back({n}) -> {}", show(&got));
            cmp_opt(&what, got, want)?;
            h.back.extend(want);
        }
        4 => {
            let hint = plain(&"size_hint", || it.size_hint())?;
            ev!("c{who} size_hint -> {hint:?}");
            check_size("size_hint", hint, m)?;
            if let Ok(n) = usize::try_from(m.len()) {
                let l = plain(&"len", || it.len())?;
                ensure!(l == n, "size", "len is {l}, but {n} elements remain");
            }
        }
        5 => {
            let k = draw(6) as usize;
            let want = take_front(m, k);
            let got: Vec<T> = plain(&"take", || it.by_ref().take(k).collect())?;
            ev!("c{who} take({k}) -> {got:?}");
            cmp_vec("take", &got, &want)?;
            h.front.extend(want);
        }
        6 => {
            let k = draw(6) as usize;
            let want = take_back(m, k);
            let got: Vec<T> = plain(&"rev().take", || it.by_ref().rev().take(k).collect())?;
            ev!("c{who} rev().take({k}) -> {got:?}");
            cmp_vec("rev().take", &got, &want)?;
            h.back.extend(want);
        }
        7 => {
            // search for the j-th element that is left
            let j = draw(8) as u128;
            let back = chance(1, 2);
            let mut p = m.clone();
            let target = if back { p.nth_back(j) } else { p.nth(j) };
            if target.is_none() && m.len() > SMALL {
                return Ok(());
            }
            let t = target.map(T::mk);
            let style = draw(9);
            if style == 3 && back && m.len() > u64::MAX as u128 {
                return Ok(()); // rposition counts the elements
            }
            let left = m.len();
            let (got, pos): (Option<T>, Option<usize>) = plain(&"find", || match (back, style) {
                (false, 0) => (it.by_ref().find(|x| Some(*x) == t), None),
                (true, 0) => (it.by_ref().rfind(|x| Some(*x) == t), None),
                (false, 1) => (None, it.by_ref().position(|x| Some(x) == t)),
                (true, 1) => (it.by_ref().rev().find(|x| Some(*x) == t), None),
                (false, 3) => (it.by_ref().any(|x| Some(x) == t).then_some(t).flatten(), None),
                (true, 3) => {
                    // the position from the front
                    let p = it.rposition(|x| Some(x) == t);
                    let want = (left as usize).checked_sub(j as usize + 1);
                    ((p == want && p.is_some()).then_some(t).flatten(), None)
                }
                (false, 4) => ((!it.all(|x| Some(x) != t)).then_some(t).flatten(), None),
                (true, 4) => (it.by_ref().rev().any(|x| Some(x) == t).then_some(t).flatten(), None),
                (false, 5) => (it.find_map(|x| (Some(x) == t).then_some(x)), None),
                (true, 5) => (it.by_ref().rev().find_map(|x| (Some(x) == t).then_some(x)), None),
                (false, 6) => {
                    let n = it.by_ref().take_while(|x| Some(*x) != t).count();
                    ((n == j as usize).then_some(t).flatten(), None)
                }
                (true, 6) => {
                    let n = it.by_ref().rev().take_while(|x| Some(*x) != t).count();
                    ((n == j as usize).then_some(t).flatten(), None)
                }
                (false, 7) => (it.by_ref().skip_while(|x| Some(*x) != t).next(), None),
                (true, 7) => (it.by_ref().rev().skip_while(|x| Some(*x) != t).next(), None),
                (false, 8) => {
                    // a consumer that looks one element ahead, and takes what it looked at
                    let mut p = it.by_ref().peekable();
                    let mut r = None;
                    while let Some(x) = p.peek().copied() {
                        if Some(x) == t {
                            r = p.next();
                            break;
                        }
                        p.next();
                    }
                    (r, None)
                }
                (true, 8) => (it.by_ref().rev().filter(|x| Some(*x) == t).next(), None),
                (false, _) => {
                    let mut r = None;
                    let _ = it.by_ref().try_fold((), |_, x| {
                        if Some(x) == t {
                            r = Some(x);
                            Err(())
                        } else {
                            Ok(())
                        }
                    });
                    (r, None)
                }
                (true, _) => {
                    let mut r = None;
                    let _ = it.by_ref().try_rfold((), |_, x| {
                        if Some(x) == t {
                            r = Some(x);
                            Err(())
                        } else {
                            Ok(())
                        }
                    });
                    (r, None)
                }
            })?;
            *m = p;
            ev!("c{who} find{}#{style} {} -> {}", if back { "(back)" } else { "" }, show_m(&target), show(&got));
            if !back && style == 1 {
                ensure!(
                    pos == target.map(|_| j as usize),
                    "wrong-element",
                    "position found {pos:?}, expected {j} for {target:?}"
                );
            } else {
                cmp_opt("find", got, target)?;
            }
            if back {
                h.back.extend(target);
            } else {
                h.front.extend(target);
            }
        }
        8 => {
            let s = 1 + draw(4) as usize;
            let k = draw(4) as usize;
            let back = chance(1, 2);
            // step_by takes the first, then every s-th after it
            let mut want = vec![];
            for i in 0..k {
                let n = if i == 0 { 0 } else { s as u128 - 1 };
                let v = if back { m.nth_back(n) } else { m.nth(n) };
                match v {
                    Some(v) => want.push(v),
                    None => break,
                }
            }
            let got: Vec<T> = plain(&"step_by", || {
                if back {
                    it.by_ref().rev().step_by(s).take(k).collect()
                } else {
                    it.by_ref().step_by(s).take(k).collect()
                }
            })?;
            ev!("c{who} {}step_by({s}).take({k}) -> {got:?}", if back { "rev()." } else { "" });
            cmp_vec("step_by", &got, &want)?;
            if back {
                h.back.extend(want);
            } else {
                h.front.extend(want);
            }
        }
        9 => {
            let n = skip_count(m, false);
            let want = if n == usize::MAX { return Ok(()) } else { m.nth(n as u128) };
            let got = plain(&"skip", || it.by_ref().skip(n).next())?;
            ev!("c{who} skip({n}).next -> {}", show(&got));
            cmp_opt("skip", got, want)?;
            h.front.extend(want);
        }
        10 => finish_op(who, it.clone(), m.clone())?,
        _ => {
            // internal iteration over everything that is left
            if m.len() > SMALL {
                return Ok(());
            }
            let mut sink = Sink::new(m.len());
            let back = chance(1, 2);
            let want: Vec<i128> =
                if back { take_back(m, usize::MAX) } else { take_front(m, usize::MAX) };
            plain(&"for_each", || {
                if back {
                    it.by_ref().rev().for_each(|x| sink.push(x))
                } else {
                    it.by_ref().for_each(|x| sink.push(x))
                }
            })?;
            ev!("c{who} drain{} -> {} elements", if back { "(back)" } else { "" }, sink.v.len());
            cmp_vec("for_each", &sink.v, &want)?;
            if back {
                h.back.extend(want);
            } else {
                h.front.extend(want);
            }
        }
    }
    span_end(sp);
    Ok(())
}

/// An operation that uses the iterator up.
fn finish_op<T, I>(who: usize, it: I, mut m: MIter) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let small = m.len() <= SMALL;
    let s = |w: u32| if small { w } else { 0 };
    match pick(&[3, 2, 2, 2, s(2), s(2), s(2), s(1), s(1), s(3), 1]) {
        0 => {
            if let Ok(n) = usize::try_from(m.len()) {
                let got = plain(&"count", || it.count())?;
                ev!("c{who} count -> {got}");
                ensure!(got == n, "size", "count is {got}, but {n} elements remain");
            }
        }
        1 => {
            let got = plain(&"last", || it.last())?;
            ev!("c{who} last -> {}", show(&got));
            cmp_opt("last", got, m.back())?;
        }
        2 => {
            let got = plain(&"min", || it.min())?;
            ev!("c{who} min -> {}", show(&got));
            cmp_opt("min", got, m.front())?;
        }
        3 => {
            let got = plain(&"max", || it.max())?;
            ev!("c{who} max -> {}", show(&got));
            cmp_opt("max", got, m.back())?;
        }
        4 => {
            let want = take_front(&mut m, usize::MAX);
            let mut sink = Sink::new(want.len() as u128);
            plain(&"for loop", || {
                for x in it {
                    sink.push(x)
                }
            })?;
            ev!("c{who} collect -> {} elements", sink.v.len());
            cmp_vec("for loop", &sink.v, &want)?;
        }
        5 => {
            let want = take_back(&mut m, usize::MAX);
            let mut sink = Sink::new(want.len() as u128);
            plain(&"rev for loop", || {
                for x in it.rev() {
                    sink.push(x)
                }
            })?;
            ev!("c{who} rev collect -> {} elements", sink.v.len());
            cmp_vec("rev for loop", &sink.v, &want)?;
        }
        6 => {
            let want = take_front(&mut m, usize::MAX);
            let mut sink = Sink::new(want.len() as u128);
            let n = plain(&"fold", || {
                it.fold(0usize, |n, x| {
                    sink.push(x);
                    n + 1
                })
            })?;
            ev!("c{who} fold -> {n}");
            cmp_vec("fold", &sink.v, &want)?;
            ensure!(n == want.len(), "size", "fold passed {n} elements on, expected {}", want.len());
        }
        7 => {
            let want = take_back(&mut m, usize::MAX);
            let mut sink = Sink::new(want.len() as u128);
            plain(&"rfold", || it.rfold((), |_, x| sink.push(x)))?;
            ev!("c{who} rfold -> {} elements", sink.v.len());
            cmp_vec("rfold", &sink.v, &want)?;
        }
        8 => {
            let want = take_front(&mut m, usize::MAX);
            let ok = plain(&"eq", || it.eq(want.iter().map(|v| T::mk(*v))))?;
            ev!("c{who} eq -> {ok}");
            ensure!(ok, "wrong-sequence", "not equal to the expected elements");
        }
        9 => {
            // other ways of using an iterator up
            let (first, last) = (m.front(), m.back());
            let want = take_front(&mut m, usize::MAX);
            let style = draw(11);
            let mut seen = Sink::new(want.len() as u128);
            let got = plain(&"finishing call", || match style {
                0 => it.reduce(|_, x| { seen.push(x); x }).map(|x| (x, last)),
                1 => it.min_by(|a, b| { seen.push(*b); a.cmp(b) }).map(|x| (x, first)),
                2 => it.max_by_key(|x| { seen.push(*x); *x }).map(|x| (x, last)),
                3 => it.min_by_key(|x| { seen.push(*x); *x }).map(|x| (x, first)),
                4 => it.max_by(|a, b| { seen.push(*b); a.cmp(b) }).map(|x| (x, last)),
                5 => it.rev().last().map(|x| (x, first)),
                6 => it.rev().reduce(|_, x| { seen.push(x); x }).map(|x| (x, first)),
                7 => {
                    let (a, b): (Vec<T>, Vec<T>) = it.partition(|x| { seen.push(*x); Some(x.o()) == last });
                    let ok = a.len() == last.iter().len() && b.len() + a.len() == want.len();
                    if ok { a.first().map(|x| (*x, last)) } else { None }
                }
                8 => it.rev().min().map(|x| (x, first)),
                9 => it.rev().max().map(|x| (x, last)),
                _ => {
                    // zipped with itself: each element with the one from the other end
                    let mut v: Vec<(T, T)> = it.clone().zip(it.rev()).collect();
                    let ok = v.len() == want.len()
                        && v.iter().zip(&want).all(|(p, w)| p.0.o() == *w)
                        && v.iter().zip(want.iter().rev()).all(|(p, w)| p.1.o() == *w);
                    v.truncate(1);
                    if ok { v.first().map(|x| (x.0, first)) } else { None }
                }
            })?;
            ev!("c{who} finish#{style} -> {:?}", got.map(|g| g.0));
            ensure!(
                got.is_some() == !want.is_empty(),
                "wrong-sequence",
                "finishing call {style} gave {:?} where {} elements remain",
                got.map(|g| g.0),
                want.len()
            );
            if let Some((got, want)) = got {
                cmp_opt("finishing call", Some(got), want)?;
            }
            let once: Vec<i128> = seen.v.iter().map(|x| x.o()).collect();
            let ascends = if style == 6 {
                once.windows(2).all(|w| w[0] > w[1])
            } else {
                once.windows(2).all(|w| w[0] < w[1])
            };
            ensure!(ascends, "order", "finishing call {style} saw {once:?}");
        }
        _ => {
            if let Ok(n) = usize::try_from(m.len()) {
                let (got, back) = plain(&"rev count", || {
                    let c = it.clone();
                    (it.rev().size_hint(), c.rev().len())
                })?;
                ev!("c{who} rev size -> {got:?} {back}");
                ensure!(
                    got == (n, Some(n)) && back == n,
                    "size",
                    "the size from the back is {got:?} and {back}, but {n} elements remain"
                );
            }
        }
    }
    Ok(())
}

/// A random mix of operations; every run stresses a different subset.
pub fn mix() -> Vec<u32> {
    let base: [u32; 12] = [6, 5, 4, 4, 3, 2, 2, 2, 2, 2, 2, 1];
    match pick(&[3, 1, 1, 2]) {
        0 => base.to_vec(),
        1 => vec![4, 4, 0, 0, 1, 0, 0, 0, 0, 0, 1, 0],
        2 => vec![1, 1, 4, 4, 2, 0, 0, 0, 0, 0, 2, 0],
        _ => base.iter().map(|w| w * draw(3)).enumerate().map(|(i, w)| if i == 0 { w.max(1) } else { w }).collect(),
    }
}

/// Several consumers share one iterator over a bounded range or set.
fn share_bounded<T, I>(mut it: I, elems: Vec<(i128, i128)>) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + std::iter::FusedIterator + Clone,
{
    let mut m = MIter::new(elems);
    let initial = m.clone();
    let consumers = 1 + draw(4) as usize;
    let mixes: Vec<Vec<u32>> = (0..consumers).map(|_| mix()).collect();
    let mut alive: Vec<usize> = (0..consumers).collect();
    let mut h = Hist::default();
    let mut prev = usize::MAX;
    let mut after_end = 0;
    let avg = [10, 25, 60][pick(&[3, 2, 1])];
    while more(avg) {
        let c = alive[draw_usize(alive.len())];
        if prev != usize::MAX && prev != c {
            nontrivial();
            stat("consumer_switches");
        }
        prev = c;
        if alive.len() > 1 && chance(1, 20) {
            ev!("c{c} abandons");
            stat("fault.consumer_abandons");
            alive.retain(|x| *x != c);
            continue;
        }
        bounded_op(c, &mixes[c], &mut it, &mut m, &mut h)?;
        stat("steps");
        if m.dq.is_empty() {
            after_end += 1;
            stat("calls_after_end");
            if after_end > 6 {
                break;
            }
        }
    }
    // Whoever is left drains the rest: everything outstanding arrives, and then the end stays.
    if m.len() <= SMALL {
        let n = m.len() + 3;
        for _ in 0..n {
            let back = draw(3) == 1;
            let (got, want) = if back {
                (plain(&"next_back", || it.next_back())?, m.next_back())
            } else {
                (plain(&"next", || it.next())?, m.next())
            };
            cmp_opt(if back { "draining next_back" } else { "draining next" }, got, want)?;
            if back {
                h.back.extend(want);
            } else {
                h.front.extend(want);
            }
        }
        ev!("drained");
        stat("drained");
    }
    h.check(&initial)
}

/// A bounded range or set and its elements.
fn bounded_case<T: Dom>(ends: bool, many: bool) -> Res<(Bounded<T>, Vec<(i128, i128)>)> {
    ev!("type {}", T::NAME);
    stat_type::<T>();
    let w = window::<T>(0, ends);
    let (s, m) = gen_bounded::<T>(&w, many)?;
    let elems = elements::<T>(&m);
    if MIter::new(elems.clone()).len() > u64::MAX as u128 {
        stat("probe.more_than_usize_elements");
    }
    if elems.first().map_or(false, |p| p.0 == T::lo()) {
        stat("probe.touches_low_end");
    }
    if elems.last().map_or(false, |p| p.1 == T::hi()) {
        stat("probe.touches_high_end");
    }
    if elems.is_empty() {
        stat("probe.empty");
    }
    stat_max("max_pieces", elems.len() as u64);
    Ok((s, elems))
}

type Start<I> = Box<dyn Fn() -> I>;

/// The same over a built-in element type, in ordinals. Panics come out of the closure.
fn erased_bounded<T: Dom>(ends: bool, many: bool) -> Res<(Start<TwoEnded>, Vec<(i128, i128)>)> {
    let (s, elems) = bounded_case::<T>(ends, many)?;
    let f: Start<TwoEnded> = match s {
        Bounded::R(r) => Box::new(move || TwoEnded::new(r.into_iter())),
        Bounded::S(s) => Box::new(move || TwoEnded::new(s.clone().into_iter())),
    };
    Ok((f, elems))
}

fn lower_case<T: Dom>(ends: bool, many: bool) -> Res<(Lower<T>, Vec<(i128, i128)>)> {
    ev!("type {}", T::NAME);
    stat_type::<T>();
    let w = window::<T>(1, ends);
    let (s, m) = gen_lower::<T>(&w, many)?;
    let elems = elements::<T>(&m);
    stat_max("max_pieces", elems.len() as u64);
    Ok((s, elems))
}

fn erased_lower<T: Dom>(ends: bool, many: bool) -> Res<(Start<Endless>, Vec<(i128, i128)>)> {
    let (s, elems) = lower_case::<T>(ends, many)?;
    let f: Start<Endless> = match s {
        Lower::R(r) => Box::new(move || Endless::new(r.clone().into_iter())),
        Lower::S(s) => Box::new(move || Endless::new(s.clone().into_iter())),
    };
    Ok((f, elems))
}

/// Pieces that hold up to a few hundred thousand elements in all, over a built-in type.
fn long_pieces<T: Dom>(open: bool) -> Vec<(i128, i128)> {
    let (dlo, dhi) = (T::lo(), if open { T::hi() - 4 } else { T::hi() });
    let size = (dhi as u128).wrapping_sub(dlo as u128).saturating_add(1).min(1 << 40) as i128;
    let k = 1 + draw(3) as i128;
    let share = size / k;
    let mut at = match draw(3) {
        0 => dlo,
        // ends at the top
        1 => dhi - size.min(200_000) + 1,
        _ => {
            if dlo < 0 && size > 400_000 {
                -70_000
            } else if T::NAME == "char" {
                0xd800 - 30_000
            } else {
                dlo
            }
        }
    };
    let mut v: Vec<(i128, i128)> = vec![];
    for _ in 0..k {
        let want = [300, 600, 66_000, 70_000, 140_000][pick(&[2, 2, 2, 2, 1])] as i128 + draw(400) as i128;
        let len = want.min(share - 1).max(1);
        let end = at.saturating_add(len - 1).min(dhi);
        if at > end {
            break;
        }
        v.push((at, end));
        let Some(next) = end.checked_add(2 + draw(3) as i128) else { break };
        at = next;
    }
    v
}

fn long_set<T: Dom>(v: &[(i128, i128)], excluded: bool) -> rangetools::BoundedSet<T> {
    use rangetools::{BoundedRange, BoundedSet, LowerBound, Rangetools, UpperBound};
    let mut s = BoundedSet::empty();
    for &(a, b) in v {
        let end = if excluded && b < T::hi() { UpperBound::excluded(T::mk(b + 1)) } else { UpperBound::included(T::mk(b)) };
        s = s.union(BoundedRange::new(LowerBound::included(T::mk(a)), end));
    }
    s
}

fn long_bounded<T: Dom>() -> Res<(TwoEnded, Vec<(i128, i128)>)> {
    ev!("type {}, long", T::NAME);
    let v = long_pieces::<T>(false);
    let (single, excluded) = (chance(1, 2), chance(1, 2));
    let v = if single { v[..1].to_vec() } else { v };
    let it = plain(&"into_iter", || {
        let s = long_set::<T>(&v, excluded);
        if single {
            TwoEnded::new(rangetools::BoundedRange::from(T::mk(v[0].0)..=T::mk(v[0].1)).into_iter())
        } else {
            TwoEnded::new(s.into_iter())
        }
    })?;
    Ok((it, v))
}

fn long_lower<T: Dom>() -> Res<(Endless, Vec<(i128, i128)>)> {
    use rangetools::{LowerBound, LowerBoundedRange, Rangetools};
    ev!("type {}, long", T::NAME);
    let mut v = long_pieces::<T>(true);
    let excluded = chance(1, 2);
    let tail = v.pop().map_or(T::lo(), |p| p.0);
    let it = plain(&"into_iter", || {
        let r = LowerBoundedRange::new(LowerBound::included(T::mk(tail)));
        if v.is_empty() {
            Endless::new(r.into_iter())
        } else {
            let s = long_set::<T>(&v, excluded).union(r);
            Endless::new(s.into_iter())
        }
    })?;
    v.push((tail, T::hi()));
    Ok((it, v))
}

/// How a long iteration is consumed: `n` elements in one style, compared as they arrive.
fn long_block<I: Iterator<Item = i128>>(it: &mut I, m: &mut MIter, style: u32, n: usize) -> Option<(Option<i128>, Option<i128>)> {
    let mut bad = None;
    match style {
        0 => {
            for _ in 0..n {
                let (got, want) = (it.next(), m.next());
                if got != want {
                    return Some((got, want));
                }
            }
        }
        1 => {
            for _ in 0..n / 3 {
                let (got, want) = (it.nth(2), m.nth(2));
                if got != want {
                    return Some((got, want));
                }
            }
        }
        2 => {
            let _ = it.by_ref().take(n).try_for_each(|x| {
                let want = m.next();
                if Some(x) == want {
                    Ok(())
                } else {
                    bad = Some((Some(x), want));
                    Err(())
                }
            });
        }
        _ => {
            let (got, want) = (it.nth(n), m.nth(n as u128));
            if got != want {
                return Some((got, want));
            }
        }
    }
    bad
}

struct Rear<'a, I>(&'a mut I);
impl<'a, I: DoubleEndedIterator<Item = i128>> Iterator for Rear<'a, I> {
    type Item = i128;
    fn next(&mut self) -> Option<i128> {
        self.0.next_back()
    }
    fn nth(&mut self, n: usize) -> Option<i128> {
        self.0.nth_back(n)
    }
}

fn long_bounded_episode() -> Res {
    let (it, elems) = built_in!(draw(13), long_bounded())?;
    let m = MIter::new(elems);
    let mut fam = vec![(it, m)];
    stat("long_iterations");
    while more(30) {
        let k = draw_usize(fam.len());
        if fam.len() < 4 && chance(1, 6) {
            let c = plain(&"clone", || fam[k].0.clone())?;
            let m = fam[k].1.clone();
            ev!("iterator {} := checkpoint of {k}", fam.len());
            fam.push((c, m));
            nontrivial();
        }
        let (it, m) = &mut fam[k];
        let hint = plain(&"size_hint", || it.size_hint())?;
        check_size("size_hint", hint, m)?;
        let n = [10, 255, 256, 257, 5_000, 65_535, 66_000][pick(&[3, 1, 1, 1, 3, 1, 2])] as usize;
        let back = chance(1, 2);
        let style = draw(4);
        let bad = if back {
            let mut mirror = MIter::new(m.dq.iter().rev().map(|&(a, b)| (!b, !a)).collect());
            let r = plain(&"long iteration from the back", || {
                let mut rear = Rear(&mut *it);
                long_block(&mut Negated(&mut rear), &mut mirror, style, n)
            })?;
            *m = MIter::new(mirror.dq.iter().rev().map(|&(a, b)| (!b, !a)).collect());
            r.map(|(a, b)| (a.map(|x| !x), b.map(|x| !x)))
        } else {
            plain(&"long iteration", || long_block(it, m, style, n))?
        };
        ev!("iterator {k}: {n} elements{}, style {style}", if back { " from the back" } else { "" });
        stat_n("steps", n as u64);
        if let Some((got, want)) = bad {
            cmp_opt("a long iteration", got, want)?;
        }
    }
    for (it, m) in &fam {
        let hint = plain(&"size_hint", || it.size_hint())?;
        check_size("size_hint", hint, m)?;
    }
    Ok(())
}

/// Ordinals complemented, so that what descends ascends.
struct Negated<'a, I>(&'a mut I);
impl<'a, I: Iterator<Item = i128>> Iterator for Negated<'a, I> {
    type Item = i128;
    fn next(&mut self) -> Option<i128> {
        self.0.next().map(|x| !x)
    }
    fn nth(&mut self, n: usize) -> Option<i128> {
        self.0.nth(n).map(|x| !x)
    }
}

fn long_lower_episode() -> Res {
    let (it, elems) = built_in!(draw(13), long_lower())?;
    let m = MIter::new(elems);
    let mut fam = vec![(it, m)];
    stat("long_iterations");
    while more(20) {
        let k = draw_usize(fam.len());
        if fam.len() < 4 && chance(1, 6) {
            let c = plain(&"clone", || fam[k].0.clone())?;
            let m = fam[k].1.clone();
            ev!("iterator {} := checkpoint of {k}", fam.len());
            fam.push((c, m));
            nontrivial();
        }
        let (it, m) = &mut fam[k];
        let n = [10, 255, 256, 257, 5_000, 65_535, 66_000][pick(&[3, 1, 1, 1, 3, 1, 2])] as usize;
        let style = draw(4);
        if m.len() <= n as u128 + 4 {
            continue;
        }
        let bad = plain(&"long iteration", || long_block(it, m, style, n))?;
        ev!("iterator {k}: {n} elements, style {style}");
        stat_n("steps", n as u64);
        if let Some((got, want)) = bad {
            cmp_opt("a long iteration", got, want)?;
        }
    }
    Ok(())
}

/// Rarely, an episode that takes as many elements as small counters can count, and more.
fn long_episode(endless: bool) -> Res<bool> {
    if !chance(1, 1500) {
        return Ok(false);
    }
    if endless {
        long_lower_episode()?;
    } else {
        long_bounded_episode()?;
    }
    Ok(true)
}

fn c01_episode(built_in: bool, ends: bool, many: bool) -> Res {
    if built_in {
        let (start, elems) = built_in!(draw(13), erased_bounded(ends, many))?;
        let it = plain(&"into_iter", || start())?;
        return share_bounded::<i128, _>(it, elems);
    }
    let (s, elems) = bounded_case::<Elem>(ends, many)?;
    match s {
        Bounded::R(r) => {
            let it = plain(&"into_iter", || r.into_iter())?;
            share_bounded::<Elem, _>(it, elems)
        }
        Bounded::S(s) => {
            let it = plain(&"into_iter", || s.into_iter())?;
            share_bounded::<Elem, _>(it, elems)
        }
    }
}

fn stat_type<T: Dom>() {
    stat(if T::is_sim() { "element.simulated" } else { "element.built_in" });
}

pub fn c01() -> Res {
    choose_domain(false);
    while more(6) {
        let sp = span_start();
        episode_start();
        let many = chance(1, 10);
        let ends = chance(1, 4);
        if !long_episode(false)? {
            c01_episode(chance(1, 2), ends, many)?;
        }
        episode_end();
        span_end(sp);
    }
    Ok(())
}

pub fn c09() -> Res {
    choose_domain(true);
    while more(6) {
        let sp = span_start();
        episode_start();
        nontrivial();
        if !long_episode(false)? {
            c01_episode(chance(1, 2), true, chance(1, 20))?;
        }
        episode_end();
        span_end(sp);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Endless iterators

/// One operation on an endless iterator. Stays clear of the last values of the domain, where
/// stepping on is not defined.
pub fn endless_op<T, I>(who: usize, mix: &[u32], it: &mut I, m: &mut MIter, h: &mut Hist) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + Clone,
{
    let sp = span_start();
    let room = |n: u128| m.len() > n;
    match pick(mix) {
        0 if room(1) => {
            let want = m.next();
            let got = plain(&"next", || it.next())?;
            ev!("c{who} next -> {}", show(&got));
            cmp_opt("next", got, want)?;
            h.front.extend(want);
        }
        1 => {
            let n = endless_skip(m);
            if room(n as u128 + 1) {
                let want = m.nth(n as u128);
                let what = format!("nth({n})");
                let got = plain(&what, || it.nth(n))?;
                ev!("c{who} nth({n}) -> {}", show(&got));
                cmp_opt(&what, got, want)?;
                h.front.extend(want);
            }
        }
        2 => {
            let hint = plain(&"size_hint", || it.size_hint())?;
            ev!("c{who} size_hint -> {hint:?}");
            ensure!(
                hint.1.map_or(true, |u| u as u128 >= m.len()),
                "size",
                "size_hint {hint:?} ends before the {} elements that remain",
                m.len()
            );
        }
        3 => {
            let k = draw(6) as usize;
            if !room(k as u128) {
                span_end(sp);
                return Ok(());
            }
            let want = take_front(m, k);
            let got: Vec<T> = plain(&"take", || it.by_ref().take(k).collect())?;
            ev!("c{who} take({k}) -> {got:?}");
            cmp_vec("take", &got, &want)?;
            h.front.extend(want);
        }
        4 if room(10) => {
            let j = draw(8) as u128;
            let want = m.nth(j);
            let t = want.map(T::mk);
            let style = draw(8);
            let got = plain(&"find", || match style {
                0 => it.by_ref().find(|x| Some(*x) >= t),
                1 => it.by_ref().skip_while(|x| Some(*x) < t).next(),
                3 => it.any(|x| Some(x) >= t).then_some(t).flatten(),
                4 => (!it.all(|x| Some(x) < t)).then_some(t).flatten(),
                5 => it.find_map(|x| (Some(x) >= t).then_some(x)),
                6 => {
                    let n = it.by_ref().take_while(|x| Some(*x) < t).count();
                    (n == j as usize).then_some(t).flatten()
                }
                7 => {
                    let mut p = it.by_ref().peekable();
                    let mut r = None;
                    while let Some(x) = p.peek().copied() {
                        r = p.next();
                        if Some(x) >= t {
                            break;
                        }
                    }
                    r
                }
                _ => {
                    let p = it.by_ref().position(|x| Some(x) >= t);
                    if p == Some(j as usize) {
                        t
                    } else {
                        None
                    }
                }
            })?;
            ev!("c{who} find#{style} {} -> {}", show_m(&want), show(&got));
            cmp_opt("find", got, want)?;
            h.front.extend(want);
        }
        5 => {
            let s = 1 + draw(9) as usize;
            let k = draw(4) as usize;
            if room((s * k) as u128 + 1) {
                let mut want = vec![];
                for i in 0..k {
                    want.extend(m.nth(if i == 0 { 0 } else { s as u128 - 1 }));
                }
                let got: Vec<T> = plain(&"step_by", || it.by_ref().step_by(s).take(k).collect())?;
                ev!("c{who} step_by({s}).take({k}) -> {got:?}");
                cmp_vec("step_by", &got, &want)?;
                h.front.extend(want);
            }
        }
        6 if room(1) => {
            let got = plain(&"min", || it.clone().min())?;
            ev!("c{who} min -> {}", show(&got));
            cmp_opt("min", got, m.front())?;
        }
        7 => {
            let n = endless_skip(m);
            if n < usize::MAX - 1 && room(n as u128 + 1) {
                let want = m.nth(n as u128);
                let got = plain(&"skip", || it.by_ref().skip(n).next())?;
                ev!("c{who} skip({n}).next -> {}", show(&got));
                cmp_opt("skip", got, want)?;
                h.front.extend(want);
            }
        }
        8 if room(1) => {
            // a look at a copy
            let got = plain(&"next on a copy", || it.clone().next())?;
            ev!("c{who} peek -> {}", show(&got));
            cmp_opt("next on a copy", got, m.front())?;
        }
        9 if room(8) => {
            let k = 1 + draw(6) as usize;
            let want = take_front(m, k);
            let mut sink = Sink::new(k as u128);
            plain(&"try_for_each", || {
                let _ = it.try_for_each(|x| {
                    sink.push(x);
                    if sink.v.len() >= k {
                        Err(())
                    } else {
                        Ok(())
                    }
                });
            })?;
            ev!("c{who} try_for_each -> {:?}", sink.v);
            cmp_vec("try_for_each", &sink.v, &want)?;
            h.front.extend(want);
        }
        _ => {}
    }
    span_end(sp);
    Ok(())
}

fn endless_skip(m: &MIter) -> usize {
    let near = |x: u128| usize::try_from(x.saturating_add(draw(3) as u128).saturating_sub(1)).unwrap_or(usize::MAX);
    match pick(&[6, 6, 3, 1, 2, 1, 1]) {
        0 => draw(5) as usize,
        1 => {
            let j = draw_usize(m.dq.len().max(1));
            near(MIter::new(m.dq.iter().take(j).copied().collect()).len())
        }
        2 => {
            // all of the finite pieces, and on into the tail
            let n = m.dq.len().saturating_sub(1);
            let f = MIter::new(m.dq.iter().take(n).copied().collect()).len();
            usize::try_from(f.saturating_add(draw(20) as u128)).unwrap_or(usize::MAX)
        }
        3 => draw_u64() as usize,
        // anywhere
        4 => (draw_u64() as u128 % m.len().max(1)) as usize,
        // nearly all there is
        5 => usize::try_from(m.len().saturating_sub(2 + draw(3) as u128)).unwrap_or(usize::MAX),
        _ => near(1u128 << draw(64)),
    }
}

pub fn endless_mix() -> Vec<u32> {
    let base: [u32; 10] = [6, 5, 1, 2, 2, 2, 1, 2, 1, 2];
    match pick(&[2, 1, 1, 1]) {
        0 => base.to_vec(),
        1 => vec![5, 0, 0, 1, 0, 0, 0, 0, 0, 1],
        2 => vec![2, 6, 0, 0, 0, 2, 0, 2, 0, 0],
        _ => base.iter().map(|w| w * draw(3)).enumerate().map(|(i, w)| if i == 0 { w.max(1) } else { w }).collect(),
    }
}

fn share_endless<T, I>(mut it: I, elems: Vec<(i128, i128)>) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + Clone,
{
    let mut m = MIter::new(elems);
    let initial = m.clone();
    let pieces = m.dq.len();
    let consumers = 1 + draw(4) as usize;
    let mixes: Vec<Vec<u32>> = (0..consumers).map(|_| endless_mix()).collect();
    let mut h = Hist::default();
    let mut prev = usize::MAX;
    let mut alive: Vec<usize> = (0..consumers).collect();
    let avg = [10, 25, 60][pick(&[3, 2, 1])];
    while more(avg) {
        let c = alive[draw_usize(alive.len())];
        if prev != usize::MAX && prev != c {
            nontrivial();
            stat("consumer_switches");
        }
        prev = c;
        if alive.len() > 1 && chance(1, 20) {
            ev!("c{c} abandons");
            stat("fault.consumer_abandons");
            alive.retain(|x| *x != c);
            continue;
        }
        let before = m.dq.len();
        endless_op(c, &mixes[c], &mut it, &mut m, &mut h)?;
        stat("steps");
        if pieces > 1 && before > 1 && m.dq.len() == 1 {
            stat("probe.entered_tail");
        }
    }
    h.check(&initial)
}

fn c02_episode(built_in: bool, ends: bool, many: bool) -> Res {
    if built_in {
        let (start, elems) = built_in!(draw(13), erased_lower(ends, many))?;
        let it = plain(&"into_iter", || start())?;
        return share_endless::<i128, _>(it, elems);
    }
    let (s, elems) = lower_case::<Elem>(ends, many)?;
    match s {
        Lower::R(r) => {
            let it = plain(&"into_iter", || r.into_iter())?;
            share_endless::<Elem, _>(it, elems)
        }
        Lower::S(s) => {
            let it = plain(&"into_iter", || s.into_iter())?;
            share_endless::<Elem, _>(it, elems)
        }
    }
}

pub fn c02() -> Res {
    choose_domain(false);
    while more(6) {
        let sp = span_start();
        episode_start();
        let many = chance(1, 10);
        let ends = chance(1, 4);
        if !long_episode(true)? {
            c02_episode(chance(1, 2), ends, many)?;
        }
        episode_end();
        span_end(sp);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Checkpoints

/// One family of iterators: an original, checkpoints of it, and resumed copies. `op` performs and
/// checks one operation, `crashing` one in which an element operation fails.
fn family<T, I, S>(
    src: S,
    start: impl Fn(&S) -> I,
    elems: Vec<(i128, i128)>,
    mixes: &dyn Fn() -> Vec<u32>,
    op: &dyn Fn(usize, &[u32], &mut I, &mut MIter, &mut Hist) -> Res,
    crash: &dyn Fn(&mut I, u64) -> Out<()>,
    room: u128,
    verify: &dyn Fn(&I, &MIter) -> Res,
) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + Clone,
{
    let m0 = MIter::new(elems);
    let first = plain(&"into_iter", || start(&src))?;
    // (iterator, model, may still be used)
    let mut fam: Vec<(I, MIter)> = vec![(first, m0.clone())];
    let mx = mixes();
    let mut h = Hist::default();
    let avg = [12, 30, 80][pick(&[3, 2, 1])];
    while more(avg) {
        let k = draw_usize(fam.len());
        match pick(&[10, 4, if T::is_sim() { 3 } else { 0 }, 2, 1, 2]) {
            0 => {
                let (it, m) = &mut fam[k];
                ev!("iterator {k}:");
                op(k, &mx, it, m, &mut h)?;
            }
            1 => {
                if fam.len() < 8 {
                    let (it, m) = &fam[k];
                    let copy = plain(&"clone", || it.clone())?;
                    let m = m.clone();
                    ev!("iterator {} := checkpoint of {k}", fam.len());
                    stat("checkpoints");
                    fam.push((copy, m));
                    nontrivial();
                }
            }
            2 => {
                // the consumer dies in the middle of a call; its iterator is gone with it
                if fam.len() > 1 && fam[k].1.len() >= room {
                    let (mut it, _) = fam.remove(k);
                    let at = 1 + draw(6) as u64;
                    let out = crash(&mut it, at);
                    ev!("iterator {k} crashes in a call at element operation {at}: {}", out.name());
                    match out {
                        Out::Fault | Out::Ok(()) => {}
                        o => o.expect_ok(&"the crashing call").map(|_| ())?,
                    }
                    stat("fault.crash_in_call");
                    nontrivial();
                    drop(it);
                }
            }
            3 => {
                // the consumer dies between calls
                if fam.len() > 1 {
                    ev!("iterator {k} dies");
                    stat("fault.crash_between_calls");
                    fam.remove(k);
                    nontrivial();
                }
            }
            4 => {
                if fam.len() < 8 {
                    ev!("iterator {} := from the start", fam.len());
                    stat("restarts_from_source");
                    let it = plain(&"into_iter", || start(&src))?;
                    fam.push((it, m0.clone()));
                    nontrivial();
                }
            }
            _ => {
                let (it, m) = &fam[k];
                verify(it, m)?;
                stat("resumed_and_drained");
            }
        }
        stat("steps");
    }
    for (it, m) in &fam {
        verify(it, m)?;
    }
    Ok(())
}

/// Resumes a copy and checks that exactly the outstanding elements arrive.
fn verify_bounded<T, I>(it: &I, m: &MIter) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let hint = plain(&"size_hint", || it.size_hint())?;
    check_size("size_hint of the checkpoint", hint, m)?;
    if m.len() <= SMALL {
        let mut m = m.clone();
        let mut it = plain(&"clone", || it.clone())?;
        let style = draw(3);
        loop {
            let back = match style {
                0 => false,
                1 => true,
                _ => draw(2) == 1,
            };
            let (got, want) = if back {
                (plain(&"next_back", || it.next_back())?, m.next_back())
            } else {
                (plain(&"next", || it.next())?, m.next())
            };
            cmp_opt("resuming from a checkpoint", got, want)?;
            if want.is_none() {
                break;
            }
        }
    } else {
        let mut c = plain(&"clone", || it.clone())?;
        let got = plain(&"next", || c.next())?;
        cmp_opt("resuming from a checkpoint", got, m.front())?;
        let mut c = plain(&"clone", || it.clone())?;
        let got = plain(&"next_back", || c.next_back())?;
        cmp_opt("resuming from a checkpoint at the back", got, m.back())?;
    }
    ev!("resumed from a checkpoint");
    Ok(())
}

fn verify_endless<T, I>(it: &I, m: &MIter) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + Clone,
{
    let mut m = m.clone();
    let mut c = plain(&"clone", || it.clone())?;
    for _ in 0..20 {
        if m.len() <= 4 {
            break;
        }
        let got = plain(&"next", || c.next())?;
        cmp_opt("resuming from a checkpoint", got, m.next())?;
    }
    ev!("resumed from a checkpoint");
    Ok(())
}

fn crash_bounded<T, I>(it: &mut I, at: u64) -> Out<()>
where
    T: Dom,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let o = Opts { fault_at: at, ..Opts::default() };
    let n = draw(6) as usize;
    match draw(7) {
        0 => call(o, || drop(it.next())),
        1 => call(o, || drop(it.next_back())),
        2 => call(o, || drop(it.nth(n))),
        3 => call(o, || drop(it.nth_back(n))),
        4 => call(o, || drop(it.size_hint())),
        5 => call(o, || drop(it.by_ref().take(n).count())),
        _ => call(o, || drop(it.clone().last())),
    }
}

fn crash_endless<T, I>(it: &mut I, at: u64) -> Out<()>
where
    T: Dom,
    I: Iterator<Item = T> + Clone,
{
    let o = Opts { fault_at: at, ..Opts::default() };
    let n = draw(2) as usize;
    match draw(3) {
        0 => call(o, || drop(it.next())),
        1 => call(o, || drop(it.nth(n))),
        _ => call(o, || drop(it.by_ref().take(n).count())),
    }
}

fn c03_episode(built_in: bool, endless: bool, many: bool) -> Res {
    let ends = chance(1, 4);
    match (built_in, endless) {
        (true, true) => {
            let (start, elems) = built_in!(draw(13), erased_lower(ends, many))?;
            family::<i128, _, _>(
                start,
                |s| s(),
                elems,
                &endless_mix,
                &|w, x, i, m, h| endless_op(w, x, i, m, h),
                &|i, a| crash_endless(i, a),
                20,
                &|i, m| verify_endless(i, m),
            )
        }
        (true, false) => {
            let (start, elems) = built_in!(draw(13), erased_bounded(ends, many))?;
            family::<i128, _, _>(
                start,
                |s| s(),
                elems,
                &mix,
                &|w, x, i, m, h| bounded_op(w, x, i, m, h),
                &|i, a| crash_bounded(i, a),
                0,
                &|i, m| verify_bounded(i, m),
            )
        }
        (false, true) => {
            let (s, elems) = lower_case::<Elem>(ends, many)?;
            match s {
                Lower::R(r) => family::<Elem, _, _>(
                r,
                |r| r.clone().into_iter(),
                elems,
                &endless_mix,
                &|w, x, i, m, h| endless_op(w, x, i, m, h),
                &|i, a| crash_endless(i, a),
                20,
                &|i, m| verify_endless(i, m),
            ),
                Lower::S(s) => family::<Elem, _, _>(
                s,
                |s| s.clone().into_iter(),
                elems,
                &endless_mix,
                &|w, x, i, m, h| endless_op(w, x, i, m, h),
                &|i, a| crash_endless(i, a),
                20,
                &|i, m| verify_endless(i, m),
            ),
            }
        }
        (false, false) => {
            let (s, elems) = bounded_case::<Elem>(ends, many)?;
            match s {
                Bounded::R(r) => family::<Elem, _, _>(
                r,
                |r| r.clone().into_iter(),
                elems,
                &mix,
                &|w, x, i, m, h| bounded_op(w, x, i, m, h),
                &|i, a| crash_bounded(i, a),
                0,
                &|i, m| verify_bounded(i, m),
            ),
                Bounded::S(s) => family::<Elem, _, _>(
                s,
                |s| s.clone().into_iter(),
                elems,
                &mix,
                &|w, x, i, m, h| bounded_op(w, x, i, m, h),
                &|i, a| crash_bounded(i, a),
                0,
                &|i, m| verify_bounded(i, m),
            ),
            }
        }
    }
}

pub fn c03() -> Res {
    choose_domain(false);
    while more(5) {
        let sp = span_start();
        episode_start();
        let many = chance(1, 10);
        let endless = chance(1, 3);
        if !long_episode(endless)? {
            c03_episode(chance(2, 5), endless, many)?;
        }
        episode_end();
        span_end(sp);
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Failing element operations

/// After a failed call from the front (or back) that may have consumed up to `max` elements:
/// works out from copies how many it did consume, and checks that nothing else changed.
fn resync_bounded<T, I>(what: &str, it: &I, m: &mut MIter, back: bool, max: u128) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let what = format!("after {what} failed");
    let mut c = it.clone();
    let f = plain(&format!("next {what}"), || c.next())?.map(|x| x.o());
    let mut c = it.clone();
    let b = plain(&format!("next_back {what}"), || c.next_back())?.map(|x| x.o());
    match (f, b) {
        (None, None) => {
            ensure!(
                m.len() <= max,
                "lost",
                "{what}: nothing is left, but it may have consumed at most {max} of {}",
                m.show()
            );
            m.dq.clear();
        }
        (Some(f), Some(b)) => {
            let (rank, other) = if back {
                (m.rank_back(b), f == m.front().unwrap_or(i128::MIN))
            } else {
                (m.rank(f), b == m.back().unwrap_or(i128::MIN))
            };
            ensure!(
                other,
                "wrong-element",
                "{what}: outstanding elements run from {f} to {b}, expected those of {}",
                m.show()
            );
            match rank {
                Some(k) if k <= max => {
                    if k > 0 {
                        stat("probe.failed_skip_consumed_some");
                        if back {
                            m.nth_back(k - 1);
                        } else {
                            m.nth(k - 1);
                        }
                    }
                }
                Some(k) => viol!("lost", "{what}: it consumed {k} elements, at most {max} were asked for"),
                None => viol!(
                    "invented",
                    "{what}: outstanding elements run from {f} to {b}, expected those of {}",
                    m.show()
                ),
            }
        }
        _ => viol!("lost", "{what}: next is {} but next_back is {}", show_m(&f), show_m(&b)),
    }
    Ok(())
}

fn fault_point(n: u64) -> u64 {
    // Element operations are few per call on an iterator: small numbers hit.
    match n {
        0 => 1 + [0, 1, 2, 3, 5, 9][pick(&[5, 3, 2, 2, 1, 1])],
        n => 1 + draw(n.min(1 << 20) as u32) as u64,
    }
}

/// How many element operations the call would make, found out on a copy.
fn dry<R>(f: impl FnOnce() -> R) -> u64 {
    let _ = call(Opts::default(), f);
    ctl_after().calls
}

fn faulty_bounded_op<T, I>(it: &mut I, m: &mut MIter) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let sp = span_start();
    let look = chance(1, 2);
    let op = pick(&[4, 4, 3, 3, 2, 2, 2, 1]);
    // -1: let it run unharmed
    match op {
        0 | 1 => {
            let back = op == 1;
            let name = if back { "next_back" } else { "next" };
            let n = if look { let mut c = it.clone(); dry(|| if back { c.next_back() } else { c.next() }) } else { 0 };
            let at = fault_point(n);
            let out = call(Opts { fault_at: at, ..Opts::default() }, || if back { it.next_back() } else { it.next() });
            ev!("{name} failing at {at}: {}", out.name());
            match out {
                Out::Fault => {
                    nontrivial();
                    // consumed nothing
                    resync_bounded(name, it, m, back, 0)?;
                    // and the retry delivers what it would have delivered
                    let (got, want) = if back {
                        (plain(&"next_back", || it.next_back())?, m.next_back())
                    } else {
                        (plain(&"next", || it.next())?, m.next())
                    };
                    cmp_opt(&format!("retrying {name}"), got, want)?;
                }
                o => {
                    let got = o.expect_ok(&name)?;
                    cmp_opt(name, got, if back { m.next_back() } else { m.next() })?;
                }
            }
        }
        2 | 3 => {
            let back = op == 3;
            let k = skip_count(m, back);
            let name = format!("{}({k})", if back { "nth_back" } else { "nth" });
            let n = if look { let mut c = it.clone(); dry(|| if back { c.nth_back(k) } else { c.nth(k) }) } else { 0 };
            let at = fault_point(n);
            let out = call(Opts { fault_at: at, ..Opts::default() }, || if back { it.nth_back(k) } else { it.nth(k) });
            ev!("{name} failing at {at}: {}", out.name());
            match out {
                Out::Fault => {
                    nontrivial();
                    resync_bounded(&name, it, m, back, k as u128)?;
                }
                o => {
                    let got = o.expect_ok(&name)?;
                    cmp_opt(&name, got, if back { m.nth_back(k as u128) } else { m.nth(k as u128) })?;
                }
            }
        }
        4 => {
            let n = if look { dry(|| it.size_hint()) } else { 0 };
            let at = fault_point(n);
            let out = call(Opts { fault_at: at, ..Opts::default() }, || it.size_hint());
            ev!("size_hint failing at {at}: {}", out.name());
            match out {
                Out::Fault => {
                    nontrivial();
                    resync_bounded("size_hint", it, m, false, 0)?;
                    let hint = plain(&"size_hint", || it.size_hint())?;
                    check_size("size_hint, retried,", hint, m)?;
                }
                o => check_size("size_hint", o.expect_ok(&"size_hint")?, m)?,
            }
        }
        5 | 6 => {
            // internal iteration that fails part-way: what was handed over is gone, no more
            let back = op == 6;
            let k = 1 + draw(8) as usize;
            let mut sink = Sink::new(k as u128);
            let crash_consumer = chance(1, 3);
            let at = if crash_consumer { 0 } else { 1 + draw(30) as u64 };
            let die = if crash_consumer { draw(8) as usize } else { usize::MAX };
            let out = call(Opts { fault_at: at, ..Opts::default() }, || {
                let mut left = k;
                let mut f = |x: T| {
                    sink.push(x);
                    if sink.v.len() > die {
                        stat("fault.consumer_panic");
                        resume_unwind(Box::new(ConsumerMark));
                    }
                    left -= 1;
                    if left == 0 {
                        Err(())
                    } else {
                        Ok(())
                    }
                };
                let _ = if back {
                    it.try_rfold((), |_, x| f(x))
                } else {
                    it.try_fold((), |_, x| f(x))
                };
            });
            ev!("{} of {k} failing at {at}/{die}: {} after {:?}", if back { "try_rfold" } else { "try_fold" }, out.name(), sink.v);
            let want = if back { take_back(m, sink.v.len()) } else { take_front(m, sink.v.len()) };
            cmp_vec("internal iteration", &sink.v, &want)?;
            match out {
                Out::Fault | Out::Consumer => {
                    nontrivial();
                    resync_bounded("internal iteration", it, m, back, 0)?;
                }
                o => o.expect_ok(&"internal iteration")?,
            }
        }
        _ => {
            // a finishing call on a copy fails; the original must not notice
            let c = it.clone();
            let which = draw(4);
            let at = fault_point(0);
            let small = m.len() <= u64::MAX as u128;
            let out = call(Opts { fault_at: at, ..Opts::default() }, || match which {
                0 => drop(c.last()),
                1 => drop(c.min()),
                2 => drop(c.max()),
                _ if small => drop(c.count()),
                _ => {}
            });
            ev!("finishing call {which} on a copy failing at {at}: {}", out.name());
            match out {
                Out::Fault => nontrivial(),
                o => o.expect_ok(&"finishing call")?,
            }
            resync_bounded("a finishing call on a copy", it, m, false, 0)?;
        }
    }
    span_end(sp);
    Ok(())
}

fn faulty_endless_op<T, I>(it: &mut I, m: &mut MIter) -> Res
where
    T: Dom,
    I: Iterator<Item = T> + Clone,
{
    let sp = span_start();
    let look = chance(1, 2);
    let resync = |what: &str, it: &I, m: &mut MIter, max: u128| -> Res {
        let what = format!("after {what} failed");
        let mut c = it.clone();
        let f = plain(&format!("next {what}"), || c.next())?;
        match f.and_then(|f| m.rank(f.o())) {
            Some(k) if k <= max => {
                if k > 0 {
                    stat("probe.failed_skip_consumed_some");
                    m.nth(k - 1);
                }
                Ok(())
            }
            Some(k) => viol!("lost", "{what}: it consumed {k} elements, at most {max} were asked for"),
            None => viol!("lost", "{what}: next is {}, expected one of {}", show(&f), m.show()),
        }
    };
    if m.len() < 40 {
        return Ok(());
    }
    match pick(&[4, 4, 1, 3]) {
        0 => {
            let n = if look { let mut c = it.clone(); dry(|| c.next()) } else { 0 };
            let at = fault_point(n);
            let out = call(Opts { fault_at: at, ..Opts::default() }, || it.next());
            ev!("next failing at {at}: {}", out.name());
            match out {
                Out::Fault => {
                    nontrivial();
                    resync("next", it, m, 0)?;
                    let got = plain(&"next", || it.next())?;
                    cmp_opt("retrying next", got, m.next())?;
                }
                o => cmp_opt("next", o.expect_ok(&"next")?, m.next())?,
            }
        }
        1 => {
            let k = endless_skip(m);
            if m.len() > k as u128 + 20 {
                let n = if look { let mut c = it.clone(); dry(|| c.nth(k)) } else { 0 };
                let at = fault_point(n);
                let name = format!("nth({k})");
                let out = call(Opts { fault_at: at, ..Opts::default() }, || it.nth(k));
                ev!("{name} failing at {at}: {}", out.name());
                match out {
                    Out::Fault => {
                        nontrivial();
                        resync(&name, it, m, k as u128)?;
                    }
                    o => cmp_opt(&name, o.expect_ok(&name)?, m.nth(k as u128))?,
                }
            }
        }
        2 => {
            let at = fault_point(0);
            let out = call(Opts { fault_at: at, ..Opts::default() }, || it.size_hint());
            ev!("size_hint failing at {at}: {}", out.name());
            match out {
                Out::Fault => nontrivial(),
                o => drop(o.expect_ok(&"size_hint")?),
            }
            resync("size_hint", it, m, 0)?;
        }
        _ => {
            let k = 1 + draw(8) as usize;
            let mut sink = Sink::new(k as u128);
            let crash_consumer = chance(1, 3);
            let at = if crash_consumer { 0 } else { 1 + draw(20) as u64 };
            let die = if crash_consumer { draw(8) as usize } else { usize::MAX };
            let out = call(Opts { fault_at: at, ..Opts::default() }, || {
                let mut left = k;
                let _ = it.try_for_each(|x| {
                    sink.push(x);
                    if sink.v.len() > die {
                        stat("fault.consumer_panic");
                        resume_unwind(Box::new(ConsumerMark));
                    }
                    left -= 1;
                    if left == 0 {
                        Err(())
                    } else {
                        Ok(())
                    }
                });
            });
            ev!("try_for_each of {k} failing at {at}/{die}: {} after {:?}", out.name(), sink.v);
            let want = take_front(m, sink.v.len());
            cmp_vec("internal iteration", &sink.v, &want)?;
            match out {
                Out::Fault | Out::Consumer => {
                    nontrivial();
                    resync("internal iteration", it, m, 0)?;
                }
                o => o.expect_ok(&"internal iteration")?,
            }
        }
    }
    span_end(sp);
    Ok(())
}

fn faulty_bounded<I>(start: impl Fn() -> I, elems: Vec<(i128, i128)>) -> Res
where
    I: Iterator<Item = Elem> + DoubleEndedIterator + ExactSizeIterator + Clone,
{
    let mut m = MIter::new(elems);
    // creating the iterator may fail as well; try again until it does not
    let mut tries = 0;
    let mut it = loop {
        let at = if tries < 3 && chance(1, 3) { fault_point(0) } else { 0 };
        tries += 1;
        let out = call(Opts { fault_at: at, ..Opts::default() }, || start());
        match out {
            Out::Fault => ev!("into_iter failed at {at}"),
            o => break o.expect_ok(&"into_iter")?,
        }
    };
    let mut h = Hist::default();
    let mx = mix();
    let avg = [8, 25, 150][pick(&[4, 3, 1])];
    while more(avg) {
        if chance(1, 3) {
            bounded_op(0, &mx, &mut it, &mut m, &mut h)?;
        } else {
            faulty_bounded_op(&mut it, &mut m)?;
        }
        stat("steps");
        if m.dq.is_empty() && chance(1, 3) {
            break;
        }
    }
    // The failures have stopped: as many calls as there are elements, then the end.
    verify_bounded(&it, &m)
}

fn faulty_endless<I>(start: impl Fn() -> I, elems: Vec<(i128, i128)>) -> Res
where
    I: Iterator<Item = Elem> + Clone,
{
    let mut m = MIter::new(elems);
    let mut tries = 0;
    let mut it = loop {
        let at = if tries < 3 && chance(1, 3) { fault_point(0) } else { 0 };
        tries += 1;
        let out = call(Opts { fault_at: at, ..Opts::default() }, || start());
        match out {
            Out::Fault => ev!("into_iter failed at {at}"),
            o => break o.expect_ok(&"into_iter")?,
        }
    };
    let mut h = Hist::default();
    let mx = endless_mix();
    let avg = [8, 25, 150][pick(&[4, 3, 1])];
    while more(avg) {
        if chance(1, 3) {
            endless_op(0, &mx, &mut it, &mut m, &mut h)?;
        } else {
            faulty_endless_op(&mut it, &mut m)?;
        }
        stat("steps");
    }
    verify_endless(&it, &m)
}

pub fn c04() -> Res {
    choose_domain(false);
    while more(5) {
        let sp = span_start();
        episode_start();
        let many = chance(1, 10);
        let ends = chance(1, 4);
        if chance(1, 3) {
            let w = window::<Elem>(8, ends);
            let (s, m) = gen_lower::<Elem>(&w, many)?;
            let elems = elements::<Elem>(&m);
            match s {
                Lower::R(r) => faulty_endless(|| r.into_iter(), elems)?,
                Lower::S(s) => faulty_endless(|| s.clone().into_iter(), elems)?,
            }
        } else {
            let w = window::<Elem>(0, ends);
            let (s, m) = gen_bounded::<Elem>(&w, many)?;
            let elems = elements::<Elem>(&m);
            match s {
                Bounded::R(r) => faulty_bounded(|| r.into_iter(), elems)?,
                Bounded::S(s) => faulty_bounded(|| s.clone().into_iter(), elems)?,
            }
        }
        episode_end();
        span_end(sp);
    }
    Ok(())
}
