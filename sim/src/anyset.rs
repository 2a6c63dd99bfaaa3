//! Every range and set type of the crate, and every operation between them, behind one enum.

use crate::elem::{domain, Dom, Elem};
use crate::model::{after, before, MIter, MSet, NEG, POS};
use crate::rt::*;
use crate::{ensure, viol};
use rangetools::*;
use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};

type E = Elem;

macro_rules! any {
    ($($v:ident($t:ty)),* $(,)?) => {
        #[derive(Clone, Debug)]
        pub enum Any { $($v($t)),* }
        $(impl From<$t> for Any { fn from(x: $t) -> Any { Any::$v(x) } })*
        impl Any {
            pub fn kind(&self) -> &'static str {
                match self { $(Any::$v(_) => stringify!($v)),* }
            }
        }
        impl PartialEq for Any {
            fn eq(&self, o: &Any) -> bool {
                match (self, o) {
                    $((Any::$v(a), Any::$v(b)) => a == b,)*
                    _ => false,
                }
            }
        }
    };
}

any! {
    Rg(Range<E>), RgIncl(RangeInclusive<E>), RgFrom(RangeFrom<E>), RgTo(RangeTo<E>),
    RgToIncl(RangeToInclusive<E>), RgFull(RangeFull),
    Br(BoundedRange<E>), Lbr(LowerBoundedRange<E>), Ubr(UpperBoundedRange<E>),
    Ur(UnboundedRange), Er(EmptyRange<E>),
    Bs(BoundedSet<E>), Lbs(LowerBoundedSet<E>), Ubs(UpperBoundedSet<E>), Us(UnboundedSet<E>),
}

/// `$body` for whatever `$a` holds, bound to `$x`.
macro_rules! one {
    ($a:expr, $x:ident => $body:expr) => {
        match $a {
            Any::Rg($x) => $body,
            Any::RgIncl($x) => $body,
            Any::RgFrom($x) => $body,
            Any::RgTo($x) => $body,
            Any::RgToIncl($x) => $body,
            Any::RgFull($x) => $body,
            Any::Br($x) => $body,
            Any::Lbr($x) => $body,
            Any::Ubr($x) => $body,
            Any::Ur($x) => $body,
            Any::Er($x) => $body,
            Any::Bs($x) => $body,
            Any::Lbs($x) => $body,
            Any::Ubs($x) => $body,
            Any::Us($x) => $body,
        }
    };
}

macro_rules! two {
    ($a:expr, $b:expr, $x:ident, $y:ident => $body:expr) => {
        one!($a, $x => one!($b, $y => $body))
    };
}

impl Any {
    pub fn union(self, o: Any) -> Any {
        two!(self, o, x, y => Any::from(Rangetools::union(x, y)))
    }
    pub fn intersection(self, o: Any) -> Any {
        two!(self, o, x, y => Any::from(Rangetools::intersection(x, y)))
    }
    pub fn disjoint(self, o: Any) -> bool {
        two!(self, o, x, y => Rangetools::disjoint(x, y))
    }
    pub fn intersects(self, o: Any) -> bool {
        two!(self, o, x, y => Rangetools::intersects(x, y))
    }
    pub fn complement(self) -> Any {
        match self {
            Any::Rg(x) => Any::from(Rangetools::complement::<UnboundedSet<E>>(x)),
            Any::RgIncl(x) => Any::from(Rangetools::complement::<UnboundedSet<E>>(x)),
            Any::RgFrom(x) => Any::from(Rangetools::complement::<UpperBoundedRange<E>>(x)),
            Any::RgTo(x) => Any::from(Rangetools::complement::<LowerBoundedRange<E>>(x)),
            Any::RgToIncl(x) => Any::from(Rangetools::complement::<LowerBoundedRange<E>>(x)),
            Any::RgFull(x) => Any::from(Rangetools::complement::<EmptyRange<E>>(x)),
            Any::Br(x) => Any::from(Rangetools::complement::<UnboundedSet<E>>(x)),
            Any::Lbr(x) => Any::from(Rangetools::complement::<UpperBoundedRange<E>>(x)),
            Any::Ubr(x) => Any::from(Rangetools::complement::<LowerBoundedRange<E>>(x)),
            Any::Ur(x) => Any::from(Rangetools::complement::<EmptyRange<E>>(x)),
            Any::Er(x) => Any::from(Rangetools::complement::<UnboundedRange>(x)),
            Any::Bs(x) => Any::from(Rangetools::complement::<UnboundedSet<E>>(x)),
            Any::Lbs(x) => Any::from(Rangetools::complement::<UpperBoundedSet<E>>(x)),
            Any::Ubs(x) => Any::from(Rangetools::complement::<LowerBoundedSet<E>>(x)),
            Any::Us(x) => Any::from(Rangetools::complement::<BoundedSet<E>>(x)),
        }
    }
    pub fn to_set(self) -> Any {
        one!(self, x => Any::from(Rangetools::to_set(x)))
    }
    pub fn to_inner(self) -> Any {
        one!(self, x => Any::from(Rangetools::to_inner(x)))
    }
    pub fn is_empty(&self) -> bool {
        one!(self, x => Rangetools::is_empty(x))
    }
    /// Membership. The standard ranges have a test of their own, which is not ours to check.
    pub fn contains(&self, e: E) -> bool {
        match self {
            Any::Rg(x) => x.contains(&e),
            Any::RgIncl(x) => x.contains(&e),
            Any::RgFrom(x) => x.contains(&e),
            Any::RgTo(x) => x.contains(&e),
            Any::RgToIncl(x) => x.contains(&e),
            Any::RgFull(_) => true,
            Any::Br(x) => x.contains(e),
            Any::Lbr(x) => x.contains(e),
            Any::Ubr(x) => x.contains(e),
            Any::Ur(x) => x.contains(e),
            Any::Er(x) => x.contains(e),
            Any::Bs(x) => x.contains(e),
            Any::Lbs(x) => x.contains(e),
            Any::Ubs(x) => x.contains(e),
            Any::Us(x) => x.contains(e),
        }
    }
    pub fn is_std(&self) -> bool {
        matches!(
            self,
            Any::Rg(_) | Any::RgIncl(_) | Any::RgFrom(_) | Any::RgTo(_) | Any::RgToIncl(_) | Any::RgFull(_)
        )
    }
    /// The first elements in iteration order, at most `k`, and from the back where there is one.
    /// None: cannot be iterated.
    pub fn iterate(self, k: usize) -> Option<(Vec<E>, Option<Vec<E>>)> {
        match self {
            Any::Br(x) => {
                let it = x.into_iter();
                Some((it.clone().take(k).collect(), Some(it.rev().take(k).collect())))
            }
            Any::Bs(x) => {
                let it = x.into_iter();
                Some((it.clone().take(k).collect(), Some(it.rev().take(k).collect())))
            }
            Any::Lbr(x) => Some((x.into_iter().take(k).collect(), None)),
            Any::Lbs(x) => Some((x.into_iter().take(k).collect(), None)),
            Any::Er(x) => Some((x.into_iter().take(k).collect(), Some(vec![]))),
            _ => None,
        }
    }
}

/// A value of the crate together with what it must contain.
#[derive(Clone, Debug)]
pub struct Val {
    pub s: Any,
    pub m: MSet,
}

/// A primitive range of a random kind.
pub fn primitive(w: &crate::gen::Win) -> Val {
    let (a, b) = w.pair();
    let (x, y) = (E::mk(a), E::mk(b));
    let (s, m): (Any, MSet) = match pick(&[4, 3, 3, 3, 2, 1, 3, 2, 2, 2, 2, 1, 2, 1, 1, 1]) {
        0 => ((x..y).into(), MSet::range(before(a), before(b))),
        1 => ((x..=y).into(), MSet::range(before(a), after(b))),
        2 => ((x..).into(), MSet::range(before(a), POS)),
        3 => ((..y).into(), MSet::range(NEG, before(b))),
        4 => ((..=y).into(), MSet::range(NEG, after(b))),
        5 => ((..).into(), MSet::full()),
        6 => (
            BoundedRange::new(LowerBound::excluded(x), UpperBound::excluded(y)).into(),
            MSet::range(after(a), before(b)),
        ),
        7 => (
            BoundedRange::new(LowerBound::excluded(x), UpperBound::included(y)).into(),
            MSet::range(after(a), after(b)),
        ),
        8 => (
            BoundedRange::new(LowerBound::included(x), UpperBound::excluded(y)).into(),
            MSet::range(before(a), before(b)),
        ),
        9 => (LowerBoundedRange::new(LowerBound::excluded(x)).into(), MSet::range(after(a), POS)),
        10 => (UpperBoundedRange::new(UpperBound::included(y)).into(), MSet::range(NEG, after(b))),
        11 => (UnboundedRange::new().into(), MSet::full()),
        12 => (EmptyRange::new().into(), MSet::empty()),
        13 => (BoundedSet::empty().into(), MSet::empty()),
        14 => {
            let m = MSet::range(NEG, before(a)).union(&MSet::range(after(b), POS));
            (
                UnboundedSet::new(
                    UpperBoundedRange::new(UpperBound::excluded(x)),
                    LowerBoundedRange::new(LowerBound::excluded(y)),
                )
                .into(),
                m,
            )
        }
        _ => (UnboundedSet::Full.into(), MSet::full()),
    };
    Val { s, m }
}

/// Compares a value with its model: membership at and around every bound, emptiness, iteration.
/// No faults are injected here; `preempt` makes the test itself preemptible.
pub fn check_val(what: &dyn std::fmt::Display, s: &Any, m: &MSet, preempt: Option<u64>) -> Res {
    let (lo, hi) = (domain().lo, domain().hi);
    let o = Opts { preempt, ..Opts::default() };
    let mut probes = vec![];
    m.probes(lo, hi, &mut probes);
    probes.sort();
    probes.dedup();
    // also a few points in between
    for i in 0..probes.len().min(6) {
        let a = probes[i];
        if let Some(b) = probes.get(i + 1) {
            probes.push(a + (b - a) / 2);
        }
    }
    if !s.is_std() {
        for &p in &probes {
            let got = call(o, || s.contains(E::mk(p))).expect_ok(what)?;
            ensure!(
                got == m.contains(p),
                "wrong-members",
                "{what}: contains({p}) is {got}, expected {} ({} should be {})",
                m.contains(p),
                s.kind(),
                m.show()
            );
        }
    }
    check_empty(what, s, m, o)?;
    // Iteration.
    let elems = m.elements(lo, hi);
    let mut mi = MIter::new(elems);
    let endless = matches!(s, Any::Lbr(_) | Any::Lbs(_));
    let k = 24usize;
    if endless {
        // stay clear of the end of the domain
        if mi.len() < 60 {
            return Ok(());
        }
    }
    let got = call(o, || s.clone().iterate(k)).expect_ok(what)?;
    if let Some((front, back)) = got {
        let mut mb = mi.clone();
        let front: Vec<i128> = front.iter().map(|x| x.o()).collect();
        let mut want = vec![];
        for _ in 0..k {
            match mi.next() {
                Some(x) => want.push(x),
                None => break,
            }
        }
        ensure!(
            front == want,
            "wrong-iteration",
            "{what}: iterating gives {front:?}, expected {want:?} ({} should be {})",
            s.kind(),
            m.show()
        );
        if let Some(back) = back {
            if !matches!(s, Any::Er(_)) {
                let back: Vec<i128> = back.iter().map(|x| x.o()).collect();
                let mut want = vec![];
                for _ in 0..k {
                    match mb.next_back() {
                        Some(x) => want.push(x),
                        None => break,
                    }
                }
                ensure!(
                    back == want,
                    "wrong-iteration",
                    "{what}: iterating backwards gives {back:?}, expected {want:?} ({} should be {})",
                    s.kind(),
                    m.show()
                );
            }
        }
    }
    Ok(())
}

/// Emptiness. A range such as "above 3 and below 4" is documented not to count as empty although
/// it has no element; there both answers pass.
pub fn check_empty(what: &dyn std::fmt::Display, s: &Any, m: &MSet, o: Opts) -> Res {
    let got = call(o, || s.is_empty()).expect_ok(what)?;
    let has = !m.elements(domain().lo, domain().hi).is_empty();
    if got && has {
        viol!("wrong-emptiness", "{what}: reported empty, but should be {}", m.show());
    }
    if !got && m.is_void() {
        viol!("wrong-emptiness", "{what}: reported not empty, but should be empty");
    }
    Ok(())
}

/// Whether two operands are disjoint: None if both answers pass (no common element, but room for
/// one between the bounds).
pub fn disjointness(a: &MSet, b: &MSet) -> Option<bool> {
    let i = a.inter(b);
    if i.is_void() {
        Some(true)
    } else if !i.elements(domain().lo, domain().hi).is_empty() {
        Some(false)
    } else {
        None
    }
}
