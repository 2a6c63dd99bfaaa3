//! Generation of ranges and sets, each together with its model.

use crate::elem::{domain, set_domain, Dom, Elem, Overflow};
use crate::model::{after, before, MSet, NEG, POS};
use crate::rt::{chance, draw, pick, plain, Res};
use rangetools::{
    BoundedRange, BoundedSet, LowerBound, LowerBoundedRange, LowerBoundedSet, Rangetools,
    UnboundedSet, UpperBound, UpperBoundedRange,
};

/// Where the end points of one episode's ranges lie.
#[derive(Clone, Copy, Debug)]
pub struct Win {
    pub lo: i128,
    pub hi: i128,
    /// Also use end points far away, up to these.
    pub far: bool,
    pub min: i128,
    pub max: i128,
    /// Short ranges nearly always: sets come to have many pieces.
    pub short: bool,
}

/// `margin`: how many values to keep free at the top of the domain.
pub fn window<T: Dom>(margin: i128, ends: bool) -> Win {
    let (dlo, dhi) = (T::lo(), T::hi() - margin);
    let size = (dhi as u128).wrapping_sub(dlo as u128); // size - 1
    let w = ([6u128, 3, 12, 30, 90][pick(&[4, 2, 4, 3, 1])]).min(size) as i128;
    let place = if ends { pick(&[3, 3, 1, 1]) } else { pick(&[1, 1, 3, 2]) };
    let lo = match place {
        0 => dlo,
        1 => dhi - w,
        3 => {
            // around a power of two of either sign, or that far from an end
            let p = 1i128 << draw(127);
            let at = match draw(4) {
                0 => Some(p),
                1 => Some(-p),
                2 => dlo.checked_add(p),
                _ => dhi.checked_sub(p),
            };
            (at.unwrap_or(0).saturating_sub(w / 2)).min(dhi - w).max(dlo)
        }
        _ => {
            // around 0, or the middle of the domain; for characters also the surrogate gap
            let mid = if T::NAME == "char" {
                [0xd800, 100, 0x10000][pick(&[2, 1, 1])]
            } else if dlo < -w && dhi > w {
                0
            } else {
                dlo + ((size / 2) as i128)
            };
            (mid - w / 2).max(dlo).min(dhi - w)
        }
    };
    Win { lo, hi: lo + w, far: chance(1, 3), min: dlo, max: dhi, short: false }
}

impl Win {
    /// Room for more pieces.
    pub fn widened(&self, by: i128) -> Win {
        let hi = self.hi.saturating_add(by).min(self.max);
        // what the top of the domain does not leave room for goes below
        let below = (by / 10).max(by - (hi - self.hi));
        Win { hi, lo: self.lo.saturating_sub(below).max(self.min), short: true, ..*self }
    }
    pub fn point(&self) -> i128 {
        let w = (self.hi - self.lo + 1) as u32;
        let p = self.lo + draw(w) as i128;
        if self.far && chance(1, if self.short { 60 } else { 4 }) {
            let q = match draw(5) {
                0 => Some(self.min),
                1 => Some(self.max),
                2 => p.checked_add(u64::MAX as i128 - 1 + draw(3) as i128),
                3 => p.checked_sub(u64::MAX as i128 - 1 + draw(3) as i128),
                _ => p.checked_add(300 + draw(100) as i128),
            };
            return q.filter(|q| *q >= self.min && *q <= self.max).unwrap_or(p);
        }
        p
    }
}

/// Chooses the domain of the simulated element type for a run.
pub fn choose_domain(reactions: bool) {
    let over = if reactions {
        [Overflow::Panic, Overflow::Wrap, Overflow::Saturate, Overflow::Mixed][pick(&[2, 2, 2, 1])]
    } else {
        Overflow::Panic
    };
    match pick(&[4, 2, 2, 3, 1]) {
        0 => set_domain(0, 255, over),
        1 => set_domain(-20, 20, over),
        2 => set_domain(-1000, 1000, over),
        3 => set_domain(-(1 << 100), 1 << 100, over),
        _ => set_domain(i64::MIN as i128, i64::MAX as i128, over),
    }
    let d = domain();
    crate::ev!("domain {}..={} overflow {:?}", d.lo, d.hi, d.overflow);
}

pub enum Bounded<T> {
    R(BoundedRange<T>),
    S(BoundedSet<T>),
}

pub enum Lower<T> {
    R(LowerBoundedRange<T>),
    S(LowerBoundedSet<T>),
}

impl Win {
    /// The end points of a range: mostly in order, often close together, so that sets come to
    /// have several pieces.
    pub fn pair(&self) -> (i128, i128) {
        let a = self.point();
        let mut b = if if self.short { chance(29, 30) } else { chance(1, 2) } {
            a.checked_add(draw(5) as i128).filter(|b| *b <= self.max).unwrap_or(a)
        } else {
            self.point()
        };
        let mut a = a;
        if a > b && !chance(1, 8) {
            std::mem::swap(&mut a, &mut b);
        }
        (a, b)
    }
}

/// A bounded range. Mostly not empty.
pub fn gen_range<T: Dom>(w: &Win) -> (BoundedRange<T>, MSet) {
    let (a, b) = w.pair();
    let (x, y) = (T::mk(a), T::mk(b));
    match pick(&[3, 2, 2, 1, 1]) {
        0 => (BoundedRange::from(x..y), MSet::range(before(a), before(b))),
        1 => (BoundedRange::from(x..=y), MSet::range(before(a), after(b))),
        2 => (
            BoundedRange::new(LowerBound::excluded(x), UpperBound::excluded(y)),
            MSet::range(after(a), before(b)),
        ),
        3 => (
            BoundedRange::new(LowerBound::excluded(x), UpperBound::included(y)),
            MSet::range(after(a), after(b)),
        ),
        _ => (
            BoundedRange::new(LowerBound::included(x), UpperBound::included(y)),
            MSet::range(before(a), after(b)),
        ),
    }
}

pub fn gen_from<T: Dom>(w: &Win) -> (LowerBoundedRange<T>, MSet) {
    let a = w.point();
    let x = T::mk(a);
    if chance(1, 3) {
        (LowerBoundedRange::new(LowerBound::excluded(x)), MSet::range(after(a), POS))
    } else {
        (LowerBoundedRange::from(x..), MSet::range(before(a), POS))
    }
}

pub fn gen_to<T: Dom>(w: &Win) -> (UpperBoundedRange<T>, MSet) {
    let a = w.point();
    let x = T::mk(a);
    if chance(1, 3) {
        (UpperBoundedRange::from(..=x), MSet::range(NEG, after(a)))
    } else {
        (UpperBoundedRange::from(..x), MSet::range(NEG, before(a)))
    }
}

/// A union of a few ranges.
fn small_set<T: Dom>(w: &Win, n: u32) -> Res<(BoundedSet<T>, MSet)> {
    let mut s = BoundedSet::empty();
    let mut m = MSet::empty();
    for _ in 0..n {
        let (r, mr) = gen_range::<T>(w);
        s = plain(&"union", || s.union(r))?;
        m = m.union(&mr);
    }
    Ok((s, m))
}

/// A bounded range, or a bounded set built by a sequence of operations.
pub fn gen_bounded<T: Dom>(w: &Win, many: bool) -> Res<(Bounded<T>, MSet)> {
    if chance(1, 5) {
        let (r, m) = gen_range::<T>(w);
        crate::ev!("range {}", m.show());
        return Ok((Bounded::R(r), m));
    }
    let wide;
    let huge = many && chance(1, 25);
    let w = if many {
        wide = w.widened(if huge { 4000 } else { 500 });
        &wide
    } else {
        w
    };
    let n = match (huge, many) {
        (true, _) => 60 + draw(240),
        (_, true) => 10 + draw(40),
        _ => [2, 3, 1, 5, 8][pick(&[4, 4, 2, 3, 2])],
    };
    let (mut s, mut m) = small_set::<T>(w, n)?;
    let k = pick(&[6, 3, 2, 1]);
    for _ in 0..k {
        // (some operations take time in the third power of the number of pieces)
        match if huge { [0, 4, 6][draw(3) as usize] } else { pick(&[3, 2, 2, 2, 2, 1, 1, 1]) } {
            0 => {
                let (r, mr) = gen_range::<T>(w);
                s = plain(&"union", || s.union(r))?;
                m = m.union(&mr);
            }
            1 => {
                // cut a hole
                let (r, mr) = gen_range::<T>(w);
                s = plain(&"complement, intersection", || {
                    let c: UnboundedSet<T> = r.complement();
                    s.intersection(c)
                })?;
                m = m.inter(&mr.complement());
            }
            2 => {
                let n = 1 + draw(3);
                let (o, mo) = small_set::<T>(w, n)?;
                s = plain(&"union", || s.union(o))?;
                m = m.union(&mo);
            }
            3 => {
                let n = 1 + draw(4);
                let (o, mo) = small_set::<T>(w, n)?;
                s = plain(&"intersection", || s.intersection(o))?;
                m = m.inter(&mo);
            }
            4 => {
                let (r, mr) = gen_range::<T>(w);
                s = plain(&"intersection", || s.intersection(r))?;
                m = m.inter(&mr);
            }
            5 => {
                s = plain(&"complement twice", || {
                    let c: UnboundedSet<T> = s.complement();
                    c.complement()
                })?;
                m = m.complement().complement();
            }
            6 => {
                let (r, mr) = gen_from::<T>(w);
                s = plain(&"intersection", || s.intersection(r))?;
                m = m.inter(&mr);
            }
            _ => {
                let (r, mr) = gen_to::<T>(w);
                let (f, mf) = gen_range::<T>(w);
                s = plain(&"intersection", || s.intersection(r.union(f)))?;
                m = m.inter(&mr.union(&mf));
            }
        }
    }
    crate::ev!("set {}", m.show());
    Ok((Bounded::S(s), m))
}

/// A range or set with a lower bound and no upper bound.
pub fn gen_lower<T: Dom>(w: &Win, many: bool) -> Res<(Lower<T>, MSet)> {
    if chance(1, 5) {
        let (r, m) = gen_from::<T>(w);
        crate::ev!("range {}", m.show());
        return Ok((Lower::R(r), m));
    }
    let wide;
    let huge = many && chance(1, 25);
    let w = if many {
        wide = w.widened(if huge { 4000 } else { 500 });
        &wide
    } else {
        w
    };
    let n = match (huge, many) {
        (true, _) => 60 + draw(240),
        (_, true) => 10 + draw(30),
        _ => draw(5),
    };
    let (f, mut m) = gen_from::<T>(w);
    let mut s: LowerBoundedSet<T> = f.to_set();
    for _ in 0..n {
        let (r, mr) = gen_range::<T>(w);
        s = plain(&"union", || s.union(r))?;
        m = m.union(&mr);
    }
    let k = pick(&[5, 3, 2, 1]);
    for _ in 0..k {
        match if huge { [0, 2, 4][draw(3) as usize] } else { pick(&[3, 2, 2, 2, 1, 1]) } {
            0 => {
                let (r, mr) = gen_range::<T>(w);
                s = plain(&"union", || s.union(r))?;
                m = m.union(&mr);
            }
            1 => {
                let (r, mr) = gen_range::<T>(w);
                s = plain(&"complement, intersection", || {
                    let c: UnboundedSet<T> = r.complement();
                    s.intersection(c)
                })?;
                m = m.inter(&mr.complement());
            }
            2 => {
                let (r, mr) = gen_from::<T>(w);
                s = plain(&"intersection", || s.intersection(r))?;
                m = m.inter(&mr);
            }
            3 => {
                let (f, mf) = gen_from::<T>(w);
                let (r, mr) = gen_range::<T>(w);
                s = plain(&"intersection", || s.intersection(f.union(r)))?;
                m = m.inter(&mf.union(&mr));
            }
            4 => {
                let (f, mf) = gen_from::<T>(w);
                s = plain(&"union", || s.union(f))?;
                m = m.union(&mf);
            }
            _ => {
                s = plain(&"complement twice", || s.complement().complement())?;
                m = m.complement().complement();
            }
        }
    }
    crate::ev!("set {}", m.show());
    Ok((Lower::S(s), m))
}

pub fn elements<T: Dom>(m: &MSet) -> Vec<(i128, i128)> {
    m.elements(T::lo(), T::hi())
}

#[allow(dead_code)]
pub fn elem(v: i128) -> Elem {
    Elem::mk(v)
}
