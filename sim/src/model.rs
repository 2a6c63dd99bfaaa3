//! The reference model: sets of elements as sorted lists of half-open intervals between cuts.
//!
//! A cut is a position between elements: before the value `v` is `(v, 0)`, after it `(v, 1)`.
//! The lower bounds "from v" and "above v" are the cuts before and after `v`, the upper bounds
//! "below v" and "up to v" the cuts before and after it. No arithmetic on elements is needed, so
//! the model has no overflow of its own.

use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Cut(i8, i128, u8);

pub const NEG: Cut = Cut(-1, 0, 0);
pub const POS: Cut = Cut(1, 0, 0);

pub fn before(v: i128) -> Cut {
    Cut(0, v, 0)
}
pub fn after(v: i128) -> Cut {
    Cut(0, v, 1)
}

#[derive(Clone, Debug)]
pub struct MSet {
    iv: Vec<(Cut, Cut)>,
    /// How many pieces each interval may be in: ones that only touch need not be joined.
    at: Vec<u64>,
    /// Pieces that may be anywhere.
    loose: u64,
    /// An upper bound on the number of contiguous pieces a value with these members, put together
    /// in the same way, has reason to be in.
    pub pieces: u64,
}

impl PartialEq for MSet {
    fn eq(&self, o: &MSet) -> bool {
        self.iv == o.iv
    }
}

impl MSet {
    fn new(iv: Vec<(Cut, Cut)>, at: Vec<u64>, loose: u64) -> MSet {
        let pieces = (at.iter().sum::<u64>() + loose).max(1);
        MSet { iv, at, loose, pieces }
    }
    pub fn empty() -> MSet {
        MSet::new(vec![], vec![], 0)
    }
    pub fn full() -> MSet {
        MSet::new(vec![(NEG, POS)], vec![1], 0)
    }
    pub fn range(lo: Cut, hi: Cut) -> MSet {
        if lo < hi {
            MSet::new(vec![(lo, hi)], vec![1], 0)
        } else {
            MSet::empty()
        }
    }
    /// Pieces beyond `n` are taken to be merged.
    pub fn at_most(mut self, n: u64) -> MSet {
        if self.pieces > n {
            self.at = vec![0; self.iv.len()];
            self.loose = n;
            self.pieces = n.max(1);
        }
        self
    }
    pub fn contains(&self, v: i128) -> bool {
        let c = before(v);
        self.iv.iter().any(|&(l, h)| l <= c && c < h)
    }
    pub fn union(&self, o: &MSet) -> MSet {
        // What lies inside an interval of the other that reaches further on both sides is absorbed.
        let left = |m: &MSet, o: &MSet| -> (Vec<(Cut, Cut, u64)>, u64) {
            let mut all = true;
            let v = m.iv.iter().zip(&m.at).map(|(&(l, h), &n)| {
                let gone = o.iv.iter().any(|&(ol, oh)| {
                    (ol, oh) != (l, h) && (ol < l || ol == NEG) && (h < oh || oh == POS)
                });
                all &= gone;
                (l, h, if gone { 0 } else { n })
            });
            (v.collect(), if all { 0 } else { m.loose })
        };
        let ((mut x, a), (y, b)) = (left(self, o), left(o, self));
        x.extend(y);
        x.sort();
        let (mut iv, mut at) = (Vec::<(Cut, Cut)>::new(), Vec::<u64>::new());
        for (l, h, n) in x {
            match iv.last_mut() {
                Some(last) if l <= last.1 => {
                    last.1 = last.1.max(h);
                    *at.last_mut().unwrap() += n;
                }
                _ => {
                    iv.push((l, h));
                    at.push(n);
                }
            }
        }
        MSet::new(iv, at, a + b)
    }
    pub fn complement(&self) -> MSet {
        let mut iv = vec![];
        let mut from = NEG;
        for &(l, h) in &self.iv {
            if from < l {
                iv.push((from, l));
            }
            from = h;
        }
        if from < POS {
            iv.push((from, POS));
        }
        let at = vec![0; iv.len()];
        MSet::new(iv, at, self.pieces + 1)
    }
    pub fn inter(&self, o: &MSet) -> MSet {
        let iv = self.complement().union(&o.complement()).complement().iv;
        let at = vec![0; iv.len()];
        MSet::new(iv, at, self.pieces + o.pieces)
    }
    pub fn n_intervals(&self) -> u64 {
        self.iv.len() as u64
    }
    /// No element type could have an element in it.
    pub fn is_void(&self) -> bool {
        self.iv.is_empty()
    }
    /// The elements, as inclusive intervals of ordinals, adjacent ones merged.
    pub fn elements(&self, lo: i128, hi: i128) -> Vec<(i128, i128)> {
        let mut v: Vec<(i128, i128)> = vec![];
        for &(l, h) in &self.iv {
            let a = match l {
                Cut(-1, ..) => lo,
                Cut(0, x, 0) => x,
                Cut(0, x, _) if x == i128::MAX => continue,
                Cut(0, x, _) => x + 1,
                _ => continue,
            };
            let b = match h {
                Cut(1, ..) => hi,
                Cut(0, x, 1) => x,
                Cut(0, x, _) if x == i128::MIN => continue,
                Cut(0, x, _) => x - 1,
                _ => continue,
            };
            let (a, b) = (a.max(lo), b.min(hi));
            if a > b {
                continue;
            }
            match v.last_mut() {
                Some(last) if last.1 != i128::MAX && a <= last.1 + 1 => last.1 = last.1.max(b),
                _ => v.push((a, b)),
            }
        }
        v
    }
    /// Values at and next to every cut, and at the ends of the domain.
    pub fn probes(&self, lo: i128, hi: i128, out: &mut Vec<i128>) {
        for &(l, h) in &self.iv {
            for c in [l, h] {
                if c.0 == 0 {
                    for d in -1..=1 {
                        if let Some(v) = c.1.checked_add(d) {
                            if v >= lo && v <= hi {
                                out.push(v);
                            }
                        }
                    }
                }
            }
        }
        out.push(lo);
        out.push(hi);
    }
    pub fn show(&self) -> String {
        let mut s = String::from("{");
        for (i, (l, h)) in self.iv.iter().enumerate() {
            if i > 0 {
                s.push(' ');
            }
            match *l {
                Cut(-1, ..) => s.push_str("(-inf"),
                Cut(_, v, 0) => s.push_str(&format!("[{v}")),
                Cut(_, v, _) => s.push_str(&format!("({v}")),
            }
            s.push_str(", ");
            match *h {
                Cut(1, ..) => s.push_str("+inf)"),
                Cut(_, v, 0) => s.push_str(&format!("{v})")),
                Cut(_, v, _) => s.push_str(&format!("{v}]")),
            }
        }
        s.push('}');
        s
    }
}

fn width(a: i128, b: i128) -> u128 {
    // b - a, which fits u128
    (b as u128).wrapping_sub(a as u128)
}

/// The reference iterator: the elements outstanding.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MIter {
    pub dq: VecDeque<(i128, i128)>,
}

impl MIter {
    pub fn new(v: Vec<(i128, i128)>) -> MIter {
        MIter { dq: v.into() }
    }
    /// The number of elements outstanding, saturating.
    pub fn len(&self) -> u128 {
        self.dq.iter().fold(0u128, |n, &(a, b)| n.saturating_add(width(a, b)).saturating_add(1))
    }
    pub fn front(&self) -> Option<i128> {
        self.dq.front().map(|p| p.0)
    }
    pub fn back(&self) -> Option<i128> {
        self.dq.back().map(|p| p.1)
    }
    pub fn next(&mut self) -> Option<i128> {
        self.nth(0)
    }
    pub fn next_back(&mut self) -> Option<i128> {
        self.nth_back(0)
    }
    pub fn nth(&mut self, mut n: u128) -> Option<i128> {
        while let Some((a, b)) = self.dq.pop_front() {
            let w = width(a, b);
            if n > w {
                n -= w;
                n -= 1;
                continue;
            }
            let v = (a as u128).wrapping_add(n) as i128;
            if v < b {
                self.dq.push_front((v + 1, b));
            }
            return Some(v);
        }
        None
    }
    pub fn nth_back(&mut self, mut n: u128) -> Option<i128> {
        while let Some((a, b)) = self.dq.pop_back() {
            let w = width(a, b);
            if n > w {
                n -= w;
                n -= 1;
                continue;
            }
            let v = (b as u128).wrapping_sub(n) as i128;
            if v > a {
                self.dq.push_back((a, v - 1));
            }
            return Some(v);
        }
        None
    }
    /// How many elements come before `v`; None if `v` is not outstanding.
    pub fn rank(&self, v: i128) -> Option<u128> {
        let mut n = 0u128;
        for &(a, b) in &self.dq {
            if a <= v && v <= b {
                return Some(n.saturating_add(width(a, v)));
            }
            n = n.saturating_add(width(a, b)).saturating_add(1);
        }
        None
    }
    pub fn rank_back(&self, v: i128) -> Option<u128> {
        let mut n = 0u128;
        for &(a, b) in self.dq.iter().rev() {
            if a <= v && v <= b {
                return Some(n.saturating_add(width(v, b)));
            }
            n = n.saturating_add(width(a, b)).saturating_add(1);
        }
        None
    }
    pub fn show(&self) -> String {
        let mut s = String::from("[");
        for (i, (a, b)) in self.dq.iter().enumerate() {
            if i > 0 {
                s.push(' ');
            }
            if i == 12 {
                s.push_str("...");
                break;
            }
            if a == b {
                s.push_str(&a.to_string())
            } else {
                s.push_str(&format!("{a}..={b}"))
            }
        }
        s.push(']');
        s
    }
}
