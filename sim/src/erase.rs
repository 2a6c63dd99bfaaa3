//! Iterators over built-in element types behind one type each for two-ended and endless ones,
//! yielding ordinals, so that the workloads are compiled once and not once per element type. All
//! calls an iterator can specialise are passed on. The simulated element type is used directly.

use crate::elem::Dom;
use std::iter::FusedIterator;

/// Calls `$f::<T>($args)` for one of the built-in element types.
#[macro_export]
macro_rules! built_in {
    ($sel:expr, $f:ident ( $($a:expr),* )) => {
        match $sel {
            0 => $f::<i32>($($a),*),
            1 => $f::<u8>($($a),*),
            2 => $f::<i8>($($a),*),
            3 => $f::<u16>($($a),*),
            4 => $f::<i16>($($a),*),
            5 => $f::<u32>($($a),*),
            6 => $f::<u64>($($a),*),
            7 => $f::<i64>($($a),*),
            8 => $f::<usize>($($a),*),
            9 => $f::<isize>($($a),*),
            10 => $f::<u128>($($a),*),
            11 => $f::<i128>($($a),*),
            _ => $f::<char>($($a),*),
        }
    };
}

type F<'a> = &'a mut dyn FnMut(i128);

pub trait Two {
    fn next(&mut self) -> Option<i128>;
    fn next_back(&mut self) -> Option<i128>;
    fn nth(&mut self, n: usize) -> Option<i128>;
    fn nth_back(&mut self, n: usize) -> Option<i128>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn len(&self) -> usize;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<i128>;
    fn min(self: Box<Self>) -> Option<i128>;
    fn max(self: Box<Self>) -> Option<i128>;
    fn fold(self: Box<Self>, f: F);
    fn rfold(self: Box<Self>, f: F);
    fn copy(&self) -> Box<dyn Two>;
}

struct W<I>(I);

impl<T: Dom, I> Two for W<I>
where
    I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + Clone + 'static,
{
    fn next(&mut self) -> Option<i128> {
        self.0.next().map(T::o)
    }
    fn next_back(&mut self) -> Option<i128> {
        self.0.next_back().map(T::o)
    }
    fn nth(&mut self, n: usize) -> Option<i128> {
        self.0.nth(n).map(T::o)
    }
    fn nth_back(&mut self, n: usize) -> Option<i128> {
        self.0.nth_back(n).map(T::o)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<i128> {
        self.0.last().map(T::o)
    }
    fn min(self: Box<Self>) -> Option<i128> {
        self.0.min().map(T::o)
    }
    fn max(self: Box<Self>) -> Option<i128> {
        self.0.max().map(T::o)
    }
    fn fold(self: Box<Self>, f: F) {
        self.0.fold((), |_, x| f(x.o()))
    }
    fn rfold(self: Box<Self>, f: F) {
        self.0.rfold((), |_, x| f(x.o()))
    }
    fn copy(&self) -> Box<dyn Two> {
        Box::new(W(self.0.clone()))
    }
}

pub struct TwoEnded(Box<dyn Two>);

impl TwoEnded {
    pub fn new<T: Dom, I>(it: I) -> TwoEnded
    where
        I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator + FusedIterator + Clone + 'static,
    {
        TwoEnded(Box::new(W(it)))
    }
}

impl Clone for TwoEnded {
    fn clone(&self) -> Self {
        TwoEnded(self.0.copy())
    }
}

impl Iterator for TwoEnded {
    type Item = i128;
    fn next(&mut self) -> Option<i128> {
        self.0.next()
    }
    fn nth(&mut self, n: usize) -> Option<i128> {
        self.0.nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn count(self) -> usize {
        self.0.count()
    }
    fn last(self) -> Option<i128> {
        self.0.last()
    }
    fn min(self) -> Option<i128> {
        self.0.min()
    }
    fn max(self) -> Option<i128> {
        self.0.max()
    }
    fn fold<B, G: FnMut(B, i128) -> B>(self, init: B, mut g: G) -> B {
        let mut acc = Some(init);
        self.0.fold(&mut |x| {
            let a = acc.take().expect("accumulator");
            acc = Some(g(a, x))
        });
        acc.expect("accumulator")
    }
}
impl DoubleEndedIterator for TwoEnded {
    fn next_back(&mut self) -> Option<i128> {
        self.0.next_back()
    }
    fn nth_back(&mut self, n: usize) -> Option<i128> {
        self.0.nth_back(n)
    }
    fn rfold<B, G: FnMut(B, i128) -> B>(self, init: B, mut g: G) -> B {
        let mut acc = Some(init);
        self.0.rfold(&mut |x| {
            let a = acc.take().expect("accumulator");
            acc = Some(g(a, x))
        });
        acc.expect("accumulator")
    }
}
impl ExactSizeIterator for TwoEnded {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl FusedIterator for TwoEnded {}

pub trait One {
    fn next(&mut self) -> Option<i128>;
    fn nth(&mut self, n: usize) -> Option<i128>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn min(self: Box<Self>) -> Option<i128>;
    fn copy(&self) -> Box<dyn One>;
}

impl<T: Dom, I: Iterator<Item = T> + Clone + 'static> One for W<I> {
    fn next(&mut self) -> Option<i128> {
        self.0.next().map(T::o)
    }
    fn nth(&mut self, n: usize) -> Option<i128> {
        self.0.nth(n).map(T::o)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn min(self: Box<Self>) -> Option<i128> {
        self.0.min().map(T::o)
    }
    fn copy(&self) -> Box<dyn One> {
        Box::new(W(self.0.clone()))
    }
}

pub struct Endless(Box<dyn One>);

impl Endless {
    pub fn new<T: Dom, I: Iterator<Item = T> + Clone + 'static>(it: I) -> Endless {
        Endless(Box::new(W(it)))
    }
}
impl Clone for Endless {
    fn clone(&self) -> Self {
        Endless(self.0.copy())
    }
}
impl Iterator for Endless {
    type Item = i128;
    fn next(&mut self) -> Option<i128> {
        self.0.next()
    }
    fn nth(&mut self, n: usize) -> Option<i128> {
        self.0.nth(n)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn min(self) -> Option<i128> {
        self.0.min()
    }
}
