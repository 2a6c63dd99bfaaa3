//! Element types. `Elem` is the simulated one: each of its operations is a seam. `Dom` maps every
//! element type, simulated or built in, to consecutive ordinals so that one model serves all.

use crate::rt::{self, callback, Kind, OverflowMark};
use rangetools::Step;
use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
use std::cell::UnsafeCell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::panic::resume_unwind;

pub trait Dom: Copy + Ord + Step + Hash + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(o: i128) -> Self;
    fn o(self) -> i128;
    fn lo() -> i128;
    fn hi() -> i128;
    /// The number of elements in `a..=b`, saturating.
    fn is_sim() -> bool {
        false
    }
}

#[derive(Clone, Copy)]
pub struct Elem(i128);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Overflow {
    Panic,
    Wrap,
    Saturate,
    /// A different reaction each time.
    Mixed,
}

pub struct Domain {
    pub lo: i128,
    pub hi: i128,
    pub overflow: Overflow,
    flip: u32,
}

struct G(UnsafeCell<Domain>);
unsafe impl Sync for G {}
static DOMAIN: G = G(UnsafeCell::new(Domain { lo: 0, hi: 255, overflow: Overflow::Panic, flip: 0 }));

pub fn domain() -> &'static mut Domain {
    unsafe { &mut *DOMAIN.0.get() }
}

static EVEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

static TOP: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(i64::MAX);

/// Accept only values up to this one from storage.
pub fn set_stored_top(v: i64) {
    TOP.store(v, std::sync::atomic::Ordering::Relaxed);
}

/// Accept only even values from storage.
pub fn set_even_only(on: bool) {
    EVEN.store(on, std::sync::atomic::Ordering::Relaxed);
}

pub fn set_domain(lo: i128, hi: i128, overflow: Overflow) {
    *domain() = Domain { lo, hi, overflow, flip: 0 };
}

impl Dom for Elem {
    const NAME: &'static str = "Elem";
    fn mk(o: i128) -> Self {
        debug_assert!(o >= domain().lo && o <= domain().hi);
        Elem(o)
    }
    fn o(self) -> i128 {
        self.0
    }
    fn lo() -> i128 {
        domain().lo
    }
    fn hi() -> i128 {
        domain().hi
    }
    fn is_sim() -> bool {
        true
    }
}

impl std::fmt::Debug for Elem {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

impl PartialEq for Elem {
    fn eq(&self, o: &Self) -> bool {
        callback(Kind::Cmp);
        self.0 == o.0
    }
}
impl Eq for Elem {}
impl PartialOrd for Elem {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        callback(Kind::Cmp);
        Some(self.0.cmp(&o.0))
    }
}
impl Ord for Elem {
    fn cmp(&self, o: &Self) -> Ordering {
        callback(Kind::Cmp);
        self.0.cmp(&o.0)
    }
}
impl Hash for Elem {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}

fn overflowed(up: bool, wrapped: i128) -> Elem {
    let _quiet = rt::Quiet::new();
    rt::note_overflow();
    let d = domain();
    let mode = match d.overflow {
        Overflow::Mixed => {
            d.flip += 1;
            [Overflow::Wrap, Overflow::Panic, Overflow::Saturate][(d.flip % 3) as usize]
        }
        m => m,
    };
    match mode {
        Overflow::Panic | Overflow::Mixed => {
            rt::stat("fault.step_overflow_panic");
            resume_unwind(Box::new(OverflowMark))
        }
        Overflow::Wrap => {
            rt::stat("fault.step_overflow_wrap");
            Elem(wrapped)
        }
        Overflow::Saturate => {
            rt::stat("fault.step_overflow_saturate");
            Elem(if up { d.hi } else { d.lo })
        }
    }
}

impl Step for Elem {
    fn steps_between(start: &Self, end: &Self) -> Option<usize> {
        callback(Kind::Step);
        if start.0 > end.0 {
            return None;
        }
        usize::try_from(end.0 - start.0).ok()
    }
    fn forward_checked(start: Self, n: usize) -> Option<Self> {
        callback(Kind::Step);
        let v = start.0 + n as i128;
        (v <= domain().hi).then_some(Elem(v))
    }
    fn backward_checked(start: Self, n: usize) -> Option<Self> {
        callback(Kind::Step);
        let v = start.0 - n as i128;
        (v >= domain().lo).then_some(Elem(v))
    }
    fn forward(start: Self, n: usize) -> Self {
        callback(Kind::Step);
        let v = start.0 + n as i128;
        if v <= domain().hi {
            return Elem(v);
        }
        let size = domain().hi - domain().lo + 1;
        overflowed(true, domain().lo + (v - domain().lo) % size)
    }
    fn backward(start: Self, n: usize) -> Self {
        callback(Kind::Step);
        let v = start.0 - n as i128;
        if v >= domain().lo {
            return Elem(v);
        }
        let size = domain().hi - domain().lo + 1;
        overflowed(false, domain().hi - (domain().hi - v) % size)
    }
}

impl Serialize for Elem {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if rt::serde_callback() {
            return Err(ser::Error::custom("injected element failure"));
        }
        i64::try_from(self.0).map_err(|_| ser::Error::custom("element too wide"))?.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Elem {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        if rt::serde_callback() {
            return Err(de::Error::custom("injected element failure"));
        }
        let v = i64::deserialize(d)? as i128;
        if EVEN.load(std::sync::atomic::Ordering::Relaxed) && v % 2 != 0 {
            return Err(de::Error::custom("odd element"));
        }
        let top = TOP.load(std::sync::atomic::Ordering::Relaxed) as i128;
        if v < domain().lo || v > domain().hi.min(top) {
            return Err(de::Error::custom("element out of domain"));
        }
        Ok(Elem(v))
    }
}

macro_rules! ints {
    ($($t:ident)*) => {$(
        impl Dom for $t {
            const NAME: &'static str = stringify!($t);
            fn mk(o: i128) -> Self { $t::try_from(o).expect("ordinal") }
            fn o(self) -> i128 { self as i128 }
            fn lo() -> i128 { $t::MIN as i128 }
            fn hi() -> i128 { $t::MAX as i128 }
        }
    )*};
}
ints!(u8 i8 u16 i16 u32 i32 u64 i64 usize isize);

impl Dom for i128 {
    const NAME: &'static str = "i128";
    fn mk(o: i128) -> Self {
        o
    }
    fn o(self) -> i128 {
        self
    }
    fn lo() -> i128 {
        i128::MIN
    }
    fn hi() -> i128 {
        i128::MAX
    }
}

impl Dom for u128 {
    const NAME: &'static str = "u128";
    fn mk(o: i128) -> Self {
        (o as u128) ^ (1 << 127)
    }
    fn o(self) -> i128 {
        (self ^ (1 << 127)) as i128
    }
    fn lo() -> i128 {
        i128::MIN
    }
    fn hi() -> i128 {
        i128::MAX
    }
}

impl Dom for char {
    const NAME: &'static str = "char";
    fn mk(o: i128) -> Self {
        let v = if o < 0xd800 { o } else { o + 0x800 };
        char::from_u32(v as u32).expect("ordinal")
    }
    fn o(self) -> i128 {
        let v = self as u32 as i128;
        if v < 0xd800 {
            v
        } else {
            v - 0x800
        }
    }
    fn lo() -> i128 {
        0
    }
    fn hi() -> i128 {
        0x10ffff - 0x800
    }
}
