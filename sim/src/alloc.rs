//! The memory seam: an allocator that knows which memory was taken inside a call into the code
//! under test, how much of it is still held, and where memory ends.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

thread_local! { static TAG: Cell<u64> = const { Cell::new(0) }; }

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicU64 = AtomicU64::new(0);
/// Memory the code under test may hold; what it asks for beyond that is refused.
const LIMIT: i64 = 512 << 20;

/// Marks what this thread allocates from now on; returns the old mark.
pub fn tag(t: u64) -> u64 {
    TAG.with(|c| c.replace(t))
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
pub fn blocks() -> u64 {
    BLOCKS.load(Relaxed)
}
/// Starts a new measurement of the most that is held at a time.
pub fn reset_peak() {
    PEAK.store(live(), Relaxed);
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}

pub struct Counting;

fn head(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let t = TAG.with(|c| c.get());
        if t != 0 {
            let n = LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            if n > LIMIT {
                LIVE.fetch_sub(l.size() as i64, Relaxed);
                return std::ptr::null_mut();
            }
            PEAK.fetch_max(n, Relaxed);
            BLOCKS.fetch_add(1, Relaxed);
        }
        let h = head(&l);
        let full = match l.size().checked_add(h) {
            Some(n) => Layout::from_size_align_unchecked(n, h),
            None => return std::ptr::null_mut(),
        };
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        *(p.add(h - 8) as *mut u64) = t;
        p.add(h)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(&l);
        if *(p.sub(8) as *const u64) != 0 {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;
