//! Poisoning allocator: fresh memory is filled with a pattern, a red zone behind each block is
//! verified when the block is freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicU8, AtomicUsize, Ordering};

pub struct Poison;
const ZONE: usize = 32;
const CANARY: u8 = 0xC3;
static FILL: AtomicU8 = AtomicU8::new(0xA5);
/// Only this many bytes of a block are filled (all of it where uninitialised memory matters).
static LIMIT: AtomicUsize = AtomicUsize::new(8192);
static CORRUPT: AtomicBool = AtomicBool::new(false);

pub fn set_fill(b: u8) { FILL.store(b, Ordering::SeqCst); }
pub fn set_fill_limit(n: usize) { LIMIT.store(n, Ordering::SeqCst); }
pub fn take_corrupt() -> bool { CORRUPT.swap(false, Ordering::SeqCst) }

static METER: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);

/// Starts the accounting of memory in use, relative to now.
pub fn meter() { METER.store(true, Ordering::SeqCst); }
/// Bytes in use since the accounting began.
pub fn live() -> isize { LIVE.load(Ordering::SeqCst) }
pub fn reset_peak() { PEAK.store(live(), Ordering::SeqCst); }
/// The most bytes in use at once since the last reset.
pub fn peak() -> isize { PEAK.load(Ordering::SeqCst) }

#[inline]
fn account(n: isize) {
    if METER.load(Ordering::Relaxed) {
        let v = LIVE.fetch_add(n, Ordering::Relaxed) + n;
        if v > PEAK.load(Ordering::Relaxed) { PEAK.fetch_max(v, Ordering::Relaxed); }
    }
}

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let l2 = Layout::from_size_align_unchecked(l.size() + ZONE, l.align());
        let p = System.alloc(l2);
        if !p.is_null() {
            account(l.size() as isize);
            std::ptr::write_bytes(p, FILL.load(Ordering::Relaxed), l.size().min(LIMIT.load(Ordering::Relaxed)));
            std::ptr::write_bytes(p.add(l.size()), CANARY, ZONE);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        let z = std::slice::from_raw_parts(p.add(l.size()), ZONE);
        if z.iter().any(|&b| b != CANARY) { CORRUPT.store(true, Ordering::SeqCst); }
        std::ptr::write_bytes(p, 0xDD, l.size().min(4096));
        let l2 = Layout::from_size_align_unchecked(l.size() + ZONE, l.align());
        System.dealloc(p, l2)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let l2 = Layout::from_size_align_unchecked(l.size() + ZONE, l.align());
        let p = System.alloc_zeroed(l2);
        if !p.is_null() { account(l.size() as isize); std::ptr::write_bytes(p.add(l.size()), CANARY, ZONE); }
        p
    }
}
