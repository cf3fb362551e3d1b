//! Stands in for std::sync and std::thread in the instrumented copy of the library: the primitives
//! that block or are shared are the ones of the controlled scheduler, the rest is std's.
pub mod sync {
    pub use shuttle::sync::{Barrier, Condvar, Mutex, MutexGuard, Once, OnceState, RwLock, RwLockReadGuard, RwLockWriteGuard};
    pub use std::sync::*;
    pub mod atomic {
        pub use shuttle::sync::atomic::{AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicPtr,
            AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize};
        pub use std::sync::atomic::*;
    }
    pub mod mpsc { pub use shuttle::sync::mpsc::*; }
}
pub mod thread {
    pub use shuttle::thread::{current, park, scope, sleep, spawn, yield_now, Builder, JoinHandle, Scope, ScopedJoinHandle, Thread, ThreadId};
    pub use std::thread::*;
}
pub use shuttle::thread_local;

use std::cell::Cell;
std::thread_local! {
    static LIVE: Cell<usize> = Cell::new(0);
    static RUNNABLE: Cell<usize> = Cell::new(0);
    static AT_POINT: Cell<bool> = Cell::new(false);
    static POINTS: Cell<u64> = Cell::new(0);
}
/// Number of tasks of the present execution that have started and not finished, besides the first.
pub fn live(d: isize) { LIVE.with(|l| l.set((l.get() as isize + d) as usize)); }
/// Number of tasks that could run at the last decision of the scheduler.
pub fn runnable(n: usize) { RUNNABLE.with(|r| r.set(n)); }
pub fn reset() { RUNNABLE.with(|r| r.set(0)); LIVE.with(|l| l.set(0)); AT_POINT.with(|a| a.set(false)); }
pub fn points() -> u64 { POINTS.with(|p| p.get()) }
/// True once after a switch that is a mere scheduling point, not a request to let others run.
pub fn take_point() -> bool { AT_POINT.with(|a| a.replace(false)) }

/// Scheduling point put in front of accesses to shared structures.
#[inline]
pub fn point() {
    if LIVE.with(|l| l.get()) == 0 && RUNNABLE.with(|r| r.get()) < 2 { return; }
    POINTS.with(|p| p.set(p.get() + 1));
    AT_POINT.with(|a| a.set(true));
    shuttle::thread::yield_now();
}
