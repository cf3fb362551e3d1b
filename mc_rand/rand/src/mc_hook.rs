//! Added for model checking (the only change to rand 0.6.5): while a chooser is installed on this
//! thread, every draw of an integer from a range is answered by the chooser, which is told the size
//! of the range. Draws of raw bits are counted and answered by the real generator.
use std::boxed::Box;
use std::cell::{Cell, RefCell};

thread_local! {
    static CHOOSER: RefCell<Option<Box<dyn FnMut(u64) -> u64>>> = RefCell::new(None);
    static RAW: Cell<u64> = Cell::new(0);
}

pub fn set(f: Option<Box<dyn FnMut(u64) -> u64>>) { CHOOSER.with(|c| *c.borrow_mut() = f); }
pub fn raw_draws() -> u64 { RAW.with(|r| r.get()) }

pub(crate) fn raw() { RAW.with(|r| r.set(r.get() + 1)); }

pub(crate) fn draw(range: u64) -> Option<u64> {
    CHOOSER.with(|c| c.borrow_mut().as_mut().map(|f| {
        let v = f(range);
        assert!(v < range);
        v
    }))
}
