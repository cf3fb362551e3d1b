//! Stateless model checking of the real bitboost code: exhaustive depth-first enumeration of all
//! choice vectors of a family of executions. See /verif/DESIGN.md.

#![allow(unexpected_cfgs)]

pub mod alloc;
pub mod engine;
pub mod hash;
pub mod lossref;
pub mod py;
pub mod on;
pub mod train;

pub use engine::{main, Cx, Family};
pub use hash::H;

// (not under a memory monitor of its own: Miri, AddressSanitizer)
#[cfg(not(any(miri, mc_plain)))]
#[global_allocator]
static GLOBAL: alloc::Poison = alloc::Poison;
