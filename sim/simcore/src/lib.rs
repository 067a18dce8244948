//! Deterministic simulator core: stackful fibers on one OS thread, a seeded scheduler whose every decision is
//! drawn from a recorded choice stream, fault sites, a poisoning/failing allocator and a futex seam.
#![allow(static_mut_refs)]
#![feature(alloc_error_hook)]

pub mod alloc;
pub mod atomics;
pub mod fiber;
pub mod futex;
pub mod race;
pub mod rng;
pub mod sched;
pub mod stream;
pub mod unwind;

pub use rng::Rng;
pub use sched::*;
pub use stream::Stream;
