//! Deterministic simulation runtime.
//!
//! Everything in this crate is the simulator itself: it is *not* instrumented and owns every
//! source of nondeterminism the code under test can reach: thread creation/joining and futexes
//! (scheduling), clocks, processor count, heap placement and content, and the points at which
//! user supplied functions or storages fail.
pub mod alloc;
pub mod calls;
pub mod rng;
pub mod sched;
pub mod sys;
pub mod tape;

pub use rng::Rng;
pub use tape::Tape;
