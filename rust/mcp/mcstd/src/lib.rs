//! std with the synchronisation primitives replaced by ones a controlled scheduler knows.
pub use ::std::*;
pub mod sched;
pub mod sync;
pub mod thread;
