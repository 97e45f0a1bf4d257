#![allow(invalid_runtime_symbol_definitions, unknown_lints)]
//! Deterministic simulator core: choice sequences, simulated kernel (disk, locks, clock, futexes),
//! libc interposition, multi-process scheduling and the seeded search driver.
pub mod choices;
pub mod fs;
pub mod sys;
pub mod kernel;
pub mod driver;
pub use choices::{Choices, Stream};
