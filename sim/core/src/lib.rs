//! Shared core of the simulators. No dependencies, no code of /repo.
pub mod ctx;
pub mod refcodec;
pub mod rng;
pub mod runner;
pub mod schema;
pub mod schemas;
pub mod sut;

pub use ctx::{Ctx, Run, Stop, Violation};
