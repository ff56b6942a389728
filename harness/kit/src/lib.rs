//! Shared machinery of the monitors: case runner, evidence, known findings, deterministic
//! randomness, and (in `model`) reference implementations written from the BIPs alone.
pub mod gen;
pub mod model;
pub mod rng;
pub mod run;
pub use rng::Rng;
pub use run::*;
