//! Shared parts of the verification harness: the case driver (seeding, sharding over forked
//! workers, crash attribution, shrinking, evidence, replay) and text generators.
pub mod driver;
pub mod text;

pub use driver::*;
pub use proptest;
pub use serde_json::{json, Value as Json};
