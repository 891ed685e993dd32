//! Shared machinery of the model-checking harness (see /verif/DESIGN.md).
#![allow(clippy::all)]
pub mod explore;
pub mod faulty;
pub mod gad;
pub mod gadlib;
pub mod gadbits;
pub mod groth;
pub mod malformed;
pub mod rec;
pub mod report;
pub mod serobj;
pub mod toy;
pub use report::{guard, par_for, Ctx};
#[cfg(feature = "sched")]
pub mod sched;
