//! Monitors for the bsn1 crates.
#![allow(clippy::all)]

pub mod alloc;
pub mod cli;
pub mod codec;
pub mod core;
pub mod derived;
pub mod gens;
pub mod io;
pub mod model;
pub mod props;
pub mod rng;

pub use crate::core::{hex, short, Mon, Run, Tier};
pub use crate::model::{kind, Kinds};
pub use crate::rng::Rng;
