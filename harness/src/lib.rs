//! Engine, input model, generators and reference models shared by all checks.
pub mod addrgen;
pub mod cfg;
pub use vcov as cov;
pub mod data;
pub mod dict;
pub mod engine;
pub mod genstr;
pub mod guide;
pub mod input;
pub mod jsongen;
pub mod mailgen;
pub mod models;
pub mod phonegen;
pub mod rng;
pub mod urlgen;

pub use cfg::*;
pub use engine::*;
pub use input::Input;
pub use rng::Rng;
