//! Deterministic simulator runtime.
pub mod engine;
pub mod fs;
pub mod interpose;
pub mod net;
pub mod raw;
pub mod rng;
pub mod worker;

pub use engine::{
    advance, draw, draw_p, env, ev, fault, note, now, panic_text, probe, set_faults_active, user_point, violate, violated,
};
