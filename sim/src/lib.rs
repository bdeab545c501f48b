//! Deterministic simulation of generated builders: see /verif/DESIGN.md.
pub mod ctx;
pub mod desc;
pub mod driver;
pub mod exec;
pub mod interpose;
pub mod plan;
pub mod probe;
pub mod rng;
pub mod sched;
pub mod val;
