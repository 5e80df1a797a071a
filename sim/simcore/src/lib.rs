//! Deterministic simulator for parsers generated by parsegen. See /verif/DESIGN.md.
pub mod earley;
pub mod emit;
pub mod exec;
pub mod gen;
pub mod lr;
pub mod mem;
pub mod model;
pub mod oracle;
pub mod plan;
pub mod plangen;
pub mod preempt;
pub mod world;
pub mod prng;
pub mod rt;
pub mod sexp;
pub mod shard;
pub mod shared;
pub mod shrink;
pub mod spec;
