//! Harness core: random source, model of the Cairo-M syntax, generators, renderer, reporting.
//! Knows nothing about /repo's code.
pub mod ast;
pub mod gen_sem;
pub mod gen_syn;
pub mod interp;
pub mod mutate;
pub mod recog;
pub mod refsem;
pub mod render;
pub mod report;
pub mod rng;
pub mod shrink;
pub mod seed;
pub mod semcase;
pub mod walk;
pub mod flow;
pub mod graft;
