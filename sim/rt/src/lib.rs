//! Simulator runtime: scheduler, interposed system calls and allocator, simulated random
//! sources, and the plan format. Not instrumented.
#![feature(alloc_error_hook)]
pub mod plan;
pub mod rt;
pub mod streams;
