//! Verification harnesses. Each `h_*` entry is executed symbolically (ckbsym) from the LLVM IR of this very
//! library, and natively (runner.c) for replay. `sym_*` are the intrinsics of the symbolic executor.
#![allow(clippy::all)]

#[macro_use]
pub mod sym;
pub mod asmx;
pub mod isa;
pub mod mop;
pub mod spec;
