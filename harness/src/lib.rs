//! Shared machinery of the checks: the exploration engine, the reference model of Clifford
//! algebras, coefficient rings, and the table of declared algebras.
#![allow(clippy::all)]
pub mod algs;
pub mod engine;
pub mod enumr;
pub mod fftx;
pub mod model;
pub mod mv;
pub mod rings;
pub mod spaces;

pub use algs::*;
pub use engine::*;
pub use enumr::*;
pub use fftx::*;
pub use model::*;
pub use mv::*;
pub use rings::*;
pub use spaces::*;
pub use tclifford;
