//! Executable contracts over the real finquant API.
//!
//! Every contract is a function over a `Src` of inputs.  Under Kani the source
//! is symbolic (`kani::any` over the stated range), so the contract is proved
//! for every input of that range against the MIR of the real crate; in the
//! `replay` binary the same function runs on concrete inputs (a verifier
//! counterexample, an exhaustive enumeration, or random draws).
#![allow(clippy::all)]
#![allow(non_snake_case, unused_imports, unused_variables)]

pub mod src;
#[macro_use]
pub mod macros;
pub mod cals;
pub mod civil;
pub mod easter;
pub mod normal;
pub mod oracle;
pub mod contracts;
