//! Contracts on the functions of osu-file-parser. Every `specs::…::pNN_*` function is one
//! contract: it takes arbitrary arguments that satisfy the precondition (`ghost::any_*`,
//! `ghost::assume`), calls the real function of /repo, and states the postcondition
//! (`ghost::ensure`). mirv discharges them on the MIR of /repo; `bin/replay` runs the very same
//! code on concrete arguments.
#![feature(try_trait_v2)]
#![feature(iter_advance_by)]
#![allow(unused_imports, dead_code)]
pub mod ghost;
pub mod models;
pub mod specs;
