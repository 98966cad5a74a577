//! Deterministic simulation of blake2s_simd. See /verif/DESIGN.md.

#![allow(dropping_references, dropping_copy_types, dead_code)]

#[macro_use]
pub mod ctx;
#[cfg(not(miri))]
pub mod deep;
pub mod fixtures;
#[cfg(not(miri))]
pub mod heap;
pub mod model;
pub mod params;
pub mod rng;
pub mod scen;
#[cfg(all(unix, not(miri)))]
pub mod sys;
#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
pub mod steps;
pub mod steps_plan;
pub mod ticks;
