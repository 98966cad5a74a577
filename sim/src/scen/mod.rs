//! One scenario per property: a workload, its faults, and the oracle.

use crate::ctx::{fail, Ctx, R};

pub mod calls;
pub mod common;
#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
mod conc;
mod batch;
mod count;
mod debugtext;
mod digest;
#[cfg(all(unix, not(miri)))]
mod deep;
#[cfg(all(unix, not(miri)))]
mod far;
mod fork;
mod guess;
#[cfg(all(feature = "kernels", feature = "std", target_arch = "x86_64", not(miri)))]
mod kernels;
#[cfg(not(miri))]
mod heap;
pub mod hosts;
#[cfg(miri)]
mod guard_exact;
#[cfg(all(unix, not(miri)))]
mod guard_pages;
#[cfg(any(miri, unix))]
mod memory;
mod net;
mod observe;
mod refuse;
mod setters;
#[cfg(feature = "std")]
mod sink;
mod stream;

pub struct Scenario {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    /// A run that takes longer than this has hung.
    pub limit_s: u32,
    /// Costly set-up shared by all runs in a process.
    pub prepare: Option<fn()>,
}

pub const ALL: &[Scenario] = &[
    Scenario { id: "C01", run: stream::c01, limit_s: 60, prepare: None },
    Scenario { id: "C02", run: stream::c02, limit_s: 60, prepare: None },
    Scenario { id: "C03", run: observe::c03, limit_s: 60, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C03far", run: far::c03far, limit_s: 400, prepare: None },
    Scenario { id: "C04", run: count::c04, limit_s: 60, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C04far", run: far::c04far, limit_s: 400, prepare: None },
    #[cfg(feature = "std")]
    Scenario { id: "C05", run: sink::c05, limit_s: 60, prepare: None },
    #[cfg(all(unix, not(miri), feature = "std"))]
    Scenario { id: "C05far", run: far::c05far, limit_s: 400, prepare: None },
    Scenario { id: "C06", run: fork::c06, limit_s: 60, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C06far", run: far::c06far, limit_s: 400, prepare: None },
    Scenario { id: "C07", run: batch::c07, limit_s: 60, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C07far", run: far::c07far, limit_s: 400, prepare: None },
    Scenario { id: "C08", run: batch::c08, limit_s: 60, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C08far", run: far::c08far, limit_s: 400, prepare: None },
    Scenario { id: "C09", run: hosts::c09, limit_s: 60, prepare: None },
    Scenario { id: "C09forced", run: hosts::c09forced, limit_s: 60, prepare: None },
    Scenario { id: "C09wide", run: hosts::c09wide, limit_s: 60, prepare: None },
    #[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
    Scenario { id: "C10", run: conc::c10, limit_s: 60, prepare: None },
    Scenario { id: "C11", run: refuse::c11, limit_s: 60, prepare: None },
    #[cfg(any(miri, unix))]
    Scenario { id: "C12", run: memory::c12, limit_s: 60, prepare: None },
    #[cfg(any(miri, unix))]
    Scenario { id: "C12small", run: memory::c12small, limit_s: 60, prepare: None },
    #[cfg(not(miri))]
    Scenario { id: "C13", run: heap::c13, limit_s: 60, prepare: None },
    Scenario { id: "C14", run: debugtext::c14, limit_s: 60, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C15", run: deep::c15, limit_s: 400, prepare: Some(deep::prepare) },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C15deeper", run: deep::c15deeper, limit_s: 1200, prepare: Some(deep::prepare_deeper) },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C15sp", run: deep::c15sp, limit_s: 600, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C15one", run: deep::c15one, limit_s: 400, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C15one_sp", run: deep::c15one_sp, limit_s: 400, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C15one_hash4_exact", run: deep::c15one_hash4_exact, limit_s: 400, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C15one_hash8_exact", run: deep::c15one_hash8_exact, limit_s: 400, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C15one_hash8", run: deep::c15one_hash8, limit_s: 400, prepare: None },
    #[cfg(all(unix, not(miri)))]
    Scenario { id: "C15one_update8", run: deep::c15one_update8, limit_s: 400, prepare: None },
    #[cfg(all(feature = "kernels", feature = "std", target_arch = "x86_64", not(miri)))]
    Scenario { id: "C15kernel", run: kernels::c15kernel, limit_s: 60, prepare: None },
    Scenario { id: "C16", run: setters::c16, limit_s: 60, prepare: None },
    Scenario { id: "C17", run: net::c17, limit_s: 60, prepare: None },
    Scenario { id: "C18", run: guess::c18, limit_s: 60, prepare: None },
    Scenario { id: "C18small", run: guess::c18small, limit_s: 60, prepare: None },
    Scenario { id: "C19", run: digest::c19, limit_s: 60, prepare: None },
];

pub fn find(id: &str) -> Option<&'static Scenario> {
    ALL.iter().find(|s| s.id == id)
}

pub fn run(id: &str, c: &mut Ctx) -> R {
    match find(id) {
        Some(s) => (s.run)(c),
        None => fail("machinery", format!("no scenario {}", id)),
    }
}
