//! The properties: one simulated scenario and its oracle each.
pub mod build;
pub mod common;
pub mod emit;
pub mod input;
pub mod report;
pub mod share;
pub mod system;
#[cfg(feature = "tools")]
pub mod tools;
use crate::model::Case;
use crate::rng::Rng;
use crate::stats::Stats;

pub enum Res {
    Ok,
    Skip(&'static str),
    Fail(&'static str, String),
}

pub struct Prop {
    pub id: &'static str,
    /// Runs in the quick tier, and the factor for the thorough one.
    pub quick: u64,
    pub deep: u64,
    pub gen: fn(&mut Rng, u64, bool) -> Case,
    pub run: fn(&Case, &mut Stats) -> Res,
    pub rule: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const PROPS: &[Prop] = &[
    input::C01,
    input::C02,
    input::C03,
    input::C04,
    system::C05,
    input::C06,
    input::C07,
    system::C08,
    emit::C09,
    emit::C10,
    emit::C11,
    emit::C12,
    emit::C13,
    emit::C16,
    system::C14,
    share::C15,
    build::C17,
    report::C18,
    #[cfg(feature = "tools")]
    tools::C19,
];

/// Return early from a scenario when a check fails.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::props::Res::Fail($class, format!($($arg)*));
        }
    };
}
#[macro_export]
macro_rules! attempt {
    ($e:expr) => {
        match $e {
            $crate::props::Res::Ok => {}
            other => return other,
        }
    };
}
