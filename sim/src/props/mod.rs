//! The properties, each as generator of scenarios plus judgement of runs.
pub mod c01;
pub mod c02;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c18;
pub mod common;

use crate::ops::Scenario;
use crate::prng::Rng;
use common::{Stats, Violation};

#[derive(Clone, Copy)]
pub struct Prop {
    pub id: &'static str,
    /// Scenario of run number `index`.
    pub gen: fn(Rng, u64) -> Scenario,
    /// Simulate it and judge: a pure function of scenario and code.
    pub run: fn(&Scenario, &mut Stats) -> Result<(), Violation>,
    /// Number of runs, quick and thorough.
    pub quick: u64,
    pub thorough: u64,
    /// Runs per worker process.
    pub chunk: u64,
    pub rule: &'static str,
}

pub fn all() -> Vec<Prop> {
    vec![c01::PROP, c02::C02, c02::C03, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP, c10::PROP, c11::PROP, c12::PROP, c13::PROP, c14::PROP, c18::PROP]
}

pub fn find(id: &str) -> Option<Prop> {
    all().into_iter().find(|p| p.id == id)
}
