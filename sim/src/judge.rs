//! Decides one execution under one property.

use crate::check::*;
use crate::env;
use crate::gen;
use crate::ops::*;
use crate::oracle_build;
use crate::oracle_diff;
use crate::oracle_motion::*;
use crate::oracle_pose::*;
use crate::oracle_reg::*;
use crate::oracle_sleep::*;
use crate::rng::mix;

pub const PROPERTIES: [&str; 21] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22"];

fn checkers(property: &str) -> Vec<Box<dyn Checker>> {
    match property {
        "C01" => vec![Box::new(Registry)],
        "C02" => vec![Box::new(Values)],
        "C03" => vec![Box::new(Mass::default())],
        "C04" => vec![Box::new(Time)],
        "C05" => vec![Box::new(Log)],
        "C06" => vec![Box::new(Contacts { sleepers: false })],
        "C07" => vec![Box::new(Impact)],
        "C08" => vec![Box::new(Momentum)],
        "C09" => vec![Box::new(Energy::default())],
        "C10" => vec![Box::new(Walls::default())],
        "C12" => vec![Box::new(Sleep::default())],
        "C13" => vec![Box::new(Wake::default())],
        "C15" => vec![Box::new(Forces)],
        "C21" => vec![Box::new(Poses::default())],
        "C16" => vec![Box::new(oracle_diff::Crash), Box::new(Registry), Box::new(Time), Box::new(Forces)],
        _ => vec![],
    }
}

pub fn judge(property: &str, seed: u64, evs: &[Ev], stats: &mut Stats) -> Result<(), Violation> {
    match property {
        "C11" => { env::drain_stdout(); oracle_diff::slicing(seed, evs, stats) }
        "C14" => oracle_diff::determinism(seed, evs, gen::make("C01", mix(&[seed, 55])), stats),
        "C17" => oracle_diff::corruption(seed, evs, stats),
        "C18" => { env::drain_stdout(); oracle_diff::restart(seed, evs, stats) }
        "C22" => oracle_build::meshes(seed, evs, stats),
        "C19" => oracle_diff::stdout_faults(seed, evs, stats),
        _ => {
            let mut list = checkers(property);
            let frames = !matches!(property, "C01" | "C02" | "C03" | "C12" | "C21");
            isolated_with(mix(&[seed, 1]), &mut list, evs, stats, frames)
        }
    }
}

struct Pass<'a>(&'a mut Vec<Box<dyn Checker>>, &'a mut Stats);
unsafe impl<'a> Send for Pass<'a> {}

fn isolated_with(hash_seed: u64, list: &mut Vec<Box<dyn Checker>>, evs: &[Ev], stats: &mut Stats, frames: bool) -> Result<(), Violation> {
    let pass = Pass(list, stats);
    isolated(hash_seed, move || {
        let pass = pass;
        let Pass(list, stats) = pass;
        env::drain_stdout();
        play(evs, list, stats, frames, None)
    })
}
