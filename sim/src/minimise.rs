//! Makes a failing history small: drops events, then simplifies what's left.

use crate::ops::*;
use std::time::{Duration, Instant};

pub fn minimise(evs: Vec<Ev>, limit: Duration, fails: &mut dyn FnMut(&[Ev]) -> bool) -> Vec<Ev> {
    let end = Instant::now() + limit;
    let mut best = evs;
    // Nothing after the failure matters: find a short failing prefix first.
    let (mut lo, mut hi) = (0, best.len());
    while lo + 1 < hi && Instant::now() < end {
        let mid = (lo + hi) / 2;
        if fails(&best[..mid]) { hi = mid } else { lo = mid }
    }
    if hi < best.len() && fails(&best[..hi]) { best.truncate(hi); }
    loop {
        let before = best.len();
        let mut chunk = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > end { return best; }
                let mut t = best.clone();
                t.drain(i..(i + chunk).min(best.len()));
                if !t.is_empty() && fails(&t) { best = t } else { i += chunk }
            }
            if chunk == 1 { break; }
            chunk = (chunk / 2).max(1);
        }
        if best.len() == before { break; }
    }
    // Simpler values.
    for i in 0..best.len() {
        for variant in 0..24 {
            if Instant::now() > end { return best; }
            let mut t = best.clone();
            if simpler(&mut t[i], variant) && t[i] != best[i] && fails(&t) { best = t; }
        }
    }
    best
}

fn zero(v: &mut A3) -> bool { if *v == [0.0; 3] { false } else { *v = [0.0; 3]; true } }
fn round(v: &mut A3) -> bool {
    let old = *v;
    for x in v.iter_mut() { if x.is_finite() { *x = (*x * 8.0).round() / 8.0; } }
    *v != old
}
fn r1(x: &mut f32) -> bool { let old = *x; if x.is_finite() { *x = (*x * 8.0).round() / 8.0; } *x != old }

/// Applies the k-th simplification. Gives false if there's none.
fn simpler(e: &mut Ev, k: usize) -> bool {
    if k == 0 { let had = e.tags != 0 || e.who != 0; e.tags = 0; e.who = 0; return had; }
    match &mut e.op {
        Op::AddEnt { spec, .. } | Op::UpdEnt { spec, .. } => match k {
            1 => zero(&mut spec.ang),
            2 => zero(&mut spec.rot),
            3 => zero(&mut spec.vel),
            4 => zero(&mut spec.pos),
            5 => round(&mut spec.ang),
            6 => round(&mut spec.rot),
            7 => round(&mut spec.vel),
            8 => round(&mut spec.pos),
            9 => if spec.mass == 0.0 { false } else { spec.mass = 0.0; true },
            10 => r1(&mut spec.mass),
            11..=22 => {
                let (f, c) = ((k - 11) / 3, (k - 11) % 3);
                let v = match f { 0 => &mut spec.ang, 1 => &mut spec.rot, 2 => &mut spec.vel, _ => &mut spec.pos };
                if v[c] == 0.0 { false } else { v[c] = 0.0; true }
            }
            _ => false,
        },
        Op::AddCol { spec, .. } | Op::UpdCol { spec, .. } => match k {
            1 => zero(&mut spec.pos),
            2 => round(&mut spec.pos),
            3 => round(&mut spec.a),
            4 => round(&mut spec.b),
            5 => if spec.fs == 0.0 { false } else { spec.fs = 0.0; true },
            6 => if spec.fd == 0.0 { false } else { spec.fd = 0.0; true },
            7 => if spec.rest == 1.0 { false } else { spec.rest = 1.0; true },
            8 => if spec.rest == 0.0 { false } else { spec.rest = 0.0; true },
            9 => if spec.mass == 1.0 || !spec.mass.is_finite() { false } else { spec.mass = 1.0; true },
            10 => r1(&mut spec.mass),
            11 => if spec.fthr == 0.25 { false } else { spec.fthr = 0.25; true },
            _ => false,
        },
        Op::Step { dt } => match k {
            1 => if *dt == 0.1 { false } else { *dt = 0.1; true },
            2 => { let old = *dt; *dt = (*dt * 64.0).round() / 64.0; *dt != old && *dt > 0.0 }
            _ => false,
        },
        Op::AddGen { spec, .. } => match (k, spec) {
            (1, GenSpec::Const { offset, .. }) | (1, GenSpec::Spring { offset, .. }) | (1, GenSpec::Wave { offset, .. }) => zero(offset),
            (2, GenSpec::Const { force, .. }) | (2, GenSpec::Wave { force, .. }) | (2, GenSpec::Pin { force, .. }) => round(force),
            (3, GenSpec::Gravity { g }) | (3, GenSpec::RealGravity { g }) => round(g),
            _ => false,
        },
        _ => false,
    }
}
