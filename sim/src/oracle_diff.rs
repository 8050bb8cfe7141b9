//! Oracles that compare several executions: slicing (C11), determinism (C14), crashes (C16), corruption (C17), rebuilding (C18), standard output (C19).

use crate::check::*;
use crate::env;
use crate::ops::*;
use crate::oracle_build::{counted, set_faulty, trouble};
use crate::oracle_reg::difference;
use crate::phys::*;
use crate::rng::{mix, Rng};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

fn calls_digest(calls: &[Call]) -> u64 {
    let mut h = Hash::new();
    for c in calls {
        h.u(c.gen as u64);
        let (i, g) = c.ent.into_raw_parts();
        h.u(i as u64);
        h.u(g);
        h.f(c.dt);
        h.v(&c.force);
        h.v(&c.point);
    }
    h.0
}

fn run_event(world: &mut World, index: usize, ev: &Ev) -> Result<(Outcome, Obs), Violation> {
    let out = world.exec(&ev.op);
    if let Some(text) = &out.panic { return bad("panic", format!("event {} ({}) panicked: {}", index, ev.op.text(), text)); }
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| world.obs())) {
        Ok(o) => Ok((out, o)),
        Err(_) => bad("panic", format!("reading the world after event {} ({}) panicked", index, ev.op.text())),
    }
}

/// What a whole execution looked like.
pub struct Trace {
    pub steps: Vec<(u64, String, u64)>,
    pub obs: Vec<Obs>,
    pub failure: Option<Violation>,
    pub counted: Vec<(&'static str, u64)>,
}

pub fn same_trace(a: &Trace, b: &Trace, evs: &[Ev], what: &str) -> Result<(), Violation> {
    for i in 0..a.steps.len().min(b.steps.len()) {
        if a.steps[i].1 != b.steps[i].1 {
            return bad("different-result", format!("{}: event {} ({}) returned {} / {}", what, i, evs[i].op.text(), a.steps[i].1, b.steps[i].1));
        }
        if a.steps[i].2 != b.steps[i].2 {
            return bad("different-callbacks", format!("{}: event {} ({}) made different callbacks", what, i, evs[i].op.text()));
        }
        if a.steps[i].0 != b.steps[i].0 {
            return bad("different-state", format!("{}: after event {} ({}): {}", what, i, evs[i].op.text(), difference(&a.obs[i], &b.obs[i])));
        }
    }
    match (&a.failure, &b.failure) {
        (None, None) => Ok(()),
        (_, Some(v)) | (Some(v), _) => Err(Violation { class: v.class.clone(), text: format!("{}: {}", what, v.text) }),
    }
}

#[derive(Default)]
pub struct Options {
    pub hash_seed: u64,
    /// How many faces a mesh has doesn't matter.
    pub faceless: bool,
    /// The faces of meshes come through a bad channel, decided by this seed.
    pub meshes: Option<u64>,
    /// Insert read-only queries, decided by this seed.
    pub queries: Option<u64>,
    /// Run these in another world of the same thread, in between.
    pub other: Option<Vec<Ev>>,
    pub healthy_stdout: bool,
}

pub fn trace(evs: &[Ev], options: &Options) -> Trace {
    isolated(options.hash_seed, || {
        env::drain_stdout();
        set_faulty(options.meshes);
        let mut world = World::new();
        let mut other = World::new();
        let mut position = 0;
        let mut rng = Rng::new(options.queries.unwrap_or(0));
        let mut t = Trace { steps: vec![], obs: vec![], failure: None, counted: vec![] };
        for (i, ev) in evs.iter().enumerate() {
            if options.healthy_stdout && matches!(ev.op, Op::Sink { .. }) {
                let o = world.obs();
                t.steps.push((o.digest(), "Unit".into(), calls_digest(&[])));
                t.obs.push(o);
                continue;
            }
            match run_event(&mut world, i, ev) {
                Ok((out, mut o)) => {
                    if let Some(mut v) = trouble() { v.text = format!("event {} ({}): {}", i, ev.op.text(), v.text); t.failure = Some(v); break; }
                    if options.faceless { for c in o.cols.values_mut() { c.counts.0 = 0; } }
                    t.steps.push((o.digest(), format!("{:?} crashed={} {:?}", out.ret, out.crashed, out.anomalies), calls_digest(&out.calls)));
                    if let Op::Sink { .. } = ev.op { t.steps.last_mut().unwrap().1 = "Unit".into(); }
                    t.obs.push(o);
                }
                Err(v) => { t.failure = Some(v); break; }
            }
            if options.queries.is_some() && rng.chance(0.5) {
                for _ in 0..rng.below(3) { let _ = world.exec(&Op::Query { k: rng.below(9) as u32 }); }
            }
            if let Some(list) = &options.other {
                for _ in 0..rng.below(3) + 1 {
                    if position < list.len() { let _ = other.exec(&list[position].op); position += 1; }
                }
            }
        }
        t.counted = counted();
        env::drain_stdout();
        t
    })
}

pub fn account(evs: &[Ev], t: &Trace, stats: &mut Stats) {
    stats.executions += 1;
    stats.events += t.steps.len() as u64;
    for (i, o) in t.obs.iter().enumerate() {
        if let Op::Step { dt } = evs[i].op {
            if dt.abs() >= 1e-6 {
                stats.frames += 1;
                stats.sim_time += dt as f64;
                stats.count("probe contact", o.recs.len() as u64);
                stats.count("probe iteration limit hit", (o.recs.len() >= o.iterations as usize) as u64);
            }
        }
        if i > 0 {
            for (id, e) in &o.ents {
                if let Some(p) = t.obs[i - 1].ents.get(id) {
                    stats.count("probe fell asleep", (e.asleep && !p.asleep) as u64);
                    stats.count("probe woke up", (!e.asleep && p.asleep) as u64);
                }
            }
        }
        stats.count(&format!("event {}", evs[i].op.name()), 1);
        stats.shapes.insert(o.shape());
    }
}

/// C14
pub fn determinism(seed: u64, evs: &[Ev], other: Vec<Ev>, stats: &mut Stats) -> Result<(), Violation> {
    let first = trace(evs, &Options { hash_seed: mix(&[seed, 1]), ..Options::default() });
    account(evs, &first, stats);
    if let Some(v) = first.failure { return Err(v); }
    let variants = [
        ("run again with other hash keys", Options { hash_seed: mix(&[seed, 2]), ..Options::default() }),
        ("run again with yet other hash keys", Options { hash_seed: mix(&[seed, 3]), ..Options::default() }),
        ("run with queries in between", Options { hash_seed: mix(&[seed, 1]), queries: Some(mix(&[seed, 4])), ..Options::default() }),
        ("run next to another world", Options { hash_seed: mix(&[seed, 5]), other: Some(other), ..Options::default() }),
    ];
    for (name, o) in variants {
        let t = trace(evs, &o);
        stats.executions += 1;
        stats.events += t.steps.len() as u64;
        stats.evals += t.steps.len() as u64;
        stats.count(&format!("fault {}", name), 1);
        same_trace(&first, &t, evs, name)?;
    }
    Ok(())
}

/// C19
pub fn stdout_faults(seed: u64, evs: &[Ev], stats: &mut Stats) -> Result<(), Violation> {
    let healthy = trace(evs, &Options { hash_seed: mix(&[seed, 1]), healthy_stdout: true, ..Options::default() });
    account(evs, &healthy, stats);
    let before: Vec<u64> = env::ANSWERED.iter().map(|x| x.load(std::sync::atomic::Ordering::Relaxed)).collect();
    let faulty = trace(evs, &Options { hash_seed: mix(&[seed, 1]), ..Options::default() });
    let mut hurt = 0;
    for (i, m) in env::SINKS.iter().enumerate() {
        let n = env::ANSWERED[i].load(std::sync::atomic::Ordering::Relaxed) - before[i];
        if i > 0 { hurt += n; }
        stats.count(&format!("fault stdout write answered {:?}", m), n);
    }
    stats.executions += 1;
    stats.events += faulty.steps.len() as u64;
    if hurt > 0 { stats.evals += faulty.steps.len() as u64; }
    if healthy.failure.is_some() { return Err(healthy.failure.unwrap()); }
    same_trace(&healthy, &faulty, evs, "with a failing standard output")
}

/// C16: what a crash may leave behind.
pub struct Crash;

impl Checker for Crash {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        if !c.out.crashed { return Ok(()); }
        let dt = match c.op { Op::Step { dt } => *dt as f64, _ => return Ok(()) };
        stats.evals += 1;
        if c.pre.cols.len() != c.post.cols.len() || c.pre.ents.len() != c.post.ents.len() { return bad("crash-lost-object", "a crashed callback changed which objects exist".into()); }
        for (id, p) in &c.pre.cols {
            if c.post.cols.get(id).map(|x| x.digest()) != Some(p.digest()) { return bad("crash-changed-collider", format!("a crashed callback changed collider {}", id)); }
        }
        let g = gravities(c.world);
        let live = c.world.gens.values().filter(|g| g.live && !matches!(g.spec, GenSpec::RealGravity { .. })).count();
        let mut applied = 0;
        for (id, p) in &c.pre.ents {
            let e = match c.post.ents.get(id) { Some(e) => e, None => return bad("crash-lost-object", format!("a crashed callback lost e{}", id)) };
            let mut x = e.clone();
            x.vel = p.vel;
            x.ang = p.ang;
            x.energy = p.energy;
            if x.digest() != p.digest() { return bad("crash-changed-body", format!("a crashed callback changed e{} from {:?} to {:?}", id, p, e)); }
            let kept = p.vel == e.vel && p.ang == e.ang;
            if kept || !p.finite() { continue; }
            if p.asleep {
                if d(&e.vel).norm() + d(&e.ang).norm() > 0.0 { return bad("crash-half-applied", format!("a crashed callback left the sleeping e{} with velocity {:?}", id, e.vel)); }
                continue;
            }
            let asked = c.out.calls.iter().filter(|k| k.ent == e.handle).count();
            let (v, w) = after_forces(p, &c.out.calls, &g, dt);
            let b = Body::of(p);
            let forces: f64 = c.out.calls.iter().filter(|k| k.ent == e.handle).map(|k| d(&k.force).norm() * (1.0 + (d(&k.point) - b.pos).norm())).sum::<f64>();
            let tol = 1e-5 + 1e-4 * (v.norm() + b.vel.norm()) + 1e-4 * dt * forces / b.total.max(1e-3);
            let tol_w = 1e-5 + 1e-3 * (w.norm() + b.ang.norm()) + 1e-3 * dt * forces * b.inv_inertia.norm();
            if asked != live || !((d(&e.vel) - v).norm() <= tol) || !(b.ill || (d(&e.ang) - w).norm() <= tol_w) {
                return bad("crash-half-applied", format!("a crashed callback left e{} with velocity {:?} {:?} (before: {:?} {:?}, with all forces: {:?} {:?}, {} of {} generators asked)", id, e.vel, e.ang, p.vel, p.ang, v, w, asked, live));
            }
            applied += 1;
        }
        if applied > 0 { stats.count("probe crash after some bodies were accelerated", 1) }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------

/// Values from here on are absurd: what's computed from them overflows.
const HUGE: f32 = 1e9;
fn broken(x: &A3) -> bool { x.iter().any(|y| !(y.abs() < HUGE)) }
/// Whether what's written isn't even finite.
fn broken_at(op: &Op) -> bool {
    let strict = |x: &A3| x.iter().any(|y| !y.is_finite());
    match op {
        Op::Poison { how, .. } => *how < 5,
        Op::UpdEnt { spec, .. } => strict(&spec.pos) || strict(&spec.rot) || strict(&spec.vel) || strict(&spec.ang),
        Op::UpdCol { spec, .. } => strict(&spec.pos),
        _ => false,
    }
}

/// Whether the event corrupts the given victim.
fn corrupts(op: &Op, victim: u32, victim_cols: &[u32]) -> bool {
    match op {
        Op::Poison { sel: Sel::Id(v), .. } => *v == victim,
        Op::UpdEnt { sel: Sel::Id(v), mask, spec, .. } => *v == victim && ((mask & F_POS != 0 && broken(&spec.pos)) || (mask & F_ROT != 0 && broken(&spec.rot)) || (mask & F_VEL != 0 && broken(&spec.vel)) || (mask & F_ANG != 0 && broken(&spec.ang)) || (mask & F_MASS != 0 && spec.mass >= HUGE && spec.mass.is_finite())),
        Op::UpdCol { id, mask, spec, .. } => victim_cols.contains(id) && mask & F_POS != 0 && broken(&spec.pos),
        _ => false,
    }
}

/// C17: entity 1 is the victim.
pub fn corruption(seed: u64, evs: &[Ev], stats: &mut Stats) -> Result<(), Violation> {
    let victim = 1;
    let cols: Vec<u32> = evs.iter().filter_map(|e| match &e.op { Op::Link { col, to: Some(Sel::Id(1)) } => Some(*col), _ => None }).collect();
    let at = evs.iter().position(|e| corrupts(&e.op, victim, &cols));
    // The same history in which the victim gets a harmless value instead and can't be touched from then on; in both it's left alone.
    let mut with: Vec<Ev> = evs.to_vec();
    let mut without: Vec<Ev> = evs.to_vec();
    let nothing = Op::Query { k: 0 };
    if let Some(at) = at {
        let heal = |x: &mut A3| for y in x.iter_mut() { if !(y.abs() < HUGE) { *y = 0.8125; } };
        match &mut without[at].op {
            Op::UpdEnt { spec, .. } => { heal(&mut spec.pos); heal(&mut spec.rot); heal(&mut spec.vel); heal(&mut spec.ang); if !(spec.mass < HUGE) { spec.mass = 0.8125; } }
            other => *other = nothing.clone(),
        }
        for i in at + 1..evs.len() {
            let touches = match &evs[i].op {
                Op::UpdEnt { sel: Sel::Id(v), .. } | Op::RmEnt { sel: Sel::Id(v) } | Op::Snap { sel: Sel::Id(v), .. } | Op::Poison { sel: Sel::Id(v), .. } => *v == victim,
                Op::UpdCol { id, .. } | Op::RmCol { id } | Op::SnapCol { id, .. } => cols.contains(id),
                Op::Link { col, to } => cols.contains(col) || *to == Some(Sel::Id(victim)),
                // These might pick the victim.
                Op::UpdEnt { .. } | Op::RmEnt { .. } | Op::Snap { .. } => true,
                _ => false,
            };
            if touches { with[i].op = nothing.clone(); without[i].op = nothing.clone(); }
        }
        for col in &cols {
            let e = Ev { op: nothing.clone(), ..evs[at].clone() };
            with.insert(at + 1, e.clone());
            without.insert(at + 1, Ev { op: Op::Link { col: *col, to: None }, ..e });
        }
    }
    let a = trace(&with, &Options { hash_seed: mix(&[seed, 1]), ..Options::default() });
    account(&with, &a, stats);
    if let Some(v) = a.failure { return Err(v); }
    // Nothing but the victim ever goes bad. (A body that's hit by one with an absurd momentum may; but never one of infinite mass.)
    let huge = at.map(|x| !broken_at(&with[x].op)).unwrap_or(false);
    let mut tainted: BTreeSet<u32> = BTreeSet::new();
    // Forces that are integrated over long frames may blow up all by themselves.
    let mut wild: BTreeSet<u32> = BTreeSet::new();
    for (i, o) in a.obs.iter().enumerate() {
        if !wild.is_empty() {
            for r in &o.recs {
                if wild.contains(&r.a) || wild.contains(&r.b) { wild.insert(r.a); wild.insert(r.b); }
            }
        }
        if at.map(|x| x <= i).unwrap_or(false) {
            tainted.insert(victim);
            if huge {
                for r in &o.recs {
                    if tainted.contains(&r.a) || tainted.contains(&r.b) { tainted.insert(r.a); tainted.insert(r.b); }
                }
            }
        }
        for (id, e) in &o.ents {
            if *id == victim && at.map(|x| x <= i).unwrap_or(false) { continue; }
            if (tainted.contains(id) || wild.contains(id)) && !e.total.is_infinite() { continue; }
            stats.evals += 1;
            if e.finite() && !(d(&e.vel).norm() < 1e12 && d(&e.pos).norm() < 1e12 && d(&e.ang).norm() < 1e12) { wild.insert(*id); }
            if !e.finite() { return bad("spread", format!("after event {} ({}) e{} isn't finite any more: {:?}", i, with[i].op.text(), id, e)); }
        }
    }
    let at = match at { Some(at) => at, None => return Ok(()) };
    let b = trace(&without, &Options { hash_seed: mix(&[seed, 1]), ..Options::default() });
    stats.executions += 1;
    stats.events += b.steps.len() as u64;
    if let Some(v) = b.failure { return Err(v); }
    let mut went_bad = false;
    for i in at + cols.len()..a.obs.len().min(b.obs.len()) {
        let (x, y) = (&a.obs[i], &b.obs[i]);
        let simulated = matches!(with[i].op, Op::Step { dt } if dt.abs() >= 1e-6);
        let was_bad = went_bad;
        // (An inertia that overflows doesn't place or move it.)
        if let Some(v) = x.ents.get(&victim) { if if huge { !d(&v.pos).norm().is_finite() || !d(&v.vel).norm().is_finite() } else { !v.finite() } { went_bad = true; } }
        if simulated && x.recs.iter().any(|r| r.a == victim || r.b == victim) {
            // (A sleeping body comes to rest, which mends its velocity.)
            let mended = x.ents.get(&victim).map(|v| v.finite()).unwrap_or(true);
            if if huge { was_bad } else { went_bad && !mended } { return bad("bad-contact", format!("after event {} ({}) the log has a contact with the corrupted e{}", i, with[i].op.text(), victim)); }
            // It did touch someone while still finite: nothing more to compare.
            return Ok(());
        }
        if simulated && x.records_digest() != y.records_digest() {
            return bad("disturbed", format!("after event {} ({}) the contacts are {:?} instead of {:?}", i, with[i].op.text(), x.recs, y.recs));
        }
        for (id, e) in &y.ents {
            if *id == victim { continue; }
            stats.evals += 1;
            let p = match x.ents.get(id) { Some(p) => p, None => return bad("disturbed", format!("e{} is gone", id)) };
            if p.digest() != e.digest() {
                return bad("disturbed", format!("after event {} ({}) e{} is {:?} instead of {:?}", i, with[i].op.text(), id, p, e));
            }
        }
    }
    if went_bad { stats.count("fault body corrupted", 1) }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// How far apart two worlds are, per entity.
pub fn apart(a: &Obs, b: &Obs) -> BTreeMap<u32, f64> {
    let mut map = BTreeMap::new();
    for (id, x) in &a.ents {
        let gap = match b.ents.get(id) {
            None => f64::INFINITY,
            Some(y) => {
                let (p, q) = (Body::of(x), Body::of(y));
                (p.pos - q.pos).norm() + (p.vel - q.vel).norm() + (p.ang - q.ang).norm() + angle(&p.q, &q.q)
            }
        };
        map.insert(*id, if gap.is_nan() { f64::INFINITY } else { gap });
    }
    map
}

pub fn worst(m: &BTreeMap<u32, f64>) -> f64 { m.values().cloned().fold(0.0, f64::max) }

/// Rebuilds the world from nothing but what the public getters return.
fn rebuild(w: &World, jiggle: f64, rng: &mut Rng) -> Result<World, Violation> {
    let mut fresh = World::new();
    fresh.ps.iteration_max = w.ps.iteration_max;
    fresh.ps.energy_sleep_threshold = w.ps.energy_sleep_threshold;
    fresh.ps.sleep_time_threshold = w.ps.sleep_time_threshold;
    fresh.control.borrow_mut().frame = w.control.borrow().frame;
    let mut order: Vec<(u32, MEnt)> = w.ents.iter().filter(|(_, m)| m.live).map(|(i, m)| (*i, m.clone())).collect();
    order.sort_by_key(|(_, m)| m.handle.into_raw_parts().0);
    for (id, m) in &order {
        let mut e = match w.ps.get_entity(m.handle) { Some(e) => e, None => return bad("lost-entity", format!("e{} is gone", id)) };
        if jiggle > 0.0 && e.get_last_total_mass().is_finite() {
            for i in 0..3 { e.position[i] += rng.f(-jiggle, jiggle); e.velocity[i] += rng.f(-jiggle, jiggle); }
        }
        match fresh.ps.add_entity(e) {
            Ok(handle) => {
                fresh.ent_ids.insert(handle, *id);
                fresh.ents.insert(*id, MEnt { handle, live: true, own: m.own, cols: Default::default() });
            }
            Err(()) => return bad("rejected-copy", format!("the copy of e{} was rejected", id)),
        }
    }
    let mut order: Vec<(u32, MCol)> = w.cols.iter().filter(|(_, m)| m.live).map(|(i, m)| (*i, m.clone())).collect();
    order.sort_by_key(|(_, m)| m.handle.into_raw_parts().0);
    for (id, m) in &order {
        let c = match w.ps.get_collider(m.handle) { Some(c) => c, None => return bad("lost-collider", format!("collider {} is gone", id)) };
        match fresh.ps.add_collider(c) {
            Ok(handle) => {
                fresh.col_ids.insert(handle, *id);
                fresh.cols.insert(*id, MCol { handle, live: true, spec: m.spec.clone(), link: None });
                if let Some(o) = fresh.obs_col(handle) {
                    if o.link.is_some() { return bad("stale-link", format!("the re-added copy of collider {} claims to be linked", id)); }
                }
                if let Some(e) = m.link {
                    if fresh.ps.link_collider(handle, Some(fresh.ents[&e].handle)).is_err() { return bad("rejected-link", format!("re-linking collider {} failed", id)); }
                    fresh.cols.get_mut(id).unwrap().link = Some(e);
                    fresh.ents.get_mut(&e).unwrap().cols.insert(*id);
                }
            }
            Err(()) => return bad("rejected-copy", format!("the copy of collider {} was rejected", id)),
        }
    }
    for (id, g) in w.gens.iter().filter(|(_, g)| g.live) {
        let _ = fresh.exec(&Op::AddGen { id: *id, spec: g.spec.clone() });
    }
    Ok(fresh)
}

fn strong(o: &Obs, r: &RecObs) -> bool { strength(o, r) > 1.0 }

/// How much of a change a contact makes, with one being worth mentioning.
fn strength(o: &Obs, r: &RecObs) -> f64 {
    let m = [r.a, r.b].iter().filter_map(|i| o.ents.get(i)).map(|e| e.total as f64).filter(|m| m.is_finite()).fold(0.0, f64::max);
    // (What slides along something quickly gets a bit of a push wherever the direction of the surface is off by rounding, for example at its edge.)
    let speed = [r.a, r.b].iter().filter_map(|i| o.ents.get(i)).map(|e| d(&e.vel).norm()).fold(0.0, f64::max);
    r.j as f64 / ((2e-3 + 1e-3 * speed) * m)
}

/// The contacts that matter: rounding may add or remove ones that barely change anything.
fn impacts(o: &Obs) -> Vec<(u32, u32)> {
    let mut list: Vec<(u32, u32)> = o.recs.iter().filter(|r| strong(o, r)).map(|r| (r.a.min(r.b), r.a.max(r.b))).collect();
    list.sort();
    list
}

/// C18
pub fn restart(seed: u64, evs: &[Ev], stats: &mut Stats) -> Result<(), Violation> {
    isolated(mix(&[seed, 1]), || {
        let mut rng = Rng::new(mix(&[seed, 9]));
        let mut world = World::new();
        stats.executions += 1;
        // Restart after some of the frames. Spread over the run.
        for (i, ev) in evs.iter().enumerate() {
            let (_, obs) = run_event(&mut world, i, ev)?;
            stats.events += 1;
            stats.shapes.insert(obs.shape());
            stats.count(&format!("event {}", ev.op.name()), 1);
            let dt = match ev.op { Op::Step { dt } if dt.abs() >= 1e-6 => dt, _ => continue };
            stats.frames += 1;
            stats.sim_time += dt as f64;
            // Which frames is decided by their content, so that minimisation keeps the decision.
            if mix(&[seed, (dt.to_bits()) as u64]) % 3 != 0 { continue; }
            if obs.ents.values().any(|e| e.asleep || !crate::frame::sane(e)) { continue; }
            stats.count("fault host crash and rebuild", 1);
            let mut copy = rebuild(&world, 0.0, &mut rng)?;
            let new = copy.obs();
            for (id, x) in &obs.ents {
                let y = match new.ents.get(id) { Some(y) => y, None => return bad("lost-entity", format!("after event {} the rebuilt world lacks e{}", i, id)) };
                stats.evals += 1;
                let (p, q) = (Body::of(x), Body::of(y));
                let size = 1.0 + p.pos.norm() + p.off.norm() + obs.ents[id].cols.iter().map(|k| da(&world.cols[k].spec.pos).norm()).fold(0.0, f64::max);
                if x.cols != y.cols { return bad("links", format!("after event {} e{} has colliders {:?}, rebuilt {:?}", i, id, x.cols, y.cols)); }
                if x.own != y.own || x.vel != y.vel || x.ang != y.ang || y.asleep { return bad("state", format!("after event {} e{} was {:?}, rebuilt {:?}", i, id, x, y)); }
                if !(p.total == q.total || (p.total - q.total).abs() <= 1e-5 * p.total) { return bad("mass", format!("after event {} e{} has mass {:?}, rebuilt {:?}", i, id, p.total, q.total)); }
                if !((p.pos - q.pos).norm() <= 2e-5 * size) { return bad("center", format!("after event {} e{} has its center of mass at {:?}, rebuilt {:?}", i, id, p.pos, q.pos)); }
                if !((p.off - q.off).norm() <= 2e-5 * size) { return bad("frame", format!("after event {} e{} has its frame at {:?}, rebuilt {:?}", i, id, p.off, q.off)); }
                if !(angle(&p.q, &q.q) <= 2e-4) { return bad("rotation", format!("after event {} e{} is turned {:?} by rebuilding", i, id, angle(&p.q, &q.q))); }
                let (ix, iy) = (dm(&x.inertia), dm(&y.inertia));
                if !((ix - iy).norm() <= 1e-3 * ix.norm() + 1e-5 * x.total.min(1e6) as f64 * size) { return bad("inertia", format!("after event {} e{} has inertia {:?}, rebuilt {:?}", i, id, ix, iy)); }
            }
            for (id, x) in &obs.cols {
                let y = match new.cols.get(id) { Some(y) => y, None => return bad("lost-collider", format!("after event {} the rebuilt world lacks collider {}", i, id)) };
                let mut z = y.clone();
                // Normalising again may round.
                if z.kind == Kind::Plane && (da(&z.spec.a) - da(&x.spec.a)).norm() < 1e-5 { z.spec.a = x.spec.a; }
                if x.digest() != z.digest() { return bad("collider", format!("after event {} collider {} is {:?}, rebuilt {:?}", i, id, x, y)); }
            }
            // The original goes on in the real run. So the comparison uses what the next frames of the history are, on three rebuilt worlds and a twin of the original.
            let future: Vec<&Ev> = evs[i + 1..].iter().filter(|e| matches!(e.op, Op::Step { dt } if dt.abs() >= 1e-6)).take(4).collect();
            if future.is_empty() { continue; }
            let mut twin = twin_of(evs, i)?;
            let mut shaken = vec![rebuild(&world, 1e-5, &mut rng)?, rebuild(&world, 1e-5, &mut rng)?, rebuild(&world, 1e-5, &mut rng)?];
            for (k, e) in future.iter().enumerate() {
                let (_, a) = run_event(&mut twin, i + 1 + k, e)?;
                let (_, b) = run_event(&mut copy, i + 1 + k, e)?;
                let mut spread = 0.0f64;
                let mut agree = true;
                for s in shaken.iter_mut() {
                    let (_, o) = run_event(s, i + 1 + k, e)?;
                    spread = spread.max(worst(&apart(&b, &o)));
                    if impacts(&o) != impacts(&b) { agree = false; }
                }
                // Running out of iterations cuts the frame short, and rounding decides whether that happens.
                let cut = |o: &Obs| o.recs.len() >= o.iterations as usize;
                if cut(&a) || cut(&b) { break; }
                if !(spread < 0.02) || !agree { break; } // Too sensitive to say anything from here on.
                if a.ents.values().any(|e| e.asleep || !crate::frame::sane(e)) { break; }
                stats.evals += 1;
                stats.count("probe future compared", 1);
                stats.count("probe contact in a compared future", a.recs.len() as u64);
                let complaint = |spread: f64| {
                    let gap = worst(&apart(&a, &b));
                    if !(gap <= 2e-3 + 20.0 * spread) {
                        return bad("future", format!("rebuilt after event {}, the worlds are {:.6} apart {} frames later (shaken ones: {:.6}): {}", i, gap, k + 1, spread, difference(&a, &b)));
                    }
                    if impacts(&a) != impacts(&b) { return bad("future-contacts", format!("rebuilt after event {}, {} frames later the contacts are {:?} instead of {:?}", i, k + 1, b.recs, a.recs)); }
                    Ok(())
                };
                if let Err(v) = complaint(spread) {
                    // Unless this is a close call, in which case shaking tells: of the original (its velocities, its places) as well as of further copies.
                    let mut calm = true;
                    for group in 0..3 {
                        let mut first: Option<Obs> = if group == 0 { Some(a.clone()) } else if group == 2 { Some(b.clone()) } else { None };
                        for _ in 0..6 {
                            let mut w = if group == 2 { rebuild(&world, 1e-5, &mut rng)? } else { twin_of(evs, i)? };
                            if group < 2 { shake(&mut w, group == 1, &mut rng); }
                            let mut last = None;
                            for (n, e) in future[..=k].iter().enumerate() { last = Some(run_event(&mut w, i + 1 + n, e)?.1); }
                            let o = last.unwrap();
                            match &first {
                                None => first = Some(o),
                                Some(f) => {
                                    spread = spread.max(worst(&apart(f, &o)));
                                    if impacts(f) != impacts(&o) { calm = false; }
                                }
                            }
                        }
                    }
                    if calm && spread < 0.02 && complaint(spread).is_err() { return Err(v); }
                    stats.count("probe close call", 1);
                    break;
                }
            }
        }
        Ok(())
    })
}

/// The original world once more, right after the given event.
fn twin_of(evs: &[Ev], i: usize) -> Result<World, Violation> {
    let mut twin = World::new();
    for (k, e) in evs[..=i].iter().enumerate() { run_event(&mut twin, k, e)?; }
    Ok(twin)
}

/// Moves (or speeds up) every mobile body by as little as rounding might.
fn shake(w: &mut World, places: bool, rng: &mut Rng) {
    for m in w.ents.values().filter(|m| m.live) {
        if let Some(mut e) = w.ps.get_entity(m.handle) {
            if !e.get_last_total_mass().is_finite() { continue; }
            for i in 0..3 {
                if places { e.position[i] += rng.f(-1e-5, 1e-5); e.rotation[i] += rng.f(-1e-5, 1e-5); }
                else { e.velocity[i] += rng.f(-1e-4, 1e-4); e.angular_velocity[i] += rng.f(-1e-4, 1e-4); }
            }
            let _ = w.ps.update_entity(m.handle, e);
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// The last field tells whether it's a close call if some contact is worth mentioning.
type Film = (Obs, Vec<(f64, u32, u32)>, bool);

/// Runs setup and frames; gives the last observation, and the contacts with absolute times. None if a frame ran out of iterations or something fell asleep.
fn film(setup: &[&Ev], frames: &[f32], jiggle: f64, seed: u64) -> Result<Option<Film>, Violation> {
    let mut rng = Rng::new(seed);
    let mut world = World::new();
    let mut last = Obs::default();
    for (i, ev) in setup.iter().enumerate() {
        let mut ev = (*ev).clone();
        if jiggle > 0.0 {
            if let Op::AddEnt { spec, .. } = &mut ev.op {
                if spec.vel != [0.0; 3] || spec.mass.is_finite() {
                    for k in 0..3 { spec.pos[k] += rng.f(-jiggle, jiggle); }
                    if spec.vel != [0.0; 3] { for k in 0..3 { spec.vel[k] += rng.f(-jiggle, jiggle); } }
                }
            }
        }
        last = run_event(&mut world, i, &ev)?.1;
    }
    let mut contacts = Vec::new();
    let mut close = false;
    let mut until: BTreeMap<(u32, u32), f64> = BTreeMap::new();
    let mut time = 0.0;
    for (i, dt) in frames.iter().enumerate() {
        let before = last.digest();
        let ev = Ev { t: time, who: 0, tags: 0, op: Op::Step { dt: *dt } };
        let (_, o) = run_event(&mut world, setup.len() + i, &ev)?;
        if dt.abs() < 1e-6 {
            if o.digest() != before { return bad("micro-frame", format!("a frame of {:?} changed something: {}", dt, difference(&last, &o))); }
            continue;
        }
        if o.recs.len() >= o.iterations as usize || o.ents.values().any(|e| e.asleep || !crate::frame::sane(e)) { return Ok(None); }
        for r in &o.recs {
            let strength = strength(&o, r);
            if 0.3 < strength && strength < 3.0 { close = true; }
            if !(strength > 1.0) { continue; }
            // How often a pair meets while several bodies settle against one another isn't a matter of (near) identical executions.
            let t = time + r.time as f64;
            let lately = until.insert((r.a, r.b), t).map(|u| t - u < 1e-3).unwrap_or(false);
            if !lately { contacts.push((t, r.a, r.b)); }
        }
        time += *dt as f64;
        last = o;
    }
    Ok(Some((last, contacts, close)))
}

/// Cuts the span into other frames.
fn slice(rng: &mut Rng, total: f64, how: u64) -> Vec<f32> {
    let mut frames: Vec<f32> = Vec::new();
    let mut left = total;
    match how {
        0 => frames.push(total as f32),
        1 => { let n = rng.int(2, 80); for _ in 0..n { frames.push((total / n as f64) as f32); } }
        2 => {
            while left > 1e-4 {
                let dt = (rng.logf(2e-4, total.max(1e-3)) as f64).min(left);
                frames.push(dt as f32);
                left -= dt as f32 as f64;
                if frames.len() > 300 { frames.push(left as f32); break; }
            }
        }
        _ => {
            // Long stalls with bursts of tiny frames.
            while left > 1e-4 {
                let burst = rng.chance(0.5);
                for _ in 0..if burst { rng.int(3, 12) } else { 1 } {
                    let dt = if burst { rng.f(1e-4, 3e-3) as f64 } else { rng.f(0.1, 0.9) as f64 * total }.min(left);
                    if dt < 1e-5 { continue; }
                    frames.push(dt as f32);
                    left -= dt as f32 as f64;
                }
                if frames.len() > 300 { frames.push(left as f32); break; }
            }
        }
    }
    // What's left over counts when things are fast.
    if how >= 2 && frames.len() <= 300 && left >= 2e-6 { frames.push(left as f32); }
    frames.retain(|x| *x >= 2e-6);
    let mut with_micro = Vec::new();
    for f in frames {
        if rng.chance(0.1) { with_micro.push(if rng.chance(0.5) { 0.0 } else { 9e-7 }); }
        with_micro.push(f);
    }
    with_micro
}

/// C11
pub fn slicing(seed: u64, evs: &[Ev], stats: &mut Stats) -> Result<(), Violation> {
    isolated(mix(&[seed, 1]), || {
        let setup: Vec<&Ev> = evs.iter().filter(|e| !matches!(e.op, Op::Step { .. })).collect();
        let frames: Vec<f32> = evs.iter().filter_map(|e| match e.op { Op::Step { dt } => Some(dt), _ => None }).collect();
        let total: f64 = frames.iter().filter(|x| x.abs() >= 1e-6).map(|x| *x as f64).sum();
        if total < 1e-3 { return Ok(()); }
        stats.executions += 1;
        stats.events += evs.len() as u64;
        let (base, contacts, close) = match film(&setup, &frames, 0.0, 0)? { Some(x) => x, None => { stats.count("probe skipped (iteration limit)", 1); return Ok(()) } };
        stats.frames += frames.len() as u64;
        stats.sim_time += total;
        let mut spread: BTreeMap<u32, f64> = BTreeMap::new();
        let mut lag: Vec<f64> = vec![0.0; contacts.len()];
        let mut agree = !close;
        stats.count("probe contact hardly worth mentioning", close as u64);
        for k in 0..4 {
            match film(&setup, &frames, 1e-5, mix(&[seed, 20 + k]))? {
                None => return Ok(()),
                Some((o, list, _)) => {
                    for (id, g) in apart(&base, &o) { let x = spread.entry(id).or_insert(0.0); *x = x.max(g); }
                    match matched(&contacts, &list) { Some(gaps) => for (x, g) in lag.iter_mut().zip(gaps) { *x = x.max(g); }, None => agree = false }
                }
            }
        }
        stats.count("probe contact", contacts.len() as u64);
        for (_, a, b) in &contacts { stats.shapes.insert(mix(&[*a as u64, *b as u64, contacts.len() as u64])); }
        for how in 0..4u64 {
            let mut rng = Rng::new(mix(&[seed, 40 + how]));
            let cut = slice(&mut rng, total, how);
            let other = match film(&setup, &cut, 0.0, 0)? { Some(x) => x, None => { stats.count("probe skipped (iteration limit)", 1); continue } };
            stats.executions += 1;
            stats.events += (setup.len() + cut.len()) as u64;
            stats.frames += cut.len() as u64;
            stats.sim_time += total;
            stats.count("fault other slicing", 1);
            stats.count("fault micro frame inserted", cut.iter().filter(|x| **x < 1e-6).count() as u64);
            let base = (base.clone(), contacts.clone(), close);
            let n = (frames.len(), cut.len());
            if let Some(v) = differ(&base, &other, &spread, &lag, agree, total, n, stats) {
                // Whether that's only because this slicing happens to be a close call.
                let (mut spread, mut lag, mut agree) = (spread.clone(), lag.clone(), agree);
                let mut back: Vec<f64> = vec![0.0; other.1.len()];
                let mut calm = true;
                for k in 0..6 {
                    match film(&setup, &cut, 1e-5, mix(&[seed, 60 + k]))? {
                        None => { calm = false; break }
                        Some((o, list, _)) => {
                            for (id, g) in apart(&other.0, &o) { let x = spread.entry(id).or_insert(0.0); *x = x.max(g); }
                            match matched(&other.1, &list) { Some(gaps) => for (x, g) in back.iter_mut().zip(gaps) { *x = x.max(g); }, None => agree = false }
                        }
                    }
                }
                let most = back.iter().fold(0.0f64, |a, b| a.max(*b));
                for x in lag.iter_mut() { *x = x.max(most); }
                if !calm { continue; }
                if let Some(w) = differ(&base, &other, &spread, &lag, agree, total, n, stats) { return Err(w); }
                stats.count("probe close call", 1);
                let _ = v;
            }
        }
        Ok(())
    })
}

/// Compares the outcomes of two slicings.
fn differ(base: &Film, other: &Film, spread: &BTreeMap<u32, f64>, lag: &[f64], agree: bool, total: f64, n: (usize, usize), stats: &mut Stats) -> Option<Violation> {
    let complain = |class: &str, text: String| Some(Violation { class: class.to_string(), text });
    for (id, g) in apart(&base.0, &other.0) {
        let s = spread[&id];
        if !(s < 0.02) { stats.count("probe too sensitive to compare", 1); continue; }
        stats.evals += 1;
        let e = &base.0.ents[&id];
        let rounding = 2e-5 * (d(&e.pos).norm() + d(&e.vel).norm() * total + (d(&e.ang).norm()) * total) + 4e-6 * d(&e.vel).norm();
        if !(g <= 3e-3 + 40.0 * s + rounding) {
            return complain("frame-rate", format!("after {} seconds e{} is {:.6} away from where it is in {} frames when the span is cut into {} frames (shaken runs differ by {:.6}): {:?} / {:?}", total, id, g, n.0, n.1, s, base.0.ents[&id], other.0.ents[&id]));
        }
    }
    if !agree || other.2 || !spread.values().all(|s| *s < 0.02) { return None; }
    match matched(&base.1, &other.1) {
        Some(gaps) => for (k, g) in gaps.iter().enumerate() {
            stats.evals += 1;
            if !(*g <= 2e-3 + 40.0 * lag[k]) && lag[k] < 0.02 {
                return complain("contact-time", format!("contact {} between e{} and e{} is at {:.6} in {} frames but {:.6} away from that in {}", k, base.1[k].1, base.1[k].2, base.1[k].0, n.0, g, n.1));
            }
        },
        None => return complain("contact-list", format!("the contacts are {:?} in {} frames but {:?} in {}", base.1, n.0, other.1, n.1)),
    }
    None
}

/// Matches contacts per pair, in order. Gives how far apart in time they are, unless there are more or fewer.
fn matched(a: &[(f64, u32, u32)], b: &[(f64, u32, u32)]) -> Option<Vec<f64>> {
    if a.len() != b.len() { return None; }
    let mut per: BTreeMap<(u32, u32), Vec<f64>> = BTreeMap::new();
    for (t, x, y) in b { per.entry((*x, *y)).or_default().push(*t); }
    let mut used: BTreeMap<(u32, u32), usize> = BTreeMap::new();
    let mut gaps = Vec::new();
    for (t, x, y) in a {
        let k = used.entry((*x, *y)).or_insert(0);
        let other = per.get(&(*x, *y))?.get(*k)?;
        gaps.push((t - other).abs());
        *k += 1;
    }
    Some(gaps)
}
