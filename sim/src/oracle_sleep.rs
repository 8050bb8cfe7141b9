//! Oracles about falling asleep (C12) and waking up (C13).

use crate::check::*;
use crate::ops::*;
use crate::oracle_motion::Contacts;
use crate::phys::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

/// How long a body has been quiet (None: it isn't).
#[derive(Clone, Copy, Default)]
struct Quiet {
    /// It might've been.
    maybe: Option<f64>,
    /// It surely was, and for how many frames since it was due to sleep.
    surely: Option<f64>,
    overdue: u32,
}

/// C12
#[derive(Default)]
pub struct Sleep {
    quiet: BTreeMap<u32, Quiet>,
    /// Bodies that were put to sleep at the end of the last frame.
    fresh: BTreeSet<u32>,
}

impl Checker for Sleep {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        let (dt, step) = match c.op { Op::Step { dt } if dt.abs() >= 1e-6 => (*dt as f64, true), _ => (0.0, false) };
        // What's reported as energy.
        for (id, e) in &c.post.ents {
            if !sane_energy(e) { continue; }
            let own = Body::of(e).energy();
            if own.is_finite() && !((e.energy as f64 - own).abs() <= 1e-3 * own + 1e-9) {
                return bad("energy-reported", format!("e{} reports an energy of {:?} instead of {:?}", id, e.energy, own));
            }
        }
        if !step || c.out.crashed {
            for (id, e) in &c.post.ents {
                let p = match c.pre.ents.get(id) { Some(p) => p, None => { self.quiet.remove(id); continue } };
                if e.asleep && !p.asleep { return bad("slept-outside-frame", format!("{} put e{} to sleep", c.op.text(), id)); }
                if !e.asleep && p.asleep { self.quiet.insert(*id, Quiet::default()); }
                if e.asleep && p.asleep && !step && !matches!(c.op, Op::UpdEnt { .. } | Op::Link { .. } | Op::UpdCol { .. } | Op::RmCol { .. } | Op::RmEnt { .. }) && (e.pos != p.pos || e.quat != p.quat) {
                    return bad("sleeper-moved", format!("{} moved the sleeping e{}", c.op.text(), id));
                }
            }
            self.quiet.retain(|id, _| c.post.ents.contains_key(id));
            return Ok(());
        }
        let (threshold, delay) = (c.pre.energy_threshold as f64, c.pre.delay as f64);
        let mut fresh = BTreeSet::new();
        for (id, e) in &c.post.ents {
            let p = match c.pre.ents.get(id) { Some(p) => p, None => continue };
            let logged = c.post.recs.iter().any(|r| r.a == *id || r.b == *id);
            let q = self.quiet.entry(*id).or_default();
            if p.asleep && e.asleep {
                // Unless it was woken and put back within the frame (only possible without a delay).
                if !logged && delay > 0.0 {
                    stats.evals += 1;
                    if p.pos != e.pos || p.quat != e.quat { return bad("sleeper-moved", format!("the sleeping e{} moved from {:?} to {:?}", id, p.pos, e.pos)); }
                    if d(&e.vel).norm() != 0.0 || d(&e.ang).norm() != 0.0 { return bad("sleeper-speed", format!("e{} slept through a whole frame but reports velocity {:?} {:?}", id, e.vel, e.ang)); }
                }
                continue;
            }
            if p.asleep { *q = Quiet::default(); } // Woken up: it gets the full delay again.
            if !sane_energy(e) || !p.finite() { *q = Quiet { maybe: Some(1e9), surely: None, overdue: 0 }; continue; }
            let energy = Body::of(e).energy();
            let speck = 1e-9 + if e.total.is_infinite() && (d(&e.vel).norm() < 1.1e-6 && d(&e.ang).norm() < 1.1e-6) && energy > 0.0 { f64::INFINITY } else { 0.0 };
            let maybe_low = energy <= threshold * (1.0 + 2e-3) + speck || speck.is_infinite();
            let surely_low = energy <= threshold * (1.0 - 2e-3) - 1e-9 || energy == 0.0 && threshold >= 0.0;
            q.maybe = if maybe_low { Some(q.maybe.map(|t| t + dt).unwrap_or(0.0)) } else { None };
            q.surely = if surely_low { Some(q.surely.map(|t| t + dt).unwrap_or(0.0)) } else { None };
            let due = q.surely.map(|t| t >= delay * (1.0 + 1e-4) + 1e-6).unwrap_or(false);
            stats.evals += 1;
            if e.asleep {
                if !maybe_low { return bad("slept-lively", format!("e{} was put to sleep with an energy of {:?} over {:?}", id, energy, threshold)); }
                let t = q.maybe.unwrap();
                if t < delay * (1.0 - 1e-4) - 1e-6 { return bad("slept-early", format!("e{} was put to sleep after {:.6} quiet seconds instead of {:.6}", id, t, delay)); }
                fresh.insert(*id);
                *q = Quiet::default();
                stats.count("probe put to sleep", 1);
            } else {
                q.overdue = if due { q.overdue + 1 } else { 0 };
                if q.overdue > 2 { return bad("overslept", format!("e{} (energy {:?}, threshold {:?}) is still awake after being quiet for {:.6} seconds (delay {:.6})", id, energy, threshold, q.surely.unwrap(), delay)); }
            }
        }
        self.fresh = fresh;
        self.quiet.retain(|id, _| c.post.ents.contains_key(id));
        Ok(())
    }
}

fn sane_energy(e: &EntObs) -> bool {
    crate::frame::sane(e) || (e.finite() && e.total.is_infinite() && d(&e.pos).norm() < 1e4)
}

// ---------------------------------------------------------------------------------------------

type Edge = (u32, u32);

#[derive(Default)]
struct Graph {
    /// (who fell asleep, what it rested against)
    edges: BTreeSet<Edge>,
}

impl Graph {
    fn drop_stale(&mut self, o: &Obs) {
        self.edges.retain(|(s, x)| o.ents.get(s).map(|e| e.asleep).unwrap_or(false) && o.ents.contains_key(x));
    }
    /// Everything of finite mass that's reached from `start`, going through bodies of finite mass only (but starting anywhere).
    fn closure(&self, start: u32, o: &Obs) -> BTreeSet<u32> {
        let mut seen = BTreeSet::new();
        let mut queue = vec![start];
        while let Some(x) = queue.pop() {
            if !seen.insert(x) { continue; }
            for (s, y) in &self.edges {
                for (from, to) in [(s, y), (y, s)] {
                    if *from == x && o.ents.get(to).map(|e| e.total.is_finite()).unwrap_or(false) { queue.push(*to); }
                }
            }
        }
        seen
    }
}

/// C13
pub struct Wake {
    must: Graph,
    maybe: Graph,
    sleepers: Contacts,
}

impl Default for Wake {
    fn default() -> Wake { Wake { must: Graph::default(), maybe: Graph::default(), sleepers: Contacts { sleepers: true } } }
}

fn definitely_changed(p: &EntObs, w: &EntSpec) -> bool {
    let far = |a: &nalgebra::Vector3<f32>, b: &A3| (d(a) - da(b)).norm() > 1e-4;
    p.own != w.mass || far(&p.pos, &w.pos) || far(&p.vel, &w.vel) || far(&p.ang, &w.ang) || angle(&Q::from_scaled_axis(da(&w.rot)), &Body::of(p).q) > 1e-3
}
fn same_values(p: &EntObs, w: &EntSpec) -> bool {
    let same = |a: &nalgebra::Vector3<f32>, b: &A3| (0..3).all(|i| a[i].to_bits() == b[i].to_bits());
    p.own.to_bits() == w.mass.to_bits() && same(&p.pos, &w.pos) && same(&p.vel, &w.vel) && same(&p.ang, &w.ang) && same(&p.rot, &w.rot)
}

impl Checker for Wake {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        let woken: Vec<u32> = c.post.ents.iter().filter(|(id, e)| !e.asleep && c.pre.ents.get(id).map(|p| p.asleep).unwrap_or(false)).map(|(i, _)| *i).collect();
        let expect_awake = |ids: &BTreeSet<u32>, skip: Option<u32>, why: &str| -> Result<(), Violation> {
            for x in ids {
                if Some(*x) == skip { continue; }
                if c.post.ents.get(x).map(|e| e.asleep).unwrap_or(false) && c.pre.ents.get(x).map(|e| e.asleep).unwrap_or(false) {
                    return bad("not-woken", format!("{} didn't wake e{}", why, x));
                }
            }
            Ok(())
        };
        let only = |allowed: &BTreeSet<u32>, why: &str| -> Result<(), Violation> {
            for x in &woken {
                if !allowed.contains(x) { return bad("woken-without-cause", format!("{} woke e{}", why, x)); }
            }
            Ok(())
        };
        match c.op {
            Op::UpdEnt { .. } if c.out.ret == Ret::Ok => {
                let id = c.out.target.unwrap();
                let (p, w) = (&c.pre.ents[&id], c.out.wrote_ent.as_ref().unwrap());
                if same_values(p, w) {
                    stats.evals += 1;
                    if p.asleep { stats.count("probe unchanged write-back to a sleeper", 1) }
                    only(&BTreeSet::new(), &format!("writing back the unchanged e{}", id))?;
                } else if definitely_changed(p, w) {
                    let must = self.must.closure(id, c.pre);
                    if p.asleep {
                        stats.evals += 1;
                        stats.count("probe changed a sleeper", 1);
                        if must.len() > 1 { stats.count("probe changed a sleeper with neighbors", 1) }
                        expect_awake(&must, None, &format!("changing the sleeping e{}", id))?;
                    }
                    only(&self.maybe.closure(id, c.pre), &format!("changing e{}", id))?;
                } else {
                    only(&self.maybe.closure(id, c.pre), &format!("changing e{}", id))?;
                }
            }
            Op::RmEnt { .. } if c.out.ret == Ret::Bool(true) => {
                let id = c.out.target.unwrap();
                let must = self.must.closure(id, c.pre);
                if must.len() > 1 { stats.count("probe removed a body others rest on", 1) }
                stats.evals += 1;
                expect_awake(&must, Some(id), &format!("removing e{}", id))?;
                only(&self.maybe.closure(id, c.pre), &format!("removing e{}", id))?;
            }
            Op::Step { dt } => {
                if c.out.crashed { return Ok(()); }
                if dt.abs() < 1e-6 { return only(&BTreeSet::new(), "a micro frame"); }
                let mut allowed = BTreeSet::new();
                let delay = c.pre.delay;
                for r in &c.post.recs {
                    for id in [r.a, r.b] {
                        let (p, e) = match (c.pre.ents.get(&id), c.post.ents.get(&id)) { (Some(p), Some(e)) => (p, e), _ => continue };
                        if e.total.is_finite() {
                            allowed.extend(self.maybe.closure(id, c.pre));
                            if p.asleep {
                                stats.evals += 1;
                                stats.count("probe sleeper was hit", 1);
                                if e.asleep && delay > 1e-4 { return bad("hit-but-asleep", format!("e{} was hit but stays asleep", id)); }
                                if delay > 1e-4 { expect_awake(&self.must.closure(id, c.pre), None, &format!("hitting e{}", id))?; }
                            }
                        } else if p.asleep {
                            stats.evals += 1;
                            if !e.asleep { return bad("infinite-woken", format!("e{} has infinite mass but was woken by a contact", id)); }
                        }
                    }
                }
                only(&allowed, "a frame")?;
                self.sleepers.event(c, stats)?;
                // Remember who rests against whom.
                self.must.drop_stale(c.post);
                self.maybe.drop_stale(c.post);
                for (id, e) in &c.post.ents {
                    let p = match c.pre.ents.get(id) { Some(p) => p, None => continue };
                    let again = p.asleep && delay <= 1e-4 && c.post.recs.iter().any(|r| r.a == *id || r.b == *id);
                    if !e.asleep || (p.asleep && !again && delay > 1e-4) { continue; }
                    if p.asleep && again { self.must.edges.retain(|(a, b)| a != id && b != id); }
                    for (k, r) in c.post.recs.iter().enumerate() {
                        if r.a != *id && r.b != *id { continue; }
                        let other = if r.a == *id { r.b } else { r.a };
                        self.maybe.edges.insert((*id, other));
                        if p.asleep || r.e != 0.0 { continue; }
                        let calm = c.frame.map(|f| f.contacts.iter().any(|x| x.index == k && x.known && x.vn < 0.5 && x.a.vel.norm() + x.b.vel.norm() < 1.0 && x.a.ang.norm() + x.b.ang.norm() < 1.0)).unwrap_or(false);
                        // Later contacts of the frame wake (and so forget) nobody that fell asleep at the end of it.
                        // (An infinite body forgets what rests on it whenever that wakes, without waking up itself.)
                        if calm && e.total.is_finite() {
                            self.must.edges.insert((*id, other));
                            stats.count("probe fell asleep resting on another", 1);
                        }
                    }
                }
                return Ok(());
            }
            _ => only(&BTreeSet::new(), &c.op.text())?,
        }
        self.must.drop_stale(c.post);
        self.maybe.drop_stale(c.post);
        Ok(())
    }
}
