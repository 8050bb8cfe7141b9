//! Oracles for the registry: handles, links, values, mass distribution (C01, C02, C03).

use crate::check::*;
use crate::ops::*;
use crate::phys::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

fn bits(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || a == b }
fn bits3(a: &nalgebra::Vector3<f32>, b: &A3) -> bool { (0..3).all(|i| bits(a[i], b[i])) }
fn abits3(a: &A3, b: &A3) -> bool { (0..3).all(|i| bits(a[i], b[i])) }

/// C01
pub struct Registry;

impl Checker for Registry {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        if let Some(text) = &c.world.handle_reuse { return bad("handle-reused", text.clone()); }
        match c.op {
            Op::RmEnt { .. } | Op::Snap { .. } | Op::SnapCol { .. } | Op::RmGen { .. } | Op::AddGen { .. } | Op::Link { .. } | Op::UpdEnt { .. } | Op::UpdCol { .. } => {
                if c.out.ret != c.out.expect {
                    return bad("wrong-return", format!("{} returned {:?} instead of {:?}", c.op.text(), c.out.ret, c.out.expect));
                }
                if c.out.ret != Ret::Skipped { stats.evals += 1; }
            }
            _ => {}
        }
        for (id, m) in &c.world.ents {
            match (m.live, c.post.ents.get(id)) {
                (true, None) => return bad("lost-entity", format!("entity e{} has disappeared", id)),
                (false, Some(_)) => return bad("undead-entity", format!("the handle of the removed entity e{} still resolves", id)),
                (true, Some(e)) => {
                    if !bits(e.own, m.own) {
                        return bad("wrong-entity", format!("the handle of entity e{} (own mass {:?}) resolves to one with own mass {:?}", id, m.own, e.own));
                    }
                    let expected: Vec<u32> = m.cols.iter().cloned().collect();
                    if e.cols != expected {
                        return bad("wrong-links", format!("entity e{} lists colliders {:?} instead of {:?}", id, e.cols, expected));
                    }
                }
                (false, None) => {}
            }
        }
        for (id, m) in &c.world.cols {
            match (m.live, c.post.cols.get(id)) {
                (true, None) => return bad("lost-collider", format!("collider {} has disappeared", id)),
                (false, Some(_)) => return bad("undead-collider", format!("the handle of the removed collider {} still resolves", id)),
                (true, Some(x)) => {
                    if x.link != m.link {
                        return bad("wrong-links", format!("collider {} says it belongs to {:?} instead of {:?}", id, x.link, m.link));
                    }
                    if x.kind != m.spec.kind || (x.kind != Kind::Null && !bits(x.spec.rest, m.spec.rest)) {
                        return bad("wrong-collider", format!("the handle of collider {} resolves to another one", id));
                    }
                }
                (false, None) => {}
            }
        }
        Ok(())
    }
}

/// C02
pub struct Values;

fn normalized(s: &ColSpec) -> ColSpec {
    let mut s = s.clone();
    if s.kind == Kind::Box {
        for i in 0..3 {
            let (lo, hi) = (s.a[i].min(s.b[i]), s.a[i].max(s.b[i]));
            s.a[i] = lo;
            s.b[i] = hi;
        }
    }
    s
}

fn collider_matches(o: &ColObs, wrote: &ColSpec) -> Result<(), String> {
    let w = normalized(wrote);
    let s = &o.spec;
    if o.kind != w.kind { return Err(format!("kind {:?} instead of {:?}", o.kind, w.kind)); }
    if !abits3(&s.pos, &w.pos) { return Err(format!("position {:?} instead of {:?}", s.pos, w.pos)); }
    if w.kind != Kind::Mesh && !bits(s.mass, w.mass) { return Err(format!("mass {:?} instead of {:?}", s.mass, w.mass)); }
    if w.kind != Kind::Null {
        for (name, x, y) in [("restitution", s.rest, w.rest), ("friction threshold", s.fthr, w.fthr), ("static friction", s.fs, w.fs), ("dynamic friction", s.fd, w.fd)] {
            if !bits(x, y) { return Err(format!("{} {:?} instead of {:?}", name, x, y)); }
        }
    }
    match w.kind {
        Kind::Sphere => if !bits(s.a[0], w.a[0]) { return Err(format!("radius {:?} instead of {:?}", s.a[0], w.a[0])); },
        Kind::Box => if !abits3(&s.a, &w.a) || !abits3(&s.b, &w.b) { return Err(format!("corners {:?} {:?} instead of {:?} {:?}", s.a, s.b, w.a, w.b)); },
        Kind::Plane => {
            let (x, y) = (da(&s.a), da(&w.a));
            if y.norm().is_finite() && !((x - y / y.norm()).norm() < 1e-5) { return Err(format!("normal {:?} instead of the direction of {:?}", s.a, w.a)); }
        }
        Kind::Null => if let Some(m) = &o.moment {
            let expected = null_moment(&w);
            if (0..9).any(|i| !bits(m[i], expected[i])) { return Err(format!("moment of inertia {:?} instead of {:?}", m, expected)); }
        },
        Kind::Mesh => {
            let expected = match w.b[0] as u8 { 0 => (1, 4, 4), 1 => (6, 12, 8), 2 => (4, 6, 4), 4 => (1, 6, 6), 5 => (5, 8, 5), _ => (1, 3, 3) };
            if o.counts != expected { return Err(format!("(faces, edges, vertices) {:?} instead of {:?}", o.counts, expected)); }
        }
    }
    Ok(())
}

impl Checker for Values {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        if c.out.ret == Ret::Skipped { return Ok(()); }
        let command = matches!(c.op, Op::AddEnt { .. } | Op::AddEntFrom { .. } | Op::UpdEnt { .. } | Op::AddCol { .. } | Op::AddColFrom { .. } | Op::UpdCol { .. } | Op::Link { .. });
        if command {
            if c.out.ret != c.out.expect {
                let class = if c.out.expect == Ret::Err { "accepted-invalid" } else { "rejected-valid" };
                return bad(class, format!("{} returned {:?} instead of {:?}", c.op.text(), c.out.ret, c.out.expect));
            }
            stats.evals += 1;
        }
        // Nothing observable may change here.
        let silent = match c.op {
            Op::Query { .. } | Op::Snap { .. } | Op::SnapCol { .. } | Op::AddGen { .. } | Op::RmGen { .. } | Op::Sink { .. } | Op::Crash { .. } | Op::Poison { .. } => true,
            _ => command && c.out.ret == Ret::Err,
        };
        if silent {
            if command { stats.count("probe rejected command", 1) }
            if c.pre.digest() != c.post.digest() {
                let class = if command { "rejected-but-changed" } else { "read-changed-state" };
                return bad(class, format!("{} changed the world: {}", c.op.text(), difference(c.pre, c.post)));
            }
            return Ok(());
        }
        let (mut subject, mut collider) = (None, None);
        match c.op {
            Op::AddEnt { id, .. } | Op::AddEntFrom { id, .. } => {
                subject = Some(*id);
                let w = c.out.wrote_ent.as_ref().unwrap();
                let e = match c.post.ents.get(id) { Some(e) => e, None => return bad("read-back", format!("entity e{} isn't there after being added", id)) };
                if !bits3(&e.pos, &w.pos) { return bad("read-back", format!("added at {:?} but is at {:?}", w.pos, e.pos)); }
                if !e.cols.is_empty() || e.asleep { return bad("read-back", format!("a new entity has colliders {:?}, asleep {}", e.cols, e.asleep)); }
                self.entity(e, w)?;
            }
            Op::UpdEnt { .. } => {
                let id = c.out.target.unwrap();
                subject = Some(id);
                let w = c.out.wrote_ent.as_ref().unwrap();
                let (p, e) = match (c.pre.ents.get(&id), c.post.ents.get(&id)) { (Some(p), Some(e)) => (p, e), _ => return Ok(()) };
                self.entity(e, w)?;
                let pos = da(&w.pos);
                let tolerance = 1e-4 * (1.0 + pos.norm() + d(&p.off).norm() + d(&e.off).norm()) + 5e-6 * d(&p.pos).norm();
                // A copy of another entity keeps that one's frame until something's linked to it.
                let raw = p.cols.is_empty() && d(&p.off).norm() > 0.0;
                if !raw && pos.norm() < 1e6 && d(&p.pos).norm() < 1e4 && da(&w.rot).norm().is_finite() && tolerance.is_finite() && (0..3).all(|i| p.off[i].is_finite()) && c.world.ents[&id].cols.iter().all(|k| c.world.cols[k].spec.pos.iter().all(|x| x.abs() < 1e4)) {
                    if !((d(&e.pos) - pos).norm() < tolerance) { return bad("read-back", format!("position {:?} written, {:?} read", w.pos, e.pos)); }
                    // There's nothing to work out without colliders.
                    if p.cols.is_empty() && p.off == nalgebra::Vector3::zeros() && (0..3).any(|i| e.pos[i] != w.pos[i]) { return bad("read-back", format!("position {:?} written, {:?} read", w.pos, e.pos)); }
                    if !((d(&e.off) - d(&p.off)).norm() < tolerance) { return bad("update-changed-distribution", format!("the local frame's offset went from {:?} to {:?}", p.off, e.off)); }
                }
                if e.cols != p.cols { return bad("update-changed-links", format!("colliders went from {:?} to {:?}", p.cols, e.cols)); }
                if e.asleep && !p.asleep { return bad("update-changed-sleep", format!("an update put e{} to sleep", id)); }
            }
            Op::AddCol { id, .. } | Op::AddColFrom { id, .. } => {
                collider = Some(*id);
                let w = c.out.wrote_col.as_ref().unwrap();
                let o = match c.post.cols.get(id) { Some(o) => o, None => return bad("read-back", format!("collider {} isn't there after being added", id)) };
                if o.link.is_some() { return bad("read-back", format!("the new collider {} is linked", id)); }
                if let Err(text) = collider_matches(o, w) { return bad("read-back", format!("collider {}: {}", id, text)); }
            }
            Op::UpdCol { id, .. } => {
                collider = Some(*id);
                let w = c.out.wrote_col.as_ref().unwrap();
                if let (Some(p), Some(o)) = (c.pre.cols.get(id), c.post.cols.get(id)) {
                    if let Err(text) = collider_matches(o, w) { return bad("read-back", format!("collider {}: {}", id, text)); }
                    if o.link != p.link { return bad("update-changed-links", format!("collider {} went from {:?} to {:?}", id, p.link, o.link)); }
                    if let Some(owner) = p.link {
                        subject = Some(owner);
                        if let (Some(p), Some(e)) = (c.pre.ents.get(&owner), c.post.ents.get(&owner)) {
                            if !bits(p.own, e.own) || !bits3(&p.vel, &a3(&e.vel)) || !bits3(&p.ang, &a3(&e.ang)) || p.cols != e.cols || p.asleep != e.asleep {
                                return bad("update-side-effect", format!("updating collider {} changed its entity e{}", id, owner));
                            }
                        }
                    }
                }
            }
            _ => return Ok(()),
        }
        // Nothing else may change (but sleeping neighbours may wake up).
        for (id, p) in &c.pre.ents {
            if Some(*id) == subject { continue; }
            match c.post.ents.get(id) {
                None => return bad("side-effect", format!("{} removed e{}", c.op.text(), id)),
                Some(e) => {
                    let mut x = e.clone();
                    if p.asleep && matches!(c.op, Op::UpdEnt { .. }) { x.asleep = true; }
                    if x.digest() != p.digest() { return bad("side-effect", format!("{} changed another entity e{}: {}", c.op.text(), id, difference(c.pre, c.post))); }
                }
            }
        }
        for (id, p) in &c.pre.cols {
            if Some(*id) == collider { continue; }
            match c.post.cols.get(id) {
                None => return bad("side-effect", format!("{} removed collider {}", c.op.text(), id)),
                Some(x) => if x.digest() != p.digest() { return bad("side-effect", format!("{} changed another collider {}", c.op.text(), id)); },
            }
        }
        Ok(())
    }
}

impl Values {
    fn entity(&self, e: &EntObs, w: &EntSpec) -> Result<(), Violation> {
        if !bits(e.own, w.mass) { return bad("read-back", format!("own mass {:?} written, {:?} read", w.mass, e.own)); }
        if !bits3(&e.vel, &w.vel) { return bad("read-back", format!("velocity {:?} written, {:?} read", w.vel, e.vel)); }
        if !bits3(&e.ang, &w.ang) { return bad("read-back", format!("angular velocity {:?} written, {:?} read", w.ang, e.ang)); }
        let rot = da(&w.rot);
        if rot.norm() < 100.0 {
            let written = Q::from_scaled_axis(rot);
            let read = Q::from_scaled_axis(d(&e.rot));
            if !(angle(&written, &read) < 2e-3) || !(angle(&written, &Body::of(e).q) < 2e-3) {
                return bad("read-back", format!("rotation {:?} written, {:?} read", w.rot, e.rot));
            }
        }
        Ok(())
    }
}

/// Describes the first difference between two observations.
pub fn difference(a: &Obs, b: &Obs) -> String {
    for (id, x) in &a.ents {
        match b.ents.get(id) {
            None => return format!("entity e{} is missing", id),
            Some(y) => if x.digest() != y.digest() { return format!("entity e{} differs: {:?} / {:?}", id, x, y); },
        }
    }
    for id in b.ents.keys() { if !a.ents.contains_key(id) { return format!("entity e{} is new", id); } }
    for (id, x) in &a.cols {
        match b.cols.get(id) {
            None => return format!("collider {} is missing", id),
            Some(y) => if x.digest() != y.digest() { return format!("collider {} differs: {:?} / {:?}", id, x, y); },
        }
    }
    if a.records_digest() != b.records_digest() {
        return format!("contact logs differ: {:?} / {:?}", a.recs, b.recs);
    }
    "settings differ or an object is new".into()
}

/// C03
#[derive(Default)]
pub struct Mass {
    /// Copies of other entities that nothing has been linked to yet.
    raw: BTreeSet<u32>,
    /// How far out each entity was when its centre of mass was worked out last. The rounding error of that stays, wherever it goes.
    far: BTreeMap<u32, f64>,
}

pub fn collider_inertia(s: &ColSpec) -> (V, f64, M) {
    let pos = da(&s.pos);
    let m = s.mass as f64;
    match s.kind {
        Kind::Null => {
            let i = null_moment(s);
            (pos, m, dm(&i))
        }
        Kind::Sphere => (pos, m, M::from_diagonal_element(0.4 * m * (s.a[0] as f64).powi(2))),
        Kind::Plane => (pos, m, M::zeros()),
        Kind::Mesh => (pos, 0.0, M::zeros()),
        Kind::Box => {
            let (a, b) = (da(&s.a), da(&s.b));
            let l = (b - a).abs();
            let (x, y, z) = (l.x * l.x, l.y * l.y, l.z * l.z);
            (pos + (a + b) * 0.5, m, M::from_diagonal(&V::new(y + z, x + z, x + y)) * (m / 12.0))
        }
    }
}

impl Checker for Mass {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        if c.out.ret == Ret::Skipped { return Ok(()); }
        match c.op {
            Op::AddEntFrom { id, .. } => { self.raw.insert(*id); }
            Op::UpdEnt { .. } if c.out.ret == Ret::Ok => { self.raw.remove(&c.out.target.unwrap_or(UNKNOWN)); }
            _ => {}
        }
        for (id, e) in &c.post.ents {
            if !e.cols.is_empty() { self.raw.remove(id); }
            if c.pre.ents.get(id).map(|p| p.off != e.off).unwrap_or(true) {
                self.far.insert(*id, d(&e.pos).norm().max(c.pre.ents.get(id).map(|p| d(&p.pos).norm()).unwrap_or(0.0)));
            }
            if self.raw.contains(id) || e.cols.contains(&UNKNOWN) { continue; }
            let b = Body::of(e);
            let far = self.far.get(id).cloned().unwrap_or(0.0);
            if !(far < 1e4) { continue; }
            if !(b.pos.norm() < 1e4) || !b.q.coords.norm().is_finite() { continue; }
            let parts: Vec<(V, f64, M)> = e.cols.iter().map(|k| collider_inertia(&c.world.cols[k].spec)).collect();
            if parts.iter().any(|(p, m, i)| !(p.norm() < 1e4) || (m.is_finite() && *m > 1e9) || !i.norm().is_finite() && m.is_finite()) || (e.own.is_finite() && e.own > 1e9) { continue; }
            stats.evals += 1;
            let others: f64 = parts.iter().map(|(_, m, _)| *m).sum();
            let total = e.own as f64 + others;
            if total.is_infinite() != e.total.is_infinite() || (total.is_finite() && !((e.total as f64 - total).abs() <= 1e-4 * total)) {
                return bad("total-mass", format!("e{} has a total mass of {:?} instead of {:?}", id, e.total, total));
            }
            let (center, massive) = if others > 0.0 && others.is_finite() {
                (parts.iter().map(|(p, m, _)| p * *m).sum::<V>() / others, true)
            } else { (V::zeros(), false) };
            let extent = parts.iter().map(|(p, _, _)| p.norm()).fold(0.0, f64::max) + b.off.norm();
            let slip = 1e-4 * extent + 3e-5 * (b.pos.norm().max(far) + 1.0);
            if !((b.off + center).norm() <= slip) {
                return bad("center-of-mass", format!("e{} has its center of mass at local {:?} instead of {:?} ({})", id, -b.off, center, if massive { "the colliders' center" } else { "the local origin" }));
            }
            let actual = dm(&e.inertia);
            let mut expected = M::zeros();
            let mut scale = 0.0;
            if total.is_finite() {
                for (p, m, i) in &parts {
                    let o = b.off + p;
                    expected += i + (M::identity() * o.norm_squared() - o * o.transpose()) * *m;
                    scale += i.norm() + m * (o.norm() + slip).powi(2);
                }
            }
            let r = b.q.to_rotation_matrix();
            let expected = r.matrix() * expected * r.matrix().transpose();
            let tolerance = 2e-3 * scale + 1e-9;
            if !((actual - expected).norm() <= tolerance) {
                return bad("inertia", format!("e{} has inertia {:?} instead of {:?}", id, actual, expected));
            }
            // The place of the local frame.
            if let Some(p) = c.pre.ents.get(id) {
                let before = Body::of(p);
                let (expected_origin, expected_q) = match c.op {
                    Op::Step { .. } => continue,
                    Op::UpdEnt { .. } if c.out.target == Some(*id) && c.out.ret == Ret::Ok => {
                        let w = c.out.wrote_ent.as_ref().unwrap();
                        let q = Q::from_scaled_axis(da(&w.rot));
                        (da(&w.pos) + q * before.off, q)
                    }
                    _ => (before.pos + before.q * before.off, before.q),
                };
                let origin = b.pos + b.q * b.off;
                let reach = extent + before.off.norm() + b.pos.norm() + before.pos.norm();
                if reach.is_finite() && da(&[0.0; 3]).norm() == 0.0 && expected_origin.norm() < 1e4 {
                    if !((origin - expected_origin).norm() <= 1e-4 * (1.0 + reach)) {
                        return bad("frame-moved", format!("{} moved the local frame of e{} from {:?} to {:?}", c.op.text(), id, expected_origin, origin));
                    }
                    if !(angle(&b.q, &expected_q) < 2e-3) {
                        return bad("frame-turned", format!("{} turned e{}", c.op.text(), id));
                    }
                }
            }
        }
        Ok(())
    }
}
