//! C21: at every instant of every history, what the system says about a body's pose is one rigid motion.

use crate::check::*;
use crate::frame::sane;
use crate::ops::*;
use crate::phys::*;
use crate::rng::{mix, Rng};
use crate::world::*;
use fluffy_tribble::types::Vec3;
use fluffy_tribble::Orientation;
use nalgebra::Quaternion;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Poses {
    /// The poses after the event before.
    last: BTreeMap<u32, Orientation>,
}

/// A pose in double precision.
struct Pose { pos: V, q: Q, off: V }

impl Pose {
    fn of(o: &Orientation) -> Pose {
        let c = o.rotation.coords;
        Pose { pos: d(&o.position), q: Q::from_quaternion(Quaternion::new(c[3] as f64, c[0] as f64, c[1] as f64, c[2] as f64)), off: d(&o.internal_origin_offset) }
    }
    fn world(&self, p: &V) -> V { self.pos + self.q * (self.off + p) }
    fn local(&self, p: &V) -> V { self.q.inverse() * (p - self.pos) - self.off }
    fn size(&self) -> f64 { self.pos.norm() + self.off.norm() }
}

fn unit(o: &Orientation) -> f64 {
    let c = o.rotation.coords;
    (0..4).map(|i| (c[i] as f64).powi(2)).sum::<f64>().sqrt()
}

/// Whether an orientation is the given pose.
fn same(o: &Orientation, r: &Pose, slack: f64) -> Result<(), String> {
    let size = 1e-6 + r.size() + slack;
    if !((unit(o) - 1.0).abs() < 1e-5) { return Err(format!("its rotation has length {:?}", unit(o))); }
    let p = Pose::of(o);
    if !((p.pos - r.pos).norm() <= 1e-6 * size) { return Err(format!("its position is {:?} instead of {:?}", p.pos, r.pos)); }
    if !(angle(&p.q, &r.q) <= 2e-5) { return Err(format!("its rotation is off by {:?}", angle(&p.q, &r.q))); }
    if !((p.off - r.off).norm() <= 1e-6 * size) { return Err(format!("its offset is {:?} instead of {:?}", p.off, r.off)); }
    Ok(())
}

/// Whether what an orientation does to points and directions is what the pose does.
fn acts(o: &Orientation, r: &Pose, rng: &mut Rng) -> Result<(), String> {
    for k in 0..3 {
        let reach = *rng.pick(&[0.1, 1.0, 30.0]);
        let p = if k == 0 { [0.0; 3] } else { rng.vec(reach) };
        let (f, p) = (Vec3::new(p[0], p[1], p[2]), da(&p));
        let tol = 4e-6 * (r.size() + p.norm()) + 1e-7;
        let (there, back) = (d(&o.position_into_world(&f)), d(&o.position_into_local(&f)));
        if !((there - r.world(&p)).norm() <= tol) { return Err(format!("position_into_world({:?}) is {:?} instead of {:?}", p, there, r.world(&p))); }
        if !((back - r.local(&p)).norm() <= tol) { return Err(format!("position_into_local({:?}) is {:?} instead of {:?}", p, back, r.local(&p))); }
        let round = d(&o.position_into_local(&o.position_into_world(&f)));
        if !((round - p).norm() <= 2.0 * tol) { return Err(format!("{:?} comes back from the world as {:?}", p, round)); }
        let round = d(&o.position_into_world(&o.position_into_local(&f)));
        if !((round - p).norm() <= 2.0 * tol) { return Err(format!("{:?} comes back from local space as {:?}", p, round)); }
        let tol = 4e-6 * p.norm() + 1e-9;
        let (there, back) = (d(&o.direction_into_world(&f)), d(&o.direction_into_local(&f)));
        if !((there - r.q * p).norm() <= tol) { return Err(format!("direction_into_world({:?}) is {:?} instead of {:?}", p, there, r.q * p)); }
        if !((back - r.q.inverse() * p).norm() <= tol) { return Err(format!("direction_into_local({:?}) is {:?} instead of {:?}", p, back, r.q.inverse() * p)); }
        if k == 0 {
            let origin = d(&o.local_origin_in_world());
            if !((origin - r.world(&p)).norm() <= 4e-6 * r.size() + 1e-7) { return Err(format!("local_origin_in_world() is {:?} instead of {:?}", origin, r.world(&p))); }
        }
    }
    let v = d(&o.rotation_vec());
    if !(angle(&Q::from_scaled_axis(v), &r.q) <= 2e-5) { return Err(format!("rotation_vec() is {:?}, off by {:?}", v, angle(&Q::from_scaled_axis(v), &r.q))); }
    Ok(())
}

impl Checker for Poses {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        if c.out.ret == Ret::Skipped { return Ok(()); }
        let mut now = BTreeMap::new();
        for (id, seen) in &c.post.ents {
            if !sane(seen) { continue; }
            // In long histories most of the bodies most of the time will do.
            let mut rng = Rng::new(mix(&[c.index as u64, *id as u64, 21]));
            let e = match c.world.ps.get_entity(c.world.ents[id].handle) { Some(e) => e, None => continue };
            let o = *e.get_last_orientation();
            now.insert(*id, o);
            if c.index > 150 && !rng.chance(0.1) { continue; }
            stats.evals += 1;
            let r = Pose::of(&o);
            if !((unit(&o) - 1.0).abs() < 1e-5) { return bad("not-a-rotation", format!("e{}'s rotation has length {:?}", id, unit(&o))); }
            if e.position != o.position { return bad("copies-differ", format!("e{} is at {:?} but its orientation says {:?}", id, e.position, o.position)); }
            if let Err(s) = acts(&o, &r, &mut rng) { return bad("not-rigid", format!("e{}'s orientation {:?}: {}", id, o, s)); }
            // The copy's own numbers say the same.
            let made = e.make_orientation();
            if let Err(s) = same(&made, &r, 0.0) { return bad("copies-differ", format!("e{}'s copy makes an orientation: {}", id, s)); }
            // Moving on from here.
            let (lin, ang) = (rng.vec(2.0), { let w = rng.logf(1e-4, 12.0); let k = rng.dir(); [k[0] * w, k[1] * w, k[2] * w] });
            let (flin, fang) = (Vec3::new(lin[0], lin[1], lin[2]), Vec3::new(ang[0], ang[1], ang[2]));
            let moved = Pose { pos: r.pos + da(&lin), q: Q::from_scaled_axis(da(&ang)) * r.q, off: r.off };
            let after = o.after_affected(&flin, &fang);
            if let Err(s) = same(&after, &moved, da(&lin).norm()) { return bad("moved", format!("e{}'s orientation after {:?} and {:?}: {}", id, lin, ang, s)); }
            if let Err(s) = acts(&after, &Pose::of(&after), &mut rng) { return bad("not-rigid", format!("e{}'s orientation after {:?} and {:?}: {}", id, lin, ang, s)); }
            let mut own = o;
            own.affect_with(&flin, &fang);
            if let Err(s) = same(&own, &Pose::of(&after), 0.0) { return bad("moved", format!("e{}'s orientation, affected by {:?} and {:?} in place: {}", id, lin, ang, s)); }
            // A client's edited copy.
            let mut edited = e.clone();
            edited.position = flin;
            edited.rotation = fang;
            let written = Pose { pos: da(&lin), q: Q::from_scaled_axis(da(&ang)), off: r.off };
            if let Err(s) = same(&edited.make_orientation(), &written, 0.0) { return bad("edited", format!("e{}'s copy, moved to {:?} and turned to {:?}, makes an orientation: {}", id, lin, ang, s)); }
            if let Err(s) = same(edited.get_last_orientation(), &r, 0.0) { return bad("edited", format!("e{}'s copy, edited, has a last orientation: {}", id, s)); }
            let (was, is) = (dm(&e.get_last_moment_of_inertia()), dm(&edited.get_last_moment_of_inertia()));
            let turn = (written.q * r.q.inverse()).to_rotation_matrix();
            let expected = turn * was * turn.transpose();
            if was.norm().is_finite() && !((is - expected).norm() <= 1e-5 * was.norm() + 1e-20) { return bad("edited", format!("e{}'s copy, turned to {:?}, has inertia {:?} instead of {:?}", id, ang, is, expected)); }
            // Between the pose before the event and the one after it.
            if let Some(before) = self.last.get(id) {
                let b = Pose::of(before);
                let delta = (r.q * b.q.inverse()).scaled_axis();
                if delta.norm() < 3.1 {
                    let some = rng.f(0.0, 1.0);
                    for t in [0.0f32, 1.0, some] {
                        let s = t as f64;
                        let between = Pose { pos: b.pos * (1.0 - s) + r.pos * s, q: Q::from_scaled_axis(delta * s) * b.q, off: b.off };
                        let l = Orientation::lerp(t, before, &o);
                        if let Err(e) = same(&l, &between, b.size() + r.size()) { return bad("between", format!("e{}'s orientation at {:?} between {:?} and {:?}: {}", id, t, before, o, e)); }
                        if let Err(e) = acts(&l, &Pose::of(&l), &mut rng) { return bad("not-rigid", format!("e{}'s orientation at {:?} between {:?} and {:?}: {}", id, t, before, o, e)); }
                    }
                    stats.count("probe pose changed by an event", (delta.norm() > 1e-4) as u64);
                }
            }
        }
        self.last = now;
        Ok(())
    }
}
