//! C22: a mesh is what the faces that reached it say, however they were delivered.
//!
//! Every mesh of an execution is built by a client whose faces come through a bad channel: they get duplicated, arrive again
//! with a rounding error or the other way around, come late, and get corrupted on the way (which the mesh has to refuse).
//! The counts are checked against a set model after each delivery, and the world has to evolve as one whose meshes were built without any of that.

use crate::check::*;
use crate::ops::*;
use crate::oracle_diff::{account, apart, same_trace, worst, trace, Options};
use crate::rng::{mix, Rng};
use crate::world::*;
use fluffy_tribble::{ColliderWrapper, MeshCollider, PhysicsSystem};
use fluffy_tribble::types::Vec3;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;

thread_local! {
    static KEY: Cell<Option<u64>> = Cell::new(None);
    static TROUBLE: RefCell<Option<Violation>> = RefCell::new(None);
    static COUNTS: RefCell<Vec<(&'static str, u64)>> = RefCell::new(vec![]);
}

/// Whether faces are being delivered badly, and how.
pub fn faulty() -> Option<u64> { KEY.with(|k| k.get()) }

pub fn set_faulty(key: Option<u64>) { KEY.with(|k| k.set(key)); TROUBLE.with(|t| *t.borrow_mut() = None); COUNTS.with(|c| c.borrow_mut().clear()); }

pub fn trouble() -> Option<Violation> { TROUBLE.with(|t| t.borrow_mut().take()) }

pub fn counted() -> Vec<(&'static str, u64)> { COUNTS.with(|c| std::mem::take(&mut *c.borrow_mut())) }

fn count(name: &'static str) { COUNTS.with(|c| c.borrow_mut().push((name, 1))) }

fn complain(class: &str, text: String) {
    TROUBLE.with(|t| { let mut t = t.borrow_mut(); if t.is_none() { *t = Some(Violation { class: class.to_string(), text }); } })
}

/// What a mesh should be made of.
#[derive(Default)]
struct Model { points: Vec<A3>, edges: BTreeSet<(usize, usize)>, faces: usize }

impl Model {
    fn add(&mut self, face: &[A3]) {
        let ids: Vec<usize> = face.iter().map(|p| match self.points.iter().position(|q| q == p) { Some(i) => i, None => { self.points.push(*p); self.points.len() - 1 } }).collect();
        for (i, a) in ids.iter().enumerate() {
            let b = ids[(i + 1) % ids.len()];
            self.edges.insert((*a.min(&b), *a.max(&b)));
        }
        self.faces += 1;
    }
    fn counts(&self) -> (usize, usize, usize) { (self.faces, self.edges.len(), self.points.len()) }
}

fn counts(m: &MeshCollider) -> (usize, usize, usize) { (m.face_count(), m.edge_count(), m.vertex_count()) }

fn accepted(mesh: &mut MeshCollider, face: &[A3]) -> bool {
    let points: Vec<Vec3> = face.iter().map(v3).collect();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mesh.add_face(&points))).is_ok()
}

/// Something no mesh may take.
fn corrupted(face: &[A3], rng: &mut Rng) -> (&'static str, Vec<A3>) {
    let mut f = face.to_vec();
    let k = rng.below(f.len() as u64) as usize;
    let c: A3 = { let mut c = [0.0; 3]; for p in face { for i in 0..3 { c[i] += p[i] / face.len() as f32; } } c };
    match rng.below(8) {
        0 => { f.truncate(rng.below(3) as usize); ("cut short", f) }
        1 => { let i = rng.below(3) as usize; f[k][i] = f32::NAN; ("not a number", f) }
        2 => { let i = rng.below(3) as usize; f[k][i] = f32::INFINITY; ("infinite", f) }
        // The same corner twice in a row.
        3 => { let p = f[k]; f.insert(k, p); ("doubled corner", f) }
        // There and back.
4 => { let (p, q) = (f[0], f[1]); f = vec![p, q, p]; ("no area", f) }
        // A corner pulled through the middle to the other side: not convex anymore.
        5 if f.len() == 3 || f.len() == 4 => {
            if f.len() == 3 { let p = f[0]; f.insert(1, [c[0] * 0.97 + p[0] * 0.03, c[1] * 0.97 + p[1] * 0.03, c[2] * 0.97 + p[2] * 0.03]); }
            else { let (a, b) = (f[(k + 1) % 4], f[(k + 3) % 4]); let opposite = f[(k + 2) % 4]; for i in 0..3 { f[k][i] = (a[i] + b[i]) / 2.0 + (opposite[i] - (a[i] + b[i]) / 2.0) * 0.4; } }
            ("dented", f)
        }
        // A corner out of the plane.
        6 if f.len() >= 4 => {
            let (u, v): (Vec<f32>, Vec<f32>) = ((0..3).map(|i| f[1][i] - f[0][i]).collect(), (0..3).map(|i| f[2][i] - f[0][i]).collect());
            let n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]];
            let l = (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt();
            let size = (u.iter().map(|x| x * x).sum::<f32>()).sqrt();
            let s = rng.f(0.2, 1.0) * if rng.chance(0.5) { 1.0 } else { -1.0 };
            for i in 0..3 { f[k][i] += n[i] / l * size * s; }
            ("not flat", f)
        }
        // Two neighbouring corners swapped: the sides cross each other.
        _ if f.len() >= 4 => { let n = f.len(); f.swap(k, (k + 1) % n); ("crossed", f) }
        _ => { f.truncate(2); ("cut short", f) }
    }
}

/// Builds the mesh the hard way.
pub fn deliver(spec: &ColSpec, key: u64) -> MeshCollider {
    let mut rng = Rng::new(mix(&[key, spec.a[0].to_bits() as u64, spec.a[1].to_bits() as u64, spec.a[2].to_bits() as u64, spec.b[0].to_bits() as u64, spec.b[1].to_bits() as u64]));
    let mut mesh = MeshCollider::new();
    let mut model = Model::default();
    let faces = spec.faces();
    if counts(&mesh) != (0, 0, 0) || mesh.is_valid() { complain("not-empty", format!("a new mesh has {:?} faces, edges, vertices", counts(&mesh))); }
    let bad_channel = *rng.pick(&[0.05, 0.2, 0.5]);
    let storage = rng.chance(0.4);
    let duplicates = duplicating(key);
    for (i, face) in faces.iter().enumerate() {
        // Corrupted on the way, before the sender tries again.
        while rng.chance(bad_channel) {
            let (how, broken) = corrupted(face, &mut rng);
            count("fault corrupted face");
            if accepted(&mut mesh, &broken) { complain("accepted-bad-face", format!("{:?} ({}, made from {:?}) was accepted", broken, how, face)); }
            if counts(&mesh) != model.counts() { complain("half-accepted", format!("after refusing {:?} ({}) the mesh has {:?} faces, edges, vertices instead of {:?}", broken, how, counts(&mesh), model.counts())); }
        }
        if !accepted(&mut mesh, face) { complain("refused-good-face", format!("{:?} was refused", face)); continue; }
        model.add(face);
        if counts(&mesh) != model.counts() { complain("counts", format!("after {:?} the mesh has {:?} faces, edges, vertices instead of {:?}", face, counts(&mesh), model.counts())); }
        if !mesh.is_valid() { complain("invalid", format!("a mesh of {:?} faces, edges, vertices says it isn't valid", counts(&mesh))); }
        // Delivered again: now or later, from another corner on, the other way around, with rounding errors.
        while duplicates && rng.chance(bad_channel) {
            let mut again = faces[rng.below(i as u64 + 1) as usize].clone();
            let known = again.clone();
            let n = again.len() as u64;
            if rng.chance(0.5) { again.rotate_left(rng.below(n) as usize); }
            if rng.chance(0.3) { again.reverse(); }
            if rng.chance(0.3) { for p in again.iter_mut() { for x in p.iter_mut() { if x.abs() < 2.0 && rng.chance(0.5) { *x += 1e-7; } } } }
            count("fault duplicated face");
            if !accepted(&mut mesh, &again) { complain("refused-good-face", format!("{:?} was refused when it came again", again)); continue; }
            model.add(&known);
            if counts(&mesh) != model.counts() { complain("counts", format!("after {:?} came again the mesh has {:?} faces, edges, vertices instead of {:?}", again, counts(&mesh), model.counts())); }
        }
        // Put away into a world and fetched again.
        if storage && rng.chance(0.3) {
            count("fault mesh stored and fetched");
            let mut ps = PhysicsSystem::new();
            match ps.add_collider(ColliderWrapper::Mesh(mesh)) {
                Ok(h) => match ps.get_collider(h) { Some(ColliderWrapper::Mesh(m)) => mesh = m, _ => { complain("lost", "a mesh that was stored isn't there".into()); return build_plain(spec); } },
                Err(_) => { complain("refused-mesh", format!("a mesh of {:?} faces, edges, vertices was refused", model.counts())); return build_plain(spec); }
            }
            if counts(&mesh) != model.counts() { complain("counts", format!("a mesh that was stored comes back with {:?} faces, edges, vertices instead of {:?}", counts(&mesh), model.counts())); }
        }
    }
    mesh
}

fn build_plain(spec: &ColSpec) -> MeshCollider {
    let mut mesh = MeshCollider::new();
    for face in spec.faces() { let _ = accepted(&mut mesh, &face); }
    mesh
}

fn duplicating(key: u64) -> bool { key & 1 == 1 }

pub fn meshes(seed: u64, evs: &[Ev], stats: &mut Stats) -> Result<(), Violation> {
    let key = mix(&[seed, 22]);
    let plain = trace(evs, &Options { hash_seed: mix(&[seed, 1]), faceless: true, ..Options::default() });
    account(evs, &plain, stats);
    if let Some(v) = plain.failure { return Err(v); }
    let other = trace(evs, &Options { hash_seed: mix(&[seed, 1]), faceless: true, meshes: Some(key), ..Options::default() });
    account(evs, &other, stats);
    for (name, n) in &other.counted { stats.count(name, *n); }
    if let Some(v) = other.failure { return Err(v); }
    stats.evals += evs.len() as u64;
    let what = "meshes built of the same faces, but delivered through a bad channel";
    let r = same_trace(&plain, &other, evs, what);
    // Faces that are there twice count twice where contacts get averaged. So it has to be the same only up to rounding then.
    if r.is_err() && duplicating(key) {
        if let Some(i) = (0..plain.obs.len().min(other.obs.len())).find(|i| plain.obs[*i].digest() != other.obs[*i].digest()) {
            let (a, b) = (&plain.obs[i], &other.obs[i]);
            stats.count("probe duplicated face made a difference", 1);
            let cut = |o: &Obs| o.recs.len() >= o.iterations as usize;
            let speed = a.ents.values().map(|e| (e.vel.norm() + e.ang.norm()) as f64).fold(1.0, f64::max);
            let dt = match evs[i].op { Op::Step { dt } => 1.0 + dt.abs() as f64, _ => 1.0 };
            if worst(&apart(a, b)) < 1e-2 * speed * dt || cut(a) || cut(b) || a.recs.len().max(b.recs.len()) > 3 || a.ents.values().any(|e| !crate::frame::sane(e)) { return Ok(()); }
        }
    }
    r
}
