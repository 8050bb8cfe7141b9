//! Runs events against the real `PhysicsSystem`, next to a small model of which objects should exist, and takes observations through the public interface only.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use fluffy_tribble::types::{Mat3, Vec3};
use fluffy_tribble::*;

use crate::env;
use crate::ops::*;

pub const UNKNOWN: u32 = 4_000_000_000;

pub fn v3(a: &A3) -> Vec3 {
    Vec3::new(a[0], a[1], a[2])
}
pub fn a3(v: &Vec3) -> A3 {
    [v.x, v.y, v.z]
}

// ---------------------------------------------------------------------------------------------
// Force generators.

#[derive(Clone, Debug)]
pub struct Call {
    pub gen: u32,
    pub ent: EntityHandle,
    pub dt: f32,
    pub force: Vec3,
    pub point: Vec3,
    /// The center of mass as seen from within the callback.
    pub center: Option<Vec3>,
}

/// What the simulator and the force generators share.
#[derive(Debug, Default)]
pub struct Control {
    pub calls: Vec<Call>,
    pub crash_at: Option<u32>,
    pub crashed: bool,
    pub poison: Option<(EntityHandle, u8)>,
    pub poisoned: u64,
    pub frame: u32,
    /// Everything that should be visible from within a callback, with its position before the frame.
    pub roster: Vec<(EntityHandle, Vec3)>,
    pub collider_roster: Vec<ColliderHandle>,
    pub dead: Vec<EntityHandle>,
    pub anomalies: Vec<String>,
}

#[derive(Debug)]
pub struct SimGen {
    pub id: u32,
    pub spec: GenSpec,
    pub control: Rc<RefCell<Control>>,
}

pub const CRASH: &str = "simulated crash of a force callback";

fn same(a: &Vec3, b: &Vec3) -> bool {
    (0..3).all(|i| a[i].to_bits() == b[i].to_bits() || (a[i].is_nan() && b[i].is_nan()))
}

impl UnaryForceGenerator for SimGen {
    fn make_force(&mut self, dt: f32, physics: &PhysicsSystem, entity: EntityHandle) -> Force {
        let mut control = self.control.borrow_mut();
        let index = control.calls.len() as u32;
        let seen = physics.get_entity(entity);
        let (center, velocity, mass) = match &seen {
            Some(e) => (e.position, e.velocity, e.get_last_total_mass()),
            None => (Vec3::zeros(), Vec3::zeros(), 0.0),
        };
        if index % 3 == 0 {
            let mut anomalies = Vec::new();
            for (handle, position) in &control.roster {
                match physics.get_entity(*handle) {
                    None => anomalies.push(format!("entity {:?} is missing inside a force callback", handle)),
                    Some(e) => {
                        if !same(&e.position, position) {
                            anomalies.push(format!("entity {:?} already moved from {:?} to {:?} inside a force callback", handle, position, e.position));
                        }
                    }
                }
            }
            for handle in &control.collider_roster {
                if physics.get_collider(*handle).is_none() {
                    anomalies.push(format!("collider {:?} is missing inside a force callback", handle));
                }
            }
            for handle in &control.dead {
                if physics.get_entity(*handle).is_some() {
                    anomalies.push(format!("removed entity {:?} is visible inside a force callback", handle));
                }
            }
            control.anomalies.extend(anomalies);
        }
        let (mut force, mut point) = match &self.spec {
            GenSpec::Const { force, offset } => (v3(force), center + v3(offset)),
            GenSpec::Drag { k } => (velocity * -*k, center),
            GenSpec::Spring { k, anchor, offset } => ((v3(anchor) - center) * *k, center + v3(offset)),
            GenSpec::Wave { force, offset } => (v3(force) * (((control.frame % 7) as f32) - 3.0), center + v3(offset)),
            GenSpec::Gravity { g } => (v3(g) * mass, center),
            GenSpec::RealGravity { g } => (v3(g) * mass, center),
            GenSpec::Pin { force, point } => (v3(force), v3(point)),
        };
        if let Some((target, how)) = control.poison {
            if target == entity {
                control.poisoned += 1;
                match how {
                    0 => force.y = f32::NAN,
                    1 => force.x = f32::INFINITY,
                    2 => point.z = f32::NAN,
                    3 => force = Vec3::new(f32::NAN, f32::NAN, f32::NAN),
                    4 => point.x = f32::NEG_INFINITY,
                    5 => force.y = -3e38,
                    6 => force = Vec3::new(1e30, -1e25, 1e20),
                    _ => point.y = 1e30,
                }
            }
        }
        control.calls.push(Call { gen: self.id, ent: entity, dt, force, point, center: seen.map(|e| e.position) });
        if control.crash_at == Some(index) {
            control.crashed = true;
            control.crash_at = None;
            drop(control);
            std::panic::panic_any(CRASH);
        }
        Force::new(force, point)
    }
}

// ---------------------------------------------------------------------------------------------
// Observations.

#[derive(Clone, Debug)]
pub struct EntObs {
    pub id: u32,
    pub handle: EntityHandle,
    pub pos: Vec3,
    /// x, y, z, w
    pub quat: [f32; 4],
    pub rot: Vec3,
    pub vel: Vec3,
    pub ang: Vec3,
    pub own: f32,
    pub total: f32,
    pub off: Vec3,
    pub inertia: Mat3,
    pub energy: f32,
    pub asleep: bool,
    pub cols: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ColObs {
    pub kind: Kind,
    pub link: Option<u32>,
    /// As read back (a and b mean nothing for meshes).
    pub spec: ColSpec,
    pub counts: (usize, usize, usize),
    pub moment: Option<[f32; 9]>,
}

#[derive(Clone, Debug)]
pub struct RecObs {
    pub a: u32,
    pub b: u32,
    pub pos: Vec3,
    pub time: f32,
    pub n: Vec3,
    pub e: f32,
    pub j: f32,
}

#[derive(Clone, Debug, Default)]
pub struct Obs {
    pub ents: BTreeMap<u32, EntObs>,
    pub cols: BTreeMap<u32, ColObs>,
    pub recs: Vec<RecObs>,
    pub iterations: u8,
    pub energy_threshold: f32,
    pub delay: f32,
}

pub struct Hash(pub u64);
impl Hash {
    pub fn new() -> Hash { Hash(0xcbf2_9ce4_8422_2325) }
    pub fn u(&mut self, x: u64) {
        self.0 ^= x;
        self.0 = self.0.wrapping_mul(0x0000_0100_0000_01B3);
        self.0 ^= self.0 >> 29;
    }
    pub fn f(&mut self, x: f32) {
        self.u(if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() } as u64 + 1);
    }
    pub fn v(&mut self, x: &Vec3) {
        for i in 0..3 { self.f(x[i]) }
    }
}

impl EntObs {
    pub fn hash(&self, h: &mut Hash, with_handle: bool) {
        h.u(self.id as u64);
        if with_handle {
            let (i, g) = self.handle.into_raw_parts();
            h.u(i as u64);
            h.u(g);
        }
        h.v(&self.pos);
        h.v(&self.rot);
        for q in &self.quat { h.f(*q) }
        h.v(&self.vel);
        h.v(&self.ang);
        h.f(self.own);
        h.f(self.total);
        h.v(&self.off);
        for i in 0..9 { h.f(self.inertia[i]) }
        h.u(self.asleep as u64);
        for c in &self.cols { h.u(*c as u64 + 7) }
    }
    pub fn digest(&self) -> u64 {
        let mut h = Hash::new();
        self.hash(&mut h, true);
        h.0
    }
    pub fn finite(&self) -> bool {
        (0..3).all(|i| self.pos[i].is_finite() && self.vel[i].is_finite() && self.ang[i].is_finite() && self.rot[i].is_finite() && self.off[i].is_finite())
            && self.quat.iter().all(|q| q.is_finite()) && (0..9).all(|i| self.inertia[i].is_finite()) && !self.total.is_nan()
    }
}

impl ColObs {
    pub fn digest(&self) -> u64 {
        let mut h = Hash::new();
        let s = &self.spec;
        h.u(self.kind as u64);
        h.u(self.link.map(|x| x as u64 + 1).unwrap_or(0));
        for x in [s.pos, s.a, s.b] { for y in x { h.f(y) } }
        for x in [s.mass, s.rest, s.fthr, s.fs, s.fd] { h.f(x) }
        h.u(self.counts.0 as u64);
        h.u(self.counts.1 as u64);
        h.u(self.counts.2 as u64);
        if let Some(m) = &self.moment { for x in m { h.f(*x) } }
        h.0
    }
}

impl Obs {
    pub fn records_digest(&self) -> u64 {
        let mut h = Hash::new();
        for r in &self.recs {
            h.u(r.a as u64);
            h.u(r.b as u64);
            h.v(&r.pos);
            h.v(&r.n);
            h.f(r.time);
            h.f(r.e);
            h.f(r.j);
        }
        h.0
    }
    pub fn digest(&self) -> u64 {
        let mut h = Hash::new();
        for (_, e) in &self.ents { h.u(e.digest()) }
        for (id, c) in &self.cols { h.u(*id as u64); h.u(c.digest()) }
        h.u(self.records_digest());
        h.u(self.iterations as u64);
        h.f(self.energy_threshold);
        h.f(self.delay);
        h.0
    }
    /// A coarse summary, for counting how many different situations were met.
    pub fn shape(&self) -> u64 {
        let mut h = Hash::new();
        for (_, e) in &self.ents {
            h.u(e.asleep as u64 + 2 * (e.total.is_infinite() as u64));
            h.u(e.cols.len() as u64);
        }
        for r in &self.recs { h.u((r.a as u64) << 32 | r.b as u64) }
        h.0
    }
}

// ---------------------------------------------------------------------------------------------
// The model of which objects exist.

#[derive(Clone, Debug)]
pub struct MEnt {
    pub handle: EntityHandle,
    pub live: bool,
    pub own: f32,
    pub cols: BTreeSet<u32>,
}
#[derive(Clone, Debug)]
pub struct MCol {
    pub handle: ColliderHandle,
    pub live: bool,
    /// As last accepted (with normals and corners as written).
    pub spec: ColSpec,
    pub link: Option<u32>,
}
#[derive(Clone, Debug)]
pub struct MGen {
    pub handle: UnaryForceGeneratorHandle,
    pub live: bool,
    pub spec: GenSpec,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ret {
    /// The event referred to something that was never there (e.g. its creation was dropped).
    Skipped,
    Unit,
    Ok,
    Err,
    Bool(bool),
    /// A returned generator: its identity if it could be told.
    Gen(Option<u32>),
    NoGen,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub ret: Ret,
    /// What the model says should've been returned.
    pub expect: Ret,
    pub panic: Option<String>,
    /// A simulated callback crash reached the caller.
    pub crashed: bool,
    pub target: Option<u32>,
    pub wrote_ent: Option<EntSpec>,
    pub wrote_col: Option<ColSpec>,
    pub calls: Vec<Call>,
    pub anomalies: Vec<String>,
}

impl Outcome {
    fn new(ret: Ret, expect: Ret) -> Outcome {
        Outcome { ret, expect, panic: None, crashed: false, target: None, wrote_ent: None, wrote_col: None, calls: vec![], anomalies: vec![] }
    }
}

pub struct World {
    pub ps: PhysicsSystem,
    pub ents: BTreeMap<u32, MEnt>,
    pub cols: BTreeMap<u32, MCol>,
    pub gens: BTreeMap<u32, MGen>,
    pub ent_ids: BTreeMap<EntityHandle, u32>,
    pub col_ids: BTreeMap<ColliderHandle, u32>,
    pub slots: BTreeMap<u32, (u32, Entity)>,
    pub col_slots: BTreeMap<u32, (ColSpec, Option<ColliderWrapper>)>,
    pub control: Rc<RefCell<Control>>,
    /// Set when the same handle was handed out twice while live (or ever).
    pub handle_reuse: Option<String>,
}

pub fn build_mesh(spec: &ColSpec) -> MeshCollider {
    if let Some(key) = crate::oracle_build::faulty() { return crate::oracle_build::deliver(spec, key); }
    let mut mesh = MeshCollider::new();
    for face in spec.faces() {
        mesh.add_face(&face.iter().map(|p| v3(p)).collect());
    }
    mesh
}

/// Writes the masked fields of the spec into the wrapper.
pub fn write_fields(w: &mut ColliderWrapper, spec: &ColSpec, mask: u8) {
    macro_rules! common {
        ($c:expr) => {
            if mask & F_REST != 0 { $c.restitution_coefficient = spec.rest; }
            if mask & F_FRIC != 0 {
                $c.friction_threshold = spec.fthr;
                $c.static_friction_coefficient = spec.fs;
                $c.dynamic_friction_coefficient = spec.fd;
            }
        };
    }
    match w {
        ColliderWrapper::Null(c) => {
            if mask & F_POS != 0 { c.position = v3(&spec.pos); }
            if mask & F_MASS != 0 { c.mass = spec.mass; }
            if mask & F_A != 0 { c.moment_of_inertia = null_moment(spec); }
        }
        ColliderWrapper::Sphere(c) => {
            if mask & F_POS != 0 { c.center = v3(&spec.pos); }
            if mask & F_MASS != 0 { c.mass = spec.mass; }
            if mask & F_A != 0 { c.radius = spec.a[0]; }
            common!(c);
        }
        ColliderWrapper::Plane(c) => {
            if mask & F_POS != 0 { c.position = v3(&spec.pos); }
            if mask & F_MASS != 0 { c.mass = spec.mass; }
            if mask & F_A != 0 { c.normal = v3(&spec.a); }
            common!(c);
        }
        ColliderWrapper::Mesh(c) => {
            if mask & F_POS != 0 { c.position = v3(&spec.pos); }
            common!(c);
        }
        ColliderWrapper::AlignedBox(c) => {
            if mask & F_POS != 0 { c.position = v3(&spec.pos); }
            if mask & F_MASS != 0 { c.mass = spec.mass; }
            if mask & F_A != 0 { c.min_corner = v3(&spec.a); c.max_corner = v3(&spec.b); }
            common!(c);
        }
    }
}

pub fn null_moment(spec: &ColSpec) -> Mat3 {
    Mat3::new(
        spec.a[0], spec.b[0], spec.b[1],
        spec.b[0], spec.a[1], spec.b[2],
        spec.b[1], spec.b[2], spec.a[2],
    )
}

pub fn build(spec: &ColSpec) -> ColliderWrapper {
    let mut w = match spec.kind {
        Kind::Null => ColliderWrapper::Null(NullCollider::new()),
        Kind::Sphere => ColliderWrapper::Sphere(SphereCollider::new(spec.a[0])),
        Kind::Plane => ColliderWrapper::Plane(PlaneCollider::new()),
        Kind::Mesh => ColliderWrapper::Mesh(build_mesh(spec)),
        Kind::Box => ColliderWrapper::AlignedBox(AlignedBoxCollider::new()),
    };
    write_fields(&mut w, spec, 255);
    w
}

/// Reads a wrapper back into a spec (geometry of meshes excepted).
pub fn read_wrapper(w: &ColliderWrapper) -> (ColSpec, Option<EntityHandle>, (usize, usize, usize), Option<[f32; 9]>) {
    macro_rules! common {
        ($s:ident, $c:ident) => {
            $s.rest = $c.restitution_coefficient;
            $s.fthr = $c.friction_threshold;
            $s.fs = $c.static_friction_coefficient;
            $s.fd = $c.dynamic_friction_coefficient;
        };
    }
    match w {
        ColliderWrapper::Null(c) => {
            let mut s = ColSpec::new(Kind::Null);
            s.pos = a3(&c.position);
            s.mass = c.mass;
            let m = c.moment_of_inertia;
            s.a = [m[(0, 0)], m[(1, 1)], m[(2, 2)]];
            s.b = [m[(0, 1)], m[(0, 2)], m[(1, 2)]];
            let mut all = [0.0; 9];
            for i in 0..9 { all[i] = m[i]; }
            (s, c.get_entity(), (0, 0, 0), Some(all))
        }
        ColliderWrapper::Sphere(c) => {
            let mut s = ColSpec::new(Kind::Sphere);
            s.pos = a3(&c.center);
            s.mass = c.mass;
            s.a[0] = c.radius;
            common!(s, c);
            (s, c.get_entity(), (0, 0, 0), None)
        }
        ColliderWrapper::Plane(c) => {
            let mut s = ColSpec::new(Kind::Plane);
            s.pos = a3(&c.position);
            s.mass = c.mass;
            s.a = a3(&c.normal);
            common!(s, c);
            (s, c.get_entity(), (0, 0, 0), None)
        }
        ColliderWrapper::Mesh(c) => {
            let mut s = ColSpec::new(Kind::Mesh);
            s.pos = a3(&c.position);
            common!(s, c);
            (s, c.get_entity(), (c.face_count(), c.edge_count(), c.vertex_count()), None)
        }
        ColliderWrapper::AlignedBox(c) => {
            let mut s = ColSpec::new(Kind::Box);
            s.pos = a3(&c.position);
            s.mass = c.mass;
            s.a = a3(&c.min_corner);
            s.b = a3(&c.max_corner);
            common!(s, c);
            (s, c.get_entity(), (0, 0, 0), None)
        }
    }
}

fn copy_wrapper(w: &ColliderWrapper) -> Option<ColliderWrapper> {
    if let ColliderWrapper::Mesh(_) = w { return None; }
    let (spec, _, _, _) = read_wrapper(w);
    Some(build(&spec))
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "panic".into() }
}

fn make_entity(base: Entity, mask: u8, spec: &EntSpec) -> (Entity, EntSpec) {
    let mut e = base;
    let (mut spec, nudged) = (spec.clone(), mask & F_NUDGE != 0);
    if nudged {
        // (Some are too small to make a difference, which is fine as well.)
        let bit = |a: &nalgebra::Vector3<f32>, b: &A3| [a.x + 1e-7 * b[0], a.y + 1e-7 * b[1], a.z + 1e-7 * b[2]];
        spec = EntSpec { pos: bit(&e.position, &spec.pos), rot: bit(&e.rotation, &spec.rot), vel: bit(&e.velocity, &spec.vel), ang: bit(&e.angular_velocity, &spec.ang), mass: e.own_mass * (1.0 + 1e-7 * spec.mass.abs()) };
    }
    let spec = &spec;
    if mask & F_POS != 0 { e.position = v3(&spec.pos); }
    if mask & F_ROT != 0 { e.rotation = v3(&spec.rot); }
    if mask & F_VEL != 0 { e.velocity = v3(&spec.vel); }
    if mask & F_ANG != 0 { e.angular_velocity = v3(&spec.ang); }
    if mask & F_MASS != 0 { e.own_mass = spec.mass; }
    let wrote = EntSpec { pos: a3(&e.position), rot: a3(&e.rotation), vel: a3(&e.velocity), ang: a3(&e.angular_velocity), mass: e.own_mass };
    (e, wrote)
}

impl World {
    pub fn new() -> World {
        World {
            ps: PhysicsSystem::new(),
            ents: BTreeMap::new(),
            cols: BTreeMap::new(),
            gens: BTreeMap::new(),
            ent_ids: BTreeMap::new(),
            col_ids: BTreeMap::new(),
            slots: BTreeMap::new(),
            col_slots: BTreeMap::new(),
            control: Rc::new(RefCell::new(Control::default())),
            handle_reuse: None,
        }
    }

    pub fn resolve(&self, sel: &Sel) -> Option<u32> {
        match sel {
            Sel::Id(id) => if self.ents.contains_key(id) { Some(*id) } else { None },
            Sel::Live(k) => {
                let live: Vec<u32> = self.ents.iter().filter(|(_, e)| e.live).map(|(i, _)| *i).collect();
                if live.is_empty() { None } else { Some(live[*k as usize % live.len()]) }
            }
            Sel::Asleep(k) => {
                let mut asleep = Vec::new();
                for (id, e) in &self.ents {
                    if !e.live { continue; }
                    if let Some(x) = self.ps.get_entity(e.handle) {
                        if x.was_asleep() && x.get_last_total_mass().is_finite() { asleep.push(*id); }
                    }
                }
                if asleep.is_empty() { None } else { Some(asleep[*k as usize % asleep.len()]) }
            }
            Sel::Hit(k) => {
                let n = self.ps.collision_records.len();
                if n == 0 { return None; }
                let r = &self.ps.collision_records[(*k as usize / 2) % n];
                self.ent_ids.get(if k % 2 == 0 { &r.first_entity } else { &r.second_entity }).cloned()
            }
        }
    }

    /// Which entity an event is about (if it can be told before running it).
    pub fn target_of(&self, op: &Op) -> Option<u32> {
        match op {
            Op::RmEnt { sel } | Op::UpdEnt { sel, .. } | Op::Snap { sel, .. } | Op::Poison { sel, .. } => self.resolve(sel),
            Op::Link { to: Some(sel), .. } => self.resolve(sel),
            _ => None,
        }
    }

    /// Runs one event. Never panics itself.
    pub fn exec(&mut self, op: &Op) -> Outcome {
        let result = catch_unwind(AssertUnwindSafe(|| self.exec_inner(op)));
        match result {
            Ok(outcome) => outcome,
            Err(p) => {
                let text = panic_text(p);
                let mut outcome = Outcome::new(Ret::Unit, Ret::Unit);
                let mut control = self.control.borrow_mut();
                if text == CRASH && control.crashed {
                    control.crashed = false;
                    outcome.crashed = true;
                    outcome.calls = std::mem::take(&mut control.calls);
                    outcome.anomalies = std::mem::take(&mut control.anomalies);
                } else {
                    outcome.panic = Some(text);
                }
                outcome
            }
        }
    }

    fn note_entity(&mut self, id: u32, handle: EntityHandle, own: f32) {
        if self.ent_ids.insert(handle, id).is_some() {
            self.handle_reuse = Some(format!("entity handle {:?} was handed out twice", handle));
        }
        self.ents.insert(id, MEnt { handle, live: true, own, cols: BTreeSet::new() });
    }

    fn exec_inner(&mut self, op: &Op) -> Outcome {
        match op {
            Op::AddEnt { id, spec } => {
                let (e, wrote) = make_entity(Entity::new(), 31, spec);
                self.add_ent(*id, e, wrote)
            }
            Op::AddEntFrom { id, from } => {
                let source = match self.resolve(from) { Some(x) => self.ents[&x].handle, None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                let e = match self.ps.get_entity(source) { Some(e) => e, None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                let (e, wrote) = make_entity(e, 0, &EntSpec::at([0.0; 3]));
                self.add_ent(*id, e, wrote)
            }
            Op::RmEnt { sel } => {
                let id = match self.resolve(sel) { Some(x) => x, None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                let handle = self.ents[&id].handle;
                let live = self.ents[&id].live;
                let removed = self.ps.remove_entity(handle);
                if live {
                    let m = self.ents.get_mut(&id).unwrap();
                    m.live = false;
                    for c in std::mem::take(&mut m.cols) {
                        let mc = self.cols.get_mut(&c).unwrap();
                        mc.live = false;
                        mc.link = None;
                    }
                }
                let mut o = Outcome::new(Ret::Bool(removed), Ret::Bool(live));
                o.target = Some(id);
                o
            }
            Op::Snap { slot, sel } => {
                let id = match self.resolve(sel) { Some(x) => x, None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                let live = self.ents[&id].live;
                let got = self.ps.get_entity(self.ents[&id].handle);
                let mut o = Outcome::new(Ret::Bool(got.is_some()), Ret::Bool(live));
                o.target = Some(id);
                if let Some(e) = got { self.slots.insert(*slot, (id, e)); }
                o
            }
            Op::UpdEnt { sel, base, mask, spec } => {
                let id = match self.resolve(sel) { Some(x) => x, None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                let handle = self.ents[&id].handle;
                let live = self.ents[&id].live;
                let base_entity = match base {
                    Base::Fresh => self.ps.get_entity(handle).unwrap_or_else(|| Entity::new()),
                    Base::New => Entity::new(),
                    Base::Slot(k) => match self.slots.get(k) { Some((_, e)) => e.clone(), None => return Outcome::new(Ret::Skipped, Ret::Skipped) },
                };
                let (e, wrote) = make_entity(base_entity, *mask, spec);
                let valid = wrote.mass >= 0.0;
                let ok = self.ps.update_entity(handle, e).is_ok();
                if live && valid { self.ents.get_mut(&id).unwrap().own = wrote.mass; }
                let mut o = Outcome::new(if ok { Ret::Ok } else { Ret::Err }, if live && valid { Ret::Ok } else { Ret::Err });
                o.target = Some(id);
                o.wrote_ent = Some(wrote);
                o
            }
            Op::AddCol { id, spec } => {
                let valid = spec.valid();
                let mut o = Outcome::new(Ret::Err, if valid { Ret::Ok } else { Ret::Err });
                if let Ok(handle) = self.ps.add_collider(build(spec)) {
                    o.ret = Ret::Ok;
                    if self.col_ids.insert(handle, *id).is_some() {
                        self.handle_reuse = Some(format!("collider handle {:?} was handed out twice", handle));
                    }
                    self.cols.insert(*id, MCol { handle, live: true, spec: spec.clone(), link: None });
                    o.wrote_col = Some(spec.clone());
                }
                o
            }
            Op::AddColFrom { id, from } => {
                let m = match self.cols.get(from) { Some(m) if m.live => m.clone(), _ => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                let copy = match self.ps.get_collider(m.handle) { Some(c) => c, None => return Outcome::new(Ret::Err, Ret::Ok) };
                let mut o = Outcome::new(Ret::Err, Ret::Ok);
                if let Ok(handle) = self.ps.add_collider(copy) {
                    o.ret = Ret::Ok;
                    if self.col_ids.insert(handle, *id).is_some() {
                        self.handle_reuse = Some(format!("collider handle {:?} was handed out twice", handle));
                    }
                    self.cols.insert(*id, MCol { handle, live: true, spec: m.spec.clone(), link: None });
                    o.wrote_col = Some(m.spec);
                }
                o
            }
            Op::RmCol { id } => {
                let m = match self.cols.get(id) { Some(m) => m.clone(), None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                self.ps.remove_collider(m.handle);
                if m.live {
                    let c = self.cols.get_mut(id).unwrap();
                    c.live = false;
                    c.link = None;
                    if let Some(e) = m.link { self.ents.get_mut(&e).unwrap().cols.remove(id); }
                }
                Outcome::new(Ret::Unit, Ret::Unit)
            }
            Op::SnapCol { slot, id } => {
                let m = match self.cols.get(id) { Some(m) => m.clone(), None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                let got = self.ps.get_collider(m.handle);
                let o = Outcome::new(Ret::Bool(got.is_some()), Ret::Bool(m.live));
                if let Some(w) = got { self.col_slots.insert(*slot, (m.spec, Some(w))); }
                o
            }
            Op::UpdCol { id, base, mask, spec } => {
                let m = match self.cols.get(id) { Some(m) => m.clone(), None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                let skipped = Outcome::new(Ret::Skipped, Ret::Skipped);
                let (base_spec, mut w) = match base {
                    Base::New => (spec.clone(), build(spec)),
                    Base::Fresh => match self.ps.get_collider(m.handle) {
                        Some(w) => (m.spec.clone(), w),
                        None => (spec.clone(), build(spec)),
                    },
                    Base::Slot(k) => match self.col_slots.get_mut(k) {
                        None => return skipped,
                        Some((s, stored)) => {
                            let copy = match stored.as_ref().and_then(copy_wrapper) {
                                Some(w) => w,
                                None => match stored.take() { Some(w) => w, None => build(s) },
                            };
                            (s.clone(), copy)
                        }
                    },
                };
                // The geometry of a mesh can only be replaced as a whole.
                let mut result = base_spec;
                let rebuilt = result.kind == Kind::Mesh && mask & F_A != 0 && spec.kind == Kind::Mesh;
                if mask & F_POS != 0 { result.pos = spec.pos; }
                if mask & F_A != 0 && (result.kind != Kind::Mesh || rebuilt) { result.a = spec.a; result.b = spec.b; }
                if mask & F_MASS != 0 { result.mass = spec.mass; }
                if mask & F_REST != 0 { result.rest = spec.rest; }
                if mask & F_FRIC != 0 { result.fthr = spec.fthr; result.fs = spec.fs; result.fd = spec.fd; }
                if rebuilt { w = build(&result); }
                write_fields(&mut w, &result, *mask);
                let accepted = m.live && result.kind == m.spec.kind && result.valid();
                let ok = self.ps.update_collider(m.handle, w).is_ok();
                if accepted { self.cols.get_mut(id).unwrap().spec = result.clone(); }
                let mut o = Outcome::new(if ok { Ret::Ok } else { Ret::Err }, if accepted { Ret::Ok } else { Ret::Err });
                o.wrote_col = Some(result);
                o
            }
            Op::Link { col, to } => {
                let c = match self.cols.get(col) { Some(m) => m.clone(), None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                let target = match to {
                    None => None,
                    Some(sel) => match self.resolve(sel) { Some(x) => Some(x), None => return Outcome::new(Ret::Skipped, Ret::Skipped) },
                };
                let accepted = c.live && target.map(|t| self.ents[&t].live).unwrap_or(true);
                let ok = self.ps.link_collider(c.handle, target.map(|t| self.ents[&t].handle)).is_ok();
                if accepted {
                    if let Some(old) = c.link { self.ents.get_mut(&old).unwrap().cols.remove(col); }
                    if let Some(t) = target { self.ents.get_mut(&t).unwrap().cols.insert(*col); }
                    self.cols.get_mut(col).unwrap().link = target;
                }
                let mut o = Outcome::new(if ok { Ret::Ok } else { Ret::Err }, if accepted { Ret::Ok } else { Ret::Err });
                o.target = target;
                o
            }
            Op::AddGen { id, spec } => {
                let boxed: Box<dyn UnaryForceGenerator> = match spec {
                    GenSpec::RealGravity { g } => Box::new(GravityGenerator::new(v3(g))),
                    _ => Box::new(SimGen { id: *id, spec: spec.clone(), control: self.control.clone() }),
                };
                let mut o = Outcome::new(Ret::Err, Ret::Ok);
                if let Ok(handle) = self.ps.add_unary_force_generator(boxed) {
                    o.ret = Ret::Ok;
                    if self.gens.values().any(|g| g.handle == handle) {
                        self.handle_reuse = Some(format!("generator handle {:?} was handed out twice", handle));
                    }
                    self.gens.insert(*id, MGen { handle, live: true, spec: spec.clone() });
                }
                o
            }
            Op::RmGen { id } => {
                let m = match self.gens.get(id) { Some(m) => m.clone(), None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                let got = self.ps.remove_unary_force_generator(m.handle);
                self.gens.get_mut(id).unwrap().live = false;
                let ret = match &got {
                    None => Ret::NoGen,
                    Some(g) => {
                        if let Some(s) = g.downcast_ref::<SimGen>() {
                            Ret::Gen(Some(s.id))
                        } else if let (Some(r), GenSpec::RealGravity { g }) = (g.downcast_ref::<GravityGenerator>(), &m.spec) {
                            Ret::Gen(if r.acceleration == v3(g) { Some(*id) } else { None })
                        } else { Ret::Gen(None) }
                    }
                };
                Outcome::new(ret, if m.live { Ret::Gen(Some(*id)) } else { Ret::NoGen })
            }
            Op::Step { dt } => {
                {
                    let mut roster = Vec::new();
                    let mut dead = Vec::new();
                    for (_, e) in &self.ents {
                        if e.live {
                            if let Some(x) = self.ps.get_entity(e.handle) { roster.push((e.handle, x.position)); }
                        } else if dead.len() < 4 { dead.push(e.handle) }
                    }
                    let mut control = self.control.borrow_mut();
                    control.calls.clear();
                    control.anomalies.clear();
                    control.roster = roster;
                    control.dead = dead;
                    control.collider_roster = self.cols.values().filter(|c| c.live).map(|c| c.handle).collect();
                    control.frame += 1;
                }
                self.ps.step(*dt);
                let mut control = self.control.borrow_mut();
                control.crash_at = None;
                let mut o = Outcome::new(Ret::Unit, Ret::Unit);
                o.calls = std::mem::take(&mut control.calls);
                o.anomalies = std::mem::take(&mut control.anomalies);
                o
            }
            Op::Conf { iterations, energy, delay } => {
                self.ps.iteration_max = *iterations;
                self.ps.energy_sleep_threshold = *energy;
                self.ps.sleep_time_threshold = *delay;
                Outcome::new(Ret::Unit, Ret::Unit)
            }
            Op::Query { k } => {
                for (_, m) in &self.ents {
                    if let Some(mut e) = self.ps.get_entity(m.handle) {
                        let _ = (e.get_total_energy(), e.get_last_moment_of_inertia(), e.was_asleep(), e.get_colliders().len());
                        let mut orientation = e.make_orientation();
                        orientation.position *= 2.0;
                        let mut set = e.get_colliders();
                        set.clear();
                        // Scribble over the copy.
                        e.position = Vec3::new(f32::NAN, *k as f32, 3.0);
                        e.velocity *= -3.0;
                        e.angular_velocity += Vec3::new(1.0, 2.0, 3.0);
                        e.rotation = Vec3::new(0.0, 1.0, 0.0);
                        e.own_mass = -1.0;
                        let _ = e.get_total_energy();
                    }
                }
                for (_, m) in &self.cols {
                    if let Some(mut w) = self.ps.get_collider(m.handle) {
                        let mut junk = ColSpec::new(m.spec.kind);
                        junk.a = [3.0, 2.0, 1.0];
                        junk.mass = 77.0;
                        junk.rest = 0.123;
                        write_fields(&mut w, &junk, 255);
                        if let ColliderWrapper::Mesh(mesh) = &mut w {
                            mesh.add_face(&vec![Vec3::new(9.0, 9.0, 9.0), Vec3::new(10.0, 9.0, 9.0), Vec3::new(9.0, 10.0, 9.0)]);
                        }
                    }
                }
                Outcome::new(Ret::Unit, Ret::Unit)
            }
            Op::Sink { mode, budget } => {
                env::set_sink(*mode, *budget);
                Outcome::new(Ret::Unit, Ret::Unit)
            }
            Op::Crash { nth } => {
                self.control.borrow_mut().crash_at = Some(*nth);
                Outcome::new(Ret::Unit, Ret::Unit)
            }
            Op::Poison { sel, how } => {
                let id = match self.resolve(sel) { Some(x) => x, None => return Outcome::new(Ret::Skipped, Ret::Skipped) };
                self.control.borrow_mut().poison = Some((self.ents[&id].handle, *how));
                let mut o = Outcome::new(Ret::Unit, Ret::Unit);
                o.target = Some(id);
                o
            }
        }
    }

    fn add_ent(&mut self, id: u32, e: Entity, wrote: EntSpec) -> Outcome {
        let valid = wrote.mass >= 0.0;
        let mut o = Outcome::new(Ret::Err, if valid { Ret::Ok } else { Ret::Err });
        if let Ok(handle) = self.ps.add_entity(e) {
            o.ret = Ret::Ok;
            self.note_entity(id, handle, wrote.mass);
        }
        o.target = Some(id);
        o.wrote_ent = Some(wrote);
        o
    }

    pub fn obs_ent(&self, id: u32, handle: EntityHandle) -> Option<EntObs> {
        let e = self.ps.get_entity(handle)?;
        let o = e.get_last_orientation();
        let q = o.rotation.coords;
        let mut cols: Vec<u32> = e.get_colliders().iter().map(|h| self.col_ids.get(h).cloned().unwrap_or(UNKNOWN)).collect();
        cols.sort();
        Some(EntObs {
            id, handle,
            pos: e.position,
            quat: [q[0], q[1], q[2], q[3]],
            rot: e.rotation,
            vel: e.velocity,
            ang: e.angular_velocity,
            own: e.own_mass,
            total: e.get_last_total_mass(),
            off: o.internal_origin_offset,
            inertia: e.get_last_moment_of_inertia(),
            energy: e.get_total_energy(),
            asleep: e.was_asleep(),
            cols,
        })
    }

    pub fn obs_col(&self, handle: ColliderHandle) -> Option<ColObs> {
        let w = self.ps.get_collider(handle)?;
        let (spec, link, counts, moment) = read_wrapper(&w);
        Some(ColObs { kind: spec.kind, link: link.map(|h| self.ent_ids.get(&h).cloned().unwrap_or(UNKNOWN)), spec, counts, moment })
    }

    /// Everything there's to see.
    pub fn obs(&self) -> Obs {
        let mut o = Obs { iterations: self.ps.iteration_max, energy_threshold: self.ps.energy_sleep_threshold, delay: self.ps.sleep_time_threshold, ..Obs::default() };
        for (id, m) in &self.ents {
            if let Some(e) = self.obs_ent(*id, m.handle) { o.ents.insert(*id, e); }
        }
        for (id, m) in &self.cols {
            if let Some(c) = self.obs_col(m.handle) { o.cols.insert(*id, c); }
        }
        for r in &self.ps.collision_records {
            o.recs.push(RecObs {
                a: self.ent_ids.get(&r.first_entity).cloned().unwrap_or(UNKNOWN),
                b: self.ent_ids.get(&r.second_entity).cloned().unwrap_or(UNKNOWN),
                pos: r.position, time: r.time, n: r.normal, e: r.restitution_coefficient, j: r.impulse_magnitude,
            });
        }
        o
    }
}
