//! Makes executions from seeds: a discrete event simulation of clients, their links to the world, the frame clock and the faults of all of these.

use crate::env::SINKS;
use crate::ops::*;
use crate::rng::{mix, Rng};

/// How a client's commands get to the world.
#[derive(Clone, Copy, Debug)]
pub struct Net {
    pub drop: f64,
    pub dup: f64,
    /// The longest a command may be under way.
    pub delay: f64,
    /// The chance for a much longer delay (which also reorders).
    pub late: f64,
}
pub const RELIABLE: Net = Net { drop: 0.0, dup: 0.0, delay: 0.0, late: 0.0 };

/// How the frame clock behaves.
#[derive(Clone, Copy, Debug)]
pub struct Clock {
    pub base: f64,
    pub jitter: f64,
    pub stall: f64,
    pub stall_length: f64,
    pub frozen: f64,
}

pub struct Gen {
    pub rng: Rng,
    out: Vec<(f64, u64, Ev)>,
    seq: u64,
    now: f64,
    ents: u32,
    cols: u32,
    gens: u32,
    slots: u32,
    /// (entity, position, bounding radius) of what was set up.
    placed: Vec<(u32, A3, f32)>,
    /// Entities of finite mass.
    finite: Vec<u32>,
    friction: bool,
    rest: Rest,
    span: f64,
    /// How heavy things are in this world.
    weight: f32,
}

#[derive(Clone, Copy, PartialEq)]
enum Rest { Elastic, Dead, Lively, Mixed }

fn add(a: &A3, b: &A3) -> A3 { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn scale(a: &A3, s: f32) -> A3 { [a[0] * s, a[1] * s, a[2] * s] }
fn unit(a: &A3) -> A3 { let l = (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]).sqrt(); if l > 1e-9 { scale(a, 1.0 / l) } else { [0.0, 1.0, 0.0] } }
/// Rotates a vector by a rotation vector.
fn turn(r: &A3, p: &A3) -> A3 {
    let r = [r[0] as f64, r[1] as f64, r[2] as f64];
    let p = [p[0] as f64, p[1] as f64, p[2] as f64];
    let t = (r[0] * r[0] + r[1] * r[1] + r[2] * r[2]).sqrt();
    let k = if t > 1e-12 { [r[0] / t, r[1] / t, r[2] / t] } else { [0.0, 1.0, 0.0] };
    let dot = k[0] * p[0] + k[1] * p[1] + k[2] * p[2];
    let cross = [k[1] * p[2] - k[2] * p[1], k[2] * p[0] - k[0] * p[2], k[0] * p[1] - k[1] * p[0]];
    let mut out = [0.0f32; 3];
    for i in 0..3 { out[i] = (p[i] * t.cos() + cross[i] * t.sin() + k[i] * dot * (1.0 - t.cos())) as f32; }
    out
}
fn dist(a: &A3, b: &A3) -> f32 { ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt() }

impl Gen {
    pub fn new(seed: u64) -> Gen {
        let mut rng = Rng::new(seed);
        let friction = rng.chance(0.4);
        let rest = *rng.pick(&[Rest::Elastic, Rest::Dead, Rest::Mixed, Rest::Mixed]);
        let weight = if rng.chance(0.15) { *rng.pick(&[0.03, 100.0, 3e3, 1e5]) } else { 1.0 };
        Gen { rng, out: vec![], seq: 0, now: 0.0, ents: 0, cols: 0, gens: 0, slots: 0, placed: vec![], finite: vec![], friction, rest, span: 1.0, weight }
    }

    fn put(&mut self, t: f64, who: u8, tags: u8, op: Op) {
        self.seq += 1;
        self.out.push((t, self.seq, Ev { t, who, tags, op }));
    }
    /// Setup: always arrives, at once.
    fn now(&mut self, op: Op) { let t = self.now; self.put(t, 0, 0, op); }

    /// A client sends a command at time t.
    fn send(&mut self, net: &Net, who: u8, t: f64, op: Op) {
        if self.rng.chance(net.drop) { return; }
        let copies = if self.rng.chance(net.dup) { 2 } else { 1 };
        for k in 0..copies {
            let mut tags = if k > 0 { T_DUP } else { 0 };
            let mut delay = self.rng.unit() * net.delay;
            if self.rng.chance(net.late) { delay += self.rng.unit() * self.span * 0.5; tags |= T_LATE; }
            if delay > net.delay * 0.5 && net.delay > 0.0 { tags |= T_REORDERED; }
            let mut op = op.clone();
            if k > 0 {
                // What's created twice is two objects.
                match &mut op {
                    Op::AddEnt { id, .. } | Op::AddEntFrom { id, .. } => { self.ents += 1; *id = self.ents; }
                    Op::AddCol { id, .. } | Op::AddColFrom { id, .. } => { self.cols += 1; *id = self.cols; }
                    Op::AddGen { id, .. } => { self.gens += 1; *id = self.gens; }
                    _ => {}
                }
            }
            self.put(t + delay, who, tags, op);
        }
    }

    fn net(&mut self) -> Net {
        match self.rng.below(4) {
            0 => RELIABLE,
            1 => Net { drop: 0.05, dup: 0.1, delay: 0.05, late: 0.05 },
            2 => Net { drop: 0.2, dup: 0.2, delay: 0.3, late: 0.1 },
            _ => Net { drop: 0.0, dup: 0.3, delay: 0.2, late: 0.3 },
        }
    }

    fn clock(&mut self) -> Clock {
        let base = *self.rng.pick(&[1.0 / 60.0, 1.0 / 60.0, 1.0 / 30.0, 0.1, 0.005]);
        match self.rng.below(5) {
            0 => Clock { base, jitter: 0.0, stall: 0.0, stall_length: 0.0, frozen: 0.0 },
            1 => Clock { base, jitter: 0.5, stall: 0.0, stall_length: 0.0, frozen: 0.05 },
            2 => Clock { base, jitter: 0.9, stall: 0.05, stall_length: 0.5, frozen: 0.1 },
            3 => Clock { base, jitter: 0.2, stall: 0.15, stall_length: 1.0, frozen: 0.0 },
            // A host that gets suspended now and then.
            _ => Clock { base, jitter: 0.2, stall: 0.08, stall_length: *self.rng.pick(&[4.0, 20.0, 100.0]), frozen: 0.02 },
        }
    }

    /// Frames up to n, from the current time on.
    fn frames(&mut self, n: usize, clock: &Clock) {
        let mut t = self.now;
        for _ in 0..n {
            let mut tags = 0;
            let mut dt = clock.base;
            if clock.jitter > 0.0 { dt *= 1.0 + clock.jitter * (self.rng.unit() * 2.0 - 1.0); tags |= T_JITTER; }
            if self.rng.chance(clock.stall) { dt += self.rng.unit() * clock.stall_length; tags |= T_STALL; }
            if self.rng.chance(clock.frozen) {
                dt = *self.rng.pick(&[0.0, 1e-7, 9e-7, 2e-6, 5e-6]);
                tags |= T_MICRO;
            }
            t += dt;
            self.put(t, 0, tags, Op::Step { dt: dt as f32 });
        }
        self.now = t;
    }

    pub fn finish(mut self) -> Vec<Ev> {
        self.out.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
        self.out.into_iter().map(|x| x.2).collect()
    }

    // ---------------------------------------------------------------------------------------
    // Building blocks.

    fn material(&mut self, mut c: ColSpec) -> ColSpec {
        c.rest = match self.rest {
            Rest::Elastic => 1.0,
            Rest::Dead => 0.0,
            // More comes back than went in.
            Rest::Lively => *self.rng.pick(&[0.5, 0.9, 1.0, 1.3, 2.0]),
            Rest::Mixed => *self.rng.pick(&[0.0, 0.3, 0.5, 0.8, 0.9, 1.0]),
        };
        if self.friction {
            c.fs = *self.rng.pick(&[0.0, 0.2, 0.5, 0.9, 1.5]);
            c.fd = *self.rng.pick(&[0.0, 0.1, 0.4, 0.7]);
            c.fthr = *self.rng.pick(&[0.0, 0.25, 0.5, 2.0]);
        } else {
            // One of the two being frictionless suffices.
            c.fs = 0.0;
            c.fd = 0.0;
        }
        c
    }

    fn ent(&mut self, spec: EntSpec) -> u32 {
        self.ents += 1;
        let id = self.ents;
        self.now(Op::AddEnt { id, spec });
        id
    }
    fn col(&mut self, e: u32, c: ColSpec) -> u32 {
        self.cols += 1;
        let id = self.cols;
        let c = self.material(c);
        self.now(Op::AddCol { id, spec: c });
        self.now(Op::Link { col: id, to: Some(Sel::Id(e)) });
        id
    }
    fn gravity(&mut self, g: A3) -> u32 {
        self.gens += 1;
        let id = self.gens;
        let spec = if self.rng.chance(0.6) { GenSpec::RealGravity { g } } else { GenSpec::Gravity { g } };
        self.now(Op::AddGen { id, spec });
        id
    }

    fn mass(&mut self) -> f32 { self.weight * self.rng.logf(0.2, 20.0) }
    fn radius(&mut self) -> f32 { if self.rng.chance(0.15) { self.rng.f(0.06, 0.2) } else { self.rng.f(0.2, 1.2) } }

    /// Colliders of a body of finite mass: (own mass, colliders, bounding radius about the local origin).
    fn shape(&mut self, simple: bool) -> (f32, Vec<ColSpec>, f32) {
        let kind = if simple { self.rng.below(3) } else { self.rng.below(10) };
        let (m, r) = (self.mass(), self.radius());
        match kind {
            9 => {
                // All of its mass on a line.
                let (a, dir, middle) = (self.rng.f(0.3, 1.2), self.rng.dir(), self.rng.vec(0.6));
                let mut list = Vec::new();
                let (m2, r2, at) = (self.mass(), self.radius(), self.rng.vec(0.5));
                for (k, m) in [(a, m), (-a, m2)] { list.push(ColSpec::null(m, [0.0; 3]).at(add(&middle, &scale(&dir, k)))); }
                list.push(ColSpec::sphere(r, 0.0).at(scale(&dir, a)));
                if self.rng.chance(0.5) { list.push(ColSpec::sphere(r2, 0.0).at(at)); }
                (0.0, list, r.max(r2) + 2.3)
            }
            0 => (0.0, vec![ColSpec::sphere(r, m)], r),
            1 => { let own = self.mass(); (own, vec![ColSpec::sphere(r, m)], r) }
            2 => if simple || self.rng.chance(0.5) { (0.0, vec![ColSpec::sphere(r, m)], r) } else { (m, vec![ColSpec::sphere(r, 0.0)], r) },
            3 => {
                let at = self.rng.vec(1.5);
                (0.0, vec![ColSpec::sphere(r, m).at(at)], r + 2.6)
            }
            4 => {
                let half = self.rng.f(0.4, 1.5);
                let (m2, r2) = (self.mass(), self.radius());
                let dir = self.rng.dir();
                (0.0, vec![ColSpec::sphere(r, m).at(scale(&dir, half)), ColSpec::sphere(r2, m2).at(scale(&dir, -half))], half + r.max(r2))
            }
            5 => {
                let n = self.rng.int(2, 4);
                let mut list = Vec::new();
                let mut reach: f32 = 0.5;
                for _ in 0..n {
                    let (m, r, at) = (self.mass(), self.radius(), self.rng.vec(0.8));
                    list.push(ColSpec::sphere(r, m).at(at));
                    reach = reach.max(r + 1.4);
                }
                let (m, i) = (self.mass(), [self.rng.f(0.2, 3.0), self.rng.f(0.2, 3.0), self.rng.f(0.2, 3.0)]);
                let at = self.rng.vec(0.5);
                list.push(ColSpec::null(m, i).at(at));
                let own = if self.rng.chance(0.5) { self.mass() } else { 0.0 };
                (own, list, reach)
            }
            6 | 7 => {
                let (a, b) = ([self.rng.f(-1.2, -0.2), self.rng.f(-1.2, -0.2), self.rng.f(-1.2, -0.2)], [self.rng.f(0.2, 1.2), self.rng.f(0.2, 1.2), self.rng.f(0.2, 1.2)]);
                let at = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(0.7) };
                let (a, b) = if self.rng.chance(0.3) { ([b[0], a[1], b[2]], [a[0], b[1], a[2]]) } else { (a, b) };
                (0.0, vec![ColSpec::cuboid(a, b, m).at(at)], 3.4)
            }
            _ => {
                let h = [self.rng.f(0.3, 1.2), self.rng.f(0.3, 1.2), self.rng.f(0.3, 1.2)];
                let shape = *self.rng.pick(&[0u8, 1, 2, 3, 4, 5]);
                let i = [self.rng.f(0.3, 2.0), self.rng.f(0.3, 2.0), self.rng.f(0.3, 2.0)];
                let (m1, own) = (self.mass(), self.mass());
                (own, vec![ColSpec::mesh(shape, h), ColSpec::null(m1, i)], 2.1)
            }
        }
    }

    /// Adds a body unless there's no room.
    fn body(&mut self, simple: bool, region: f32, spacing: f32, speed: f32, spin: f32, overlap: bool) -> Option<u32> {
        let (own, cols, reach) = self.shape(simple);
        for _ in 0..20 {
            let pos = self.rng.vec(region as f64);
            if !overlap && self.placed.iter().any(|(_, p, r)| dist(p, &pos) < r + reach + spacing) { continue; }
            let vel = if self.rng.chance(0.15) { [0.0; 3] } else { let m = self.rng.f(0.0, speed as f64); scale(&self.rng.dir(), m) };
            let ang = if self.rng.chance(0.4) || spin == 0.0 { [0.0; 3] } else { self.rng.vec(spin as f64) };
            let rot = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(3.0) };
            let id = self.ent(EntSpec { pos, rot, vel, ang, mass: own });
            for c in cols { self.col(id, c); }
            self.placed.push((id, pos, reach));
            self.finite.push(id);
            return Some(id);
        }
        None
    }

    /// Closed container (or parts of it).
    /// A mesh whose inside is at least this large.
    fn room(&mut self, half: f32) {
        let shape = *self.rng.pick(&[1u8, 1, 2, 5, 6, 7]);
        let sides = self.rng.int(3, 9) as f32;
        let k = match shape { 1 => 1.0, 6 => 1.2 / (std::f32::consts::PI / sides).cos(), _ => 2.5 };
        let h = [k * half * self.rng.f(1.0, 1.5), k * half * self.rng.f(1.0, 1.5), k * half * self.rng.f(1.0, 1.5)];
        let rot = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(3.0) };
        let at = if self.rng.chance(0.7) { [0.0; 3] } else { self.rng.vec(0.3 * half as f64) };
        let e = self.ent(EntSpec { pos: scale(&turn(&rot, &at), -1.0), rot, vel: [0.0; 3], ang: [0.0; 3], mass: f32::INFINITY });
        let mut spec = ColSpec::mesh(shape, h).at(at);
        if shape >= 6 { spec.b = [shape as f32, sides, self.rng.int(0, 9) as f32]; }
        self.col(e, spec);
    }
    fn walls(&mut self, half: f32, closed: bool) {
        let normals: [A3; 6] = [[0.0, 1.0, 0.0], [0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 0.0, -1.0]];
        let tilt = self.rng.chance(0.3);
        let together = self.rng.chance(0.2);
        let mut shared = None;
        for n in normals.iter() {
            if !closed && !self.rng.chance(0.5) { continue; }
            let mut normal = *n;
            if tilt { let t = self.rng.vec(0.25); normal = add(&normal, &t); }
            if self.rng.chance(0.2) { normal = scale(&normal, 3.0); }
            let at = scale(n, -half);
            if together {
                let e = match shared { Some(e) => e, None => { let e = self.ent(EntSpec::at([0.0; 3])); shared = Some(e); e } };
                self.col(e, ColSpec::plane(normal, f32::INFINITY).at(at));
            } else {
                let own = self.rng.chance(0.5);
                let mut spec = EntSpec::at(at);
                if own { spec.mass = f32::INFINITY; }
                let e = self.ent(spec);
                self.col(e, ColSpec::plane(normal, if own { 0.0 } else { f32::INFINITY }));
            }
        }
    }

    /// Something that doesn't yield.
    fn obstacle(&mut self, region: f32, moving: bool) {
        let reach;
        let mut cols = Vec::new();
        let own;
        match self.rng.below(4) {
            0 => { let r = self.rng.f(0.5, 2.0); cols.push(ColSpec::sphere(r, f32::INFINITY)); own = 0.0; reach = r; }
            1 | 2 => {
                let (a, b) = ([self.rng.f(-1.6, -0.3), self.rng.f(-1.6, -0.3), self.rng.f(-1.6, -0.3)], [self.rng.f(0.3, 1.6), self.rng.f(0.3, 1.6), self.rng.f(0.3, 1.6)]);
                cols.push(ColSpec::cuboid(a, b, f32::INFINITY));
                own = 0.0;
                reach = 2.8;
            }
            _ => {
                let h = [self.rng.f(0.5, 1.6), self.rng.f(0.5, 1.6), self.rng.f(0.5, 1.6)];
                let shape = *self.rng.pick(&[0u8, 1, 2, 3, 4, 5]);
                cols.push(ColSpec::mesh(shape, h));
                own = f32::INFINITY;
                reach = 2.8;
            }
        }
        for _ in 0..20 {
            let pos = self.rng.vec(region as f64);
            if self.placed.iter().any(|(_, p, r)| dist(p, &pos) < r + reach + 0.1) { continue; }
            let rot = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(3.0) };
            let vel = if moving && self.rng.chance(0.3) { self.rng.vec(2.0) } else { [0.0; 3] };
            let id = self.ent(EntSpec { pos, rot, vel, ang: [0.0; 3], mass: own });
            for c in cols { self.col(id, c); }
            self.placed.push((id, pos, reach));
            return;
        }
    }

    fn iterations(&mut self) -> u8 { *self.rng.pick(&[0u8, 1, 2, 3, 5, 5, 8, 20, 60]) }

    fn config(&mut self, sleep: bool, enough: bool) {
        let iterations = if enough { *self.rng.pick(&[30u8, 60, 120]) } else { self.iterations() };
        if sleep {
            let energy = *self.rng.pick(&[0.001f32, 0.001, 0.01, 0.05, 0.0]);
            let delay = *self.rng.pick(&[0.1f32, 0.1, 0.05, 0.3, 0.02]);
            self.now(Op::Conf { iterations, energy, delay });
        } else {
            self.now(Op::Conf { iterations, energy: -1.0, delay: 0.1 });
        }
    }

    fn generator(&mut self) -> GenSpec {
        let offset = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(1.5) };
        match self.rng.below(8) {
            0 | 1 => { let m = self.rng.f(0.5, 10.0); GenSpec::Const { force: scale(&self.rng.dir(), m), offset } }
            2 => GenSpec::Drag { k: self.rng.f(0.05, 1.0) },
            3 => GenSpec::Spring { k: self.rng.f(0.1, 3.0), anchor: self.rng.vec(3.0), offset },
            4 => { let m = self.rng.f(0.5, 5.0); GenSpec::Wave { force: scale(&self.rng.dir(), m), offset } }
            5 => GenSpec::Gravity { g: [0.0, -self.rng.f(1.0, 10.0), 0.0] },
            6 => GenSpec::RealGravity { g: [0.0, -self.rng.f(1.0, 10.0), 0.0] },
            _ => { let m = self.rng.f(0.5, 5.0); GenSpec::Pin { force: scale(&self.rng.dir(), m), point: self.rng.vec(3.0) } }
        }
    }

    fn add_generator_now(&mut self) -> u32 {
        self.gens += 1;
        let id = self.gens;
        let spec = self.generator();
        self.now(Op::AddGen { id, spec });
        id
    }

    // ---------------------------------------------------------------------------------------
    // Commands of clients during a run.

    fn some_ent(&mut self) -> Sel {
        match self.rng.below(8) {
            0 => Sel::Asleep(self.rng.below(5) as u32),
            1 => Sel::Hit(self.rng.below(8) as u32),
            2 => Sel::Live(self.rng.below(12) as u32),
            _ => Sel::Id(self.rng.int(1, self.ents.max(1) as i64) as u32),
        }
    }
    fn some_col(&mut self) -> u32 { self.rng.int(1, self.cols.max(1) as i64) as u32 }

    fn ent_spec(&mut self, wild: bool) -> EntSpec {
        let mut s = EntSpec { pos: self.rng.vec(6.0), rot: self.rng.vec(3.0), vel: self.rng.vec(5.0), ang: self.rng.vec(3.0), mass: *self.rng.pick(&[0.0, 0.5, 1.0, 2.0, 7.0]) };
        if self.rng.chance(0.06) { s.mass = f32::INFINITY; }
        if wild {
            match self.rng.below(12) {
                0 => s.mass = -1.0,
                1 => s.mass = f32::NAN,
                2 => s.mass = f32::INFINITY,
                3 => s.rot = self.rng.vec(20.0),
                4 => s.mass = -0.0,
                5 => s.mass = f32::NEG_INFINITY,
                _ => {}
            }
        }
        s
    }

    fn col_spec(&mut self, wild: bool) -> ColSpec {
        let mut c = match self.rng.below(6) {
            0 => { let (m, i) = (self.mass(), [self.rng.f(0.0, 3.0), self.rng.f(0.0, 3.0), self.rng.f(0.0, 3.0)]); let mut c = ColSpec::null(m, i); c.b = self.rng.vec(0.1); c }
            1 | 2 => { let (r, m) = (self.radius(), self.mass()); ColSpec::sphere(r, m) }
            3 => { let n = self.rng.dir(); let m = self.rng.f(0.1, 5.0); let m = *self.rng.pick(&[f32::INFINITY, 0.0, m]); let n = if self.rng.chance(0.5) { let k = self.rng.f(0.1, 10.0); scale(&n, k) } else { n }; ColSpec::plane(n, m) }
            4 => { let h = [self.rng.f(0.3, 1.5), self.rng.f(0.3, 1.5), self.rng.f(0.3, 1.5)]; let s = self.rng.below(6) as u8; ColSpec::mesh(s, h) }
            _ => { let (a, b, m) = (self.rng.vec(1.5), self.rng.vec(1.5), self.mass()); ColSpec::cuboid(a, b, m) }
        };
        c.pos = if self.rng.chance(0.4) { [0.0; 3] } else { self.rng.vec(2.0) };
        c = self.material(c);
        c.rest = self.rng.f(0.0, 1.0);
        if self.rng.chance(0.2) { c.mass = 0.0; }
        if self.rng.chance(0.08) { c.mass = f32::INFINITY; }
        if wild && self.rng.chance(0.35) {
            match self.rng.below(8) {
                0 => c.mass = -0.5,
                1 => c.mass = f32::NAN,
                2 => c.a = [0.0; 3],
                3 => c.a[0] = *self.rng.pick(&[0.05, 0.0500001, 0.049, -1.0, f32::NAN]),
                4 => { c.b[0] = 9.0; if c.kind == Kind::Box { c.b[0] = c.a[0]; } }
                5 => if c.kind == Kind::Plane { c.a = [1e-7, 0.0, 0.0] },
                6 => c.mass = f32::NEG_INFINITY,
                _ => if c.kind == Kind::Box { c.b[1] = c.a[1] } else { c.a[0] = 0.0 },
            }
        }
        c
    }

    /// Whether a spec may enter a world whose physics is to be judged.
    fn calm(c: &ColSpec) -> bool { c.mass != 0.0 || c.kind == Kind::Mesh }

    fn command(&mut self, wild: bool, registry: bool) -> Op {
        let roll = self.rng.below(if registry { 20 } else { 9 });
        match roll {
            0..=3 => {
                let sel = self.some_ent();
                let base = match self.rng.below(5) { 0 => Base::Slot(self.rng.below(self.slots as u64 + 1) as u32), 1 if registry => Base::New, _ => Base::Fresh };
                let mask = match self.rng.below(8) { 0 => 0, 1 => F_POS, 2 => F_ROT, 3 => F_VEL, 4 => F_ANG, 5 => F_MASS, 6 => F_VEL | F_ANG, _ => if registry { self.rng.below(32) as u8 } else { F_VEL } };
                let mask = if self.rng.chance(0.12) { mask | F_NUDGE } else { mask };
                Op::UpdEnt { sel, base, mask, spec: self.ent_spec(wild) }
            }
            4 => { self.slots += 1; let slot = self.slots; Op::Snap { slot, sel: self.some_ent() } }
            5 => Op::Query { k: self.rng.below(10) as u32 },
            6 => { self.gens += 1; let id = self.gens; Op::AddGen { id, spec: self.generator() } }
            7 => Op::RmGen { id: self.rng.int(1, self.gens.max(1) as i64) as u32 },
            8 => Op::RmEnt { sel: self.some_ent() },
            9 => { self.ents += 1; let id = self.ents; if self.rng.chance(0.3) { Op::AddEntFrom { id, from: self.some_ent() } } else { Op::AddEnt { id, spec: self.ent_spec(wild) } } }
            10 | 11 => { let from = self.some_col(); self.cols += 1; let id = self.cols; if self.rng.chance(0.2) { Op::AddColFrom { id, from } } else { Op::AddCol { id, spec: self.col_spec(wild) } } }
            12 | 13 | 14 => {
                let col = self.some_col();
                let to = if self.rng.chance(0.2) { None } else { Some(self.some_ent()) };
                Op::Link { col, to }
            }
            15 => Op::RmCol { id: self.some_col() },
            16 => { self.slots += 1; let slot = self.slots; Op::SnapCol { slot, id: self.some_col() } }
            17 => { let spec = self.ent_spec(false); self.ents += 1; let id = self.ents; Op::AddEnt { id, spec } }
            _ => {
                let id = self.some_col();
                let base = match self.rng.below(4) { 0 => Base::New, 1 => Base::Slot(self.rng.below(self.slots as u64 + 1) as u32), _ => Base::Fresh };
                let mask = if self.rng.chance(0.3) { 255 } else { self.rng.below(32) as u8 };
                let mut spec = self.col_spec(wild);
                // Mostly the right kind.
                if let Some(kind) = self.kind_of(id) { if self.rng.chance(0.8) { spec = self.respec(kind, wild); } }
                Op::UpdCol { id, base, mask, spec }
            }
        }
    }

    fn kind_of(&self, id: u32) -> Option<Kind> {
        self.out.iter().find_map(|(_, _, e)| match &e.op { Op::AddCol { id: x, spec } if *x == id => Some(spec.kind), _ => None })
    }
    fn respec(&mut self, kind: Kind, wild: bool) -> ColSpec {
        for _ in 0..60 { let c = self.col_spec(wild); if c.kind == kind { return c; } }
        ColSpec::new(kind)
    }

    /// Several clients issue commands over the given time span.
    fn clients(&mut self, n: usize, from: f64, to: f64, wild: bool, registry: bool) {
        let clients = self.rng.int(1, 3) as u8;
        let nets: Vec<Net> = (0..clients).map(|_| self.net()).collect();
        for _ in 0..n {
            let who = self.rng.below(clients as u64) as u8;
            let t = from + (to - from) * self.rng.unit();
            let op = self.command(wild, registry);
            let net = nets[who as usize];
            self.send(&net, who + 1, t, op);
        }
    }

    // ---------------------------------------------------------------------------------------
    // Scenarios.

    /// Registry traffic, with frames in between.
    pub fn chaos(mut self, wild: bool) -> Vec<Ev> {
        if self.rng.chance(0.5) { self.config(true, false); }
        self.span = 2.0;
        let n = self.rng.int(15, 90) as usize;
        let early = self.rng.int(1, 6);
        for _ in 0..early {
            let spec = self.ent_spec(false);
            self.ent(spec);
        }
        for _ in 0..early + 2 {
            let spec = self.col_spec(false);
            self.cols += 1;
            let id = self.cols;
            self.now(Op::AddCol { id, spec });
            if self.rng.chance(0.7) { let to = Some(Sel::Id(self.rng.int(1, self.ents as i64) as u32)); self.now(Op::Link { col: id, to }); }
        }
        // Creations get referred to before, around and after they happen.
        let clients = self.rng.int(1, 3) as u8;
        let nets: Vec<Net> = (0..clients).map(|_| self.net()).collect();
        let mut t = 0.0;
        for _ in 0..n {
            t += self.rng.unit() * 2.0 * self.span / n as f64;
            let who = self.rng.below(clients as u64) as u8;
            let op = self.command(wild, true);
            let net = nets[who as usize];
            let dt = t;
            // Something newly made usually gets linked.
            let made = match &op { Op::AddCol { id, .. } | Op::AddColFrom { id, .. } => Some(*id), _ => None };
            self.send(&net, who + 1, dt, op);
            if let Some(id) = made { if self.rng.chance(0.7) { let to = self.some_ent(); self.send(&net, who + 1, dt + 1e-3, Op::Link { col: id, to: Some(to) }); } }
        }
        let clock = self.clock();
        let frames = self.rng.int(3, 25) as usize;
        let fit = Clock { base: self.span / frames as f64, ..clock };
        self.frames(frames, &fit);
        self.finish()
    }

    /// Bodies flying about.
    pub fn billiards(mut self, opts: Billiards) -> Vec<Ev> {
        let half = self.rng.f(3.0, 9.0);
        let mut count = self.rng.int(2, opts.most as i64);
        if opts.elastic { self.rest = Rest::Elastic; }
        if opts.frictionless { self.friction = false; }
        let sleep = opts.sleep && self.rng.chance(0.5);
        let enough = opts.enough || self.rng.chance(0.3);
        self.config(sleep, enough);
        if opts.victim {
            // The first entity is special.
            let simple = self.rng.chance(0.5);
            self.body(simple, half * 0.6, 0.1, 4.0, 2.0, false);
        }
        match self.rng.below(if opts.forceless { 3 } else { 4 }) {
            0 => {}
            1 => self.walls(half, true),
            2 => self.walls(half, false),
            _ => { self.walls(half, true); let g = self.rng.f(1.0, 10.0); self.gravity([0.0, -g, 0.0]); }
        }
        if self.rng.chance(opts.obstacles) { for _ in 0..self.rng.int(1, 2) { self.obstacle(half * 0.7, opts.moving); } }
        let speed = *self.rng.pick(&[1.0f32, 4.0, 10.0, 30.0]);
        let spin = if opts.spin && self.rng.chance(0.6) { *self.rng.pick(&[0.5f32, 2.0, 8.0]) } else { 0.0 };
        let overlap = opts.overlap && self.rng.chance(0.15);
        while count > 0 {
            let simple = opts.simple || self.rng.chance(0.4);
            self.body(simple, half - 1.6, 0.05, speed, spin, overlap);
            count -= 1;
        }
        if opts.massless && self.rng.chance(0.3) {
            // Weightless things and two unyielding ones in each other's way.
            let (p, v) = (self.rng.vec(half as f64 * 0.5), self.rng.vec(5.0));
            let e = self.ent(EntSpec { pos: p, rot: [0.0; 3], vel: v, ang: [0.0; 3], mass: 0.0 });
            self.col(e, ColSpec::sphere(0.4, 0.0));
            let (p, v) = (self.rng.vec(half as f64 * 0.5), self.rng.vec(5.0));
            let e = self.ent(EntSpec { pos: p, rot: [0.0; 3], vel: v, ang: [0.0; 3], mass: f32::INFINITY });
            self.col(e, ColSpec::sphere(0.6, 1.0));
        }
        for _ in 0..if opts.generators > 0 { self.rng.int(0, opts.generators) } else { 0 } { self.add_generator_now(); }
        let n = self.rng.int(opts.frames.0, opts.frames.1) as usize;
        let clock = match opts.clock { Some(c) => c, None => self.clock() };
        let start = self.now;
        self.span = n as f64 * clock.base;
        if opts.commands > 0 && self.rng.chance(0.6) {
            let k = self.rng.int(1, opts.commands) as usize;
            let (a, b) = (start, start + self.span);
            self.clients(k, a, b, false, false);
        }
        self.frames(n, &clock);
        self.finish()
    }

    /// Gives most meshes more corners and faces. Light terrain (which isn't convex, so that the middle of its lowest corners can be anywhere) only comes up if asked for.
    pub fn reshape(seed: u64, mut evs: Vec<Ev>, light_terrain: bool) -> Vec<Ev> {
        let mut rng = Rng::new(mix(&[seed, 77]));
        for e in evs.iter_mut() {
            if let Op::AddCol { spec, .. } | Op::UpdCol { spec, .. } = &mut e.op {
                if spec.kind == Kind::Mesh && spec.b[0] < 6.0 && rng.chance(0.6) {
                    spec.b = [*rng.pick(if light_terrain || spec.mass == f32::INFINITY { &[6.0, 7.0, 8.0] } else { &[6.0, 7.0] }), rng.int(3, 9) as f32, rng.int(0, 9) as f32];
                }
            }
        }
        evs
    }

    /// Two bodies aimed at each other, so that they meet at a chosen instant of a chosen frame.
    pub fn duel(mut self, frictionless: bool) -> Vec<Ev> {
        if frictionless { self.friction = false; }
        let iterations = *self.rng.pick(&[1u8, 2, 5, 5, 20]);
        self.now(Op::Conf { iterations, energy: -1.0, delay: 0.1 });
        let simple = self.rng.chance(0.5);
        let speed = self.rng.logf(0.01, 60.0);
        let far = self.rng.logf(0.05, 30.0);
        // The target.
        let at = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(5.0) };
        let (target_reach, target);
        let yielding = self.rng.chance(0.5);
        let rot = if self.rng.chance(0.4) { [0.0; 3] } else { self.rng.vec(3.0) };
        let mut plane = None;
        if yielding {
            let (own, cols, reach) = self.shape(simple);
            let vel = if self.rng.chance(0.5) { [0.0; 3] } else { let m = speed * self.rng.f(0.0, 0.7); scale(&self.rng.dir(), m) };
            let ang = if self.rng.chance(0.6) { [0.0; 3] } else { self.rng.vec(2.0) };
            target = self.ent(EntSpec { pos: at, rot, vel, ang, mass: own });
            for c in cols { self.col(target, c); }
            target_reach = reach;
        } else {
            match self.rng.below(5) {
                0 => {
                    let n = self.rng.dir();
                    target = self.ent(EntSpec { pos: at, rot: [0.0; 3], vel: [0.0; 3], ang: [0.0; 3], mass: 0.0 });
                    self.col(target, ColSpec::plane(n, f32::INFINITY));
                    plane = Some(n);
                    target_reach = 0.0;
                }
                1 => {
                    let r = self.rng.f(0.1, 3.0);
                    target = self.ent(EntSpec { pos: at, rot, vel: [0.0; 3], ang: [0.0; 3], mass: 0.0 });
                    self.col(target, ColSpec::sphere(r, f32::INFINITY));
                    target_reach = r;
                }
                2 | 3 => {
                    let (a, b) = ([self.rng.f(-1.6, -0.1), self.rng.f(-1.6, -0.1), self.rng.f(-1.6, -0.1)], [self.rng.f(0.1, 1.6), self.rng.f(0.1, 1.6), self.rng.f(0.1, 1.6)]);
                    let off = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(1.0) };
                    target = self.ent(EntSpec { pos: at, rot, vel: [0.0; 3], ang: [0.0; 3], mass: 0.0 });
                    self.col(target, ColSpec::cuboid(a, b, f32::INFINITY).at(off));
                    target_reach = 2.5;
                }
                _ => {
                    let h = [self.rng.f(0.2, 2.0), self.rng.f(0.2, 2.0), self.rng.f(0.2, 2.0)];
                    let shape = *self.rng.pick(&[0u8, 1, 2, 3, 4, 5]);
                    let off = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(1.0) };
                    target = self.ent(EntSpec { pos: at, rot, vel: [0.0; 3], ang: [0.0; 3], mass: f32::INFINITY });
                    self.col(target, ColSpec::mesh(shape, h).at(off));
                    target_reach = 2.5;
                }
            }
        }
        // The attacker: mostly a sphere, as that's what everything can hit.
        let (own, cols, reach) = { let s = self.rng.chance(0.6); self.shape(s) };
        let dir = match plane { Some(n) => { let mut d = self.rng.dir(); if d[0] * n[0] + d[1] * n[1] + d[2] * n[2] > 0.0 { d = scale(&d, -1.0); } d } None => self.rng.dir() };
        let miss = { let m = self.rng.f(0.0, 1.0) * (reach + target_reach) * 0.8; scale(&self.rng.dir(), m) };
        let from = match plane {
            Some(n) => add(&add(&at, &scale(&n, reach + far)), &scale(&miss, 0.3)),
            None => add(&add(&at, &scale(&dir, -(reach + target_reach + far))), &miss),
        };
        let ang = if self.rng.chance(0.6) { [0.0; 3] } else { self.rng.vec(3.0) };
        let arot = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(3.0) };
        let attacker = self.ent(EntSpec { pos: from, rot: arot, vel: scale(&dir, speed), ang, mass: own });
        for c in cols { self.col(attacker, c); }
        if self.rng.chance(0.2) { let g = self.rng.f(0.5, 10.0); let d = self.rng.dir(); self.gravity(scale(&d, g)); }
        // Frames such that the hit falls anywhere within one of them.
        let eta = (far + reach * 0.5) as f64 / speed as f64;
        let before = self.rng.int(0, 4);
        let n = before + self.rng.int(1, 4);
        let step = eta / (before as f64 + self.rng.unit().max(0.02));
        let step = step.min(3.0);
        for _ in 0..n {
            let jitter = if self.rng.chance(0.5) { 1.0 } else { 0.5 + self.rng.unit() };
            let dt = (step * jitter) as f32;
            self.now += dt as f64;
            let t = self.now;
            self.put(t, 0, if jitter != 1.0 { T_JITTER } else { 0 }, Op::Step { dt });
        }
        self.finish()
    }

    /// A sphere that passes (or hits) a chosen feature of something at a chosen distance, by a hair or by more.
    pub fn aimed(mut self) -> Vec<Ev> {
        let iterations = *self.rng.pick(&[1u8, 2, 5, 5, 20]);
        self.now(Op::Conf { iterations, energy: -1.0, delay: 0.1 });
        let at = match self.rng.below(4) { 0 => [0.0; 3], 1 => self.rng.vec(20.0), _ => self.rng.vec(4.0) };
        let axis = self.rng.dir();
        let spinning = self.rng.chance(0.25);
        // Where rotations wrap around is of special interest.
        let rot = match self.rng.below(4) {
            0 | 1 if !spinning => [0.0; 3],
            2 => { let m = std::f32::consts::PI + self.rng.f(-0.15, 0.15); scale(&axis, m) }
            _ => self.rng.vec(3.0),
        };
        let drift = if self.rng.chance(0.7) { [0.0; 3] } else { self.rng.vec(3.0) };
        let spin = if spinning { let m = *self.rng.pick(&[0.1f32, -0.1, 0.5, -0.5, 1.5]); scale(&axis, m) } else { [0.0; 3] };
        let off = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(1.0) };
        let r = self.rng.f(0.1, 1.0);
        // What to aim at: a feature point and the way out from there (in the target's axes).
        let (mut cols, own, point, out): (Vec<ColSpec>, f32, A3, A3);
        match self.rng.below(10) {
            0..=4 => {
                let (a, b) = ([self.rng.f(-1.6, -0.1), self.rng.f(-1.6, -0.1), self.rng.f(-1.6, -0.1)], [self.rng.f(0.1, 1.6), self.rng.f(0.1, 1.6), self.rng.f(0.1, 1.6)]);
                let (mut p, mut o) = ([0.0f32; 3], [0.0f32; 3]);
                let forced = self.rng.below(3) as usize;
                for i in 0..3 {
                    match self.rng.below(3) {
                        0 if i != forced => p[i] = self.rng.f(a[i] as f64, b[i] as f64),
                        1 => { p[i] = a[i]; o[i] = -self.rng.f(0.0, 1.0); }
                        _ => { p[i] = b[i]; o[i] = self.rng.f(0.0, 1.0); }
                    }
                }
                let finite = self.rng.chance(0.3);
                let m = if finite { self.mass() } else { f32::INFINITY };
                cols = vec![ColSpec::cuboid(a, b, m).at(off)];
                own = 0.0;
                point = add(&p, &off);
                out = o;
            }
            5..=8 => {
                let h = [self.rng.f(0.2, 2.0), self.rng.f(0.2, 2.0), self.rng.f(0.2, 2.0)];
                let mesh = ColSpec::mesh(*self.rng.pick(&[0u8, 1, 2, 3, 4, 5]), h).at(off);
                let faces = mesh.faces();
                let face = self.rng.pick(&faces).clone();
                let k = self.rng.below(face.len() as u64) as usize;
                let (u, v) = (face[k], face[(k + 1) % face.len()]);
                let mut middle = [0.0f32; 3];
                for p in &face { middle = add(&middle, &scale(p, 1.0 / face.len() as f32)); }
                let t = self.rng.f(0.0, 1.0);
                let edge = add(&scale(&u, 1.0 - t), &scale(&v, t));
                let p = match self.rng.below(3) { 0 => u, 1 => edge, _ => { let t = self.rng.f(0.0, 1.0); add(&scale(&edge, 1.0 - t), &scale(&middle, t)) } };
                let e: A3 = add(&v, &scale(&u, -1.0));
                let g = add(&middle, &scale(&u, -1.0));
                let mut n = [e[1] * g[2] - e[2] * g[1], e[2] * g[0] - e[0] * g[2], e[0] * g[1] - e[1] * g[0]];
                // The faces of closed ones should be met from outside.
                if n[0] * middle[0] + n[1] * middle[1] + n[2] * middle[2] < 0.0 { n = scale(&n, -1.0); }
                let (way, wobble) = (add(&p, &scale(&middle, -1.0)), self.rng.vec(0.3));
                cols = vec![mesh];
                own = f32::INFINITY;
                point = add(&p, &off);
                let tip = self.rng.f(0.0, 2.0);
                out = match self.rng.below(3) { 0 => n, 1 => add(&scale(&unit(&n), 0.3), &scale(&way, tip)), _ => add(&unit(&n), &wobble) };
            }
            _ => {
                let big = self.rng.f(0.1, 3.0);
                let m = *self.rng.pick(&[f32::INFINITY, 1.0, 30.0]);
                let o = self.rng.dir();
                cols = vec![ColSpec::sphere(big, m).at(off)];
                own = 0.0;
                point = add(&off, &scale(&o, big));
                out = o;
            }
        }
        if self.rng.chance(0.25) {
            // Something else on the same body.
            let (r2, m2, p2) = (self.rng.f(0.1, 0.8), *self.rng.pick(&[0.0f32, 1.0]), self.rng.vec(2.0));
            let more = ColSpec::sphere(r2, m2).at(p2);
            if self.rng.chance(0.5) { cols.push(more) } else { cols.insert(0, more) }
        }
        let u = unit(&turn(&rot, &out));
        // A hair is anything from a thousandth to half of the radius, to either side.
        let miss = self.rng.logf(0.003, 0.6) * *self.rng.pick(&[1.0f32, -1.0]) * r;
        let nearest = add(&add(&at, &turn(&rot, &point)), &scale(&u, r + miss));
        let mut dir = match self.rng.below(4) {
            0 => scale(&u, -1.0),
            1 => { let mut d = [0.0; 3]; d[self.rng.below(3) as usize] = *self.rng.pick(&[1.0f32, -1.0]); turn(&rot, &d) }
            2 => self.rng.dir(),
            _ => { let d = self.rng.dir(); let k = d[0] * u[0] + d[1] * u[1] + d[2] * u[2]; unit(&add(&d, &scale(&u, -k))) }
        };
        if !dir.iter().all(|x| x.is_finite()) { dir = [0.0, -1.0, 0.0]; }
        let speed = self.rng.logf(0.05, 60.0);
        let far = self.rng.logf(0.05, 10.0) + r;
        let eta = far / speed;
        // By then the target will have moved along.
        let from = add(&nearest, &scale(&dir, -far));
        let vel = add(&scale(&dir, speed), &drift);
        let (m, shift) = (self.mass(), if self.rng.chance(0.7) { [0.0; 3] } else { self.rng.vec(1.0) });
        let arot = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(3.0) };
        let place = add(&from, &scale(&turn(&arot, &shift), -1.0));
        // So that it's turned as planned by the time they meet.
        let early = if spinning { self.rng.chance(0.5) } else { false };
        let trot = if early { add(&rot, &scale(&spin, -eta)) } else { rot };
        let target_spec = EntSpec { pos: at, rot: trot, vel: drift, ang: spin, mass: own };
        let sphere_spec = EntSpec { pos: place, rot: arot, vel, ang: [0.0; 3], mass: 0.0 };
        let first = self.rng.chance(0.5);
        if first { let e = self.ent(sphere_spec.clone()); self.col(e, ColSpec::sphere(r, m).at(shift)); }
        let e = self.ent(target_spec);
        for c in cols { self.col(e, c); }
        if !first { let e = self.ent(sphere_spec); self.col(e, ColSpec::sphere(r, m).at(shift)); }
        let before = self.rng.int(0, 6);
        let step = (eta as f64 / (before as f64 + self.rng.unit().max(0.05))).min(3.0);
        for _ in 0..before + self.rng.int(1, 4) {
            self.now += step;
            let t = self.now;
            self.put(t, 0, 0, Op::Step { dt: step as f32 });
        }
        self.finish()
    }

    /// A mesh that falls flat, on an edge or on a corner on a plane.
    pub fn landing(mut self) -> Vec<Ev> {
        let iterations = *self.rng.pick(&[1u8, 2, 5, 20]);
        self.now(Op::Conf { iterations, energy: -1.0, delay: 0.1 });
        let n = match self.rng.below(3) { 0 => [0.0, 1.0, 0.0], _ => self.rng.dir() };
        let at = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(4.0) };
        let h = [self.rng.f(0.3, 1.5), self.rng.f(0.3, 1.5), self.rng.f(0.3, 1.5)];
        let shape = *self.rng.pick(&[0u8, 1, 2, 3, 4, 5]);
        let off = if self.rng.chance(0.6) { [0.0; 3] } else { self.rng.vec(0.7) };
        let mut rot = match self.rng.below(4) { 0 => [0.0; 3], 1 => self.rng.vec(0.05), _ => self.rng.vec(3.0) };
        if self.rng.chance(0.3) { let k = *self.rng.pick(&[std::f32::consts::PI, std::f32::consts::FRAC_PI_2]); rot = [0.0; 3]; rot[self.rng.below(3) as usize] = k; }
        let ang = if self.rng.chance(0.7) { [0.0; 3] } else { self.rng.vec(0.5) };
        let (speed, far) = (self.rng.logf(0.1, 30.0), self.rng.logf(0.02, 5.0));
        let mut v = scale(&n, -speed);
        if self.rng.chance(0.5) { let w = self.rng.vec(speed as f64 * 0.7); v = add(&v, &w); }
        let pv = if self.rng.chance(0.7) { [0.0; 3] } else { self.rng.vec(2.0) };
        let mesh = ColSpec::mesh(shape, h).at(off);
        let low = mesh.faces().iter().flatten().map(|p| { let w = turn(&rot, &add(p, &off)); w[0] * n[0] + w[1] * n[1] + w[2] * n[2] }).fold(f32::INFINITY, f32::min);
        let side = { let s = self.rng.vec(4.0); let k = s[0] * n[0] + s[1] * n[1] + s[2] * n[2]; add(&s, &scale(&n, -k)) };
        let pos = add(&add(&at, &side), &scale(&n, far - low));
        let (m, i) = (self.mass(), [self.rng.f(0.3, 2.0), self.rng.f(0.3, 2.0), self.rng.f(0.3, 2.0)]);
        let first = self.rng.chance(0.5);
        let moving = pv != [0.0; 3];
        for k in 0..2 {
            if (k == 0) == first {
                let e = self.ent(EntSpec { pos, rot, vel: add(&v, &pv), ang, mass: 0.0 });
                self.col(e, mesh.clone());
                self.col(e, ColSpec::null(m, i));
            } else {
                let e = self.ent(EntSpec { pos: at, rot: [0.0; 3], vel: if moving { pv } else { [0.0; 3] }, ang: [0.0; 3], mass: 0.0 });
                self.col(e, ColSpec::plane(n, f32::INFINITY));
            }
        }
        if self.rng.chance(0.3) { let g = self.rng.f(0.5, 10.0); self.gravity(scale(&n, -g)); }
        let along = -(v[0] * n[0] + v[1] * n[1] + v[2] * n[2]);
        let eta = if along > 0.05 { (far / along) as f64 } else { 0.5 };
        let before = self.rng.int(0, 5);
        let step = (eta / (before as f64 + self.rng.unit().max(0.05))).min(2.0);
        for _ in 0..before + self.rng.int(1, 6) {
            self.now += step;
            let t = self.now;
            self.put(t, 0, 0, Op::Step { dt: step as f32 });
        }
        self.finish()
    }

    /// Meshes among themselves: mostly a corner of one of them that heads for a face of another.
    pub fn crates(mut self) -> Vec<Ev> {
        let iterations = *self.rng.pick(&[1u8, 2, 5, 20]);
        self.now(Op::Conf { iterations, energy: -1.0, delay: 0.1 });
        let at = match self.rng.below(3) { 0 => [0.0; 3], _ => self.rng.vec(5.0) };
        let h = [self.rng.f(0.3, 3.0), self.rng.f(0.3, 3.0), self.rng.f(0.3, 3.0)];
        let off = if self.rng.chance(0.6) { [0.0; 3] } else { self.rng.vec(0.7) };
        let target = ColSpec::mesh(*self.rng.pick(&[0u8, 1, 1, 2, 3, 4, 5]), h).at(off);
        let rot = match self.rng.below(4) { 0 | 1 => [0.0; 3], _ => self.rng.vec(3.0) };
        let spinning = self.rng.chance(0.3);
        let (ang, ang2) = if spinning { (self.rng.vec(0.6), self.rng.vec(0.6)) } else { ([0.0; 3], [0.0; 3]) };
        let faces = target.faces();
        let face = self.rng.pick(&faces).clone();
        let mut middle = [0.0f32; 3];
        for p in &face { middle = add(&middle, &scale(p, 1.0 / face.len() as f32)); }
        // Where on the face, and which way is out.
        let (k, t) = (self.rng.below(face.len() as u64) as usize, self.rng.f(-0.1, 1.0));
        let point = add(&add(&scale(&middle, t), &scale(&face[k], 1.0 - t)), &off);
        let (e, g) = (add(&face[1], &scale(&face[0], -1.0)), add(&face[2], &scale(&face[0], -1.0)));
        let mut n = unit(&[e[1] * g[2] - e[2] * g[1], e[2] * g[0] - e[0] * g[2], e[0] * g[1] - e[1] * g[0]]);
        let side = n[0] * middle[0] + n[1] * middle[1] + n[2] * middle[2];
        if side < 0.0 || (side.abs() < 1e-6 && self.rng.chance(0.5)) { n = scale(&n, -1.0); }
        let n = turn(&rot, &n);
        let point = add(&at, &turn(&rot, &point));
        // What flies there.
        let h2 = [self.rng.f(0.2, 1.5), self.rng.f(0.2, 1.5), self.rng.f(0.2, 1.5)];
        let off2 = if self.rng.chance(0.6) { [0.0; 3] } else { self.rng.vec(0.7) };
        let flier = ColSpec::mesh(*self.rng.pick(&[0u8, 1, 1, 2, 3, 4, 5]), h2).at(off2);
        let rot2 = match self.rng.below(4) { 0 => rot, 1 => self.rng.vec(0.3), _ => self.rng.vec(3.0) };
        let lowest = flier.faces().iter().flatten().map(|p| turn(&rot2, &add(p, &off2))).fold(None, |best: Option<A3>, p| { let d = |x: &A3| x[0] * n[0] + x[1] * n[1] + x[2] * n[2]; match best { Some(b) if d(&b) <= d(&p) => Some(b), _ => Some(p) } }).unwrap_or([0.0; 3]);
        let (speed, far) = (self.rng.logf(0.1, 30.0), self.rng.logf(0.02, 5.0));
        let mut v = scale(&n, -speed);
        if self.rng.chance(0.4) { let w = self.rng.vec(speed as f64 * 0.7); v = add(&v, &w); }
        let along = -(v[0] * n[0] + v[1] * n[1] + v[2] * n[2]);
        let eta = if along > 0.05 { far / along } else { 0.5 };
        let from = add(&add(&point, &scale(&v, -eta)), &scale(&lowest, -1.0));
        // Who moves is a matter of the point of view.
        let share = *self.rng.pick(&[0.0f32, 0.0, 1.0, 1.0, 0.5, -0.7, 1.6]);
        let drift = if self.rng.chance(0.3) { self.rng.vec(3.0) } else { [0.0; 3] };
        let (vt, vf) = (add(&drift, &scale(&v, -share)), add(&drift, &scale(&v, 1.0 - share)));
        let unyielding = self.rng.below(4);
        let first = self.rng.chance(0.5);
        for k in 0..2 {
            let (m, i) = (self.mass(), [self.rng.f(0.3, 2.0), self.rng.f(0.3, 2.0), self.rng.f(0.3, 2.0)]);
            let (spec, col, fixed) = if (k == 0) == first {
                (EntSpec { pos: at, rot, vel: vt, ang, mass: 0.0 }, target.clone(), unyielding == 0)
            } else {
                (EntSpec { pos: from, rot: rot2, vel: vf, ang: ang2, mass: 0.0 }, flier.clone(), unyielding == 1)
            };
            let e = self.ent(EntSpec { mass: if fixed { f32::INFINITY } else { 0.0 }, ..spec });
            self.col(e, col);
            if !fixed { self.col(e, ColSpec::null(m, i)); }
        }
        for _ in 0..self.rng.below(3) {
            let h = [self.rng.f(0.2, 1.5), self.rng.f(0.2, 1.5), self.rng.f(0.2, 1.5)];
            let (pos, rot, vel, ang) = (self.rng.vec(6.0), self.rng.vec(3.0), self.rng.vec(4.0), if spinning { self.rng.vec(1.0) } else { [0.0; 3] });
            let (shape, m, i) = (*self.rng.pick(&[0u8, 1, 2, 3, 4, 5]), self.mass(), [self.rng.f(0.3, 2.0), self.rng.f(0.3, 2.0), self.rng.f(0.3, 2.0)]);
            let e = self.ent(EntSpec { pos, rot, vel, ang, mass: 0.0 });
            self.col(e, ColSpec::mesh(shape, h));
            self.col(e, ColSpec::null(m, i));
        }
        if self.rng.chance(0.2) { let (g, d) = (self.rng.f(0.5, 10.0), self.rng.dir()); self.gravity(scale(&d, g)); }
        let before = self.rng.int(0, 5);
        let step = (eta as f64 / (before as f64 + self.rng.unit().max(0.05))).min(2.0);
        for _ in 0..before + self.rng.int(1, 6) {
            self.now += step;
            let t = self.now;
            self.put(t, 0, 0, Op::Step { dt: step as f32 });
        }
        self.finish()
    }

    /// A turning mesh or box, and something placed where a point of it will be at a chosen instant.
    pub fn spinner(mut self) -> Vec<Ev> {
        let iterations = *self.rng.pick(&[1u8, 2, 5, 20]);
        self.now(Op::Conf { iterations, energy: -1.0, delay: 0.1 });
        let at = match self.rng.below(3) { 0 => [0.0; 3], _ => self.rng.vec(4.0) };
        let h = [self.rng.f(0.2, 2.0), self.rng.f(0.2, 2.0), self.rng.f(0.2, 2.0)];
        let off = if self.rng.chance(0.7) { [0.0; 3] } else { self.rng.vec(1.0) };
        let cuboid = self.rng.chance(0.25);
        let shape = if cuboid { 1 } else { *self.rng.pick(&[0u8, 1, 1, 2, 3, 4, 5]) };
        let mesh = ColSpec::mesh(shape, h).at(off);
        let rot = match self.rng.below(3) { 0 => [0.0; 3], _ => self.rng.vec(3.0) };
        let (d, w) = (self.rng.dir(), self.rng.logf(0.3, 6.0));
        let ang = scale(&d, w);
        let vel = if self.rng.chance(0.4) { [0.0; 3] } else { let m = self.rng.f(0.1, 3.0); scale(&self.rng.dir(), m) };
        let step = self.rng.logf(0.01, 0.4) / w;
        let before = self.rng.int(0, 3);
        let eta = step * (before as f32 + self.rng.f(0.05, 1.0));
        let pose = |p: &A3| { let r = turn(&scale(&ang, eta), &turn(&rot, &add(p, &off))); (add(&add(&at, &scale(&vel, eta)), &r), r) };
        let faces = mesh.faces();
        let face = self.rng.pick(&faces).clone();
        let (k, t, u) = (self.rng.below(face.len() as u64) as usize, self.rng.f(0.0, 1.0), self.rng.f(0.0, 0.5));
        let mut middle = [0.0f32; 3];
        for p in &face { middle = add(&middle, &scale(p, 1.0 / face.len() as f32)); }
        let corner = face[k];
        let next = face[(k + 1) % face.len()];
        let spot = match self.rng.below(3) { 0 => corner, 1 => add(&scale(&corner, t), &scale(&next, 1.0 - t)), _ => add(&scale(&corner, u), &scale(&middle, 1.0 - u)) };
        let (p, r) = pose(&spot);
        let v = add(&vel, &[ang[1] * r[2] - ang[2] * r[1], ang[2] * r[0] - ang[0] * r[2], ang[0] * r[1] - ang[1] * r[0]]);
        let vhat = unit(&v);
        let yielding = self.rng.chance(0.5);
        let (m, i) = (self.mass(), [self.rng.f(0.3, 2.0), self.rng.f(0.3, 2.0), self.rng.f(0.3, 2.0)]);
        let first = self.rng.chance(0.5);
        let plane = !cuboid && self.rng.chance(0.35);
        for k in 0..2 {
            if (k == 0) == first {
                let fixed = !yielding && !plane;
                let e = self.ent(EntSpec { pos: at, rot, vel, ang, mass: if fixed { f32::INFINITY } else { 0.0 } });
                let c = if cuboid { ColSpec::cuboid(scale(&h, -1.0), h, if fixed { 1.0 } else { m }).at(off) } else { mesh.clone() };
                self.col(e, c);
                if !fixed && !cuboid { self.col(e, ColSpec::null(m, i)); }
            } else if plane {
                let n = if self.rng.chance(0.5) { scale(&vhat, -1.0) } else { self.rng.dir() };
                let lowest = faces.iter().flatten().map(|c| pose(c).0).map(|x| x[0] * n[0] + x[1] * n[1] + x[2] * n[2]).fold(f32::INFINITY, f32::min);
                let e = self.ent(EntSpec { pos: scale(&n, lowest), rot: [0.0; 3], vel: [0.0; 3], ang: [0.0; 3], mass: 0.0 });
                self.col(e, ColSpec::plane(n, f32::INFINITY));
            } else {
                let r = self.rng.f(0.1, 1.0);
                let push = if self.rng.chance(0.5) { [0.0; 3] } else { let m = self.rng.f(0.0, 2.0); scale(&vhat, -m) };
                let from = add(&add(&p, &scale(&vhat, r)), &scale(&push, -eta));
                let spin = if self.rng.chance(0.5) { [0.0; 3] } else { self.rng.vec(3.0) };
                let e = self.ent(EntSpec { pos: from, rot: [0.0; 3], vel: push, ang: spin, mass: 0.0 });
                let m = if yielding && self.rng.chance(0.3) { f32::INFINITY } else { self.mass() };
                self.col(e, ColSpec::sphere(r, m));
            }
        }
        for _ in 0..before + self.rng.int(1, 4) {
            self.now += step as f64;
            let t = self.now;
            self.put(t, 0, 0, Op::Step { dt: step });
        }
        self.finish()
    }

    /// A long time with nothing but a few spinning (and perhaps bouncing) bodies.
    pub fn marathon(mut self) -> Vec<Ev> {
        self.config(false, true);
        let n = self.rng.int(1, 2);
        for _ in 0..n { self.body(false, 4.0, 0.1, 0.2, 8.0, false); }
        if self.rng.chance(0.3) { self.walls(7.0, true); }
        let dt = *self.rng.pick(&[1.0f32 / 60.0, 0.01, 0.003]);
        let frames = self.rng.int(200, 1500);
        for _ in 0..frames {
            self.now += dt as f64;
            let t = self.now;
            self.put(t, 0, 0, Op::Step { dt });
        }
        self.finish()
    }

    /// Things coming to rest (with gravity on a floor or without any), and being disturbed.
    pub fn settling(mut self, opts: Settling) -> Vec<Ev> {
        self.rest = if self.rng.chance(0.8) { Rest::Dead } else { Rest::Mixed };
        if self.rng.chance(0.7) { self.friction = false; }
        let iterations = *self.rng.pick(&[5u8, 20, 60]);
        let energy = *self.rng.pick(&[0.001f32, 0.001, 0.01, 0.05]);
        let delay = *self.rng.pick(&[0.1f32, 0.05, 0.03, 0.2, 0.3]);
        self.now(Op::Conf { iterations, energy, delay });
        let grav = self.rng.chance(0.6);
        if grav {
            let g = self.rng.f(0.5, 10.0);
            self.gravity([0.0, -g, 0.0]);
        }
        let mut top = 0.0;
        // The floor.
        let floor = if grav || self.rng.chance(0.4) {
            let own = self.rng.chance(0.5);
            let mut spec = EntSpec::at([0.0; 3]);
            if own { spec.mass = f32::INFINITY; }
            let m = if own { 0.0 } else { f32::INFINITY };
            let kind = self.rng.below(5);
            let e = if kind == 4 { let mut s = spec.clone(); s.mass = f32::INFINITY; self.ent(s) } else { self.ent(spec) };
            match kind {
                0 | 1 | 2 => { self.col(e, ColSpec::plane([0.0, 1.0, 0.0], m)); }
                3 => { self.col(e, ColSpec::cuboid([-20.0, -1.0, -20.0], [20.0, 0.0, 20.0], m)); }
                _ => { self.col(e, ColSpec::mesh(0, [20.0, 1.0, 20.0])); }
            }
            Some(e)
        } else { None };
        let gap = |r: &mut Rng| if r.chance(0.5) { r.f(0.0, 0.01) } else { r.f(0.01, 0.2) };
        let piles = self.rng.int(1, 3);
        for p in 0..piles {
            let x = p as f32 * 5.0 - 4.0;
            let n = self.rng.int(1, 3);
            let style = self.rng.below(3);
            let mut y = top;
            let mut along = x;
            let z = self.rng.f(-1.0, 1.0);
            let mut last_r: f32 = 0.0;
            for k in 0..n {
                let (r, m) = (self.rng.f(0.2, 0.8), self.mass());
                let g = gap(&mut self.rng);
                let (pos, vel);
                if grav && style < 2 {
                    // A stack.
                    y += g + r;
                    pos = [x, y, z];
                    y += r;
                    vel = [0.0; 3];
                } else {
                    // A row that gets pushed together slowly.
                    along += if k == 0 { 0.0 } else { last_r + r + g };
                    last_r = r;
                    pos = [along, if floor.is_some() { r + if grav { g } else { 0.01 + g } } else { 3.0 }, z];
                    let push = self.rng.f(0.005, 0.3);
                    vel = if k == 0 { [push, 0.0, 0.0] } else { [0.0; 3] };
                }
                let own = if self.rng.chance(0.2) { self.mass() } else { 0.0 };
                let e = self.ent(EntSpec { pos, rot: [0.0; 3], vel, ang: [0.0; 3], mass: own });
                self.col(e, ColSpec::sphere(r, m));
                self.placed.push((e, pos, r));
                self.finite.push(e);
            }
            top = 0.0;
        }
        if self.rng.chance(0.25) {
            // Something that keeps spinning slowly or just hangs there.
            let ang = if self.rng.chance(0.5) { scale(&self.rng.dir(), 0.02) } else { self.rng.vec(2.0) };
            let pos = [0.0, 12.0, 8.0];
            let (own, cols, _) = self.shape(false);
            let e = self.ent(EntSpec { pos, rot: [0.3, 0.1, -0.2], vel: [0.0; 3], ang, mass: own });
            for c in cols { self.col(e, c); }
        }
        let clock = if self.rng.chance(0.5) { Clock { base: 1.0 / 60.0, jitter: 0.0, stall: 0.0, stall_length: 0.0, frozen: 0.0 } } else { let mut c = self.clock(); c.base = c.base.min(0.05); c };
        let settle = self.rng.int(15, 70) as usize;
        let rounds = self.rng.int(1, 4);
        self.frames(settle, &clock);
        for _ in 0..rounds {
            let n = self.rng.int(1, 3);
            for _ in 0..n {
                let t = self.now;
                match self.rng.below(if opts.remove { 10 } else { 8 }) {
                    0 => { let k = self.rng.below(5) as u32; self.put(t, 1, 0, Op::UpdEnt { sel: Sel::Asleep(k), base: Base::Fresh, mask: 0, spec: EntSpec::at([0.0; 3]) }) }
                    1 | 2 => {
                        let mut spec = EntSpec::at([0.0; 3]);
                        spec.vel = self.rng.vec(1.0);
                        spec.ang = self.rng.vec(1.0);
                        spec.rot = self.rng.vec(1.0);
                        spec.mass = self.mass();
                        let k = self.rng.below(5) as u32;
                        let mask = *self.rng.pick(&[F_VEL, F_VEL, F_ANG, F_ROT, F_MASS, F_VEL | F_ANG, F_MASS | F_NUDGE]);
                        self.put(t, 1, 0, Op::UpdEnt { sel: Sel::Asleep(k), base: Base::Fresh, mask, spec });
                    }
                    3 | 4 => {
                        // A projectile.
                        if self.placed.is_empty() { continue; }
                        let (_, p, r) = { let k = self.rng.below(self.placed.len() as u64) as usize; self.placed[k] };
                        let mut dir = self.rng.dir();
                        dir[1] = -dir[1].abs();
                        let (pr, pm, away, speed) = (self.rng.f(0.1, 0.5), self.mass(), self.rng.f(0.3, 4.0), self.rng.logf(0.05, 10.0));
                        let from = add(&p, &scale(&dir, -(r + pr + away)));
                        self.ents += 1;
                        self.cols += 1;
                        let (e, c) = (self.ents, self.cols);
                        let spec = self.material(ColSpec::sphere(pr, pm));
                        self.put(t, 2, 0, Op::AddEnt { id: e, spec: EntSpec { pos: from, rot: [0.0; 3], vel: scale(&dir, speed), ang: [0.0; 3], mass: 0.0 } });
                        self.put(t, 2, 0, Op::AddCol { id: c, spec });
                        self.put(t, 2, 0, Op::Link { col: c, to: Some(Sel::Id(e)) });
                    }
                    5 => {
                        // The floor gives way (or gets hit).
                        if let Some(f) = floor {
                            let mut spec = EntSpec::at([0.0, -self.rng.f(0.0, 0.5), 0.0]);
                            spec.vel = [0.0, self.rng.f(-0.5, 0.2), 0.0];
                            let mask = *self.rng.pick(&[F_POS, F_VEL, 0]);
                            self.put(t, 1, 0, Op::UpdEnt { sel: Sel::Id(f), base: Base::Fresh, mask, spec });
                        }
                    }
                    6 => { self.slots += 1; let slot = self.slots; let k = self.rng.below(6) as u32; self.put(t, 1, 0, Op::Snap { slot, sel: Sel::Live(k) }); }
                    7 => {
                        let slot = self.rng.below(self.slots as u64 + 1) as u32;
                        let k = self.rng.below(5) as u32;
                        self.put(t, 1, T_LATE, Op::UpdEnt { sel: Sel::Live(k), base: Base::Slot(slot), mask: 0, spec: EntSpec::at([0.0; 3]) });
                    }
                    _ => { let k = self.rng.below(6) as u32; let sel = if self.rng.chance(0.6) { Sel::Asleep(k) } else { Sel::Live(k) }; self.put(t, 1, 0, Op::RmEnt { sel }); }
                }
            }
            // Write-backs of fresh copies should change nothing.
            if self.rng.chance(0.5) {
                let t = self.now;
                for k in 0..3 { self.put(t, 1, 0, Op::UpdEnt { sel: Sel::Asleep(k), base: Base::Fresh, mask: 0, spec: EntSpec::at([0.0; 3]) }); }
            }
            let n = self.rng.int(5, 40) as usize;
            self.frames(n, &clock);
        }
        self.finish()
    }

    /// Spheres in a container, pestered by everything there is.
    pub fn contained(mut self) -> Vec<Ev> {
        let half = self.rng.f(2.0, 6.0);
        let sleep = self.rng.chance(0.5);
        let grav = self.rng.chance(0.7);
        let iterations = *self.rng.pick(&[2u8, 5, 5, 20, 60]);
        let (energy, delay) = if sleep { (*self.rng.pick(&[0.001f32, 0.01, 0.1]), *self.rng.pick(&[0.1f32, 0.03])) } else { (-1.0, 0.1) };
        self.now(Op::Conf { iterations, energy, delay });
        if grav { let g = self.rng.f(0.5, 20.0); let mut d = [0.0, -1.0, 0.0]; if self.rng.chance(0.3) { d = self.rng.dir(); } self.gravity(scale(&d, g)); }
        let closed = self.rng.chance(0.7);
        if self.rng.chance(0.35) { self.room(half); } else { self.walls(half, closed); }
        if self.rng.chance(0.3) { self.obstacle(half * 0.5, false); }
        let n = self.rng.int(1, 6);
        let speed = *self.rng.pick(&[0.0f32, 2.0, 10.0, 60.0]);
        for _ in 0..n {
            let simple = self.rng.chance(0.8);
            let spin = *self.rng.pick(&[0.0f32, 2.0]);
            let overlap = self.rng.chance(0.05);
            self.body(simple, (half - 1.5).max(0.5), 0.01, speed, spin, overlap);
        }
        if self.rng.chance(0.3) { let (f, k) = (self.rng.dir(), self.rng.f(0.5, 20.0)); self.gens += 1; let id = self.gens; self.now(Op::AddGen { id, spec: GenSpec::Const { force: scale(&f, k), offset: [0.0; 3] } }); }
        let frames = self.rng.int(20, 140) as usize;
        let clock = self.clock();
        let start = self.now;
        self.span = frames as f64 * clock.base;
        let k = self.rng.int(0, 12);
        let net = self.net();
        for _ in 0..k {
            let t = start + self.span * self.rng.unit();
            let mut spec = EntSpec::at([0.0; 3]);
            let most = *self.rng.pick(&[1.0, 8.0, 40.0]);
            spec.vel = self.rng.vec(most);
            let sel = match self.rng.below(3) { 0 => Sel::Asleep(self.rng.below(4) as u32), _ => { let i = self.rng.below(self.finite.len().max(1) as u64) as usize; match self.finite.get(i) { Some(e) => Sel::Id(*e), None => continue } } };
            let op = match self.rng.below(6) {
                0 => { self.slots += 1; Op::Snap { slot: self.slots, sel } }
                1 if self.slots > 0 => Op::UpdEnt { sel, base: Base::Slot(self.rng.int(1, self.slots as i64) as u32), mask: 0, spec },
                _ => Op::UpdEnt { sel, base: Base::Fresh, mask: F_VEL, spec },
            };
            self.send(&net, 1, t, op);
        }
        self.frames(frames, &clock);
        self.finish()
    }

    /// Many generators, coming and going.
    pub fn forces(mut self, crashes: bool) -> Vec<Ev> {
        let sleep = self.rng.chance(0.4);
        let enough = self.rng.chance(0.5);
        self.config(sleep, enough);
        let half = 6.0;
        if self.rng.chance(0.4) { self.walls(half, true); }
        let n = self.rng.int(1, 5);
        for _ in 0..n { let s = self.rng.chance(0.3); self.body(s, half - 1.5, 0.05, 3.0, 2.0, false); }
        if self.rng.chance(0.4) {
            let p = self.rng.vec(4.0);
            let v = self.rng.vec(1.0);
            let mass = *self.rng.pick(&[0.0, f32::INFINITY, 2.0]);
            self.ent(EntSpec { pos: p, rot: [0.0; 3], vel: v, ang: [0.0; 3], mass });
        }
        let g = self.rng.int(1, 5);
        for _ in 0..g { self.add_generator_now(); }
        let frames = self.rng.int(8, 50) as usize;
        let clock = self.clock();
        let start = self.now;
        self.span = frames as f64 * clock.base;
        let k = self.rng.int(0, 14);
        let net = self.net();
        for _ in 0..k {
            let t = start + self.span * self.rng.unit();
            let op = match self.rng.below(7) {
                0 | 1 => { self.gens += 1; let id = self.gens; Op::AddGen { id, spec: self.generator() } }
                2 | 3 => Op::RmGen { id: self.rng.int(1, self.gens as i64) as u32 },
                4 => Op::RmEnt { sel: self.some_ent() },
                _ => self.command(false, false),
            };
            self.send(&net, 1, t, op);
        }
        if crashes {
            for _ in 0..self.rng.int(1, 5) {
                let t = start + self.span * self.rng.unit();
                let nth = self.rng.below(18) as u32;
                self.put(t, 9, 0, Op::Crash { nth });
            }
        }
        self.frames(frames, &clock);
        self.finish()
    }

    /// Appends what goes wrong with the standard output.
    pub fn sinks(seed: u64, evs: Vec<Ev>) -> Vec<Ev> {
        let mut rng = Rng::new(mix(&[seed, 77]));
        let mut out = Vec::new();
        let p = *rng.pick(&[0.02, 0.1, 0.3]);
        for (i, e) in evs.into_iter().enumerate() {
            if rng.chance(p) || i == 3 {
                let mode = *rng.pick(&SINKS);
                let budget = *rng.pick(&[-1i64, 1, 2, 5, 50]);
                out.push(Ev { t: e.t, who: 8, tags: 0, op: Op::Sink { mode, budget } });
            }
            out.push(e);
        }
        out
    }

    /// Corrupts entity 1 at some point.
    pub fn corrupt(seed: u64, evs: Vec<Ev>) -> Vec<Ev> {
        let mut rng = Rng::new(mix(&[seed, 78]));
        let steps: Vec<usize> = evs.iter().enumerate().filter(|(_, e)| matches!(e.op, Op::Step { .. })).map(|(i, _)| i).collect();
        if steps.is_empty() { return evs; }
        let cols: Vec<u32> = evs.iter().filter_map(|e| match &e.op { Op::Link { col, to: Some(Sel::Id(1)) } => Some(*col), _ => None }).collect();
        let at = steps[rng.below(steps.len() as u64 * 2 / 3 + 1).min(steps.len() as u64 - 1) as usize];
        let huge = rng.chance(0.4);
        let worst = if huge { (10.0f32.powf(rng.f(9.5, 38.5) as f32)).min(3.3e38) * if rng.chance(0.5) { -1.0 } else { 1.0 } } else { *rng.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]) };
        let axis = rng.below(3) as usize;
        let mut spec = EntSpec::at([0.0; 3]);
        let mut part = rng.vec(2.0);
        part[axis] = worst;
        let op = match rng.below(8) {
            7 if huge => { spec.mass = worst.abs(); Op::UpdEnt { sel: Sel::Id(1), base: Base::Fresh, mask: F_MASS, spec } }
            0 => { spec.pos = part; Op::UpdEnt { sel: Sel::Id(1), base: Base::Fresh, mask: F_POS, spec } }
            1 => { spec.rot = part; Op::UpdEnt { sel: Sel::Id(1), base: Base::Fresh, mask: F_ROT, spec } }
            2 => { spec.vel = part; Op::UpdEnt { sel: Sel::Id(1), base: Base::Fresh, mask: F_VEL, spec } }
            3 => { spec.ang = part; Op::UpdEnt { sel: Sel::Id(1), base: Base::Fresh, mask: F_ANG, spec } }
            4 if !cols.is_empty() => {
                let id = *rng.pick(&cols);
                let mut c = ColSpec::new(Kind::Sphere);
                c.pos = part;
                Op::UpdCol { id, base: Base::Fresh, mask: F_POS, spec: c }
            }
            _ => Op::Poison { sel: Sel::Id(1), how: if huge { 5 + rng.below(3) as u8 } else { rng.below(5) as u8 } },
        };
        let mut out = evs;
        let (t, _) = (out[at].t, 0);
        out.insert(at, Ev { t, who: 9, tags: 0, op });
        out
    }
}

#[derive(Clone, Copy)]
pub struct Billiards {
    pub most: u32,
    pub simple: bool,
    pub spin: bool,
    pub sleep: bool,
    pub enough: bool,
    pub elastic: bool,
    pub frictionless: bool,
    pub forceless: bool,
    pub obstacles: f64,
    pub moving: bool,
    pub overlap: bool,
    pub massless: bool,
    pub victim: bool,
    pub generators: i64,
    pub commands: i64,
    pub frames: (i64, i64),
    pub clock: Option<Clock>,
}
pub const BILLIARDS: Billiards = Billiards {
    most: 6, simple: false, spin: true, sleep: true, enough: false, elastic: false, frictionless: false, forceless: false, obstacles: 0.4, moving: true, overlap: true,
    massless: true, victim: false, generators: 0, commands: 6, frames: (8, 60), clock: None,
};

#[derive(Clone, Copy)]
pub struct Settling { pub remove: bool }

/// The same world, but k times as large.
fn resize(evs: &mut [Ev], k: f32) {
    let grow = |a: &mut A3, k: f32| for x in a.iter_mut() { *x *= k; };
    let ent = |s: &mut EntSpec| { grow(&mut s.pos, k); grow(&mut s.vel, k); };
    let col = |s: &mut ColSpec| {
        grow(&mut s.pos, k);
        match s.kind {
            Kind::Null => { grow(&mut s.a, k * k); grow(&mut s.b, k * k); }
            Kind::Sphere | Kind::Mesh => grow(&mut s.a, k),
            Kind::Box => { grow(&mut s.a, k); grow(&mut s.b, k); }
            Kind::Plane => {}
        }
    };
    for e in evs {
        match &mut e.op {
            Op::AddEnt { spec, .. } | Op::UpdEnt { spec, .. } => ent(spec),
            Op::AddCol { spec, .. } | Op::UpdCol { spec, .. } => col(spec),
            Op::Conf { energy, .. } => *energy *= k * k,
            Op::AddGen { spec, .. } => match spec {
                GenSpec::Const { force, offset } | GenSpec::Wave { force, offset } => { grow(force, k); grow(offset, k); }
                GenSpec::Drag { .. } => {}
                GenSpec::Spring { anchor, offset, .. } => { grow(anchor, k); grow(offset, k); }
                GenSpec::Gravity { g } | GenSpec::RealGravity { g } => grow(g, k),
                GenSpec::Pin { force, point } => { grow(force, k); grow(point, k); }
            },
            _ => {}
        }
    }
}

/// The execution that a seed stands for.
pub fn make(property: &str, seed: u64) -> Vec<Ev> {
    let mut evs = make_unscaled(property, seed);
    let mut rng = Rng::new(mix(&[seed, 3000]));
    // Stranger meshes. (Not where the mesh is the room that everything has to stay in.)
    if matches!(property, "C03" | "C05" | "C06" | "C07" | "C08" | "C09" | "C11" | "C17" | "C18" | "C21") && Rng::new(mix(&[seed, 4000])).chance(0.2) { evs = Gen::reshape(seed, evs, false); }
    if rng.chance(0.12) { resize(&mut evs, *rng.pick(&[0.2, 0.35, 6.0, 50.0])); }
    evs
}

fn make_unscaled(property: &str, seed: u64) -> Vec<Ev> {
    let mut pick = Rng::new(mix(&[seed, 1000]));
    let roll = pick.unit();
    let g = Gen::new(mix(&[seed, 2000]));
    let settling = |g: Gen| g.settling(Settling { remove: true });
    let mut g = g;
    // (Not in worlds in which it would blow up.)
    if matches!(property, "C07" | "C08") && roll < 0.4 && pick.chance(0.15) { g.rest = Rest::Lively; }
    match property {
        "C01" => if roll < 0.65 { g.chaos(true) } else if roll < 0.8 { settling(g) } else if roll < 0.9 { g.forces(false) } else { g.billiards(BILLIARDS) },
        "C02" => if roll < 0.9 { g.chaos(true) } else { settling(g) },
        "C03" => if roll < 0.8 { g.chaos(false) } else { g.billiards(BILLIARDS) },
        "C04" => if roll < 0.003 { g.marathon() } else if roll < 0.35 { g.billiards(Billiards { generators: 2, ..BILLIARDS }) } else if roll < 0.6 { g.forces(false) } else if roll < 0.75 { settling(g) } else if roll < 0.9 { g.chaos(false) } else { g.duel(false) },
        "C05" | "C06" => if roll < 0.3 { g.duel(false) } else if roll < 0.45 { g.aimed() } else if roll < 0.5 { g.landing() } else if roll < 0.58 { g.crates() } else if roll < 0.67 { g.spinner() } else if roll < 0.87 { g.billiards(BILLIARDS) } else if roll < 0.95 { settling(g) } else { g.chaos(false) },
        "C07" | "C08" => if roll < 0.25 { g.duel(false) } else if roll < 0.35 { g.aimed() } else if roll < 0.4 { g.landing() } else if roll < 0.45 { g.crates() } else if roll < 0.5 { g.spinner() } else if roll < 0.9 { g.billiards(BILLIARDS) } else { settling(g) },
        "C09" => if roll < 0.25 { g.duel(pick.chance(0.5)) } else if roll < 0.35 { g.aimed() } else if roll < 0.4 { g.landing() } else if roll < 0.45 { g.crates() } else if roll < 0.5 { g.spinner() } else if roll < 0.65 { g.billiards(Billiards { forceless: true, simple: true, commands: 0, moving: false, ..BILLIARDS }) } else if roll < 0.9 { g.billiards(BILLIARDS) } else { settling(g) },
        "C10" => if roll < 0.75 { g.contained() } else if roll < 0.9 { settling(g) } else { g.duel(false) },
        "C11" => {
            let clock = Clock { base: *pick.pick(&[0.02, 0.05, 0.1]), jitter: 0.5, stall: 0.1, stall_length: 0.3, frozen: 0.0 };
            let mut b = Billiards { most: 4, simple: true, sleep: false, enough: true, frictionless: true, forceless: true, obstacles: 0.5, moving: false, overlap: false, massless: false, generators: 0, commands: 0, frames: (2, 25), clock: Some(clock), ..BILLIARDS };
            if pick.chance(0.3) { b.most = 2; }
            g.billiards(b)
        }
        "C12" | "C13" => if roll < 0.85 { settling(g) } else if roll < 0.95 { g.contained() } else { g.billiards(BILLIARDS) },
        "C14" => if roll < 0.3 { g.chaos(true) } else if roll < 0.6 { settling(g) } else if roll < 0.8 { g.billiards(BILLIARDS) } else if roll < 0.9 { g.contained() } else { g.forces(true) },
        "C15" => if roll < 0.8 { g.forces(false) } else if roll < 0.9 { settling(g) } else { g.billiards(Billiards { generators: 3, ..BILLIARDS }) },
        "C16" => g.forces(true),
        "C17" => {
            let b = Billiards { sleep: pick.chance(0.4), victim: true, moving: false, generators: if pick.chance(0.5) { 2 } else { 0 }, commands: if pick.chance(0.3) { 4 } else { 0 }, frames: (4, 40), overlap: pick.chance(0.3), ..BILLIARDS };
            let evs = g.billiards(b);
            if roll < 0.9 { Gen::corrupt(seed, evs) } else { evs }
        }
        "C18" => if roll < 0.5 { g.billiards(Billiards { sleep: false, generators: 2, commands: 3, frames: (4, 30), ..BILLIARDS }) } else if roll < 0.75 { g.forces(false) } else { g.chaos(false) },
        "C19" => { let evs = if roll < 0.3 { settling(g) } else if roll < 0.6 { g.billiards(BILLIARDS) } else if roll < 0.8 { g.chaos(true) } else { g.forces(true) }; Gen::sinks(seed, evs) }
        "C21" => if roll < 0.02 { g.marathon() } else if roll < 0.45 { g.chaos(false) } else if roll < 0.6 { settling(g) } else if roll < 0.7 { g.spinner() } else { g.billiards(BILLIARDS) },
        "C22" => {
            let evs = if roll < 0.3 { g.chaos(false) } else if roll < 0.5 { g.aimed() } else if roll < 0.65 { g.landing() } else if roll < 0.8 { g.spinner() } else { g.billiards(Billiards { obstacles: 1.0, ..BILLIARDS }) };
            Gen::reshape(seed, evs, true)
        }
        _ => vec![],
    }
}
