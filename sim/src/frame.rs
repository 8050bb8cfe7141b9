//! What the reference says about one frame: forces, free flight, and the sequence of logged contacts replayed in double precision.

use crate::phys::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

/// What's known about a body's velocity after its last replayed contact.
#[derive(Clone, Debug, PartialEq)]
pub enum Known {
    /// Exactly predicted.
    Yes,
    /// Predicted up to the friction of this contact.
    Friction(usize),
    No,
}

#[derive(Clone, Debug)]
pub struct Contact {
    pub index: usize,
    pub a: Body,
    pub b: Body,
    /// Approach speed along the normal.
    pub vn: f64,
    pub yielding: f64,
    pub j: f64,
    pub p: V,
    pub n: V,
    /// Right after the normal impulse.
    pub after_a: Body,
    pub after_b: Body,
    /// Whether both bodies' states before it were exactly predicted.
    pub known: bool,
    /// Neither body was in an earlier contact of this frame.
    pub first: bool,
    /// Neither body is in any other contact of this frame.
    pub only: bool,
    /// All the friction coefficients that might apply.
    pub mus: Vec<f64>,
    /// How far off this replay might be by now.
    pub err_a: Err,
    pub err_b: Err,
}

/// Bounds on the rounding errors that piled up along a chain of contacts.
#[derive(Clone, Copy, Debug, Default)]
pub struct Err { pub v: f64, pub w: f64, pub p: f64, pub q: f64 }

impl Err {
    fn advance(&mut self, t: f64) { self.p += self.v * t; self.q += self.w * t; }
    fn at(&self, arm: f64) -> f64 { self.v + self.w * arm }
}

impl Contact {
    /// How far apart things may be from where they're thought to be.
    pub fn drift(&self) -> f64 {
        let arm = |b: &Body| if b.total.is_finite() { (self.p - b.pos).norm() } else { 0.0 };
        self.err_a.p + self.err_b.p + self.err_a.q * arm(&self.a) + self.err_b.q * arm(&self.b)
    }
    /// How exact the velocities at the contact are.
    pub fn noise(&self) -> f64 {
        let arm = |b: &Body| if b.total.is_finite() { (self.p - b.pos).norm() } else { 0.0 };
        let spin = |b: &Body| if b.total.is_finite() { b.ang.norm() } else { 0.0 };
        self.err_a.at(arm(&self.a)) + self.err_b.at(arm(&self.b)) + self.err_a.p * spin(&self.a) + self.err_b.p * spin(&self.b)
    }
    pub fn speeds(&self) -> f64 {
        let l = |b: &Body| if b.total.is_finite() { b.vel.norm() + b.ang.norm() * (self.p - b.pos).norm() } else { b.velocity_at(&self.p).norm() };
        l(&self.a) + l(&self.b)
    }
    /// The tolerance for the relative velocity.
    pub fn tol_v(&self) -> f64 { 1e-4 + 3e-4 * self.speeds() + self.noise() }
    pub fn tol_j(&self) -> f64 { 3e-3 * self.j.abs() + 2.0 * self.tol_v() / self.yielding + 1e-5 + self.j.abs() * self.leverage() / self.yielding }
    /// How exact the yielding is, as the lever arms are only as exact as the places of the bodies.
    fn leverage(&self) -> f64 {
        [(&self.a, &self.err_a), (&self.b, &self.err_b)].iter().map(|(b, e)| {
            if !b.total.is_finite() { return 0.0; }
            let arm = self.p - b.pos;
            let off = e.p + e.q * arm.norm();
            b.inv_inertia_world().norm() * (2.0 * arm.cross(&self.n).norm() * off + off * off)
        }).sum()
    }
    /// How exact the velocities of one of the bodies are afterwards.
    pub fn tol_after(&self, b: &Body) -> (f64, f64) {
        if !b.total.is_finite() { return (1e-9, 1e-9); }
        let e = if b.id == self.a.id { &self.err_a } else { &self.err_b };
        let o = self.p - b.pos;
        let inv = b.inv_inertia_world().norm();
        let spin = inv * o.norm();
        let (tv, tj) = (self.tol_v(), self.tol_j());
        (tv + tj * b.inv_mass() + 1e-4 * self.j.abs() * b.inv_mass(), 1e-4 + 1e-3 * b.ang.norm() + e.w + spin * (tj + 3e-3 * self.j.abs()) + inv * self.j.abs() * (e.p + e.q * o.norm() + 2e-6 * (self.p.norm() + b.pos.norm() + o.norm())))
    }
}

/// The steady motion of a body from a contact (or the frame's start) on.
#[derive(Clone, Debug)]
pub struct Leg {
    /// How many records of the log came before it.
    pub after: usize,
    pub time: f64,
    pub body: Body,
    pub known: bool,
    pub err: Err,
}

impl Leg {
    /// What it comes to at a later time.
    fn at(&self, time: f64) -> (Body, Err) {
        let mut err = self.err;
        err.advance(time - self.time);
        (self.body.advanced(time - self.time), err)
    }
}

/// A stretch of time over which two bodies both move steadily.
pub struct Stretch {
    pub time: f64,
    /// The first record that ends it.
    pub next: Option<usize>,
    pub a: Body,
    pub b: Body,
    pub known: bool,
    /// Where they are may be off by so much, and gets so much worse per second.
    pub drift: f64,
    pub drift_speed: f64,
}

pub struct Frame {
    pub legs: BTreeMap<u32, Vec<Leg>>,
    pub dt: f64,
    /// How far simulated time really went.
    pub t_end: f64,
    pub exhausted: bool,
    /// Bodies at the start with their velocities after the forces acted.
    pub start: BTreeMap<u32, Body>,
    pub shapes: BTreeMap<u32, Vec<(u32, Shape)>>,
    pub count: BTreeMap<u32, usize>,
    pub contacts: Vec<Contact>,
    pub end: BTreeMap<u32, (Body, Known)>,
    pub errs: BTreeMap<u32, Err>,
    /// Bodies whose numbers can't be reasoned about.
    pub bad: BTreeSet<u32>,
}

/// Values beyond this are out of the range in which single precision arithmetic can be held to anything.
pub const SANE: f64 = 2e3;

pub fn sane(e: &EntObs) -> bool {
    e.finite() && d(&e.pos).norm() < SANE && d(&e.vel).norm() < SANE && d(&e.ang).norm() < SANE && d(&e.off).norm() < SANE
        && (e.total.is_infinite() || (e.total as f64) < 1e6) && (e.total == 0.0 || e.total as f64 > 1e-4)
}

impl Frame {
    /// None if the frame was too short to do anything.
    pub fn of(w: &World, pre: &Obs, post: &Obs, out: &Outcome, dt: f32) -> Option<Frame> {
        if !(dt.abs() >= 1e-6) { return None; }
        let dt = dt as f64;
        let g = gravities(w);
        let mut start = BTreeMap::new();
        let mut bad = BTreeSet::new();
        for (id, e) in &pre.ents {
            let (vel, ang) = after_forces(e, &out.calls, &g, dt);
            let mut b = Body::of(e);
            b.vel = vel;
            b.ang = ang;
            if !sane(e) || !(vel.norm() < SANE) || !(ang.norm() < SANE) || b.ill { bad.insert(*id); }
            start.insert(*id, b);
        }
        let shapes = shapes(post, w);
        let exhausted = post.recs.len() >= pre.iterations as usize;
        let t_end = if !exhausted { dt } else { post.recs.last().map(|r| r.time as f64).unwrap_or(0.0) };
        let mut count: BTreeMap<u32, usize> = BTreeMap::new();
        for r in &post.recs {
            *count.entry(r.a).or_insert(0) += 1;
            *count.entry(r.b).or_insert(0) += 1;
        }
        // Replay the contacts.
        let mut now: BTreeMap<u32, (Body, Known)> = start.iter().map(|(i, b)| (*i, (b.clone(), if bad.contains(i) { Known::No } else { Known::Yes }))).collect();
        let mut legs: BTreeMap<u32, Vec<Leg>> = start.iter().map(|(i, b)| (*i, vec![Leg { after: 0, time: 0.0, body: b.clone(), known: !bad.contains(i), err: Err::default() }])).collect();
        let mut time = 0.0;
        let mut errs: BTreeMap<u32, Err> = BTreeMap::new();
        let mut contacts = Vec::new();
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        for (index, r) in post.recs.iter().enumerate() {
            let t = r.time as f64;
            if t.is_finite() && t >= time {
                for (_, (b, _)) in now.iter_mut() { b.advance(t - time); }
                for e in errs.values_mut() { e.advance(t - time); }
                time = t;
            }
            for id in [r.a, r.b] {
                // Replaced below if anything's known about it.
                if let Some(l) = legs.get_mut(&id) { let body = l[0].body.clone(); l.push(Leg { after: index + 1, time, body, known: false, err: Err::default() }); }
            }
            if r.a == r.b || !now.contains_key(&r.a) || !now.contains_key(&r.b) { continue; }
            let (a, ka) = now[&r.a].clone();
            let (b, kb) = now[&r.b].clone();
            let p = d(&r.pos);
            let n = d(&r.n);
            let vn = (a.velocity_at(&p) - b.velocity_at(&p)).dot(&n);
            let yielding = a.yielding(&p, &n) + b.yielding(&p, &n);
            let j = (1.0 + r.e as f64) * vn / yielding;
            let known = ka == Known::Yes && kb == Known::Yes && yielding > 0.0 && p.norm().is_finite() && n.norm().is_finite();
            let (mut after_a, mut after_b) = (a.clone(), b.clone());
            if known {
                after_a.impulse(&p, &(-n * j));
                after_b.impulse(&p, &(n * j));
            }
            let mut mus: Vec<f64> = Vec::new();
            for (ca, _) in &shapes[&r.a] {
                for (cb, _) in &shapes[&r.b] {
                    let (x, y) = (&w.cols[ca].spec, &w.cols[cb].spec);
                    if x.kind == crate::ops::Kind::Null || y.kind == crate::ops::Kind::Null { continue; }
                    for mu in [x.fs as f64 * y.fs as f64, x.fd as f64 * y.fd as f64] {
                        if !mus.contains(&mu) { mus.push(mu); }
                    }
                }
            }
            let frictionless = mus.iter().all(|m| *m == 0.0);
            let state = |k: &Known| if !known || *k == Known::No { Known::No } else if frictionless { Known::Yes } else { Known::Friction(contacts.len()) };
            let (na, nb) = (state(&ka), state(&kb));
            let (ea, eb) = (errs.get(&r.a).cloned().unwrap_or_default(), errs.get(&r.b).cloned().unwrap_or_default());
            // The logged time is a rounded fraction of the frame, and so are the places at that time.
            let tick = 3e-7 * dt;
            let at = |e: &Err, x: &Body| Err { p: e.p + tick * x.vel.norm(), q: e.q + tick * x.ang.norm(), ..*e };
            contacts.push(Contact {
                err_a: at(&ea, &a), err_b: at(&eb, &b),
                index, vn, yielding, j, p, n, known,
                first: !seen.contains(&r.a) && !seen.contains(&r.b),
                only: count[&r.a] == 1 && count[&r.b] == 1,
                after_a: after_a.clone(), after_b: after_b.clone(), a, b, mus,
            });
            let k = contacts.last_mut().unwrap();
            if known && k.noise() > 0.03 * k.speeds() + 0.003 {
                // Too many contacts in a row to still say anything.
                k.known = false;
                now.insert(r.a, (after_a, Known::No));
                now.insert(r.b, (after_b, Known::No));
                seen.insert(r.a);
                seen.insert(r.b);
                continue;
            }
            if known {
                for (id, x, e) in [(r.a, &k.a, ea), (r.b, &k.b, eb)] {
                    let (v, w) = k.tol_after(x);
                    // Logged times are rounded too.
                    let jolt = 1e-6 * dt * (k.j.abs() * x.inv_mass());
                    let arm = (k.p - x.pos).norm();
                    let v = if x.total.is_finite() { v.min(2.0 * k.j.abs() * x.inv_mass() + e.v) } else { 0.0 };
                    let w = if x.total.is_finite() { w.min(2.0 * k.j.abs() * x.inv_inertia_world().norm() * arm + e.w) } else { 0.0 };
                    errs.insert(id, Err { v: v.min(1e3), w: w.min(1e3), p: e.p + jolt, q: e.q });
                }
            }
            for (id, body, k) in [(r.a, &after_a, &na), (r.b, &after_b, &nb)] {
                let err = errs.get(&id).cloned().unwrap_or_default();
                *legs.get_mut(&id).unwrap().last_mut().unwrap() = Leg { after: index + 1, time, body: body.clone(), known: *k == Known::Yes, err };
            }
            now.insert(r.a, (after_a, na));
            now.insert(r.b, (after_b, nb));
            seen.insert(r.a);
            seen.insert(r.b);
        }
        let rest = t_end - time;
        if rest > 0.0 {
            for (_, (b, _)) in now.iter_mut() { b.advance(rest); }
            for e in errs.values_mut() { e.advance(rest); }
        }
        Some(Frame { legs, errs, dt, t_end, exhausted, start, shapes, count, contacts, end: now, bad })
    }

    pub fn logged(&self, id: u32) -> bool { self.count.contains_key(&id) }

    /// The stretches of the frame between the contacts of two bodies.
    pub fn stretches(&self, a: u32, b: u32) -> Vec<Stretch> {
        let (la, lb) = (&self.legs[&a], &self.legs[&b]);
        let reach = |id: u32, b: &Body| self.shapes[&id].iter().filter(|(_, s)| !matches!(s, Shape::Plane { .. })).map(|(_, s)| s.reach(&-b.off)).fold(0.0, f64::max);
        let (ra, rb) = (reach(a, &la[0].body), reach(b, &lb[0].body));
        let (mut i, mut j) = (0, 0);
        let mut out = Vec::new();
        loop {
            let (x, y) = (&la[i], &lb[j]);
            let time = x.time.max(y.time);
            let next = [la.get(i + 1), lb.get(j + 1)].iter().flatten().map(|l| l.after).min();
            let ((ba, ea), (bb, eb)) = (x.at(time), y.at(time));
            out.push(Stretch {
                time, next: next.map(|n| n - 1), a: ba, b: bb, known: x.known && y.known,
                drift: ea.p + eb.p + ea.q * ra + eb.q * rb,
                drift_speed: ea.at(ra) + eb.at(rb),
            });
            let n = match next { Some(n) => n, None => return out };
            if la.get(i + 1).map(|l| l.after) == Some(n) { i += 1; }
            if lb.get(j + 1).map(|l| l.after) == Some(n) { j += 1; }
        }
    }

    pub fn pair<'a>(&'a self, a: u32, b: u32) -> Pair<'a> {
        Pair { a: &self.start[&a], sa: &self.shapes[&a], b: &self.start[&b], sb: &self.shapes[&b] }
    }
}

/// The friction impulse (on the second body, its negative on the first) of a contact under coefficient mu, and how the bodies end up.
pub fn with_friction(c: &Contact, mu: f64) -> (Body, Body, f64) {
    let s = c.after_a.velocity_at(&c.p) - c.after_b.velocity_at(&c.p);
    let s = s - c.n * s.dot(&c.n);
    let speed = s.norm();
    let (mut a, mut b) = (c.after_a.clone(), c.after_b.clone());
    if !(speed > 1e-6) { return (a, b, speed); }
    let dir = s / speed;
    let k = a.yielding(&c.p, &dir) + b.yielding(&c.p, &dir);
    let size = (mu * c.j).min(speed / k);
    a.impulse(&c.p, &(-dir * size));
    b.impulse(&c.p, &(dir * size));
    (a, b, speed)
}
