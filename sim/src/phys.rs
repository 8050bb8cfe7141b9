//! A small double precision reference for rigid bodies and for the geometry of contacts. Shares no code with the system under test.

use crate::ops::*;
use crate::world::*;
use nalgebra::{Matrix3, Quaternion, UnitQuaternion, Vector3};
use std::collections::BTreeMap;

pub type V = Vector3<f64>;
pub type M = Matrix3<f64>;
pub type Q = UnitQuaternion<f64>;

pub fn d(v: &nalgebra::Vector3<f32>) -> V {
    V::new(v.x as f64, v.y as f64, v.z as f64)
}
pub fn da(v: &A3) -> V {
    V::new(v[0] as f64, v[1] as f64, v[2] as f64)
}
pub fn dm(m: &nalgebra::Matrix3<f32>) -> M {
    M::from_fn(|r, c| m[(r, c)] as f64)
}

#[derive(Clone, Debug)]
pub struct Body {
    pub id: u32,
    pub pos: V,
    pub q: Q,
    pub vel: V,
    pub ang: V,
    pub total: f64,
    pub off: V,
    /// In the entity's own axes.
    pub inertia: M,
    pub inv_inertia: M,
    /// The inertia is too close to singular to predict rotations from it.
    pub ill: bool,
    /// The axis (in the entity's own axes) about which there's no inertia, if there's exactly one.
    pub axis: Option<V>,
    pub asleep: bool,
}

pub fn inverse(m: &M, axis: &mut Option<V>) -> (M, bool) {
    let norm = m.norm();
    if norm == 0.0 { return (M::zeros(), false); }
    let scaled = m / norm;
    let det = scaled.determinant();
    if !(det.abs() > 1e-4) {
        // With all of the mass on a line there's one axis without any inertia; nothing turns about that.
        if !(norm.is_finite() && norm > 1e-3) { return (M::zeros(), true); }
        // (The tensor's columns are all perpendicular to that axis. This doesn't use nalgebra's decompositions, they can be badly off for such tensors.)
        let s = (scaled + scaled.transpose()) * 0.5;
        let mut n = V::zeros();
        for k in 0..3 {
            let c: V = s.column(k).cross(&s.column((k + 1) % 3));
            if c.norm() > n.norm() { n = c; }
        }
        if n.norm() > 0.02 {
            n = n.normalize();
            if (s * n).norm() < 1e-6 {
                let p = n * n.transpose();
                if let Some(i) = (s + p).try_inverse() {
                    *axis = Some(n);
                    return ((i - p) / norm, false);
                }
            }
        }
        return (M::zeros(), true);
    }
    match scaled.try_inverse() {
        Some(i) => (i / norm, norm < 1e-9),
        None => (M::zeros(), true),
    }
}

impl Body {
    pub fn of(e: &EntObs) -> Body {
        let q = Q::from_quaternion(Quaternion::new(e.quat[3] as f64, e.quat[0] as f64, e.quat[1] as f64, e.quat[2] as f64));
        let r = q.to_rotation_matrix();
        let world = dm(&e.inertia);
        let local = r.transpose() * world * r.matrix();
        let mut axis = None;
        let (inv, ill) = if e.total.is_finite() { inverse(&local, &mut axis) } else { (M::zeros(), false) };
        Body { id: e.id, pos: d(&e.pos), q, vel: d(&e.vel), ang: d(&e.ang), total: e.total as f64, off: d(&e.off), inertia: local, inv_inertia: inv, ill, axis, asleep: e.asleep }
    }
    pub fn inv_mass(&self) -> f64 { 1.0 / self.total }
    /// Whether nothing turns against the torque on it. (A NullCollider takes any tensor there is.)
    pub fn physical(&self) -> bool {
        let n = self.inertia.norm();
        if !(n > 0.0 && n.is_finite()) { return n == 0.0; }
        let s = (self.inertia + self.inertia.transpose()) / (2.0 * n);
        let minor = |i: usize, j: usize| s[(i, i)] * s[(j, j)] - s[(i, j)] * s[(i, j)];
        let e = -1e-6;
        (0..3).all(|i| s[(i, i)] >= e) && minor(0, 1) >= e && minor(1, 2) >= e && minor(0, 2) >= e && s.determinant() >= e
    }
    pub fn mobile(&self) -> bool { self.total.is_finite() && self.total > 1e-6 }
    pub fn inertia_world(&self) -> M {
        let r = self.q.to_rotation_matrix();
        r.matrix() * self.inertia * r.matrix().transpose()
    }
    pub fn inv_inertia_world(&self) -> M {
        let r = self.q.to_rotation_matrix();
        r.matrix() * self.inv_inertia * r.matrix().transpose()
    }
    pub fn to_world(&self, local: &V) -> V { self.pos + self.q * (self.off + local) }
    pub fn to_local(&self, world: &V) -> V { self.q.inverse() * (world - self.pos) - self.off }
    pub fn advance(&mut self, t: f64) {
        self.pos += self.vel * t;
        self.q = Q::from_scaled_axis(self.ang * t) * self.q;
    }
    pub fn advanced(&self, t: f64) -> Body {
        let mut b = self.clone();
        b.advance(t);
        b
    }
    pub fn velocity_at(&self, p: &V) -> V { self.vel + self.ang.cross(&(p - self.pos)) }
    pub fn impulse(&mut self, p: &V, j: &V) {
        if !self.total.is_finite() { return; }
        self.vel += j * self.inv_mass();
        self.ang += self.inv_inertia_world() * (p - self.pos).cross(j);
    }
    /// How much the velocity at p along n changes per unit of impulse along n.
    pub fn yielding(&self, p: &V, n: &V) -> f64 {
        if !self.total.is_finite() { return 0.0; }
        let o = p - self.pos;
        self.inv_mass() + (self.inv_inertia_world() * o.cross(n)).cross(&o).dot(n)
    }
    /// The spin that no inertia resists (and that holds no energy).
    pub fn idle_spin(&self) -> f64 {
        if !self.total.is_finite() { return 0.0; }
        if self.inertia.norm() == 0.0 { return self.ang.norm(); }
        match &self.axis { Some(n) => self.ang.dot(&(self.q * n)).abs(), None => 0.0 }
    }
    pub fn linear_energy(&self) -> f64 { 0.5 * self.total * self.vel.norm_squared() }
    pub fn angular_energy(&self) -> f64 { 0.5 * self.ang.dot(&(self.inertia_world() * self.ang)) }
    pub fn energy(&self) -> f64 {
        if self.total.is_infinite() {
            return if self.vel.norm() == 0.0 && self.ang.norm() == 0.0 { 0.0 } else { f64::INFINITY };
        }
        self.linear_energy() + self.angular_energy()
    }
}

/// The angle between two orientations.
pub fn angle(a: &Q, b: &Q) -> f64 { a.angle_to(b) }

/// The velocities of an entity once the forces of a frame have acted, before any contact.
pub fn after_forces(e: &EntObs, calls: &[Call], gravities: &[V], dt: f64) -> (V, V) {
    if e.asleep { return (V::zeros(), V::zeros()); }
    let b = Body::of(e);
    if !b.mobile() { return (b.vel, b.ang); }
    let mut f = V::zeros();
    let mut torque = V::zeros();
    for c in calls {
        if c.ent == e.handle {
            f += d(&c.force);
            torque += (d(&c.point) - b.pos).cross(&d(&c.force));
        }
    }
    let mut vel = b.vel + f * (dt / b.total);
    for g in gravities { vel += g * dt; }
    (vel, b.ang + b.inv_inertia_world() * torque * dt)
}

/// The accelerations of the library's own gravity generators in force.
pub fn gravities(w: &World) -> Vec<V> {
    w.gens.values().filter(|g| g.live).filter_map(|g| match &g.spec { GenSpec::RealGravity { g } => Some(da(g)), _ => None }).collect()
}

// ---------------------------------------------------------------------------------------------
// Shapes. All in the entity's local space.

#[derive(Clone, Debug)]
pub enum Shape {
    Sphere { c: V, r: f64 },
    Plane { p: V, n: V },
    Mesh { faces: Vec<Vec<V>> },
    Box { min: V, max: V },
    Null,
}

impl Shape {
    pub fn of(s: &ColSpec) -> Shape {
        let p = da(&s.pos);
        match s.kind {
            Kind::Null => Shape::Null,
            Kind::Sphere => Shape::Sphere { c: p, r: s.a[0] as f64 },
            Kind::Plane => Shape::Plane { p, n: da(&s.a).normalize() },
            Kind::Mesh => Shape::Mesh { faces: s.faces().iter().map(|f| f.iter().map(|x| p + da(x)).collect()).collect() },
            Kind::Box => {
                let (a, b) = (da(&s.a), da(&s.b));
                Shape::Box { min: p + a.inf(&b), max: p + a.sup(&b) }
            }
        }
    }
    /// How far the shape reaches from a point (of the same local space). What matters is how far rotations can move it.
    pub fn reach(&self, from: &V) -> f64 {
        match self {
            Shape::Sphere { c, .. } => (c - from).norm(),
            Shape::Plane { p, .. } => (p - from).norm(),
            Shape::Mesh { faces } => faces.iter().flatten().map(|v| (v - from).norm()).fold(0.0, f64::max),
            Shape::Box { min, max } => {
                let far = (min - from).abs().sup(&(max - from).abs());
                far.norm()
            }
            Shape::Null => 0.0,
        }
    }
}

fn segment_distance(p: &V, a: &V, b: &V) -> f64 {
    let ab = b - a;
    let t = ((p - a).dot(&ab) / ab.norm_squared()).max(0.0).min(1.0);
    (p - (a + ab * t)).norm()
}

/// The distance of a point to a convex flat polygon.
pub fn polygon_distance(p: &V, poly: &[V]) -> f64 {
    let n = (poly[1] - poly[0]).cross(&(poly[2] - poly[0])).normalize();
    let h = (p - poly[0]).dot(&n);
    let foot = p - n * h;
    let mut sign = 0.0;
    let mut inside = true;
    for i in 0..poly.len() {
        let a = poly[i];
        let b = poly[(i + 1) % poly.len()];
        let s = (b - a).cross(&(foot - a)).dot(&n);
        if s == 0.0 { continue; }
        if sign == 0.0 { sign = s.signum(); } else if sign != s.signum() { inside = false; break; }
    }
    if inside { return h.abs(); }
    let mut best = f64::INFINITY;
    for i in 0..poly.len() {
        best = best.min(segment_distance(p, &poly[i], &poly[(i + 1) % poly.len()]));
    }
    best
}

pub fn box_distance(p: &V, min: &V, max: &V) -> f64 {
    let clamped = p.sup(min).inf(max);
    (p - clamped).norm()
}

/// How far a point (in world space) is from the surface of a shape, or how deep inside (negative) for solids.
pub fn surface_distance(p: &V, b: &Body, s: &Shape) -> f64 {
    match s {
        Shape::Sphere { c, r } => (p - b.to_world(c)).norm() - r,
        Shape::Plane { p: pp, n } => (p - b.to_world(pp)).dot(n),
        Shape::Mesh { faces } => {
            let l = b.to_local(p);
            faces.iter().map(|f| polygon_distance(&l, f)).fold(f64::INFINITY, f64::min)
        }
        Shape::Box { min, max } => {
            let l = b.to_local(p);
            let out = box_distance(&l, min, max);
            if out > 0.0 { out } else {
                let mut depth = f64::INFINITY;
                for i in 0..3 { depth = depth.min(l[i] - min[i]).min(max[i] - l[i]); }
                -depth
            }
        }
        Shape::Null => f64::NAN,
    }
}

/// Whether contacts between the two kinds are a promise (rather than a known gap).
pub fn supported(a: &Shape, b: &Shape) -> bool {
    use Shape::*;
    matches!((a, b),
        (Sphere { .. }, Sphere { .. }) | (Sphere { .. }, Plane { .. }) | (Plane { .. }, Sphere { .. }) |
        (Sphere { .. }, Mesh { .. }) | (Mesh { .. }, Sphere { .. }) | (Sphere { .. }, Box { .. }) | (Box { .. }, Sphere { .. }) |
        (Mesh { .. }, Plane { .. }) | (Plane { .. }, Mesh { .. }))
}

/// The gap between two shapes (negative when they overlap).
pub fn separation(ba: &Body, sa: &Shape, bb: &Body, sb: &Shape) -> f64 {
    use Shape::*;
    match (sa, sb) {
        (Sphere { c, r }, _) if !matches!(sb, Sphere { .. }) => {
            let p = ba.to_world(c);
            match sb {
                Box { min, max } => box_distance(&bb.to_local(&p), min, max) - r,
                _ => surface_distance(&p, bb, sb) - r,
            }
        }
        (Sphere { c, r }, Sphere { c: c2, r: r2 }) => (ba.to_world(c) - bb.to_world(c2)).norm() - r - r2,
        (_, Sphere { .. }) => separation(bb, sb, ba, sa),
        (Mesh { faces }, Plane { p, n }) => {
            let p = bb.to_world(p);
            faces.iter().flatten().map(|v| (ba.to_world(v) - p).dot(n)).fold(f64::INFINITY, f64::min)
        }
        (Plane { .. }, Mesh { .. }) => separation(bb, sb, ba, sa),
        _ => f64::INFINITY,
    }
}

/// The shapes linked to each entity, by what's observed to be linked.
pub fn shapes(o: &Obs, w: &World) -> BTreeMap<u32, Vec<(u32, Shape)>> {
    let mut map = BTreeMap::new();
    for (id, e) in &o.ents {
        let mut list = Vec::new();
        for c in &e.cols {
            if let Some(m) = w.cols.get(c) { list.push((*c, Shape::of(&m.spec))); }
        }
        map.insert(*id, list);
    }
    map
}

/// A moving pair of bodies with their shapes.
pub struct Pair<'a> {
    pub a: &'a Body,
    pub sa: &'a [(u32, Shape)],
    pub b: &'a Body,
    pub sb: &'a [(u32, Shape)],
}

impl<'a> Pair<'a> {
    pub fn gap(&self, t: f64) -> f64 {
        let (a, b) = (self.a.advanced(t), self.b.advanced(t));
        let mut best = f64::INFINITY;
        for (_, x) in self.sa {
            for (_, y) in self.sb {
                if supported(x, y) { best = best.min(separation(&a, x, &b, y)); }
            }
        }
        best
    }
    /// No pair of surface points approaches faster than this.
    pub fn speed_limit(&self) -> f64 {
        let ra = self.sa.iter().map(|(_, s)| s.reach(&-self.a.off)).fold(0.0, f64::max);
        let rb = self.sb.iter().map(|(_, s)| s.reach(&-self.b.off)).fold(0.0, f64::max);
        (self.a.vel - self.b.vel).norm() + self.a.ang.norm() * ra + self.b.ang.norm() * rb
    }
    /// How far reality (rotating) and the documented linearisation over a frame of length dt may be apart.
    pub fn slack(&self, dt: f64) -> f64 {
        let mut s = 0.0;
        for (body, shapes, other, others) in [(self.a, self.sa, self.b, self.sb), (self.b, self.sb, self.a, self.sa)] {
            let theta = body.ang.norm() * dt;
            if theta == 0.0 { continue; }
            let mut worst: f64 = 0.0;
            for (_, shape) in shapes {
                let reach = shape.reach(&-body.off);
                worst = worst.max(match shape {
                    // Seen from a rotating body the other one moves along a curve.
                    Shape::Mesh { .. } | Shape::Box { .. } => {
                        let far = (self.a.pos - self.b.pos).norm() + others.iter().map(|(_, o)| o.reach(&-other.off)).fold(0.0, f64::max);
                        theta * theta * far + theta * (self.a.vel - self.b.vel).norm() * dt
                    }
                    _ => 0.7 * reach * theta * theta,
                });
            }
            s += worst;
        }
        s
    }
    /// How well single precision arithmetic can place a contact between these.
    pub fn grain(&self) -> f64 { self.grain_over(0.0) }
    /// The same when they may have come the way of so many seconds to get here.
    pub fn grain_over(&self, seconds: f64) -> f64 {
        let size = |b: &Body| b.pos.norm() + b.off.norm();
        let apart = (self.a.pos - self.b.pos).norm();
        let mut least = f64::INFINITY;
        let mut extent: f64 = 0.0;
        for (b, shapes) in [(self.a, self.sa), (self.b, self.sb)] {
            for (_, s) in shapes {
                if let Shape::Sphere { r, .. } = s { least = least.min(*r); }
                extent = extent.max(s.reach(&-b.off));
            }
        }
        if !least.is_finite() { least = 1.0; }
        let far = apart + extent + (self.a.vel - self.b.vel).norm() * seconds;
        1e-4 + 4e-6 * far * far / least + 2e-6 * (size(self.a) + size(self.b) + extent)
    }
    /// How thick (along the plane's normal) a mesh is of which more than one corner is about as close to a plane as any.
    pub fn lying(&self, t: f64) -> f64 {
        let (a, b) = (self.a.advanced(t), self.b.advanced(t));
        let mut most: f64 = 0.0;
        for (x, sx, sy) in [(&a, self.sa, self.sb), (&b, self.sb, self.sa)] {
            for (_, mesh) in sx {
                for (_, plane) in sy {
                    if let (Shape::Mesh { faces }, Shape::Plane { n, .. }) = (mesh, plane) {
                        let mut corners: Vec<V> = Vec::new();
                        for v in faces.iter().flatten() { if !corners.iter().any(|z| (z - v).norm() < 1e-9) { corners.push(*v); } }
                        let h: Vec<f64> = corners.iter().map(|v| x.to_world(v).dot(n)).collect();
                        let low = h.iter().cloned().fold(f64::INFINITY, f64::min);
                        let range = h.iter().cloned().fold(f64::NEG_INFINITY, f64::max) - low;
                        if h.iter().filter(|z| **z - low <= 0.012 * range + 1e-5).count() > 1 { most = most.max(range); }
                    }
                }
            }
        }
        most
    }
    /// The first time in [0, end] at which the gap is at most `level`.
    pub fn first_below(&self, level: f64, end: f64) -> Search {
        let limit = self.speed_limit();
        let mut t = 0.0;
        for _ in 0..4000 {
            let g = self.gap(t);
            if !g.is_finite() { return if g == f64::INFINITY { Search::Never } else { Search::Unknown }; }
            if g <= level { return Search::At(t); }
            if t >= end { return Search::Never; }
            if limit <= 0.0 { return Search::Never; }
            // Fine-grained progress near grazing is bounded.
            t += ((g - level) / limit).max(end * 5e-4);
            if t > end { t = end; }
        }
        Search::Unknown
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Search {
    At(f64),
    Never,
    Unknown,
}
