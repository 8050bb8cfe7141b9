//! The events a simulation consists of, and their text form (the replay files).

use crate::env::{Sink, SINKS};

pub type A3 = [f32; 3];

#[derive(Clone, Debug, PartialEq)]
pub struct EntSpec {
    pub pos: A3,
    pub rot: A3,
    pub vel: A3,
    pub ang: A3,
    pub mass: f32,
}

impl EntSpec {
    pub fn at(pos: A3) -> EntSpec {
        EntSpec { pos, rot: [0.0; 3], vel: [0.0; 3], ang: [0.0; 3], mass: 0.0 }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Null,
    Sphere,
    Plane,
    Mesh,
    Box,
}
pub const KINDS: [Kind; 5] = [Kind::Null, Kind::Sphere, Kind::Plane, Kind::Mesh, Kind::Box];

/// What a collider is made from.
///
/// `a` is the radius (sphere), normal (plane), a corner (box), diagonal of the inertia tensor (null) or half extents (mesh).
/// `b` is the other corner (box), the off-diagonal parts of the inertia tensor (null) or the shape code (mesh).
#[derive(Clone, Debug, PartialEq)]
pub struct ColSpec {
    pub kind: Kind,
    pub pos: A3,
    pub a: A3,
    pub b: A3,
    pub mass: f32,
    pub rest: f32,
    pub fthr: f32,
    pub fs: f32,
    pub fd: f32,
}

impl ColSpec {
    pub fn new(kind: Kind) -> ColSpec {
        ColSpec { kind, pos: [0.0; 3], a: [0.0; 3], b: [0.0; 3], mass: 0.0, rest: 1.0, fthr: 0.25, fs: 0.0, fd: 0.0 }
    }
    pub fn sphere(radius: f32, mass: f32) -> ColSpec {
        let mut c = ColSpec::new(Kind::Sphere);
        c.a[0] = radius;
        c.mass = mass;
        c
    }
    pub fn plane(normal: A3, mass: f32) -> ColSpec {
        let mut c = ColSpec::new(Kind::Plane);
        c.a = normal;
        c.mass = mass;
        c
    }
    pub fn cuboid(min: A3, max: A3, mass: f32) -> ColSpec {
        let mut c = ColSpec::new(Kind::Box);
        c.a = min;
        c.b = max;
        c.mass = mass;
        c
    }
    pub fn mesh(shape: u8, half: A3) -> ColSpec {
        let mut c = ColSpec::new(Kind::Mesh);
        c.a = half;
        c.b[0] = shape as f32;
        c
    }
    pub fn null(mass: f32, diagonal: A3) -> ColSpec {
        let mut c = ColSpec::new(Kind::Null);
        c.mass = mass;
        c.a = diagonal;
        c
    }
    pub fn rest(mut self, rest: f32) -> ColSpec { self.rest = rest; self }
    pub fn friction(mut self, fs: f32, fd: f32) -> ColSpec { self.fs = fs; self.fd = fd; self }
    pub fn at(mut self, pos: A3) -> ColSpec { self.pos = pos; self }

    /// Whether the system should accept this (see each collider's `is_valid()` documentation).
    pub fn valid(&self) -> bool {
        let mag = |v: &A3| ((v[0] as f64).powi(2) + (v[1] as f64).powi(2) + (v[2] as f64).powi(2)).sqrt();
        match self.kind {
            Kind::Null => 0.0 <= self.mass,
            Kind::Sphere => self.a[0] > 0.05 && 0.0 <= self.mass,
            Kind::Plane => mag(&self.a) > 1e-6 && 0.0 <= self.mass,
            Kind::Box => (0..3).all(|i| (self.a[i] - self.b[i]).abs() > 1e-6) && 0.0 <= self.mass,
            Kind::Mesh => !self.faces().is_empty(),
        }
    }

    /// The faces of a mesh.
    pub fn faces(&self) -> Vec<Vec<A3>> {
        let h = self.a;
        // Degenerate ones can't even be built.
        if !h.iter().all(|x| x.is_finite() && *x > 0.01) { return vec![]; }
        let p = |x: f32, y: f32, z: f32| -> A3 { [x * h[0], y * h[1], z * h[2]] };
        match self.b[0] as u8 {
            // A flat sheet.
            0 => vec![vec![p(-1.0, 0.0, -1.0), p(1.0, 0.0, -1.0), p(1.0, 0.0, 1.0), p(-1.0, 0.0, 1.0)]],
            // A closed box.
            1 => vec![
                vec![p(-1.0, -1.0, -1.0), p(1.0, -1.0, -1.0), p(1.0, 1.0, -1.0), p(-1.0, 1.0, -1.0)],
                vec![p(-1.0, -1.0, 1.0), p(1.0, -1.0, 1.0), p(1.0, 1.0, 1.0), p(-1.0, 1.0, 1.0)],
                vec![p(-1.0, -1.0, -1.0), p(1.0, -1.0, -1.0), p(1.0, -1.0, 1.0), p(-1.0, -1.0, 1.0)],
                vec![p(-1.0, 1.0, -1.0), p(1.0, 1.0, -1.0), p(1.0, 1.0, 1.0), p(-1.0, 1.0, 1.0)],
                vec![p(-1.0, -1.0, -1.0), p(-1.0, 1.0, -1.0), p(-1.0, 1.0, 1.0), p(-1.0, -1.0, 1.0)],
                vec![p(1.0, -1.0, -1.0), p(1.0, 1.0, -1.0), p(1.0, 1.0, 1.0), p(1.0, -1.0, 1.0)],
            ],
            // A tetrahedron.
            2 => {
                let c = [p(1.0, 1.0, 1.0), p(1.0, -1.0, -1.0), p(-1.0, 1.0, -1.0), p(-1.0, -1.0, 1.0)];
                vec![vec![c[0], c[1], c[2]], vec![c[0], c[3], c[1]], vec![c[0], c[2], c[3]], vec![c[1], c[3], c[2]]]
            }
            // A single triangle.
            3 => vec![vec![p(-1.0, 0.0, -1.0), p(1.0, 0.0, -1.0), p(0.0, 0.0, 1.0)]],
            // A sheet with six corners.
            4 => vec![(0..6).map(|k| { let a = k as f32 * std::f32::consts::PI / 3.0 + 0.3; p(a.cos(), 0.0, a.sin()) }).collect()],
            // A pyramid.
            5 => {
                let (c, top) = ([p(-1.0, -1.0, -1.0), p(1.0, -1.0, -1.0), p(1.0, -1.0, 1.0), p(-1.0, -1.0, 1.0)], p(0.25, 1.0, -0.25));
                vec![vec![c[0], c[1], c[2], c[3]], vec![c[0], top, c[1]], vec![c[1], top, c[2]], vec![c[2], top, c[3]], vec![c[3], top, c[0]]]
            }
            // A prism with n sides.
            6 if 3.0 <= self.b[1] && self.b[1] <= 12.0 => {
                let n = self.b[1] as usize;
                let ring = |y: f32| -> Vec<A3> { (0..n).map(|k| { let a = k as f32 * 2.0 * std::f32::consts::PI / n as f32 + self.b[2]; p(a.cos(), y, a.sin()) }).collect() };
                let (low, high) = (ring(-1.0), ring(1.0));
                let mut faces: Vec<Vec<A3>> = (0..n).map(|k| vec![low[k], low[(k + 1) % n], high[(k + 1) % n], high[k]]).collect();
                faces.push(low);
                faces.push(high);
                faces
            }
            // Two pyramids with n sides, base to base.
            7 if 3.0 <= self.b[1] && self.b[1] <= 12.0 => {
                let n = self.b[1] as usize;
                let ring: Vec<A3> = (0..n).map(|k| { let a = k as f32 * 2.0 * std::f32::consts::PI / n as f32 + self.b[2]; p(a.cos(), 0.0, a.sin()) }).collect();
                (0..2 * n).map(|k| vec![ring[k % n], ring[(k + 1) % n], p(0.0, if k < n { 1.0 } else { -1.0 }, 0.0)]).collect()
            }
            // Hilly terrain of triangles.
            8 if 1.0 <= self.b[1] && self.b[1] <= 12.0 => {
                let n = (self.b[1] as usize + 1) / 2;
                let at = |i: usize, j: usize| p(2.0 * i as f32 / n as f32 - 1.0, ((i * 7 + j * 4 + self.b[2] as usize) % 5) as f32 / 5.0, 2.0 * j as f32 / n as f32 - 1.0);
                let mut faces = vec![];
                for i in 0..n { for j in 0..n {
                    faces.push(vec![at(i, j), at(i + 1, j), at(i + 1, j + 1)]);
                    faces.push(vec![at(i, j), at(i + 1, j + 1), at(i, j + 1)]);
                } }
                faces
            }
            // Nothing.
            _ => vec![],
        }
    }
}

/// Picks an entity. Some ways depend on the state of the world when the event is delivered.
#[derive(Clone, Debug, PartialEq)]
pub enum Sel {
    Id(u32),
    /// The k-th (modulo how many there are) sleeping finite entity.
    Asleep(u32),
    /// The k-th entity of the last contact log.
    Hit(u32),
    /// The k-th live entity.
    Live(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Base {
    /// A copy fetched right before.
    Fresh,
    /// A copy stored earlier.
    Slot(u32),
    /// A newly created object.
    New,
}

#[derive(Clone, Debug, PartialEq)]
pub enum GenSpec {
    /// A force, applied at an offset from the center of mass.
    Const { force: A3, offset: A3 },
    /// Proportional to the velocity of the entity (read through the system).
    Drag { k: f32 },
    /// Pulls the entity to a point (reads the position through the system), at an offset.
    Spring { k: f32, anchor: A3, offset: A3 },
    /// Changes with every frame.
    Wave { force: A3, offset: A3 },
    /// Constant acceleration, like the library's own.
    Gravity { g: A3 },
    /// The library's own generator.
    RealGravity { g: A3 },
    /// A force applied at a fixed point of the world.
    Pin { force: A3, point: A3 },
}

// Which fields an update writes.
pub const F_POS: u8 = 1;
pub const F_ROT: u8 = 2;
pub const F_VEL: u8 = 4;
pub const F_ANG: u8 = 8;
pub const F_MASS: u8 = 16;
/// Adds a tiny bit of the values instead of writing them.
pub const F_NUDGE: u8 = 32;
pub const F_A: u8 = 2;
pub const F_REST: u8 = 4;
pub const F_FRIC: u8 = 8;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    AddEnt { id: u32, spec: EntSpec },
    /// Adds a copy of an existing entity.
    AddEntFrom { id: u32, from: Sel },
    /// Adds a copy of a collider.
    AddColFrom { id: u32, from: u32 },
    RmEnt { sel: Sel },
    Snap { slot: u32, sel: Sel },
    UpdEnt { sel: Sel, base: Base, mask: u8, spec: EntSpec },
    AddCol { id: u32, spec: ColSpec },
    RmCol { id: u32 },
    SnapCol { slot: u32, id: u32 },
    UpdCol { id: u32, base: Base, mask: u8, spec: ColSpec },
    Link { col: u32, to: Option<Sel> },
    AddGen { id: u32, spec: GenSpec },
    RmGen { id: u32 },
    Step { dt: f32 },
    Conf { iterations: u8, energy: f32, delay: f32 },
    /// Reads (and then scribbles over the copies of) everything.
    Query { k: u32 },
    /// Standard output misbehaves from here on.
    Sink { mode: Sink, budget: i64 },
    /// The n-th force callback of the next frame crashes.
    Crash { nth: u32 },
    /// From here on the force generators' answers for the entity are broken (until the next such event).
    Poison { sel: Sel, how: u8 },
}

/// How an event came to be delivered.
pub const T_DUP: u8 = 1;
pub const T_LATE: u8 = 2;
pub const T_REORDERED: u8 = 4;
pub const T_STALL: u8 = 8;
pub const T_MICRO: u8 = 16;
pub const T_JITTER: u8 = 32;

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    /// Simulated time of delivery in seconds.
    pub t: f64,
    pub who: u8,
    pub tags: u8,
    pub op: Op,
}

fn v(x: &A3) -> String {
    format!("{:?},{:?},{:?}", x[0], x[1], x[2])
}
fn pf(s: &str) -> Result<f32, String> {
    s.parse::<f32>().map_err(|_| format!("bad number {}", s))
}
fn pv(s: &str) -> Result<A3, String> {
    let parts: Vec<&str> = s.split(',').collect();
    if parts.len() != 3 {
        return Err(format!("bad vector {}", s));
    }
    Ok([pf(parts[0])?, pf(parts[1])?, pf(parts[2])?])
}
fn pu(s: &str) -> Result<u32, String> {
    s.parse::<u32>().map_err(|_| format!("bad integer {}", s))
}

impl Sel {
    fn text(&self) -> String {
        match self {
            Sel::Id(k) => format!("e{}", k),
            Sel::Asleep(k) => format!("asleep{}", k),
            Sel::Hit(k) => format!("hit{}", k),
            Sel::Live(k) => format!("live{}", k),
        }
    }
    fn parse(s: &str) -> Result<Sel, String> {
        if let Some(r) = s.strip_prefix("asleep") { return Ok(Sel::Asleep(pu(r)?)); }
        if let Some(r) = s.strip_prefix("hit") { return Ok(Sel::Hit(pu(r)?)); }
        if let Some(r) = s.strip_prefix("live") { return Ok(Sel::Live(pu(r)?)); }
        if let Some(r) = s.strip_prefix("e") { return Ok(Sel::Id(pu(r)?)); }
        Err(format!("bad selector {}", s))
    }
}

impl Base {
    fn text(&self) -> String {
        match self {
            Base::Fresh => "fresh".into(),
            Base::New => "new".into(),
            Base::Slot(k) => format!("slot{}", k),
        }
    }
    fn parse(s: &str) -> Result<Base, String> {
        match s {
            "fresh" => Ok(Base::Fresh),
            "new" => Ok(Base::New),
            _ => Ok(Base::Slot(pu(s.strip_prefix("slot").ok_or("bad base")?)?)),
        }
    }
}

impl EntSpec {
    fn text(&self) -> String {
        format!("pos={} rot={} vel={} ang={} mass={:?}", v(&self.pos), v(&self.rot), v(&self.vel), v(&self.ang), self.mass)
    }
}
impl ColSpec {
    fn text(&self) -> String {
        format!("kind={:?} pos={} a={} b={} mass={:?} rest={:?} fthr={:?} fs={:?} fd={:?}", self.kind, v(&self.pos), v(&self.a), v(&self.b), self.mass, self.rest, self.fthr, self.fs, self.fd)
    }
}

impl Op {
    pub fn name(&self) -> &'static str {
        match self {
            Op::AddEnt { .. } => "add-entity",
            Op::AddEntFrom { .. } => "add-entity-copy",
            Op::RmEnt { .. } => "remove-entity",
            Op::Snap { .. } => "read-entity",
            Op::UpdEnt { .. } => "update-entity",
            Op::AddCol { .. } => "add-collider",
            Op::AddColFrom { .. } => "add-collider-copy",
            Op::RmCol { .. } => "remove-collider",
            Op::SnapCol { .. } => "read-collider",
            Op::UpdCol { .. } => "update-collider",
            Op::Link { .. } => "link",
            Op::AddGen { .. } => "add-generator",
            Op::RmGen { .. } => "remove-generator",
            Op::Step { .. } => "step",
            Op::Conf { .. } => "configure",
            Op::Query { .. } => "query",
            Op::Sink { .. } => "stdout",
            Op::Crash { .. } => "crash",
            Op::Poison { .. } => "poison",
        }
    }

    pub fn text(&self) -> String {
        let args = match self {
            Op::AddEnt { id, spec } => format!("id={} {}", id, spec.text()),
            Op::AddEntFrom { id, from } => format!("id={} from={}", id, from.text()),
            Op::RmEnt { sel } => format!("sel={}", sel.text()),
            Op::Snap { slot, sel } => format!("slot={} sel={}", slot, sel.text()),
            Op::UpdEnt { sel, base, mask, spec } => format!("sel={} base={} mask={} {}", sel.text(), base.text(), mask, spec.text()),
            Op::AddCol { id, spec } => format!("id={} {}", id, spec.text()),
            Op::AddColFrom { id, from } => format!("id={} from={}", id, from),
            Op::RmCol { id } => format!("id={}", id),
            Op::SnapCol { slot, id } => format!("slot={} id={}", slot, id),
            Op::UpdCol { id, base, mask, spec } => format!("id={} base={} mask={} {}", id, base.text(), mask, spec.text()),
            Op::Link { col, to } => format!("col={} to={}", col, to.as_ref().map(|s| s.text()).unwrap_or("none".into())),
            Op::AddGen { id, spec } => {
                let s = match spec {
                    GenSpec::Const { force, offset } => format!("gen=const force={} offset={}", v(force), v(offset)),
                    GenSpec::Drag { k } => format!("gen=drag k={:?}", k),
                    GenSpec::Spring { k, anchor, offset } => format!("gen=spring k={:?} anchor={} offset={}", k, v(anchor), v(offset)),
                    GenSpec::Wave { force, offset } => format!("gen=wave force={} offset={}", v(force), v(offset)),
                    GenSpec::Gravity { g } => format!("gen=gravity g={}", v(g)),
                    GenSpec::RealGravity { g } => format!("gen=realgravity g={}", v(g)),
                    GenSpec::Pin { force, point } => format!("gen=pin force={} point={}", v(force), v(point)),
                };
                format!("id={} {}", id, s)
            }
            Op::RmGen { id } => format!("id={}", id),
            Op::Step { dt } => format!("dt={:?}", dt),
            Op::Conf { iterations, energy, delay } => format!("iterations={} energy={:?} delay={:?}", iterations, energy, delay),
            Op::Query { k } => format!("k={}", k),
            Op::Sink { mode, budget } => format!("mode={} budget={}", *mode as u8, budget),
            Op::Crash { nth } => format!("nth={}", nth),
            Op::Poison { sel, how } => format!("sel={} how={}", sel.text(), how),
        };
        format!("{} {}", self.name(), args)
    }

    pub fn parse(text: &str) -> Result<Op, String> {
        let mut words = text.split_whitespace();
        let name = words.next().ok_or("empty event")?;
        let mut map = std::collections::BTreeMap::new();
        for w in words {
            let (k, x) = w.split_once('=').ok_or(format!("bad argument {}", w))?;
            map.insert(k.to_string(), x.to_string());
        }
        let g = |k: &str| -> Result<&str, String> { map.get(k).map(|s| s.as_str()).ok_or(format!("{} lacks {}", name, k)) };
        let ent = || -> Result<EntSpec, String> {
            Ok(EntSpec { pos: pv(g("pos")?)?, rot: pv(g("rot")?)?, vel: pv(g("vel")?)?, ang: pv(g("ang")?)?, mass: pf(g("mass")?)? })
        };
        let col = || -> Result<ColSpec, String> {
            let kind = *KINDS.iter().find(|k| format!("{:?}", k) == g("kind").unwrap_or("")).ok_or("bad kind")?;
            Ok(ColSpec { kind, pos: pv(g("pos")?)?, a: pv(g("a")?)?, b: pv(g("b")?)?, mass: pf(g("mass")?)?, rest: pf(g("rest")?)?, fthr: pf(g("fthr")?)?, fs: pf(g("fs")?)?, fd: pf(g("fd")?)? })
        };
        let mask = || -> Result<u8, String> { Ok(pu(g("mask")?)? as u8) };
        Ok(match name {
            "add-entity" => Op::AddEnt { id: pu(g("id")?)?, spec: ent()? },
            "add-entity-copy" => Op::AddEntFrom { id: pu(g("id")?)?, from: Sel::parse(g("from")?)? },
            "remove-entity" => Op::RmEnt { sel: Sel::parse(g("sel")?)? },
            "read-entity" => Op::Snap { slot: pu(g("slot")?)?, sel: Sel::parse(g("sel")?)? },
            "update-entity" => Op::UpdEnt { sel: Sel::parse(g("sel")?)?, base: Base::parse(g("base")?)?, mask: mask()?, spec: ent()? },
            "add-collider-copy" => Op::AddColFrom { id: pu(g("id")?)?, from: pu(g("from")?)? },
            "add-collider" => Op::AddCol { id: pu(g("id")?)?, spec: col()? },
            "remove-collider" => Op::RmCol { id: pu(g("id")?)? },
            "read-collider" => Op::SnapCol { slot: pu(g("slot")?)?, id: pu(g("id")?)? },
            "update-collider" => Op::UpdCol { id: pu(g("id")?)?, base: Base::parse(g("base")?)?, mask: mask()?, spec: col()? },
            "link" => Op::Link { col: pu(g("col")?)?, to: match g("to")? { "none" => None, s => Some(Sel::parse(s)?) } },
            "add-generator" => Op::AddGen {
                id: pu(g("id")?)?,
                spec: match g("gen")? {
                    "const" => GenSpec::Const { force: pv(g("force")?)?, offset: pv(g("offset")?)? },
                    "drag" => GenSpec::Drag { k: pf(g("k")?)? },
                    "spring" => GenSpec::Spring { k: pf(g("k")?)?, anchor: pv(g("anchor")?)?, offset: pv(g("offset")?)? },
                    "wave" => GenSpec::Wave { force: pv(g("force")?)?, offset: pv(g("offset")?)? },
                    "gravity" => GenSpec::Gravity { g: pv(g("g")?)? },
                    "realgravity" => GenSpec::RealGravity { g: pv(g("g")?)? },
                    "pin" => GenSpec::Pin { force: pv(g("force")?)?, point: pv(g("point")?)? },
                    other => return Err(format!("unknown generator {}", other)),
                },
            },
            "remove-generator" => Op::RmGen { id: pu(g("id")?)? },
            "step" => Op::Step { dt: pf(g("dt")?)? },
            "configure" => Op::Conf { iterations: pu(g("iterations")?)? as u8, energy: pf(g("energy")?)?, delay: pf(g("delay")?)? },
            "query" => Op::Query { k: pu(g("k")?)? },
            "stdout" => Op::Sink { mode: SINKS[(pu(g("mode")?)? as usize).min(8)], budget: g("budget")?.parse().map_err(|_| "bad budget")? },
            "crash" => Op::Crash { nth: pu(g("nth")?)? },
            "poison" => Op::Poison { sel: Sel::parse(g("sel")?)?, how: pu(g("how")?)? as u8 },
            _ => return Err(format!("unknown event {}", name)),
        })
    }
}

impl Ev {
    pub fn text(&self) -> String {
        format!("@{:?} client={} tags={} {}", self.t, self.who, self.tags, self.op.text())
    }
    pub fn parse(line: &str) -> Result<Ev, String> {
        let mut it = line.splitn(4, ' ');
        let t = it.next().and_then(|s| s.strip_prefix('@')).ok_or("bad event time")?.parse::<f64>().map_err(|_| "bad event time")?;
        let who = it.next().and_then(|s| s.strip_prefix("client=")).ok_or("bad client")?.parse::<u8>().map_err(|_| "bad client")?;
        let tags = it.next().and_then(|s| s.strip_prefix("tags=")).ok_or("bad tags")?.parse::<u8>().map_err(|_| "bad tags")?;
        Ok(Ev { t, who, tags, op: Op::parse(it.next().ok_or("no event")?)? })
    }
}
