//! Oracles that judge single frames: time (C04), the log (C05), which contacts happen (C06), the impact law (C07), conservation (C08, C09), boundaries (C10), forces (C15).

use crate::check::*;
use crate::frame::*;
use crate::ops::*;
use crate::phys::*;
use crate::world::*;
use std::collections::BTreeMap;

fn has(o: &BTreeMap<u32, EntObs>, id: u32) -> bool { o.contains_key(&id) }

/// Rounding of positions over a frame.
fn pos_tol(b: &Body, dt: f64, records: usize) -> f64 {
    1e-6 + 1e-5 * b.vel.norm() * dt + 1e-6 * (b.pos.norm() + b.off.norm()) * (records as f64 + 2.0)
}

/// C04
pub struct Time;

impl Checker for Time {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        let dt = match c.op { Op::Step { dt } => *dt, _ => return Ok(()) };
        if c.out.crashed { return Ok(()); }
        if dt.abs() < 1e-6 {
            stats.evals += 1;
            if c.pre.digest() != c.post.digest() || !c.out.calls.is_empty() {
                return bad("micro-frame", format!("a frame of {:?} changed something: {}", dt, crate::oracle_reg::difference(c.pre, c.post)));
            }
            return Ok(());
        }
        let f = match c.frame { Some(f) => f, None => return Ok(()) };
        let n = c.post.recs.len();
        if f.exhausted && n > 0 { stats.count("probe time cut short", 1) }
        for (id, e) in &c.post.ents {
            if f.bad.contains(id) || !sane(e) { continue; }
            let (p, b) = match (c.pre.ents.get(id), f.start.get(id)) { (Some(p), Some(b)) => (p, b), _ => continue };
            let end = Body::of(e);
            let q = e.quat.iter().map(|x| *x as f64 * *x as f64).sum::<f64>().sqrt();
            if !p.asleep && !((q - 1.0).abs() <= 1e-6) {
                return bad("not-a-rotation", format!("the rotation of e{} is of length {:?}", id, q));
            }
            if !f.logged(*id) {
                stats.evals += 1;
                if p.asleep && e.asleep {
                    if p.pos != e.pos || p.quat != e.quat {
                        return bad("sleeper-moved", format!("the sleeping e{} moved from {:?} {:?} to {:?} {:?}", id, p.pos, p.quat, e.pos, e.quat));
                    }
                    continue;
                }
                let mut expected = b.clone();
                expected.vel = end.vel;
                expected.ang = end.ang;
                if p.asleep { expected.vel = V::zeros(); expected.ang = V::zeros(); }
                expected.advance(f.t_end);
                compare(&expected, &end, f, n, *id, "", 0.0, 0.0)?;
                continue;
            }
            // Between contacts it also moves steadily.
            let last = f.contacts.iter().rev().find(|k| k.a.id == *id || k.b.id == *id);
            if let Some(k) = last {
                if !k.known || k.index + 1 != c.post.recs.iter().rposition(|r| r.a == *id || r.b == *id).map(|x| x + 1).unwrap_or(0) { continue; }
                let mut expected = if k.a.id == *id { k.a.clone() } else { k.b.clone() };
                if p.asleep && e.asleep { continue; }
                stats.evals += 1;
                expected.vel = end.vel;
                expected.ang = end.ang;
                expected.advance(f.t_end - c.post.recs[k.index].time as f64);
                // Earlier legs were moved at the predicted (not the real) velocities.
                let err = f.errs.get(id).cloned().unwrap_or_default();
                let (ep, eq) = (err.p, err.q);
                if ep > 0.02 * (1.0 + expected.vel.norm() * f.dt) || eq > 0.05 { continue; }
                compare(&expected, &end, f, n, *id, " after its last contact", ep, eq)?;
            }
        }
        Ok(())
    }
}

fn compare(expected: &Body, end: &Body, f: &Frame, n: usize, id: u32, when: &str, ep: f64, eq: f64) -> Result<(), Violation> {
    let start = &f.start[&id];
    let speed = start.vel.norm().max(end.vel.norm());
    let mut tol = 1e-5 + 2e-5 * speed * f.dt + 1e-6 * (end.pos.norm() + end.off.norm()) * (n as f64 + 2.0);
    tol += ep;
    if !((expected.pos - end.pos).norm() <= tol) {
        return bad("wrong-motion", format!("e{}{} is at {:?} instead of {:?} (velocity {:?} over {} of {} seconds)", id, when, end.pos, expected.pos, end.vel, f.t_end, f.dt));
    }
    let spin = start.ang.norm().max(end.ang.norm());
    let mut tol = 1e-4 + 2e-5 * spin * f.dt + 2e-6 * n as f64;
    tol += eq;
    if !(angle(&expected.q, &end.q) <= tol) {
        return bad("wrong-rotation", format!("e{}{} is turned {:?} away from where it should be (angular velocity {:?} over {} of {} seconds)", id, when, angle(&expected.q, &end.q), end.ang, f.t_end, f.dt));
    }
    Ok(())
}

/// C05
pub struct Log;

impl Checker for Log {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        let f = match c.frame { Some(f) => f, None => return Ok(()) };
        let n = c.post.recs.len();
        if n > c.pre.iterations as usize {
            return bad("too-many-contacts", format!("{} contacts logged with a limit of {}", n, c.pre.iterations));
        }
        stats.evals += 1;
        let mut last = 0.0;
        // What's absurd spreads through contacts.
        let mut absurd = f.bad.clone();
        for (i, r) in c.post.recs.iter().enumerate() {
            let t = r.time as f64;
            if !(t >= last - 1e-6 * f.dt) || !(t >= 0.0) || !(t <= f.dt * (1.0 + 1e-5)) {
                return bad("log-time", format!("contact {} at {:?} after one at {:?} in a frame of {:?}", i, r.time, last, f.dt));
            }
            last = t;
            if r.a == r.b || !has(&c.post.ents, r.a) || !has(&c.post.ents, r.b) {
                return bad("log-bodies", format!("contact {} is between e{} and e{}", i, r.a, r.b));
            }
            let touchable = |id: u32| f.shapes[&id].iter().any(|(_, s)| !matches!(s, Shape::Null));
            if !touchable(r.a) || !touchable(r.b) {
                return bad("log-bodies", format!("contact {} is between e{} and e{}, one of which can't touch anything", i, r.a, r.b));
            }
            let len = d(&r.n).norm();
            if !((len - 1.0).abs() < 1e-3) {
                return bad("log-normal", format!("contact {} has the normal {:?}", i, r.n));
            }
            if absurd.contains(&r.a) || absurd.contains(&r.b) { absurd.extend([r.a, r.b]); }
            else if !r.j.is_finite() || !d(&r.pos).norm().is_finite() {
                return bad("log-values", format!("contact {} has position {:?} and impulse {:?}", i, r.pos, r.j));
            }
            let mut any = false;
            for (ca, sa) in &f.shapes[&r.a] {
                for (cb, sb) in &f.shapes[&r.b] {
                    if matches!(sa, Shape::Null) || matches!(sb, Shape::Null) { continue; }
                    let e = c.world.cols[ca].spec.rest as f64 * c.world.cols[cb].spec.rest as f64;
                    if (e - r.e as f64).abs() <= 1e-5 * (1.0 + e.abs()) { any = true; }
                }
            }
            if !any {
                return bad("log-restitution", format!("contact {} between e{} and e{} has restitution {:?}, which no pair of their colliders has", i, r.a, r.b, r.e));
            }
        }
        // Velocities only change in contacts.
        for (id, e) in &c.post.ents {
            if f.logged(*id) || f.bad.contains(id) { continue; }
            let b = match f.start.get(id) { Some(b) => b, None => continue };
            let p = &c.pre.ents[id];
            let (dv, dw) = ((d(&e.vel) - b.vel).norm(), (d(&e.ang) - b.ang).norm());
            let tol = 1e-5 + 1e-4 * (b.vel.norm() + d(&p.vel).norm() + (b.vel - d(&p.vel)).norm());
            let tol_w = 1e-5 + 1e-3 * (b.ang.norm() + d(&p.ang).norm());
            if !(dv <= tol) || !(dw <= tol_w) {
                return bad("unlogged-change", format!("e{} isn't in the log but has velocity {:?} {:?} instead of {:?} {:?}", id, e.vel, e.ang, b.vel, b.ang));
            }
        }
        for k in &f.contacts {
            if !k.known || f.bad.contains(&k.a.id) || f.bad.contains(&k.b.id) { continue; }
            geometry(c, f, k, stats)?;
        }
        Ok(())
    }
}

/// Whether a contact's restitution is one of a pair of colliders that could have touched there.
/// None when that can't be told.
fn restitution_fits(c: &Ctx, f: &Frame, k: &Contact) -> Option<Result<(), String>> {
    let (sa, sb) = (&f.shapes[&k.a.id], &f.shapes[&k.b.id]);
    let e = c.post.recs[k.index].e as f64;
    let product = |ca: &u32, cb: &u32| c.world.cols[ca].spec.rest as f64 * c.world.cols[cb].spec.rest as f64;
    let close = |x: f64| (x - e).abs() <= 1e-5 * (1.0 + e.abs()) || x.is_nan();
    let pair = Pair { a: &k.a, sa, b: &k.b, sb };
    let tol = 1e-3 + pair.grain_over(c.post.recs[k.index].time as f64) * 2.0 + pair.slack(f.dt) + k.drift();
    let judged = all_supported(sa, sb) && tol <= 0.05;
    let mut seen = Vec::new();
    for (ca, x) in sa {
        for (cb, y) in sb {
            if matches!(x, Shape::Null) || matches!(y, Shape::Null) { continue; }
            if judged {
                if !supported(x, y) { continue; }
                let g = separation(&k.a, x, &k.b, y);
                if g > tol || contact_ok(k, x, y, tol + (-g).max(0.0), g < -tol).is_err() { continue; }
            }
            if close(product(ca, cb)) { return Some(Ok(())); }
            seen.push(product(ca, cb));
        }
    }
    if seen.is_empty() { return None; }
    Some(Err(format!("contact {} between e{} and e{} has restitution {:?}; the colliders that touch there make {:?}", k.index, k.a.id, k.b.id, e, seen)))
}

fn geometry(c: &Ctx, f: &Frame, k: &Contact, stats: &mut Stats) -> Result<(), Violation> {
    let (sa, sb) = (&f.shapes[&k.a.id], &f.shapes[&k.b.id]);
    crate::oracle_mesh::place(f, k, stats)?;
    if !all_supported(sa, sb) { return Ok(()); }
    if let Some(Err(text)) = restitution_fits(c, f, k) { return bad("log-restitution", text); }
    let pair = Pair { a: &k.a, sa, b: &k.b, sb };
    let tol = 1e-3 + pair.grain_over(c.post.recs[k.index].time as f64) * 2.0 + pair.slack(f.dt) + k.drift();
    if tol > 0.05 { return Ok(()); }
    let gap = pair.gap(0.0);
    if !gap.is_finite() { return Ok(()); }
    if gap > tol { return Ok(()); } // Judged by C06.
    stats.evals += 1;
    let mut reasons = Vec::new();
    for (_, x) in sa {
        for (_, y) in sb {
            if !supported(x, y) { continue; }
            let g = separation(&k.a, x, &k.b, y);
            if g > tol { continue; }
            let overlapping = g < -tol;
            match contact_ok(k, x, y, tol + (-g).max(0.0), overlapping) {
                Ok(()) => return Ok(()),
                Err(text) => reasons.push(text),
            }
        }
    }
    bad("log-geometry", format!("contact {} between e{} and e{} at {:?} with normal {:?} fits none of their shapes: {}", k.index, k.a.id, k.b.id, k.p, k.n, reasons.join("; ")))
}

fn contact_ok(k: &Contact, x: &Shape, y: &Shape, tol: f64, overlapping: bool) -> Result<(), String> {
    use Shape::*;
    // A mesh lying on a plane touches it at the middle of its corners within a percent of the lowest.
    let tol = match (x, y) {
        (Mesh { .. }, Plane { .. }) => tol + 0.025 * x.reach(&V::zeros()),
        (Plane { .. }, Mesh { .. }) => tol + 0.025 * y.reach(&V::zeros()),
        _ => tol,
    };
    // Make the first the sphere (or the mesh in front of a plane).
    let swap = match (x, y) { (Sphere { .. }, _) => false, (_, Sphere { .. }) => true, (Mesh { .. }, Plane { .. }) => false, _ => true };
    let (a, b, x, y, n) = if swap { (&k.b, &k.a, y, x, -k.n) } else { (&k.a, &k.b, x, y, k.n) };
    let boxed = matches!(y, Box { .. });
    if overlapping && boxed { return Ok(()); }
    for (body, s) in [(a, x), (b, y)] {
        let h = surface_distance(&k.p, body, s);
        let fine = if overlapping { h <= tol || matches!(s, Mesh { .. }) } else { h.abs() <= tol };
        if !fine { return Err(format!("the position is {:.5} off the surface of e{}", h, body.id)); }
    }
    match (x, y) {
        (Sphere { c, r }, _) => {
            let center = a.to_world(c);
            let expected = match y {
                Sphere { c: c2, .. } => b.to_world(c2) - center,
                Plane { n: pn, .. } => -pn,
                _ => if overlapping { return Ok(()) } else { k.p - center },
            };
            if expected.norm() < 1e-3 { return Ok(()); }
            let expected = expected.normalize();
            let tol = if matches!(y, Plane { .. }) { 1e-3 } else { 5e-3 + 2.0 * tol / r };
            if !((expected - n).norm() <= tol) { return Err(format!("the normal should be {:?} (off e{})", expected, a.id)); }
        }
        (Mesh { .. }, Plane { n: pn, .. }) => {
            if !((n + pn).norm() < 1e-3) { return Err(format!("the normal should be {:?} (off e{})", -pn, a.id)); }
        }
        _ => {}
    }
    Ok(())
}

/// C06. With `sleepers` it only judges pairs of one awake and one sleeping body (for C13).
pub struct Contacts { pub sleepers: bool }

impl Checker for Contacts {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        let f = match c.frame { Some(f) => f, None => return Ok(()) };
        // Invented or misplaced ones.
        for k in &f.contacts {
            if !k.known || f.bad.contains(&k.a.id) || f.bad.contains(&k.b.id) { continue; }
            if self.sleepers { continue; }
            let (sa, sb) = (&f.shapes[&k.a.id], &f.shapes[&k.b.id]);
            crate::oracle_mesh::apart(c, f, k, stats)?;
            if !all_supported(sa, sb) || rotating_plane(&k.a, sa) || rotating_plane(&k.b, sb) { continue; }
            let pair = Pair { a: &k.a, sa, b: &k.b, sb };
            let m = 1e-3 + pair.grain_over(c.post.recs[k.index].time as f64) + pair.slack(f.dt) + k.drift();
            if m > 0.1 { continue; }
            let gap = pair.gap(0.0);
            stats.evals += 1;
            if gap > m {
                return bad("phantom-contact", format!("contact {} between e{} and e{} at time {:?}, when they're {:.5} apart (margin {:.5})", k.index, k.a.id, k.b.id, c.post.recs[k.index].time, gap, m));
            }
            if k.first && f.pair(k.a.id, k.b.id).gap(0.0) > m { stats.count("probe contact between bodies that began apart", 1); }
            if k.first && gap < -m {
                let start = f.pair(k.a.id, k.b.id);
                if start.gap(0.0) > m && smallest(sa, sb) > 2.0 * m {
                    return bad("late-contact", format!("contact {} between e{} and e{} at time {:?}, when they're already {:.5} deep (margin {:.5})", k.index, k.a.id, k.b.id, c.post.recs[k.index].time, -gap, m));
                }
            }
        }
        // Missed ones.
        let ids: Vec<u32> = f.start.keys().cloned().collect();
        for (i, &ia) in ids.iter().enumerate() {
            for &ib in &ids[i + 1..] {
                let (a, b) = (&f.start[&ia], &f.start[&ib]);
                if self.sleepers && a.asleep == b.asleep { continue; }
                if a.asleep && b.asleep { continue; }
                if f.bad.contains(&ia) || f.bad.contains(&ib) { continue; }
                if (!a.mobile() && !b.mobile()) || (a.total.is_finite() && !a.mobile()) || (b.total.is_finite() && !b.mobile()) { continue; }
                if !a.physical() || !b.physical() { continue; } // There may be no impulse that would stop them.
                let (sa, sb) = (&f.shapes[&ia], &f.shapes[&ib]);
                if sa.is_empty() || sb.is_empty() || rotating_plane(a, sa) || rotating_plane(b, sb) { continue; }
                if a.vel == b.vel && a.ang.norm() == 0.0 && b.ang.norm() == 0.0 { continue; }
                let pair = f.pair(ia, ib);
                crate::oracle_mesh::due(c, f, &pair, stats)?;
                for k in &f.stretches(ia, ib) { stretch(c, f, k, sa, sb, stats)?; }
            }
        }
        Ok(())
    }
}

/// Judges the time between two contacts of a pair of bodies.
fn stretch(c: &Ctx, f: &Frame, k: &Stretch, sa: &[(u32, Shape)], sb: &[(u32, Shape)], stats: &mut Stats) -> Result<(), Violation> {
    if !k.known { return Ok(()); }
    let first = k.time == 0.0 && k.drift == 0.0;
    let (a, b) = (&k.a, &k.b);
    if rotating_plane(a, sa) || rotating_plane(b, sb) { return Ok(()); } // A contact may have turned it.
    let pair = Pair { a, sa, b, sb };
    let end = match k.next { Some(i) => (c.post.recs[i].time as f64).min(f.t_end), None => f.t_end };
    let left = end - k.time;
    if !(left >= 0.0) { return Ok(()); }
    let m = 1e-3 + 2.0 * pair.grain() + 1.5 * pair.slack(f.dt) + k.drift + k.drift_speed * left + if first { 0.0 } else { 1e-5 * pair.speed_limit() * f.dt };
    if m > 0.1 || smallest(sa, sb) < 2.5 * m { return Ok(()); }
    let g0 = pair.gap(0.0);
    if g0 < -m {
        if first { overlapping_start(c, f, &pair, m, g0, stats)?; }
        return Ok(());
    }
    if !g0.is_finite() || g0 > pair.speed_limit() * (f.t_end - k.time) { return Ok(()); }
    // Those that touch already must get deeper by more than anyone's guess.
    let touching = g0 <= m;
    if touching && sa.iter().any(|(_, x)| sb.iter().any(|(_, y)| matches!((x, y), (Shape::Mesh { .. }, Shape::Plane { .. }) | (Shape::Plane { .. }, Shape::Mesh { .. })))) { return Ok(()); }
    let m = if touching { 3.0 * m } else { m };
    stats.evals += 1;
    let hit = match pair.first_below(-m, left) { Search::At(t) => t, _ => return Ok(()) };
    // Something that lies (almost) flat on a plane touches it at the middle of its lowest corners, which may be at rest while one of them goes down.
    let touch = match pair.first_below(0.0, left) { Search::At(t) => t, _ => hit };
    let lying = pair.lying(touch).max(pair.lying(hit));
    let hit = if lying > 0.0 { match pair.first_below(-m - 0.025 * lying, left) { Search::At(t) => t, _ => return Ok(()) } } else { hit };
    if let Some(i) = k.next {
        let r = &c.post.recs[i];
        if first && ((r.a == a.id && r.b == b.id) || (r.a == b.id && r.b == a.id)) { return Ok(()); } // Judged above.
        if r.time as f64 <= k.time + hit + 1e-5 * f.dt { return Ok(()); }
    }
    let class = if touching { "missed-while-touching" } else if first { "missed-contact" } else { "missed-next-contact" };
    bad(class, format!("e{} and e{} (gap {:.5} at {:.6}) were {:.5} deep by time {:.6} of {:.6} without a contact", a.id, b.id, g0, k.time, m, k.time + hit, f.dt))
}

/// A sphere that starts the frame inside a sphere or plane and gets deeper touches it at once.
fn overlapping_start(c: &Ctx, f: &Frame, pair: &Pair, m: f64, g0: f64, stats: &mut Stats) -> Result<(), Violation> {
    let (a, b) = (pair.a, pair.b);
    let solid = |s: &[(u32, Shape)]| -> Vec<Shape> { s.iter().filter(|(_, x)| !matches!(x, Shape::Null)).map(|(_, x)| x.clone()).collect() };
    let (x, y) = (solid(pair.sa), solid(pair.sb));
    if x.len() != 1 || y.len() != 1 { return Ok(()); }
    let (n, p) = match (&x[0], &y[0]) {
        (Shape::Sphere { c: ca, r: ra }, Shape::Sphere { c: cb, r: rb }) => {
            let (ca, cb) = (a.to_world(ca), b.to_world(cb));
            if (cb - ca).norm() < 0.1 * (ra + rb) { return Ok(()); }
            let n = (cb - ca).normalize();
            (n, (ca + n * *ra + cb - n * *rb) * 0.5)
        }
        (Shape::Sphere { c, r }, Shape::Plane { n, .. }) => (-n, a.to_world(c) - n * *r),
        (Shape::Plane { n, .. }, Shape::Sphere { c, r }) => (*n, b.to_world(c) - n * *r),
        _ => return Ok(()),
    };
    // Where exactly within the overlap they touch isn't said.
    let spin = (a.ang.norm() + b.ang.norm()) * (m - g0);
    let closing = (a.velocity_at(&p) - b.velocity_at(&p)).dot(&n);
    let still = a.vel.norm() + b.vel.norm() + a.ang.norm() + b.ang.norm();
    if !(closing > 1e-2 + spin + 1e-2 * still && closing * f.dt > 1e-5) { return Ok(()); }
    stats.evals += 1;
    stats.count("probe overlap due", 1);
    let soon = 1e-4 * f.dt;
    if c.post.recs.iter().any(|r| [r.a, r.b].iter().any(|i| *i == a.id || *i == b.id) && r.time as f64 <= soon) { return Ok(()); }
    if f.t_end <= soon { return Ok(()); } // The iterations ran out before.
    bad("missed-overlap", format!("e{} and e{} start the frame {:.5} deep and approach at {:.5} but there's no contact at once", a.id, b.id, -g0, closing))
}

fn all_supported(sa: &[(u32, Shape)], sb: &[(u32, Shape)]) -> bool {
    sa.iter().all(|(_, x)| sb.iter().all(|(_, y)| supported(x, y) || matches!(x, Shape::Null) || matches!(y, Shape::Null) || matches!((x, y), (Shape::Plane { .. }, Shape::Plane { .. }))))
}
fn rotating_plane(b: &Body, s: &[(u32, Shape)]) -> bool {
    b.ang.norm() > 0.0 && s.iter().any(|(_, x)| matches!(x, Shape::Plane { .. }))
}
/// The smallest thickness that could be jumped over.
fn smallest(sa: &[(u32, Shape)], sb: &[(u32, Shape)]) -> f64 {
    let mut least = f64::INFINITY;
    for (_, s) in sa.iter().chain(sb) {
        if let Shape::Sphere { r, .. } = s { least = least.min(2.0 * r); }
    }
    least
}

/// C07
pub struct Impact;

impl Checker for Impact {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        let f = match c.frame { Some(f) => f, None => return Ok(()) };
        for (id, p) in &c.pre.ents {
            if !p.total.is_infinite() || !p.finite() { continue; }
            let e = match c.post.ents.get(id) { Some(e) => e, None => continue };
            stats.evals += 1;
            let kept = p.vel == e.vel && p.ang == e.ang;
            let rested = p.asleep && d(&e.vel).norm() == 0.0 && d(&e.ang).norm() == 0.0;
            if !kept && !rested {
                return bad("infinite-moved", format!("e{} has infinite mass but went from {:?} {:?} to {:?} {:?}", id, p.vel, p.ang, e.vel, e.ang));
            }
        }
        for k in &f.contacts {
            if !k.known || f.bad.contains(&k.a.id) || f.bad.contains(&k.b.id) { continue; }
            let s = k.speeds();
            let tv = k.tol_v();
            let yielding_ok = k.yielding > 0.0 && k.yielding.is_finite();
            if !yielding_ok { continue; }
            let r = &c.post.recs[k.index];
            stats.evals += 1;
            if k.vn < -tv {
                return bad("not-approaching", format!("contact {} between e{} and e{} though they move apart at {:?}", k.index, k.a.id, k.b.id, -k.vn));
            }
            let tj = k.tol_j();
            if !((r.j as f64 - k.j.abs()).abs() <= tj) {
                return bad("wrong-impulse", format!("contact {} between e{} and e{} has impulse {:?} instead of {:?}", k.index, k.a.id, k.b.id, r.j, k.j));
            }
            match restitution_fits(c, f, k) {
                Some(Ok(())) => stats.count("probe restitution of the touching pair", 1),
                Some(Err(text)) => return bad("wrong-restitution", text),
                None => {}
            }
            let (da_, db_) = (k.tol_after(&k.a), k.tol_after(&k.b));
            // Compare what can be seen of the outcome.
            let later = |id: u32| c.post.recs[k.index + 1..].iter().any(|x| x.a == id || x.b == id);
            let see: Vec<(u32, bool)> = [(k.a.id, true), (k.b.id, false)].iter().cloned().filter(|(id, _)| !later(*id) && c.post.ents.get(id).map(|e| e.total.is_finite()).unwrap_or(false)).collect();
            if see.is_empty() { continue; }
            if tv > 0.05 * s + 0.01 { continue; }
            let mut best = String::new();
            let mut fits = false;
            let mus = if k.mus.is_empty() { vec![0.0] } else { k.mus.clone() };
            for mu in &mus {
                let (xa, xb, slide) = with_friction(k, *mu);
                let mut ok = true;
                // With barely any sliding its direction is anyone's guess.
                let loose = if *mu > 0.0 { (2.0 * tv).min(mu * k.j.abs() * k.yielding) + if slide < 20.0 * tv { 2.0 * slide + 2.0 * tv } else { 0.0 } } else { 0.0 };
                for (id, is_a) in &see {
                    let e = &c.post.ents[id];
                    let (x, t) = if *is_a { (&xa, da_) } else { (&xb, db_) };
                    let spin = x.inv_inertia_world().norm() * (k.p - x.pos).norm() / k.yielding;
                    let ratio = (x.inv_mass() / k.yielding).min(1.0);
                    let (tv_, tw_) = (t.0 * (1.0 + mu) + loose * ratio * 2.0, t.1 * (1.0 + mu) + loose * spin * 2.0);
                    let (ev, ew) = ((d(&e.vel) - x.vel).norm(), (d(&e.ang) - x.ang).norm());
                    if !(ev <= tv_) || !(ew <= tw_) {
                        ok = false;
                        best = format!("e{} has velocity {:?} {:?} instead of {:?} {:?} (off by {:.6} of {:.6} and {:.6} of {:.6})", id, e.vel, e.ang, x.vel, x.ang, ev, tv_, ew, tw_);
                    }
                }
                if ok { fits = true; break; }
            }
            if mus.iter().any(|m| *m > 0.0) { stats.count("probe friction contact", 1) }
            if !fits {
                return bad("impact-law", format!("contact {} between e{} and e{} (approach {:.6}, restitution {:?}, impulse {:.6}, friction {:?}): {}", k.index, k.a.id, k.b.id, k.vn, r.e, k.j, mus, best));
            }
        }
        Ok(())
    }
}

/// C15
pub struct Forces;

impl Checker for Forces {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        let dt = match c.op { Op::Step { dt } => *dt, _ => return Ok(()) };
        if let Some(a) = c.out.anomalies.first() { return bad("callback-view", a.clone()); }
        if c.out.crashed { return Ok(()); }
        let mut asked: BTreeMap<(u32, u32), u32> = BTreeMap::new();
        for call in &c.out.calls {
            let id = match c.world.ent_ids.get(&call.ent) { Some(id) => *id, None => return bad("unknown-entity", format!("a generator was asked about the unknown handle {:?}", call.ent)) };
            if call.dt.to_bits() != dt.to_bits() { return bad("wrong-dt", format!("generator {} was given a dt of {:?} in a frame of {:?}", call.gen, call.dt, dt)); }
            *asked.entry((call.gen, id)).or_insert(0) += 1;
        }
        let simulated = dt.abs() >= 1e-6;
        for (gid, g) in &c.world.gens {
            if matches!(g.spec, GenSpec::RealGravity { .. }) { continue; }
            for (id, e) in &c.pre.ents {
                let massive = e.total.is_finite() && e.total > 1e-5;
                if e.total.is_finite() && e.total > 0.0 && e.total <= 1e-5 { asked.remove(&(*gid, *id)); continue; }
                if e.total.is_nan() { asked.remove(&(*gid, *id)); continue; }
                let due = (simulated && g.live && massive && !e.asleep) as u32;
                let got = asked.remove(&(*gid, *id)).unwrap_or(0);
                stats.evals += due as u64;
                if got != due {
                    return bad("asked", format!("generator {} (live: {}) was asked {} times instead of {} about e{} (mass {:?}, asleep {})", gid, g.live, got, due, id, e.total, e.asleep));
                }
            }
        }
        if let Some(((g, e), n)) = asked.into_iter().next() { return bad("asked", format!("generator {} was asked {} times about e{}, which isn't live", g, n, e)); }
        let f = match c.frame { Some(f) => f, None => return Ok(()) };
        for (id, e) in &c.post.ents {
            if f.logged(*id) || f.bad.contains(id) { continue; }
            let (b, p) = match (f.start.get(id), c.pre.ents.get(id)) { (Some(b), Some(p)) => (b, p), _ => continue };
            if p.asleep { continue; }
            // The sizes of what was added up.
            let (mut df, mut dt_) = (0.0, 0.0);
            let own = Body::of(p);
            let inv = own.inv_inertia_world().norm();
            for call in c.out.calls.iter().filter(|k| k.ent == e.handle) {
                df += d(&call.force).norm();
                dt_ += (d(&call.point) - own.pos).norm() * d(&call.force).norm() + 1e-6 * own.pos.norm() * d(&call.force).norm();
            }
            let g: f64 = gravities(c.world).iter().map(|x| x.norm()).sum();
            let tol = 1e-6 + 1e-5 * own.vel.norm() + 1e-4 * f.dt * (g + if own.mobile() { df / own.total } else { 0.0 });
            let tol_w = 1e-6 + 1e-5 * own.ang.norm() + if own.axis.is_some() { 3e-3 } else { 1e-3 } * f.dt * inv * dt_;
            let (ev, ew) = ((d(&e.vel) - b.vel).norm(), (d(&e.ang) - b.ang).norm());
            if !(ev <= tol) { return bad("force-velocity", format!("e{} ({} generators asked) has velocity {:?} instead of {:?}", id, c.out.calls.iter().filter(|k| k.ent == e.handle).count(), e.vel, b.vel)); }
            if !(ew <= tol_w) { return bad("force-rotation", format!("e{} has angular velocity {:?} instead of {:?} ({:.6} off, tolerance {:.6}, before {:?}, inertia {:?})", id, e.ang, b.ang, ew, tol_w, own.ang, p.inertia)); }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Conservation.

/// Groups of bodies of finite mass that were connected by contacts.
fn groups(f: &Frame, recs: &[RecObs]) -> Vec<(Vec<u32>, Vec<usize>)> {
    let finite = |id: u32| f.start.get(&id).map(|b| b.total.is_finite()).unwrap_or(false);
    let mut root: BTreeMap<u32, u32> = f.start.keys().map(|i| (*i, *i)).collect();
    fn find(root: &BTreeMap<u32, u32>, mut x: u32) -> u32 { while root[&x] != x { x = root[&x]; } x }
    for r in recs {
        if finite(r.a) && finite(r.b) {
            let (x, y) = (find(&root, r.a), find(&root, r.b));
            root.insert(x, y);
        }
    }
    let mut map: BTreeMap<u32, (Vec<u32>, Vec<usize>)> = BTreeMap::new();
    for id in f.start.keys() {
        if finite(*id) { map.entry(find(&root, *id)).or_default().0.push(*id); }
    }
    for (i, r) in recs.iter().enumerate() {
        let id = if finite(r.a) { r.a } else if finite(r.b) { r.b } else { continue };
        map.entry(find(&root, id)).or_default().1.push(i);
    }
    map.into_values().filter(|g| !g.1.is_empty()).collect()
}

fn frictionless(f: &Frame, w: &World, a: u32, b: u32) -> bool {
    f.shapes[&a].iter().all(|(x, _)| f.shapes[&b].iter().all(|(y, _)| {
        let (x, y) = (&w.cols[x].spec, &w.cols[y].spec);
        x.fs * y.fs == 0.0 && x.fd * y.fd == 0.0
    }))
}

/// C08
pub struct Momentum;

impl Checker for Momentum {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        let f = match c.frame { Some(f) => f, None => return Ok(()) };
        for (ids, recs) in groups(f, &c.post.recs) {
            if ids.iter().any(|i| f.bad.contains(i) || !c.post.ents.get(i).map(sane).unwrap_or(false) || !(f.start[i].total > 1e-6)) { continue; }
            let mut before = V::zeros();
            let mut after = V::zeros();
            let mut scale = 1e-6;
            for i in &ids {
                let b = &f.start[i];
                let v = d(&c.post.ents[i].vel);
                before += b.vel * b.total;
                after += v * b.total;
                scale += b.total * (b.vel.norm() + v.norm());
            }
            let mut absorbed = V::zeros();
            let mut clear = true;
            for k in &recs {
                let r = &c.post.recs[*k];
                scale += 2.0 * r.j as f64;
                let (fa, fb) = (f.start[&r.a].total.is_finite(), f.start[&r.b].total.is_finite());
                if fa && fb { continue; }
                if !frictionless(f, c.world, r.a, r.b) { clear = false; break; }
                // The first body gets -n j, the second n j.
                absorbed += d(&r.n) * (r.j as f64) * if fa { -1.0 } else { 1.0 };
            }
            if !clear { continue; }
            stats.evals += 1;
            if absorbed.norm() > 0.0 { stats.count("probe impulse absorbed by infinite mass", 1) }
            let off = (after - before - absorbed).norm();
            if !(off <= 5e-5 * scale * (1.0 + recs.len() as f64)) {
                return bad("momentum", format!("the momentum of {:?} went from {:?} to {:?} with {:?} absorbed (off by {:.6}, scale {:.6}, contacts {:?})", ids, before, after, absorbed, off, scale, recs));
            }
        }
        for k in &f.contacts {
            if !k.known || !k.only { continue; }
            if f.bad.contains(&k.a.id) || f.bad.contains(&k.b.id) { continue; }
            let mut change = V::zeros();
            let mut scale = 1e-7;
            let mut fine = true;
            for (b, err) in [(&k.a, &k.err_a), (&k.b, &k.err_b)] {
                if !b.total.is_finite() { continue; }
                let e = match c.post.ents.get(&b.id) { Some(e) if sane(e) => e, _ => { fine = false; continue } };
                let (dv, dw) = (d(&e.vel) - b.vel, d(&e.ang) - b.ang);
                let i = b.inertia_world();
                let arm = b.pos - k.p;
                change += i * dw + arm.cross(&(dv * b.total));
                scale += i.norm() * (d(&e.ang).norm() + b.ang.norm()) * 2e-4 + 2e-4 * arm.norm() * b.total * (dv.norm() + 0.05 * b.vel.norm()) + 2e-6 * (b.pos.norm() + 1.0) * b.total * (dv.norm() + b.vel.norm());
                scale += err.p * b.total * dv.norm() + err.q * (i.norm() * (d(&e.ang).norm() + b.ang.norm()) + arm.norm() * b.total * dv.norm());
                // Without inertia it can't take up any.
                if b.inertia.norm() > 0.0 && b.inv_inertia.norm() == 0.0 { fine = false; }
                if b.inertia.norm() == 0.0 || b.axis.is_some() { fine = false; }
            }
            if !fine { continue; }
            stats.evals += 1;
            if !(change.norm() <= 5.0 * scale) {
                return bad("angular-momentum", format!("contact {} between e{} and e{} changed the angular momentum about the contact point by {:?} (tolerance {:.7})", k.index, k.a.id, k.b.id, change, 5.0 * scale));
            }
        }
        Ok(())
    }
}

/// C09
#[derive(Default)]
pub struct Energy {
    /// The most the whole world may hold.
    ceiling: Option<f64>,
}

fn isotropic(b: &Body) -> bool {
    let m = b.inertia;
    let s = m.trace() / 3.0;
    (m - M::identity() * s).norm() <= 1e-4 * s.abs()
}

impl Checker for Energy {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        let world_energy = |o: &Obs| -> Option<f64> {
            let mut sum = 0.0;
            for e in o.ents.values() {
                if !sane(e) { return None; }
                let b = Body::of(e);
                if b.total.is_infinite() { if b.vel.norm() > 0.0 || b.ang.norm() > 0.0 { return None; } continue; }
                if !isotropic(&b) || b.ill || b.axis.is_some() || !(b.total > 1e-6) { return None; }
                if b.inertia.norm() == 0.0 && b.ang.norm() > 0.0 { return None; }
                sum += b.energy();
            }
            Some(sum)
        };
        let inert = matches!(c.op, Op::Query { .. } | Op::Snap { .. } | Op::SnapCol { .. } | Op::Sink { .. } | Op::Step { .. });
        if !inert { self.ceiling = None; }
        let f = match c.frame { Some(f) => f, None => return Ok(()) };
        let lively = c.post.cols.values().any(|x| x.spec.rest > 1.0 || x.spec.rest < 0.0);
        if lively { self.ceiling = None; return Ok(()); }
        let still = |b: &Body| b.total.is_finite() || (b.vel.norm() == 0.0 && b.ang.norm() == 0.0);
        for k in &f.contacts {
            if !k.known || !k.only || f.bad.contains(&k.a.id) || f.bad.contains(&k.b.id) || !still(&k.a) || !still(&k.b) { continue; }
            let (mut before, mut after) = (0.0, 0.0);
            let mut fine = true;
            let mut raw: f64 = 0.0;
            for (b, err) in [(&k.a, &k.err_a), (&k.b, &k.err_b)] {
                if !b.total.is_finite() { continue; }
                let e = match c.post.ents.get(&b.id) { Some(e) if sane(e) => e, _ => { fine = false; continue } };
                let mut x = b.clone();
                x.vel = d(&e.vel);
                x.ang = d(&e.ang);
                before += b.energy();
                after += x.energy();
                raw += b.total * 1e-6 * (b.vel.norm() + x.vel.norm());
                if b.inertia.norm() > 0.0 && b.inv_inertia.norm() == 0.0 { fine = false; }
                // A spin without inertia holds no energy but can't be slowed down either.
                if b.idle_spin() + x.idle_spin() > if b.axis.is_some() { 1e-5 * (b.ang.norm() + x.ang.norm()) } else { 0.0 } { fine = false; }
            }
            if !fine { continue; }
            stats.evals += 1;
            let tol = 1e-3 * before + raw + 1e-9;
            if after > before + tol {
                return bad("energy-created", format!("contact {} between e{} and e{} raised their energy from {:?} to {:?}", k.index, k.a.id, k.b.id, before, after));
            }
            let r = &c.post.recs[k.index];
            if r.e == 1.0 && frictionless(f, c.world, r.a, r.b) {
                stats.count("probe perfectly elastic contact", 1);
                if after < before - 2.0 * tol {
                    return bad("energy-lost", format!("the elastic, frictionless contact {} between e{} and e{} lowered their energy from {:?} to {:?}", k.index, k.a.id, k.b.id, before, after));
                }
            }
        }
        // Chains of contacts: bodies whose energy can't change in flight.
        for (ids, recs) in groups(f, &c.post.recs) {
            if recs.iter().any(|k| !still(&f.start[&c.post.recs[*k].a]) || !still(&f.start[&c.post.recs[*k].b])) { continue; }
            let (mut before, mut after) = (0.0, 0.0);
            let mut fine = true;
            for i in &ids {
                let b = &f.start[i];
                let e = match c.post.ents.get(i) { Some(e) if sane(e) => e, _ => { fine = false; continue } };
                if f.bad.contains(i) || !isotropic(b) || !(b.total > 1e-6) { fine = false; continue; }
                if b.inertia.norm() == 0.0 && (b.ang.norm() > 0.0 || d(&e.ang).norm() > 0.0) { fine = false; continue; }
                let mut x = b.clone();
                x.vel = d(&e.vel);
                x.ang = d(&e.ang);
                before += b.energy();
                after += x.energy();
            }
            if !fine { continue; }
            stats.evals += 1;
            if after > before * (1.0 + 1e-3 * recs.len() as f64) + 1e-8 {
                return bad("energy-created", format!("contacts {:?} raised the energy of {:?} from {:?} to {:?}", recs, ids, before, after));
            }
        }
        // The whole world, as long as nothing feeds it.
        if c.world.gens.values().any(|g| g.live) { self.ceiling = None; return Ok(()); }
        match (world_energy(c.post), self.ceiling) {
            (Some(now), Some(limit)) => {
                stats.evals += 1;
                if now > limit * (1.0 + 1e-4 * (1 + c.post.recs.len()) as f64) + 1e-7 { return bad("world-energy", format!("a force-free world went from an energy of {:?} to {:?}", limit, now)); }
                self.ceiling = Some(limit * (1.0 + 1e-5 * (1 + c.post.recs.len()) as f64) + 1e-9);
            }
            (now, _) => self.ceiling = now.map(|x| x * (1.0 + 1e-5)),
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------

/// The sides (a point, and the normal that points inside) of a closed convex mesh, or nothing.
fn room(faces: &[Vec<V>]) -> Vec<(V, V)> {
    if faces.len() < 4 { return vec![]; }
    let corners: Vec<V> = faces.iter().flatten().cloned().collect();
    let middle = corners.iter().sum::<V>() / corners.len() as f64;
    let mut out = Vec::new();
    for f in faces {
        let mut n = (f[1] - f[0]).cross(&(f[2] - f[0])).normalize();
        if (middle - f[0]).dot(&n) < 0.0 { n = -n; }
        if corners.iter().any(|v| (v - f[0]).dot(&n) < -1e-4 * (v - f[0]).norm()) { return vec![]; }
        out.push((f[0], n));
    }
    out
}

/// C10
#[derive(Default)]
pub struct Walls {
    /// How deep each sphere may ever be behind each plane: (sphere collider, plane or mesh collider, face) -> (distance, rounding errors since).
    limits: BTreeMap<(u32, u32, usize), (f64, f64)>,
}

impl Checker for Walls {
    fn event(&mut self, c: &Ctx, stats: &mut Stats) -> Result<(), Violation> {
        match c.op {
            Op::Step { .. } => {}
            // Velocity updates don't move the walls or the spheres.
            Op::Query { .. } | Op::Snap { .. } | Op::SnapCol { .. } | Op::Sink { .. } | Op::AddGen { .. } | Op::RmGen { .. } | Op::Conf { .. } | Op::Crash { .. } => return Ok(()),
            Op::UpdEnt { base: Base::Fresh, mask, .. } if mask & !(F_VEL | F_ANG) == 0 => return Ok(()),
            _ => { self.limits.clear(); return Ok(()) }
        }
        let f = match c.frame { Some(f) => f, None => return Ok(()) };
        let mut judged = std::collections::BTreeSet::new();
        for (iw, wall) in &c.post.ents {
            let before = match c.pre.ents.get(iw) { Some(b) => b, None => continue };
            if !wall.total.is_infinite() || !sane(wall) || before.pos != wall.pos || before.quat != wall.quat { continue; }
            if d(&before.vel).norm() + d(&before.ang).norm() + d(&wall.vel).norm() + d(&wall.ang).norm() > 0.0 { continue; }
            let bw = Body::of(wall);
            let mut sides: Vec<(u32, usize, V, V, bool)> = Vec::new();
            for (cw, sw) in &f.shapes[iw] {
                match sw {
                    Shape::Plane { p, n } => sides.push((*cw, 0, bw.to_world(p), *n, false)),
                    Shape::Mesh { faces } => for (i, (p, n)) in room(faces).iter().enumerate() { sides.push((*cw, i, bw.to_world(p), bw.q * n, true)); },
                    _ => {}
                }
            }
            for &(cw, side, pp, n, mesh) in &sides {
                for (ie, e) in &c.post.ents {
                    if !e.total.is_finite() || !(e.total > 1e-5) || !sane(e) || f.bad.contains(ie) { continue; }
                    let p = match c.pre.ents.get(ie) { Some(p) => p, None => continue };
                    let (b0, b1) = (Body::of(p), Body::of(e));
                    let (start, slide) = (&f.start[ie], b1.vel.norm() + b0.vel.norm());
                    let spin = f.dt * (start.ang.norm().max(b1.ang.norm()).max(b0.ang.norm()));
                    for (ce, se) in &f.shapes[ie] {
                        let (center, r) = match se { Shape::Sphere { c, r } => (c, *r), _ => continue };
                        // Only the inside of a mesh is a room.
                        if mesh && sides.iter().any(|x| x.0 == cw && (b0.to_world(center) - x.2).dot(&x.3) < r * 0.9) { continue; }
                        let s0 = (b0.to_world(center) - pp).dot(&n) - r;
                        let s1 = (b1.to_world(center) - pp).dot(&n) - r;
                        let offset = (b0.off + center).norm();
                        let centered = offset < 1e-6;
                        let most = c.pre.ents[ie].vel.norm() as f64;
                        let fast = slide + most + (start.vel.norm());
                        // (Anything slower than EPSILON doesn't count as approaching.)
                        let mut tol = 5e-5 + 2e-6 * f.dt + 1e-5 * (b1.pos.norm() + pp.norm() + r) + 2e-5 * fast * f.dt;
                        // The lever arm of a contact is only as exact as the positions are.
                        let noise = 4e-6 * (1.0 + b1.pos.norm() + pp.norm() + r) * spin;
                        if noise > 0.01 { continue; }
                        tol += noise;
                        if !centered {
                            // Rotations are replaced by straight lines within a frame.
                            if c.post.recs.iter().filter(|k| k.a == *ie || k.b == *ie).count() > 0 && f.exhausted { continue; }
                            let known = f.end.get(ie).map(|x| x.1 == Known::Yes).unwrap_or(false);
                            if !known { continue; }
                            let most_spin = f.contacts.iter().filter(|k| k.a.id == *ie || k.b.id == *ie).map(|k| if k.a.id == *ie { k.after_a.ang.norm() } else { k.after_b.ang.norm() }).fold(spin / f.dt, f64::max) * f.dt;
                            let bend = offset * most_spin * most_spin;
                            if bend > 0.05 { continue; }
                            tol += 2.0 * bend;
                        }
                        stats.evals += 1;
                        if f.logged(*ie) { stats.count("probe contact near a wall", 1) }
                        if !(s1 >= s0.min(0.0) - tol) {
                            return bad("wall-crossed", format!("sphere {} of e{} went from {:.6} to {:.6} relative to plane {} of e{} (tolerance {:.6})", ce, ie, s0, s1, cw, iw, tol));
                        }
                        if !centered { continue; }
                        let entry = self.limits.entry((*ce, cw, side)).or_insert((s0.min(0.0), 0.0));
                        judged.insert((*ce, cw, side));
                        entry.1 += 4e-6 * (1.0 + b1.pos.norm()) + noise;
                        let slack = 2e-3 + tol + entry.1;
                        if !(s1 >= entry.0 - slack) {
                            return bad("wall-creep", format!("sphere {} of e{} crept to {:.6} relative to plane {} of e{} from {:.6} (tolerance {:.6})", ce, ie, s1, cw, iw, entry.0, slack));
                        }
                        // Once out again it has to stay out.
                        if s1.min(0.0) > entry.0 { *entry = (s1.min(0.0), 0.0); }
                    }
                }
            }
        }
        // What couldn't be judged for a frame may have been anywhere meanwhile.
        self.limits.retain(|k, _| judged.contains(k));
        Ok(())
    }
}
