//! What's promised about contacts between two meshes: when the first touch is a corner of the one meeting a face of the other, there's a contact right then.
//! (Edges that cross each other without either ending inside of the other mesh are a known gap of the library.)

use crate::check::*;
use crate::frame::*;
use crate::phys::*;

/// All the meshes of a body that has nothing else that could touch anything.
pub fn meshes(list: &[(u32, Shape)]) -> Option<Vec<Vec<Vec<V>>>> {
    let mut out = Vec::new();
    for (_, s) in list {
        match s {
            Shape::Null => {}
            Shape::Mesh { faces } => out.push(faces.clone()),
            _ => return None,
        }
    }
    if out.is_empty() { None } else { Some(out) }
}

fn in_world(b: &Body, faces: &[Vec<V>]) -> Vec<Vec<V>> { faces.iter().map(|f| f.iter().map(|p| b.to_world(p)).collect()).collect() }
fn normal(f: &[V]) -> V { (f[1] - f[0]).cross(&(f[2] - f[0])).normalize() }

/// A lower bound on the distance of the convex hulls, or how deep they overlap (negative).
pub fn hull_gap(a: &[Vec<V>], b: &[Vec<V>]) -> f64 {
    let mut edges: [Vec<V>; 2] = [vec![], vec![]];
    let mut axes: Vec<V> = Vec::new();
    for (k, m) in [a, b].iter().enumerate() {
        for f in m.iter() {
            axes.push(normal(f));
            for i in 0..f.len() {
                let e = (f[(i + 1) % f.len()] - f[i]).normalize();
                if !edges[k].iter().any(|x| x.dot(&e).abs() > 1.0 - 1e-9) { edges[k].push(e); }
            }
        }
    }
    for x in &edges[0] {
        for y in &edges[1] {
            let c = x.cross(y);
            if c.norm() > 1e-4 { axes.push(c.normalize()); }
        }
    }
    // Coplanar sheets are told apart within their plane.
    for k in 0..2 {
        let n = normal(&[a, b][k][0]);
        for e in &edges[k] { let c = n.cross(e); if c.norm() > 1e-4 { axes.push(c.normalize()); } }
    }
    let range = |m: &[Vec<V>], x: &V| m.iter().flatten().fold((f64::INFINITY, f64::NEG_INFINITY), |r, p| { let d = p.dot(x); (r.0.min(d), r.1.max(d)) });
    axes.iter().map(|x| { let (p, q) = (range(a, x), range(b, x)); (q.0 - p.1).max(p.0 - q.1) }).fold(f64::NEG_INFINITY, f64::max)
}

fn pair_gap(a: &Body, ma: &[Vec<Vec<V>>], b: &Body, mb: &[Vec<Vec<V>>]) -> f64 {
    let mut best = f64::INFINITY;
    for x in ma { for y in mb { best = best.min(hull_gap(&in_world(a, x), &in_world(b, y))); } }
    best
}

/// How far straight lines (in the local space of a turning body) and reality may be apart.
fn bend(a: &Body, sa: &[(u32, Shape)], b: &Body, sb: &[(u32, Shape)], dt: f64) -> f64 {
    let reach = |b: &Body, s: &[(u32, Shape)]| s.iter().map(|(_, o)| o.reach(&-b.off)).fold(0.0, f64::max);
    let far = (a.pos - b.pos).norm() + (a.vel - b.vel).norm() * dt + reach(a, sa) + reach(b, sb);
    let theta = (a.ang.norm() + b.ang.norm()) * dt;
    0.5 * theta * theta * far + 0.5 * theta * (a.vel - b.vel).norm() * dt
}

fn margin(k: &Pair, dt: f64, way: f64) -> f64 { 1e-3 + 2.0 * k.grain_over(way) + bend(k.a, k.sa, k.b, k.sb, dt) }

/// How far inside of a polygon a point of its plane is (negative outside).
fn inset(p: &V, poly: &[V], n: &V) -> f64 {
    let mut least = f64::INFINITY;
    let mut sign = 0.0;
    for i in 0..poly.len() {
        let e = poly[(i + 1) % poly.len()] - poly[i];
        let s = e.cross(&(p - poly[i])).dot(n) / e.norm();
        if sign == 0.0 { sign = s.signum(); }
        least = least.min(s * sign);
    }
    least
}

/// When (touch, by then it's clear) a corner of the one first goes through a face of the other, and whether it's certain from which side.
fn corner_hit(a: &Body, ma: &[Vec<V>], b: &Body, mb: &[Vec<V>], end: f64, m: f64) -> Option<(f64, f64, bool)> {
    let steps = if a.ang.norm() + b.ang.norm() == 0.0 { 1 } else { 48 };
    let poses: Vec<(Body, Body)> = (0..=steps).map(|i| { let t = end * i as f64 / steps as f64; (a.advanced(t), b.advanced(t)) }).collect();
    let mut best: Option<(f64, f64, bool)> = None;
    let mut corners: Vec<V> = Vec::new();
    for v in ma.iter().flatten() { if !corners.iter().any(|x| (x - v).norm() < 1e-9) { corners.push(*v); } }
    for v in &corners {
        let path: Vec<V> = poses.iter().map(|(x, y)| y.to_local(&x.to_world(v))).collect();
        for face in mb {
            let n = normal(face);
            let h: Vec<f64> = path.iter().map(|p| (p - face[0]).dot(&n)).collect();
            if h[0].abs() <= m { continue; }
            let side = h[0].signum();
            let mut touch = None;
            for i in 1..h.len() {
                let (x, y) = (h[i - 1] * side, h[i] * side);
                if touch.is_none() && y <= 0.0 {
                    let u = x / (x - y);
                    let p = path[i - 1] + (path[i] - path[i - 1]) * u;
                    if inset(&p, face, &n) <= 2.0 * m { break; }
                    touch = Some((i as f64 - 1.0 + u) / steps as f64 * end);
                }
                if y < -m {
                    let u = ((x + m) / (x - y)).max(0.0);
                    let clear = (i as f64 - 1.0 + u) / steps as f64 * end;
                    if let Some(t) = touch {
                        if best.map(|z| clear < z.1).unwrap_or(true) {
                            let (x, y) = (a.advanced(t), b.advanced(t));
                            let mean = corners.iter().map(|v| (y.to_local(&x.to_world(v)) - face[0]).dot(&n) * side).sum::<f64>() / corners.len() as f64;
                            best = Some((t, clear, if steps == 1 { mean > -1e-5 } else { mean > m }));
                        }
                    }
                    break;
                }
            }
        }
    }
    best
}

/// Whether all of the faces that a corner of the other one touches agree on their normal.
fn one_way(a: &Body, ma: &[Vec<Vec<V>>], b: &Body, mb: &[Vec<Vec<V>>], tol: f64) -> bool {
    let mut first: Option<V> = None;
    for (x, mx, y, my) in [(a, ma, b, mb), (b, mb, a, ma)] {
        let corners: Vec<V> = mx.iter().flatten().flatten().map(|v| x.to_world(v)).collect();
        for face in my.iter().flat_map(|m| in_world(y, m)) {
            if !corners.iter().any(|v| polygon_distance(v, &face) <= tol) { continue; }
            let n = normal(&face);
            match first { None => first = Some(n), Some(f) => if f.cross(&n).norm() > 1e-3 { return false; } }
        }
    }
    true
}

/// C06: contacts that are due.
pub fn due(c: &Ctx, f: &Frame, pair: &Pair, stats: &mut Stats) -> Result<(), Violation> {
    let (ma, mb) = match (meshes(pair.sa), meshes(pair.sb)) { (Some(x), Some(y)) => (x, y), _ => return Ok(()) };
    let (a, b) = (pair.a, pair.b);
    let m = margin(pair, f.dt, 0.0);
    if m > 0.05 { return Ok(()); }
    let reach = (a.pos - b.pos).norm() - pair.sa.iter().map(|(_, s)| s.reach(&-a.off)).fold(0.0, f64::max) - pair.sb.iter().map(|(_, s)| s.reach(&-b.off)).fold(0.0, f64::max);
    if reach > pair.speed_limit() * f.t_end { return Ok(()); }
    if !(pair_gap(a, &ma, b, &mb) > m) { return Ok(()); }
    let first = c.post.recs.iter().position(|r| [r.a, r.b].contains(&a.id) || [r.a, r.b].contains(&b.id));
    let horizon = match first { Some(k) => (c.post.recs[k].time as f64).min(f.t_end), None => f.t_end };
    if !(horizon > 0.0) { return Ok(()); }
    stats.evals += 1;
    let mut hit: Option<(f64, f64, bool)> = None;
    for x in &ma {
        for y in &mb {
            for h in [corner_hit(a, x, b, y, horizon, m), corner_hit(b, y, a, x, horizon, m)] {
                if let Some(h) = h { if hit.map(|z| h.1 < z.1).unwrap_or(true) { hit = Some(h); } }
            }
        }
    }
    let (touch, clear, certain) = match hit { Some(h) => h, None => return Ok(()) };
    if !certain { return Ok(()); }
    // Only if nothing else met before.
    if !(pair_gap(&a.advanced(touch), &ma, &b.advanced(touch), &mb) > -3.0 * m) { return Ok(()); }
    // Which way the contact goes is anyone's guess if a corner touches the edge of a face.
    if !one_way(&a.advanced(touch), &ma, &b.advanced(touch), &mb, 3.0 * m) { return Ok(()); }
    stats.count("probe corner of a mesh met a face of another", 1);
    if let Some(k) = first { if c.post.recs[k].time as f64 <= clear + 1e-5 * f.dt { return Ok(()); } }
    bad("missed-contact", format!("a corner of e{} or e{} went through a face of the other at {:.6} and was {:.5} behind it by {:.6} of {:.6}, without a contact by then", a.id, b.id, touch, m, clear, f.dt))
}

/// C06: contacts that happened.
pub fn apart(c: &Ctx, f: &Frame, k: &Contact, stats: &mut Stats) -> Result<(), Violation> {
    let (sa, sb) = (&f.shapes[&k.a.id], &f.shapes[&k.b.id]);
    let (ma, mb) = match (meshes(sa), meshes(sb)) { (Some(x), Some(y)) => (x, y), _ => return Ok(()) };
    let pair = Pair { a: &k.a, sa, b: &k.b, sb };
    let m = margin(&pair, f.dt, f.dt) + k.drift();
    if m > 0.1 { return Ok(()); }
    stats.evals += 1;
    stats.count("probe contact between meshes", 1);
    let gap = pair_gap(&k.a, &ma, &k.b, &mb);
    if gap > m { return bad("phantom-contact", format!("contact {} between the meshes of e{} and e{} at time {:?}, when they're {:.5} apart (margin {:.5})", k.index, k.a.id, k.b.id, c.post.recs[k.index].time, gap, m)); }
    Ok(())
}

/// C05: where it happened.
pub fn place(f: &Frame, k: &Contact, stats: &mut Stats) -> Result<(), Violation> {
    let (sa, sb) = (&f.shapes[&k.a.id], &f.shapes[&k.b.id]);
    let (ma, mb) = match (meshes(sa), meshes(sb)) { (Some(x), Some(y)) => (x, y), _ => return Ok(()) };
    let pair = Pair { a: &k.a, sa, b: &k.b, sb };
    let tol = 2.0 * margin(&pair, f.dt, f.dt) + k.drift();
    if tol > 0.05 { return Ok(()); }
    stats.evals += 1;
    let mut reason = String::from("it's a corner of neither");
    for (va, body_v, meshes_v, body_f, meshes_f) in [(true, &k.a, &ma, &k.b, &mb), (false, &k.b, &mb, &k.a, &ma)] {
        for mv in meshes_v {
            if !mv.iter().flatten().any(|v| (body_v.to_world(v) - k.p).norm() <= tol) { continue; }
            for mf in meshes_f {
                for face in in_world(body_f, mf) {
                    if polygon_distance(&k.p, &face) > tol { continue; }
                    let n = normal(&face);
                    // The face is only where it's thought to be within the tolerance.
                    let size = face.iter().map(|v| (v - face[0]).norm()).fold(0.0, f64::max);
                    if n.cross(&k.n).norm() > 1e-3 + 2.0 * tol / size { reason = format!("the normal isn't that of the face ({:?})", n); continue; }
                    // The corner's mesh must be on the side that the normal says, unless it's on both.
                    let out = if va { -k.n } else { k.n };
                    let range = |b: &Body, m: &[Vec<V>]| m.iter().flatten().map(|v| (b.to_world(v) - k.p).dot(&out)).fold((f64::INFINITY, f64::NEG_INFINITY), |r, x| (r.0.min(x), r.1.max(x)));
                    let (of_v, of_f) = (range(body_v, mv), range(body_f, mf));
                    let flipped = of_v.1 <= 2.0 * tol && of_f.0 >= -2.0 * tol;
                    let flat = k.a.ang.norm() + k.b.ang.norm() == 0.0 && of_v.0.abs().max(of_v.1.abs()) < 5e-5;
                    if flipped && (of_v.0 < -10.0 * tol || (flat && of_f.1 > 10.0 * tol)) { reason = "the normal points the wrong way".into(); continue; }
                    return Ok(());
                }
            }
        }
    }
    bad("log-geometry", format!("contact {} between the meshes of e{} and e{} at {:?} with normal {:?}: {}", k.index, k.a.id, k.b.id, k.p, k.n, reason))
}
