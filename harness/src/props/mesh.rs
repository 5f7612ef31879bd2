//! C30: building meshes. C32: mesh against mesh.
use crate::ctx::*;
use crate::geo::*;
use crate::m::*;
use crate::rng::Rng;
use crate::world::*;
use super::contact::{carrier, gen_dt, plan, show, split, two, EPS32};
use fluffy_tribble::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C30", quick: 60000, thorough: 3000000, rule: "Each case adds 1-12 faces (of a random convex solid, of a lattice of squares and triangles, or random polygons; started anywhere, wound either way, corners repeated exactly, off by an ulp, or distinct by a few 1e-6) to one mesh, mixed with bad faces, and compares the counts and validity with a model after every call; then it puts the mesh into a system, reads it back, and throws a ball at it. Non-trivial: a mesh with a shared edge or a refused face - distinct by faces.",
            assume: &["corner coordinates below 2, faces clearly convex and flat, or clearly not (self-crossing outlines that always turn the same way are not among the bad ones)"], min: &[("face added", 3000), ("shared edge", 800), ("shared vertex off by an ulp", 300), ("distinct vertex within 1e-4", 200), ("refused: too few corners", 50), ("refused: bent", 30), ("refused: not convex", 30), ("refused: repeated corner", 50), ("refused: straight corner", 20), ("ball hit", 150), ("ball missed", 100)], hang_violates: false, run: c30 },
        Prop { id: "C32", quick: 80000, thorough: 4000000, rule: "Each case places two random convex meshes (polygons, cuboids, prisms, hulls; in either order) that don't rotate, so that a corner of one falls on a point of a face of the other at a chosen fraction of the step, head-on to grazing, or perturbs that into a miss, and runs one step limited to one collision. Non-trivial: decided by the oracle as a definite hit - distinct by scene.",
            assume: &["coordinates up to about 20, dt 0.001 to 1; in other units also 1/1024 to 1024 times as large", "corners passing within the tolerance of a face's outline, meshes touching or piercing each other before the first corner contact, and near-simultaneous contacts are counted as gray and not judged"], min: &[("hit", 150), ("miss", 200), ("corner of the first entity", 60), ("corner of the second entity", 60), ("both moving", 50), ("several corners at once", 8), ("face moving, corner at rest", 20), ("corner moving, face at rest", 20), ("large world", 45), ("small world", 50)], hang_violates: false, run: c32 },
    ]
}

// ---------------------------------------------------------------- C30
enum Want { Ok, Bad, Unclear }
/// what the documentation says about this face: flat and turning the same way at every corner
fn want(f: &[V]) -> Want {
    if f.len() < 3 { return Want::Bad; }
    let tri = |i: usize| { let (a, b, c) = (f[i], f[(i + 1) % f.len()], f[(i + 2) % f.len()]); (b - a).cross(c - a) };
    let n0 = tri(0);
    if face_ok(f) { return Want::Ok; }
    if n0.len() == 0.0 { return Want::Bad; }
    let mut bad = false;
    for i in 0..f.len() {
        let n = tri(i);
        if n.len() == 0.0 { bad = true; continue; }
        if n.len() < 1e-4 || n0.len() < 1e-4 { continue; }
        if n.unit().dot(n0.unit()) < 1.0 - 1e-4 { bad = true; }
    }
    if bad { Want::Bad } else { Want::Unclear }
}
fn ulp(r: &mut Rng, x: f64) -> f64 {
    let b = (x as f32).to_bits();
    let v = match r.below(3) { 0 => b, 1 => b.wrapping_add(1), _ => if b & 0x7fffffff == 0 { b } else { b - 1 } };
    let y = f32::from_bits(v);
    if y.is_finite() && (y as f64 - x).abs() < 3e-7 { y as f64 } else { x }
}
fn c30(ctx: &mut Ctx, r: &mut Rng) -> Res {
    // a pool of good faces that share corners
    let lattice = r.p(0.4);
    let mut pool: Vec<Vec<V>> = Vec::new();
    let cell = *r.pick(&[0.25, 0.5, 1.0]);
    if lattice {
        for _ in 0..3 + r.below(8) {
            let p = V(r.below(2) as f64, r.below(2) as f64, r.below(2) as f64) * cell;
            let k = r.below(3);
            let e = |i: usize| { let mut a = [0.0; 3]; a[i % 3] = cell; V::from(a) };
            let (u, v) = (e(k), e(k + 1));
            pool.push(match r.below(4) { 0 => vec![p, p + u, p + v], 1 => vec![p, p + u, p + v + e(k + 2)], _ => vec![p, p + u, p + u + v, p + v] });
        }
    } else if r.p(0.7) {
        let s = r.r(0.6, 2.0);
        pool = gen_mesh(r, s).1;
    } else { for _ in 0..4 { let s = r.r(0.6, 2.0); let mut f = gen_polygon(r, s); let o = r.cube(0.5); for v in f.iter_mut() { *v = (*v + o).r32(); } if face_ok(&f) { pool.push(f); } } }
    if pool.is_empty() { return Ok(()); }
    let mut mesh = MeshCollider::new();
    let mut verts: Vec<V> = Vec::new();
    let mut edges: Vec<(usize, usize)> = Vec::new();
    let mut faces: Vec<Vec<V>> = Vec::new();
    let check = |mesh: &MeshCollider, v: usize, e: usize, f: usize, what: &str| -> Res {
        ensure!(mesh.vertex_count() == v && mesh.edge_count() == e && mesh.face_count() == f, "{}: the mesh has {} vertices, {} edges, {} faces; {} distinct points, {} distinct edges and {} faces were added", what, mesh.vertex_count(), mesh.edge_count(), mesh.face_count(), v, e, f);
        ensure!(mesh.is_valid() == (f > 0), "{}: a mesh with {} faces says it is {}", what, f, if mesh.is_valid() { "valid" } else { "invalid" });
        Ok(())
    };
    check(&mesh, 0, 0, 0, "new")?;
    let (mut shared, mut refused) = (false, false);
    let mut h = H::new();
    for k in 0..1 + r.below(12) {
        let mut f = r.pick(&pool).clone();
        let n = f.len();
        f.rotate_left(r.below(n));
        if r.p(0.5) { f.reverse(); }
        let mut kind = "";
        if r.p(0.35) { kind = "ulp"; for v in f.iter_mut() { *v = V(ulp(r, v.0), ulp(r, v.1), ulp(r, v.2)); } }
        else if r.p(0.2) {
            kind = "near";
            let d = (r.dir() * r.lr(5e-6, 1e-4)).r32();
            for v in f.iter_mut() { *v = (*v + d).r32(); }
        }
        // points neither clearly the same nor clearly different from a known one are not decided by the statement
        let mut clear = true;
        for a in &f { for v in &verts { let d = (*a - *v).len(); if d > 0.95e-6 && d < 3e-6 { clear = false; } } }
        if !clear { continue; }
        if r.p(0.3) {
            match r.below(5) {
                0 => { f.truncate(r.below(3)); kind = "too few corners"; }
                1 => { let n = poly_normal(&f); let i = r.below(f.len()); let s = if r.p(0.5) { 0.1 } else { -0.5 }; if f.len() < 4 { continue; } f[i] = (f[i] + n * (s * r.r(0.5, 1.0))).r32(); kind = "bent"; }
                2 => { if f.len() < 4 { continue; } let i = r.below(f.len()); let (p, q) = (f[(i + f.len() - 1) % f.len()], f[(i + 1) % f.len()]); let m = (p + q) * 0.5; f[i] = (m - (f[i] - m) * r.r(0.1, 0.6)).r32(); kind = "not convex"; }
                3 => { let i = r.below(f.len()); let v = f[i]; f.insert(i, v); kind = "repeated corner"; }
                _ => { if !lattice || kind != "" { continue; } let i = r.below(f.len()); let v = (f[i] + f[(i + 1) % f.len()]) * 0.5; f.insert(i + 1, v); kind = "straight corner"; }
            }
        }
        let pts: Vec<types::Vec3> = f.iter().map(|v| v.to32()).collect();
        let w = want(&f);
        if let Want::Unclear = w { ctx.count("unclear face skipped"); continue; }
        ctx.log(|| format!("add {:?} {}", f, kind));
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mesh.add_face(&pts))).is_ok();
        match w {
            Want::Ok => {
                ensure!(ok, "a flat convex face was refused: {:?}", f);
                let mut idx = Vec::new();
                for v in &f {
                    let found = verts.iter().position(|x| (*x - *v).len() < 1e-6);
                    if let Some(i) = found { if verts[i] != *v { ctx.count("shared vertex off by an ulp"); } }
                    else { if verts.iter().any(|x| (*x - *v).len() < 1.5e-4) { ctx.count("distinct vertex within 1e-4"); } }
                    idx.push(found.unwrap_or_else(|| { verts.push(*v); verts.len() - 1 }));
                }
                for i in 0..idx.len() {
                    let (a, b) = (idx[i], idx[(i + 1) % idx.len()]);
                    let e = (a.min(b), a.max(b));
                    if edges.contains(&e) { shared = true; ctx.count("shared edge"); } else { edges.push(e); }
                }
                faces.push(f.clone());
                ctx.count("face added");
                for v in &f { h.v(*v); }
            }
            Want::Bad => {
                ensure!(!ok, "a bad face ({}) was accepted: {:?}", kind, f);
                refused = true;
                ctx.count(&format!("refused: {}", kind));
            }
            Want::Unclear => unreachable!(),
        }
        check(&mesh, verts.len(), edges.len(), faces.len(), &format!("after call {} ({:?} {})", k, f, kind))?;
    }
    if shared || refused { ctx.nontrivial(h.0); }
    // into a system and back
    let mut ps = PhysicsSystem::new();
    ps.iteration_max = 1;
    ps.energy_sleep_threshold = -1.0;
    mesh.position = types::Vec3::zeros();
    let valid = !faces.is_empty();
    let counts = (mesh.vertex_count(), mesh.edge_count(), mesh.face_count());
    match ps.add_collider(ColliderWrapper::Mesh(mesh)) {
        Err(_) => { ensure!(!valid, "a valid mesh was refused by the system"); ctx.count("empty mesh refused"); }
        Ok(c) => {
            ensure!(valid, "a mesh without faces was accepted by the system");
            let back = match ps.get_collider(c) { Some(ColliderWrapper::Mesh(m)) => m, _ => bail!("the mesh cannot be read back") };
            ensure!((back.vertex_count(), back.edge_count(), back.face_count()) == counts && back.is_valid(), "read back from the system the mesh has {:?} vertices, edges and faces, not {:?}", (back.vertex_count(), back.edge_count(), back.face_count()), counts);
            if r.p(0.5) { ensure!(ps.update_collider(c, ColliderWrapper::Mesh(back)).is_ok(), "the mesh that was read could not be written back"); }
            let mut e = Entity::new();
            e.own_mass = f32::INFINITY;
            let e = ps.add_entity(e).ok().expect("a valid entity was refused");
            ps.link_collider(c, Some(e)).expect("a valid link was refused");
            // a ball
            let rad = r.lr(0.1, 0.5);
            let g = G::Poly(faces.clone());
            let f = r.pick(&faces);
            let mut p = Z; let mut s = 0.0; for v in f { let x = r.f(); p += *v * x; s += x; } p = p * (1.0 / s);
            let n = poly_normal(f);
            let d = loop { let d = r.dir(); if d.dot(n).abs() > 0.2 { break d; } };
            let from = (p + d * 4.0 + if r.p(0.4) { r.cube(1.5) } else { Z }).r32();
            let vel = (-d * 6.0).r32();
            let mut b = Entity::new();
            b.own_mass = 1.0; b.position = from.to32(); b.velocity = vel.to32();
            let b = ps.add_entity(b).ok().expect("a valid entity was refused");
            let sc = SphereCollider::new(rad as f32);
            let sc = ps.add_collider(ColliderWrapper::Sphere(sc)).ok().expect("a valid collider was refused");
            ps.link_collider(sc, Some(b)).expect("a valid link was refused");
            ps.step(1.0);
            let sw = sweep(&g, from, vel, rad);
            ctx.log(|| format!("ball {:?} moving {:?} radius {} sweep {:?}", from, vel, rad, sw));
            let hit = ps.collision_records.first().map(|x| x.time as f64);
            if sw.gap0 < 1e-3 || (sw.min_gap.abs() < 2e-3) { ctx.count("ball: gray"); }
            else if sw.min_gap > 0.0 { ensure!(hit.is_none(), "a ball passing the mesh's faces at a distance of {} collided at {:?}", sw.min_gap, hit); ctx.count("ball missed"); }
            else {
                let t = sw.first.unwrap();
                ensure!(hit.is_some(), "a ball flew through a face of the mesh (touching at {})", t);
                // off-centre grazing hits are less precise
                let g1 = g.dist(from + vel * hit.unwrap()).0 - rad;
                ensure!(g1.abs() < 3e-3, "the ball hit at {:?}, {} off the mesh; it touches at {}", hit, g1, t);
                ctx.count("ball hit");
            }
        }
    }
    if ctx.case % 2003 == 3 { ctx.sample(|| format!("{:?}", faces)); }
    Ok(())
}

// ---------------------------------------------------------------- C32
/// all corners, and all faces, of body b where it starts
fn parts(b: &Body) -> (Vec<V>, Vec<Vec<V>>) {
    let mut v: Vec<V> = Vec::new();
    if let Some(G::Poly(fs)) = b.geo0(0) { for f in &fs { for p in f { if v.iter().all(|x| (*x - *p).len() > 1e-6) { v.push(*p); } } } (v, fs) } else { unreachable!() }
}
/// signed distance of q (in the plane of f) to the outline: positive inside
fn inside(q: V, f: &[V], n: V) -> f64 {
    let mut m = f64::INFINITY;
    for i in 0..f.len() { let e = f[(i + 1) % f.len()] - f[i]; m = m.min(e.unit().cross(q - f[i]).dot(n)); }
    m
}
#[derive(Clone, Debug)]
struct Hit { t: f64, p: V, n: V, side: usize, sure: bool }
/// when does p, moving by d, cross f? (fraction, point relative to f, normal against the motion)
fn cross(p: V, d: V, f: &[V], tol: f64) -> Option<(f64, V, V, bool)> {
    let n = poly_normal(f);
    let (h, dn) = ((p - f[0]).dot(n), d.dot(n));
    let (a, b) = (h, h + dn);
    // clearly on one side all the time
    if a.min(b) > tol || a.max(b) < -tol { return None; }
    let x = if dn == 0.0 { 0.0 } else { (-h / dn).max(0.0).min(1.0) };
    let steep = dn.abs() / d.len().max(1e-12);
    // in-plane uncertainty grows as the motion gets flatter
    let t2 = tol + tol / steep.max(1e-6);
    let sure_cross = a.abs() > tol && b.abs() > 2.0 * tol && a * b < 0.0 && steep > 0.02;
    if !sure_cross {
        // moving nearly within the plane, or starting or ending on it
        let near = (0..9).any(|i| inside(p + d * (i as f64 / 8.0), f, n) > -t2 - d.len() / 8.0);
        return if near { Some((0.0, p, n, false)) } else { None };
    }
    let q = p + d * x;
    let ins = inside(q, f, n);
    if ins < -t2 { None } else { Some((x, q, if dn < 0.0 { n } else { -n }, ins > t2)) }
}
/// does some edge of one mesh come near or through a face of the other?
fn pierced(a: &[Vec<V>], b: &[Vec<V>], shift: V, tol: f64) -> bool {
    let one = |xs: &[Vec<V>], ys: &[Vec<V>], sh: V| xs.iter().any(|f| (0..f.len()).any(|i| {
        let (p, q) = (f[i] + sh, f[(i + 1) % f.len()] + sh);
        ys.iter().any(|g| { let n = poly_normal(g); let (s, t) = ((p - g[0]).dot(n), (q - g[0]).dot(n)); if s.min(t) > tol || s.max(t) < -tol { return false; }
            let c = if s == t { 0.5 } else { (s / (s - t)).max(0.0).min(1.0) };
            inside(p + (q - p) * c, g, n) > -tol })
    }));
    one(a, b, shift) || one(b, a, -shift)
}
fn c32(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let dt = gen_dt(r);
    let (sa, sb) = (r.r(0.5, 3.0), r.r(0.5, 3.0));
    let mk = |r: &mut Rng, s: f64| { let (_, f) = gen_mesh(r, s); let off = if r.p(0.5) { Z } else { r.cube(1.0) }; let mut c = Col::mesh(off, f); c.e = r.r(0.0, 1.0); let rot = gen_rot(r); carrier(r, vec![c], Z, rot) };
    let mut a = mk(r, sa);
    let mut b = mk(r, sb);
    let heavy = r.p(0.3);
    if heavy { b.cols.truncate(1); b.own_mass = f64::INFINITY; }
    b.pos = r.cube(5.0);
    // a corner of a onto a face of b
    let (_, fb) = parts(&b);
    let f = r.pick(&fb).clone();
    let mut n = poly_normal(&f);
    let mid = fb.iter().flat_map(|f| f.iter()).fold(Z, |s, v| s + *v) * (1.0 / fb.iter().map(|f| f.len()).sum::<usize>() as f64);
    if (f[0] - mid).dot(n) < -1e-6 || (fb.len() == 1 && r.p(0.5)) { n = -n; }
    if r.p(0.12) {
        // a face of a arrives flat
        if let Shape::Mesh { faces, .. } = &a.cols[0].shape {
            let g = r.pick(faces);
            let mut m = poly_normal(g);
            if faces.len() > 1 { let c = faces.iter().flat_map(|f| f.iter()).fold(Z, |s, v| s + *v) * (1.0 / faces.iter().map(|f| f.len()).sum::<usize>() as f64); if (g[0] - c).dot(m) < 0.0 { m = -m; } }
            let ax = m.cross(-n);
            a.rot = (if ax.len() > 1e-9 { ax.unit() * ax.len().atan2(m.dot(-n)) } else if m.dot(-n) > 0.0 { Z } else { n.ortho() * std::f64::consts::PI }).r32();
        }
    }
    let (va, _) = parts(&a);
    let v = if r.p(0.8) { *va.iter().min_by(|x, y| x.dot(n).partial_cmp(&y.dot(n)).unwrap()).unwrap() } else { *r.pick(&va) };
    let mut at = Z; let mut s = 0.0; for p in &f { let x = r.f(); at += *p * x; s += x; }
    at = at * (1.0 / s);
    let (p0, d) = plan(r, n, at, sb);
    a.pos = (p0 - v).r32();
    let (v1, v2) = split(r, d, dt);
    a.vel = v1; b.vel = v2;
    let (mut w, ai) = two(r, a, b);
    super::contact::unit(ctx, r, &mut w, dt, -10);
    let (x, y) = (&w.bodies[0], &w.bodies[1]);
    let ((vx, fx), (vy, fy)) = (parts(x), parts(y));
    let rel = (x.vel - y.vel) * dt;
    // (the library takes what is within 1e-6 of its own units of length as being in the same place)
    let tol = 2e-4 + 40.0 * EPS32 * (x.pos.len() + y.pos.len() + rel.len() + 5.0) + 3e-6 / w.unit.l;
    // all crossings, in fractions of the step; positions and normals as seen from body 0
    let mut hits: Vec<Hit> = Vec::new();
    for p in &vx { for f in &fy { if let Some((t, q, n, sure)) = cross(*p, rel, f, tol) { hits.push(Hit { t, p: q + y.vel * (dt * t), n: -n, side: 0, sure }); } } }
    for p in &vy { for f in &fx { if let Some((t, q, n, sure)) = cross(*p, -rel, f, tol) { hits.push(Hit { t, p: q + x.vel * (dt * t), n, side: 1, sure }); } } }
    hits.sort_by(|a, b| a.t.partial_cmp(&b.t).unwrap());
    let mut sys = w.build();
    sys.step(dt);
    let recs = sys.recs();
    ctx.log(|| format!("{}\nhits {:?} tol {}\nrecords {:?}", show(&w, dt), hits, tol, recs));
    let placed = |t: f64| -> Res { for i in 0..2 {
        let b = &w.bodies[i];
        let want = b.pos + b.q().rot(b.local_com()) + b.vel * t;
        ensure!((sys.snap(i).pos - want).len() <= 2.0 * tol, "body {} should be at {:?} after {}, is at {:?}", i, want, t, sys.snap(i).pos);
    } Ok(()) };
    if hits.is_empty() {
        ensure!(recs.is_empty(), "no corner reaches a face, yet a collision was recorded: {:?}", recs[0]);
        placed(dt)?;
        ctx.count("miss");
        return Ok(());
    }
    let first = hits[0].clone();
    if !first.sure { ctx.count("gray: near an outline or touching"); return Ok(()); }
    // crossing again nearly at once, or through two faces at one edge
    let slack = (2.0 * tol / rel.len().max(1e-9)).max(1e-5) * 4.0;
    if hits.iter().skip(1).any(|h| h.t < first.t + slack && !(h.sure && (h.n - first.n).len() < 1e-3)) { ctx.count("gray: nearly simultaneous"); return Ok(()); }
    let ap = (x.vel - y.vel).dot(first.n);
    if ap < 2e-3 { ctx.count("gray: slow"); return Ok(()); }
    // pierced before the first corner arrives: not an outside contact
    let size = |v: &[V]| v.iter().map(|p| (*p - v[0]).len()).fold(0.0, f64::max);
    let span = ((size(&vx) + size(&vy)) * 1.5 / rel.len()).min(first.t);
    for k in 1..64 { let t = first.t - span * (k as f64 / 64.0).powi(2); if t < first.t - slack && pierced(&fx, &fy, rel * t, 1e-3) { ctx.count("gray: edges met before"); return Ok(()); } }
    if pierced(&fx, &fy, Z, 1e-3) { ctx.count("gray: edges met before"); return Ok(()); }
    // a corner that drags behind others comes after edges, even if only just
    let (vs, vel) = if first.side == 0 { (&vx, x.vel) } else { (&vy, y.vel) };
    let off = vs.iter().map(|p| (*p + vel * (dt * first.t) - first.p).dot(first.n) * if first.side == 0 { -1.0 } else { 1.0 }).fold(f64::INFINITY, f64::min);
    if off < -1e-3 { ctx.count("gray: edges met before"); return Ok(()); }
    // one inside the other?
    let within = |v: &[V], f: &[Vec<V>]| f.len() > 1 && { let c = f.iter().flat_map(|f| f.iter()).fold(Z, |s, v| s + *v) * (1.0 / f.iter().map(|f| f.len()).sum::<usize>() as f64); v.iter().any(|p| f.iter().all(|g| { let n = poly_normal(g); (*p - g[0]).dot(n) * (c - g[0]).dot(n) > -1e-6 })) };
    if within(&vx, &fy) || within(&vy, &fx) { ctx.count("gray: inside"); return Ok(()); }
    ctx.count("hit");
    ensure!(recs.len() == 1, "a corner reaches the inside of a face at {} but no collision was handled", first.t * dt);
    let rc = &recs[0];
    ensure!(rc.pair() == (0, 1) || rc.pair() == (1, 0), "wrong pair {:?}", rc);
    let sign = if rc.a == Some(0) { 1.0 } else { -1.0 };
    ensure!(((rc.t / dt - first.t) * rel.dot(first.n)).abs() <= tol, "a corner reaches a face at {} but the collision was recorded at {}", first.t * dt, rc.t);
    ensure!((rc.n * sign - first.n).len() < 1e-3, "the normal {:?} should be {:?}", rc.n * sign, first.n);
    let near: Vec<&Hit> = hits.iter().filter(|h| h.t < first.t + slack).collect();
    let off = near.iter().map(|h| (h.p - rc.p).len()).fold(f64::INFINITY, f64::min);
    let flat = rel.len() / rel.dot(first.n).abs();
    ensure!(off <= 2.0 * tol * (1.0 + flat), "the collision was recorded at {:?}, but the corner reaches the face at {:?}", rc.p, first.p);
    placed(rc.t)?;
    ctx.maxi("point off / tolerance", off / (2.0 * tol * (1.0 + flat)));
    ctx.count(if first.side == 0 { "corner of the first entity" } else { "corner of the second entity" });
    let (cv, fv) = if first.side == 0 { (x.vel, y.vel) } else { (y.vel, x.vel) };
    ctx.count(if cv.len() == 0.0 { "face moving, corner at rest" } else if fv.len() == 0.0 { "corner moving, face at rest" } else { "both moving" });
    if first.side == ai { ctx.count("planned corner"); }
    if near.len() > 1 { ctx.count("several corners at once"); }
    if near.len() == vs.len() { ctx.count("whole mesh flat on a face"); }
    let mut h = H::new(); h.v(x.pos).v(rel).v(first.p); ctx.nontrivial(h.0);
    if ctx.case % 997 == 3 { ctx.sample(|| format!("{} -> {:?}", show(&w, dt), rc)); }
    Ok(())
}
