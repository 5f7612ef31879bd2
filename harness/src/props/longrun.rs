//! C24, C31: long runs of spheres among static solids.
use crate::crowd::*;
use crate::ctx::*;
use crate::geo::*;
use crate::m::*;
use crate::rng::Rng;
use crate::world::*;

pub fn props() -> Vec<Prop> {
    let assume: &'static [&'static str] = &["2-12 spheres of radius 0.1 to 1 and masses 0.01 to 100 within about 10 units, speeds up to 50, dt 0.001 to 0.1", "static planes, boxes, spheres and closed convex meshes of infinite mass; spheres start outside of them"];
    vec![
        Prop { id: "C24", quick: 1000, thorough: 40000, rule: "Each case runs 50-300 (thorough: 50-1000) steps of 2-12 spheres thrown around a room of planes with boxes, meshes and spheres in it, with or without gravity, sleeping and low iteration limits, and measures every gap after every step. Non-trivial: a step after which a gap between touching bodies was judged - distinct by state.", assume, min: &[("step", 60000), ("iteration limit reached", 5000), ("touching a plane", 50000), ("touching a box", 400), ("touching a mesh", 300), ("touching a fixed sphere", 300), ("touching spheres", 5000), ("touching a sleeper", 120)], hang_violates: false, run: |c, r| run(c, r, 24) },
        Prop { id: "C31", quick: 4000, thorough: 150000, rule: "Each case runs 50-300 (thorough: 50-1000) steps of 2-12 spheres thrown around a room of planes with boxes, meshes and spheres in it, without forces, and sums the kinetic energy after every step. Non-trivial: a step with a collision - distinct by state.", assume, min: &[("step with a collision", 2500), ("lossless step", 5000), ("collision", 8000), ("iteration limit reached", 1000)], hang_violates: false, run: |c, r| run(c, r, 31) },
    ]
}

/// the half spaces of a closed convex mesh: (point, outward normal)
fn halves(fs: &[Vec<V>]) -> Vec<(V, V)> {
    let mut c = Z;
    let mut n = 0.0;
    for f in fs { for v in f { c += *v; n += 1.0; } }
    let c = c * (1.0 / n);
    fs.iter().map(|f| { let n = poly_normal(f); let s = (f[0] - c).dot(n); (f[0], if s >= 0.0 { n } else { -n }) }).collect()
}
/// a closed convex mesh
fn solid_mesh(r: &mut Rng, size: f64) -> Vec<Vec<V>> { loop { let (k, f) = gen_mesh(r, size); if k != "polygon" { return f; } } }

pub fn room(r: &mut Rng, focus: u8) -> World {
    loop {
        let size = r.r(1.5, 6.0);
        let mut bodies: Vec<Body> = Vec::new();
        let fric = r.p(0.5);
        let e_all = match r.below(4) { 0 => Some(1.0), 1 => Some(0.0), _ => None };
        let co = |r: &mut Rng, c: &mut Col| {
            c.e = match e_all { Some(e) => e, None => if r.p(0.3) { *r.pick(&[0.0, 1.0, 0.5]) } else { r.r(0.0, 1.0) } };
            if fric { c.mus = r.r(0.0, 1.0); c.mud = r.r(0.0, 1.0); c.thr = r.r(0.0, 1.0); }
        };
        // a closed room, an open one, or nothing
        let tilt = gen_rot(r);
        let q = Q::from_axis(tilt);
        let walls = *r.pick(&[6, 6, 6, 1, 2, 3, 0]);
        for k in 0..walls {
            let mut d = [0.0; 3];
            d[k / 2] = if k % 2 == 0 { -1.0 } else { 1.0 };
            let n = q.rot(V::from(d));
            let mut c = Col::plane(Z, (n * -1.0).r32(), f64::INFINITY);
            co(r, &mut c);
            let mut b = Body::new((n * size).r32()).with(c);
            inherent(r, &mut b);
            bodies.push(b);
        }
        let np = bodies.len();
        for _ in 0..r.below(6) {
            let mut b = Body::new(r.cube(size * 0.8)).rot(gen_rot(r));
            let s = r.r(0.3, size * 0.4);
            let mut c = match r.below(3) {
                0 => Col::sphere(r.cube(0.3), s * 0.5, f64::INFINITY),
                1 => Col::bx(r.cube(0.3), V(-s * r.r(0.1, 0.6), -s * r.r(0.1, 0.6), -s * r.r(0.1, 0.6)).r32(), V(s * r.r(0.1, 0.6), s * r.r(0.1, 0.6), s * r.r(0.1, 0.6)).r32(), f64::INFINITY),
                _ => Col::mesh(r.cube(0.3), solid_mesh(r, s.max(0.5))),
            };
            co(r, &mut c);
            let mesh = c.m() == 0.0;
            b.cols.push(c);
            if mesh { b.cols.push(Col::point(Z, f64::INFINITY, 1.0)); }
            inherent(r, &mut b);
            bodies.push(b);
        }
        let first = bodies.len();
        let n = 2 + r.below(11);
        let fast = r.lr(0.5, 50.0);
        for _ in 0..n {
            let mut c = Col::sphere(if r.p(0.7) { Z } else { r.cube(0.5) }, if r.p(0.15) { r.lr(0.0502, 0.1) } else { r.lr(0.1, 1.0) }, r.lr(0.01, 100.0));
            co(r, &mut c);
            let mut b = Body::new(r.cube(size)).rot(gen_rot(r)).with(c);
            if r.p(0.2) { b.own_mass = r.lr(0.01, 10.0); }
            if !r.p(0.2) { b.vel = (r.dir() * r.lr(fast * 0.05, fast)).r32(); }
            if fric && r.p(0.5) { b.ang = r.cube(10.0); }
            bodies.push(b);
        }
        let mut i = first;
        let mut tries = 0;
        let mut ok = true;
        while i < bodies.len() {
            let clash = (0..i).any(|j| overlap(&bodies[i], bodies[i].pos, bodies[i].q(), &bodies[j], bodies[j].pos, bodies[j].q()) > -0.01);
            if clash { tries += 1; if tries > 300 { ok = i >= first + 2; break; } bodies[i].pos = r.cube(size); } else { i += 1; }
        }
        if !ok { continue; }
        bodies.truncate(i.max(first + 2));
        let _ = np;
        r.shuffle(&mut bodies);
        let mut w = World::new(bodies).iters(*r.pick(&[1, 3, 10, 30, 100]));
        if focus == 24 {
            if r.p(0.6) { w.gravity = Some((r.dirx() * r.lr(0.5, 20.0)).r32()); }
            if r.p(0.5) { w.sleep = Some((r.lr(1e-4, 0.1), r.r(0.0, 0.3))); }
        } else if r.p(0.2) { w.sleep = Some((r.lr(1e-4, 0.1), r.r(0.0, 0.3))); }
        return w;
    }
}
/// how deep the sphere body a is in b (negative: apart)
pub fn overlap(a: &Body, oa: V, qa: Q, b: &Body, ob: V, qb: Q) -> f64 {
    let (c, rad) = match a.geo(0, oa, qa) { Some(G::Sphere(c, r)) => (c, r), _ => return f64::NEG_INFINITY };
    match b.geo(0, ob, qb) {
        Some(G::Poly(fs)) => {
            let hs = halves(&fs);
            let s = hs.iter().map(|(p, n)| (c - *p).dot(*n)).fold(f64::NEG_INFINITY, f64::max);
            if s < 0.0 { rad - s } else if s > rad { rad - s } else { rad - G::Poly(fs).dist(c).0 }
        }
        Some(g) => rad - g.dist(c).0,
        None => f64::NEG_INFINITY,
    }
}

fn run(ctx: &mut Ctx, r: &mut Rng, focus: u8) -> Res {
    let mut w = room(r, focus);
    let n = w.bodies.len();
    let dt = r.lr(1e-3, 0.1);
    super::contact::unit(ctx, r, &mut w, dt, 0);
    let steps = if ctx.thorough { 50 + r.below(950) } else { 50 + r.below(250) };
    let ball: Vec<bool> = w.bodies.iter().map(|b| b.total_mass().is_finite()).collect();
    let mut sys = w.build();
    ctx.log(|| format!("dt {} steps {} {:?}", dt, steps, w));
    let lossless = w.sleep.is_none() && w.bodies.iter().all(|b| b.cols.iter().all(|c| !c.geo_like() || (c.e == 1.0 && c.mus == 0.0 && c.mud == 0.0)));
    let (mut e0, mut s0) = (0.0, sys.snaps());
    if focus == 31 { e0 = kinetic(&s0); }
    let start = e0;
    let mut hits = 0u64;
    for k in 0..steps {
        sys.step(dt);
        let s1 = sys.snaps();
        let recs = sys.recs();
        if s1.iter().any(|s| !s.pos.finite() || !s.vel.finite() || !s.ang.finite()) { ctx.count("non-finite (left to C25)"); return Ok(()); }
        ctx.count("step");
        hits += recs.len() as u64;
        if recs.len() >= w.iter_max as usize { ctx.count("iteration limit reached"); }
        ctx.log(|| format!("step {}: {} records, first {:?}", k, recs.len(), recs.iter().take(6).collect::<Vec<_>>()));
        if focus == 24 {
            for i in 0..n { if !ball[i] { continue; } for j in 0..n {
                if i == j || (ball[j] && j < i) { continue; }
                let d = overlap(&w.bodies[i], s1[i].origin, s1[i].q, &w.bodies[j], s1[j].origin, s1[j].q);
                let scale = 1.0 + s1[i].pos.len() * 0.1 + s0[i].vel.len() * dt * 0.1;
                let tol = 5e-4 * scale;
                if d > -0.01 {
                    ctx.count("touching pair judged");
                    ctx.maxi("overlap / tolerance", d / tol);
                    if is_plane(&w.bodies[j]) { ctx.count("touching a plane"); } else if ball[j] { ctx.count("touching spheres"); if s1[i].asleep || s1[j].asleep { ctx.count("touching a sleeper"); } }
                    else { ctx.count(match w.bodies[j].cols[0].shape { Shape::Box { .. } => "touching a box", Shape::Mesh { .. } => "touching a mesh", _ => "touching a fixed sphere" }); }
                    let mut h = H::new(); h.v(s1[i].pos).v(s1[j].pos); ctx.nontrivial(h.0);
                }
                ensure!(d <= tol, "step {}: sphere {} is {} inside body {} ({:?}); it moved from {:?} to {:?}, records {:?}", k, i, d, j, w.bodies[j].cols[0].shape, s0[i].pos, s1[i].pos, recs);
            } }
        } else {
            let e1 = kinetic(&s1);
            // what the library itself reports
            let rep: f64 = s1.iter().filter(|s| s.mass.is_finite()).map(|s| s.energy).sum();
            ensure!((rep - e1).abs() <= 1e-5 * (e1 + rep) + 1e-12, "step {}: the reported energies add up to {}, masses and velocities to {}", k, rep, e1);
            // rounding in each collision is relative to the energy of the bodies in it
            let tol = (3e-6 * recs.len() as f64 + 5e-6) * e0 + 1e-12;
            if !recs.is_empty() {
                ctx.count("step with a collision");
                ctx.maxi("energy gain / tolerance", (e1 - e0) / tol);
                let mut h = H::new(); h.f(e1).u(k as u64); ctx.nontrivial(h.0);
            }
            if recs.is_empty() && e0 > 0.0 { ctx.maxi("free step energy gain / tolerance", (e1 - e0) / tol); }
            let t3 = (3e-7 * hits as f64 + 1e-7 * k as f64 + 1e-5) * start + 1e-12;
            ctx.maxi("total energy gain / tolerance", (e1 - start) / t3);
            ensure!(e1 <= start + t3, "after {} steps and {} collisions the kinetic energy rose from {} to {}", k + 1, hits, start, e1);
            ensure!(e1 <= e0 + tol, "step {} raised the kinetic energy from {} to {}: {:?}", k, e0, e1, recs);
            if lossless {
                ctx.count("lossless step");
                ensure!((e1 - e0).abs() <= tol, "step {} changed the kinetic energy from {} to {} though nothing loses any: {:?}", k, e0, e1, recs);
                let t2 = 1e-6 * (hits as f64 + 10.0) * start;
                ctx.maxi("lossless drift / tolerance", (e1 - start).abs() / t2);
                ensure!((e1 - start).abs() <= t2, "after {} lossless collisions the kinetic energy went from {} to {}", hits, start, e1);
            }
            e0 = e1;
        }
        s0 = s1;
    }
    ctx.add("collision", hits);
    if ctx.case % 503 == 3 { ctx.sample(|| format!("dt {} {:?}: {} collisions", dt, w, hits)); }
    Ok(())
}
