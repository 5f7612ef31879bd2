//! C10-C14: a ball against a sphere, plane, mesh or box; a mesh against a plane.
use crate::ctx::*;
use crate::geo::*;
use crate::m::*;
use crate::rng::Rng;
use crate::world::*;

pub const EPS32: f64 = 6e-8;

pub fn props() -> Vec<Prop> {
    let rule = "Each case places two bodies (random composition, rotation, offsets, insertion order) so that the contact falls on a chosen feature at a chosen fraction of the step, or perturbs that into a miss, and runs one step limited to one collision. Non-trivial: decided by the oracle as a definite hit (or overlapping start) - distinct by scene.";
    let assume: &'static [&'static str] = &["coordinates up to about 20, radii 0.06 to 3, dt 0.001 to 1 (f32 tolerance grows with distance^2/radius); in other units also up to 1024 times as large, with masses 1/1024 to 1024 times, and for meshes down to 1/50 (against balls) or 1/128 (against planes) of that size", "scenes within the f32 tolerance of the touch/no-touch boundary are counted as gray and not judged"];
    vec![
        Prop { id: "C10", quick: 250_000, thorough: 6_000_000, rule, assume, min: &[("hit", 200), ("miss", 100), ("embedded approaching", 20), ("creep contact", 10), ("hit swinging ball", 15), ("hit swinging other", 15), ("large world", 80)], hang_violates: false, run: c10 },
        Prop { id: "C11", quick: 250_000, thorough: 6_000_000, rule, assume, min: &[("hit", 200), ("miss", 100), ("embedded approaching", 20), ("hit spinning", 50), ("hit swinging ball", 20), ("large world", 80)], hang_violates: false, run: c11 },
        Prop { id: "C12", quick: 100_000, thorough: 3_000_000, rule, assume, min: &[("hit", 200), ("miss", 100), ("hit on face", 30), ("hit on edge", 30), ("hit on corner", 30), ("large world", 80), ("mesh smaller than the ball can be", 60)], hang_violates: false, run: c12 },
        Prop { id: "C13", quick: 250_000, thorough: 6_000_000, rule, assume, min: &[("hit", 200), ("miss", 50), ("flat face", 30), ("embedded approaching", 20), ("hit turning", 30), ("large world", 50), ("small world", 40)], hang_violates: false, run: c13 },
        Prop { id: "C14", quick: 250_000, thorough: 6_000_000, rule, assume, min: &[("hit", 200), ("miss", 100), ("hit on face", 30), ("hit on edge", 30), ("hit on corner", 30), ("large world", 80)], hang_violates: false, run: c14 },
    ]
}

/// a finite-mass, non-rotating body carrying `col` (whose local placement is adjusted by the caller)
pub fn carrier(r: &mut Rng, mut cols: Vec<Col>, pos: V, rot: V) -> Body {
    let mut b = Body::new(pos).rot(rot);
    match r.below(3) {
        0 => { b.own_mass = r.lr(0.1, 10.0); }
        1 => { cols.push(Col::point(r.cube(1.5), r.lr(0.1, 10.0), r.lr(0.1, 2.0))); }
        _ => { if cols[0].m() == 0.0 { b.own_mass = r.lr(0.1, 10.0); } }
    }
    b.cols = cols;
    b
}
/// a body whose sphere of radius `rad` is centred (up to rounding) at `at`
pub fn ball(r: &mut Rng, at: V, rad: f64, vel: V) -> Body {
    let c = if r.p(0.4) { Z } else { r.cube(1.5) };
    let m = if r.p(0.7) { r.lr(0.1, 10.0) } else { 0.0 };
    let rot = gen_rot(r);
    let pos = (at - Q::from_axis(rot).rot(c)).r32();
    let mut col = Col::sphere(c, rad, m);
    col.e = r.r(0.0, 1.0);
    carrier(r, vec![col], pos, rot).vel(vel.r32())
}

/// Where the sphere (collider 0 of `b`) starts
fn centre(b: &Body) -> (V, f64) { if let Some(G::Sphere(c, r)) = b.geo0(0) { (c, r) } else { unreachable!() } }

fn feature(g: &G, p: V, tol: f64) -> &'static str {
    match g {
        G::Sphere(..) => "sphere",
        G::Plane(..) => "plane",
        G::Poly(fs) => {
            let mut on_edge = false;
            for f in fs { for i in 0..f.len() {
                if (f[i] - p).len() < tol { return "corner"; }
                if (seg_closest(p, f[i], f[(i + 1) % f.len()]) - p).len() < tol { on_edge = true; }
            } }
            if on_edge { "edge" } else { "face" }
        }
        G::Obb(c, ax, h) => {
            let d = p - *c;
            let k = (0..3).filter(|i| (d.dot(ax[*i]).abs() - h[*i]).abs() < tol).count();
            ["inside", "face", "edge", "corner"][k]
        }
    }
}

pub fn show(w: &World, dt: f64) -> String { format!("dt={:?} {:?}", dt, w) }

/// where a body is after `t` of free motion: its centre of mass and rotation
fn pose_at(b: &Body, t: f64) -> (V, Q) { (b.pos + b.q().rot(b.local_com()) + b.vel * t, Q::from_axis(b.ang * t).mul(b.q())) }
fn world_at(b: &Body, local: V, t: f64) -> V { let (c, q) = pose_at(b, t); c + q.rot(local - b.local_com()) }
fn local_at(b: &Body, world: V, t: f64) -> V { let (c, q) = pose_at(b, t); q.inv_rot(world - c) + b.local_com() }
/// velocity of the body's material at world point `p` at time `t`
fn point_vel(b: &Body, p: V, t: f64) -> V { b.vel + b.ang.cross(p - pose_at(b, t).0) }
/// the point whose straight path stands for the collider's movement (documented: collision detection is linearized)
fn anchor(b: &Body) -> V { match &b.cols[0].shape { Shape::Sphere { c, .. } => *c, Shape::Plane { pos, .. } => *pos, Shape::Mesh { pos, .. } => *pos, Shape::Box { pos, .. } => *pos, Shape::Null { pos, .. } => *pos } }
/// Sets the body spinning so that it turns by up to `max` (radians) in the step, keeping the planned displacement of its collider.
pub fn spin_up(r: &mut Rng, b: &mut Body, dt: f64, max: f64) {
    let th = r.lr(1e-3, max);
    let ang = (r.dirx() * (th / dt)).r32();
    let lever = b.q().rot(anchor(b) - b.local_com());
    let swing = Q::from_axis(ang * dt).rot(lever) - lever;
    b.vel = (b.vel - swing * (1.0 / dt)).r32();
    b.ang = ang;
}

/// Runs one one-collision step of a two-body world (ball `bi`, other `1-bi`) and judges it.
pub fn judge_ball(ctx: &mut Ctx, w: &World, bi: usize, dt: f64, base_tol: f64) -> Res {
    let oi = 1 - bi;
    let (ball, other) = (&w.bodies[bi], &w.bodies[oi]);
    let (c0, rad) = centre(ball);
    let g = other.geo0(0).unwrap();
    // The linearized motion: the ball goes straight from where it starts to where it would end; so does the other
    // collider, except for a box, in whose own space the ball goes straight.
    let boxed = if let G::Obb(..) = g { true } else { false };
    let cl = anchor(ball);
    let c1 = world_at(ball, cl, dt);
    let disp_b = c1 - c0;
    let disp_o = if boxed { Z } else { world_at(other, anchor(other), dt) - world_at(other, anchor(other), 0.0) };
    let rel = if boxed { world_at(other, local_at(other, c1, dt), 0.0) - c0 } else { disp_b - disp_o };
    // maps a world point at fraction x of the step back to the frame in which the other shape rests
    let rest = |p: V, x: f64| if boxed { world_at(other, local_at(other, p, x * dt), 0.0) } else { p - disp_o * x };
    let s = sweep(&g, c0, rel, rad);
    let rr = match &g { G::Sphere(_, r2) => rad + r2, _ => rad };
    let far = match &g { G::Plane(..) => 0.0, _ => (c0 - other.pos).len() + rel.len() + 2.0 };
    let scale = c0.len() + other.pos.len() + (ball.vel.len() + other.vel.len()) * dt + 5.0;
    let spin = ball.ang.len() + other.ang.len();
    let tol = base_tol + 40.0 * EPS32 * far * far / rr + 20.0 * EPS32 * scale;
    let ntol = 1e-3 + 4.0 * tol / rr.min(1.0).min(rad);
    let mut sys = w.build();
    sys.step(dt);
    let recs = sys.recs();
    ctx.log(|| format!("{}\nsweep {:?} rel {:?} tol {}\nrecords {:?}", show(w, dt), s, rel, tol, recs));
    ensure!(recs.len() <= 1, "more records than the iteration limit: {:?}", recs);
    let moved = |t: f64, sys: &Sys| -> Res {
        for i in 0..2 {
            let (want, q) = pose_at(&w.bodies[i], t);
            let got = sys.snap(i);
            ensure!((got.pos - want).len() <= tol, "body {} should be at {:?} after {} of the step, is at {:?}", i, want, t, got.pos);
            let turn = got.q.angle_to(q);
            ensure!(turn < if w.bodies[i].ang == Z { 1e-4 } else { 5e-4 + 1e-4 * w.bodies[i].ang.len() * dt }, "body {} is turned {} away from where its angular velocity brings it", i, turn);
        }
        Ok(())
    };
    // speed of approach of the touching points, and how well it is known
    let approach = |x: f64, p: V, n: V| -> (f64, f64) {
        let ap = (point_vel(ball, p, x * dt) - point_vel(other, p, x * dt)).dot(n);
        let v = ball.vel.len() + other.vel.len() + ball.ang.len() * (p - pose_at(ball, x * dt).0).len() + other.ang.len() * (p - pose_at(other, x * dt).0).len();
        // a time off by tol of the movement turns a lever by spin * that
        let late = if spin > 0.0 { spin * dt * tol / rel.len().max(1e-9).max(tol) } else { 0.0 };
        (ap, 2e-3 + v * (ntol + late.min(1.0)) * if spin > 0.0 { 1.0 } else { 0.0 })
    };
    // overlapping start
    if s.gap0 < -tol {
        let (_, cp) = g.dist(c0);
        let n = match &g { G::Plane(_, n) => -*n, G::Sphere(c2, _) => (*c2 - c0).unit(), _ => (cp - c0).unit() };
        let (ap, margin) = approach(0.0, c0 + n * rad, n);
        if ap > margin {
            ctx.count("embedded approaching");
            ensure!(recs.len() == 1, "overlapping ({}) and approaching ({}) but not handled", s.gap0, ap);
            ensure!(recs[0].t.abs() <= 1e-6 * dt.max(1e-3), "overlapping at the start but handled at {}", recs[0].t);
            let sign = if recs[0].a == Some(bi) { 1.0 } else { -1.0 };
            ensure!(recs[0].pair() == (bi, oi) || recs[0].pair() == (oi, bi), "wrong pair {:?}", recs[0]);
            ensure!((recs[0].n * sign - n).len() < 1e-3 + 4.0 * tol / rr.min(1.0), "normal {:?} of an overlapping start should be {:?}", recs[0].n * sign, n);
            if let G::Plane(..) = g { ensure!((recs[0].p - (c0 + n * rad)).len() <= tol, "point {:?} is not the deepest point {:?}", recs[0].p, c0 + n * rad); }
            moved(0.0, &sys)?;
            let mut h = H::new(); h.v(c0).v(rel).f(rad); ctx.nontrivial(h.0);
        } else if ap < -margin {
            ctx.count("embedded separating");
            ensure!(recs.is_empty(), "overlapping but separating ({}), yet a collision was recorded: {:?}", ap, recs[0]);
            moved(dt, &sys)?;
        } else { ctx.count("gray"); }
        return Ok(());
    }
    if s.gap0 < tol && s.min_gap > s.gap0 - tol { ctx.count("gray"); return Ok(()); }
    if s.min_gap > tol {
        ctx.count("miss");
        ensure!(recs.is_empty(), "the closest approach leaves a gap of {} yet a collision was recorded: {:?}", s.min_gap, recs[0]);
        moved(dt, &sys)?;
        return Ok(());
    }
    if s.min_gap > -2.0 * tol { ctx.count("gray"); return Ok(()); }
    // the touching point as it will be, in the resting frame and in the world
    let first = s.first.unwrap_or(0.0);
    let gap = |x: f64| g.dist(c0 + rel * x).0 - rad;
    if spin > 0.0 {
        let cr = c0 + rel * first;
        let (_, cp) = g.dist(cr);
        let wp = |p: V| if boxed { world_at(other, local_at(other, p, 0.0), first * dt) } else { p + disp_o * first };
        let n = (wp(cp) - wp(cr)).unit();
        let (ap, margin) = approach(first, wp(cp), n);
        if ap < -margin {
            ctx.count("touching points move apart");
            ensure!(recs.is_empty(), "the touching points move apart at {}, yet a collision was recorded: {:?}", -ap, recs[0]);
            moved(dt, &sys)?;
            return Ok(());
        }
        if ap <= margin { ctx.count("gray"); return Ok(()); }
    }
    ctx.count("hit");
    ensure!(recs.len() == 1, "the motion would overlap by {} but no collision was handled", -s.min_gap);
    let r = &recs[0];
    ensure!(r.pair() == (bi, oi) || r.pair() == (oi, bi), "wrong pair {:?}", r);
    let t = r.t;
    ensure!(t >= 0.0 && t <= dt * (1.0 + 1e-5), "time {} outside the step of {}", t, dt);
    let x = t / dt;
    let dev = gap(x).abs();
    if s.gap0 > tol { ctx.maxi("|gap at recorded time| / tolerance", dev / tol); }
    ensure!(dev <= tol, "at the recorded time {} the gap is {} (first touch at {:?}, tolerance {})", t, gap(x), s.first.map(|f| f * dt), tol);
    for i in 0..32 { let y = x * i as f64 / 32.0; ensure!(gap(y) >= -tol, "overlap of {} before the recorded time, at {}", -gap(y), y * dt); }
    moved(t, &sys)?;
    // everything else is judged with the other shape at rest
    let cb = c0 + rel * x;
    let p = rest(r.p, x);
    ensure!(((p - cb).len() - rad).abs() <= 2.0 * tol, "recorded point {:?} is {} from the ball's centre, radius {}", r.p, (p - cb).len(), rad);
    let (pd, _) = g.dist(p);
    ensure!(pd.abs() <= 2.0 * tol, "recorded point {:?} is {} off the other surface", r.p, pd);
    let (_, cp) = g.dist(cb);
    let n = (cp - cb).unit();
    let sign = if r.a == Some(bi) { 1.0 } else { -1.0 };
    let rn = rest(r.p + r.n * sign, x) - p;
    ensure!((rn - n).len() <= ntol, "normal {:?} should be {:?} (seen from the other shape at rest)", rn, n);
    let f = feature(&g, cp, 1e-6);
    ctx.count(&format!("hit on {}", f));
    ctx.count(if r.a == Some(bi) { "ball first" } else { "ball second" });
    if ball.ang.len() * dt > 0.02 { ctx.count("hit spinning"); if (cl - ball.local_com()).len() > 0.05 { ctx.count("hit swinging ball"); } }
    if other.ang.len() * dt > 0.02 && (anchor(other) - other.local_com()).len() > 0.05 { ctx.count("hit swinging other"); }
    let d = rel.len() / rr;
    ctx.count(if d < 0.01 { "speed: under 1% of the radii per step" } else if d < 2.0 { "speed: up to 2 radii per step" } else { "speed: over 2 radii per step" });
    let mut h = H::new(); h.v(c0).v(rel).f(rad).v(other.pos); ctx.nontrivial(h.0);
    if ctx.case % 97 == 3 { ctx.sample(|| format!("{} -> {:?}", show(w, dt), r)); }
    Ok(())
}

/// start of a motion by `d` that reaches `touch` at fraction u
pub fn plan(r: &mut Rng, n: V, touch: V, size: f64) -> (V, V) {
    // approach direction within the hemisphere against n, from head-on to grazing
    let dirv = loop {
        let k = r.below(3);
        let v = if k == 0 { -n + r.dir() * 0.2 } else { r.dir() };
        if v.len() < 0.1 { continue; }
        let v = v.unit();
        let c = -v.dot(n);
        if c > 0.02 || (c > -0.3 && r.p(0.15)) { break v; }
    };
    let d = dirv * match r.below(4) { 0 => r.lr(2e-3, 0.05), 1 => r.lr(3.0, 30.0) * size.min(1.0), _ => r.lr(0.05, 4.0) };
    let u = if r.p(0.15) { 1.0 + r.f() } else { 0.02 + 0.96 * r.f() };
    let mut start = touch - d * u;
    // sideways perturbation turns some hits into near misses
    if r.p(0.35) { start += d.ortho() * (size * (r.f() * 2.0 - 1.0) * if r.p(0.5) { 0.3 } else { 2.0 }); }
    (start, d)
}
pub fn gen_dt(r: &mut Rng) -> f64 { match r.below(3) { 0 => 1.0, 1 => 1.0 / 60.0f32 as f64, _ => r.lr(1e-3, 1.0) } }
/// velocities giving relative displacement d over dt
pub fn split(r: &mut Rng, d: V, dt: f64) -> (V, V) {
    let rv = d * (1.0 / dt);
    match r.below(4) { 0 => (rv.r32(), Z), 1 => (Z, (-rv).r32()), _ => { let c = r.dir() * (rv.len() * r.f()); ((rv + c).r32(), c.r32()) } }
}
pub fn two(r: &mut Rng, ball: Body, other: Body) -> (World, usize) {
    if r.p(0.5) { (World::new(vec![ball, other]), 0) } else { (World::new(vec![other, ball]), 1) }
}

/// worlds are also given in other units, from about a thousandth to a thousand (spheres can't be smaller than 0.05)
pub fn unit(ctx: &mut Ctx, r: &mut Rng, w: &mut World, dt: f64, least: i32) {
    w.unit = gen_unit(r, (least, 10), (-10, 10));
    if dt * w.unit.t < 1e-4 { w.unit.t = 1.0; } // (steps below 1e-6 are none)
    if w.unit.l < 0.2 { ctx.count("small world"); } else if w.unit.l > 10.0 { ctx.count("large world"); }
    if w.unit.t != 1.0 { ctx.count("other time unit"); }
}

fn c10(ctx: &mut Ctx, r: &mut Rng) -> Res {
    if ctx.case % 25 == 0 { return creep(ctx, r); }
    let dt = gen_dt(r);
    let (r1, r2) = (r.lr(0.06, 3.0), r.lr(0.06, 3.0));
    let at2 = r.cube(6.0);
    let n = r.dirx();
    let (mut c1, d) = plan(r, n, at2 + n * (r1 + r2), r1 + r2);
    if r.p(0.12) { c1 = at2 + r.dirx() * ((r1 + r2) * r.r(0.08, 0.95)); }
    let (v1, v2) = split(r, d, dt);
    let mut b1 = ball(r, c1, r1, v1);
    let mut b2 = ball(r, at2, r2, v2);
    if r.p(0.4) { spin_up(r, &mut b1, dt, 2.0); }
    if r.p(0.4) { spin_up(r, &mut b2, dt, 2.0); }
    let (mut w, bi) = two(r, b1, b2);
    unit(ctx, r, &mut w, dt, 0);
    judge_ball(ctx, &w, bi, dt, 1e-4)
}

/// slow approach over many steps: overlap never grows beyond rounding, and contact happens
fn creep(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let (r1, r2) = (r.r(0.2, 1.0), r.r(0.2, 1.0));
    let n = r.dirx();
    let per_step = r.lr(2e-6, 3e-4);
    let dt = if r.p(0.5) { 1.0 / 60.0f32 as f64 } else { r.lr(1e-3, 0.1) };
    let start_gap = per_step * (1.0 + 4.0 * r.f());
    let side = n.ortho() * (per_step * (r.f() - 0.5));
    let off = if r.p(0.5) { Z } else { r.cube(2.0) };
    let v = ((-n) * per_step + side) * (1.0 / dt);
    let b1 = Body::new((off + n * (r1 + r2 + start_gap)).r32()).vel(v.r32()).with(Col::sphere(Z, r1, r.lr(0.2, 5.0)).e(0.0));
    let b2 = Body::new(off.r32()).with(Col::sphere(Z, r2, r.lr(0.2, 5.0)).e(0.0));
    let (w, _) = two(r, b1, b2);
    let mut sys = w.build();
    let steps = 40 + (2e-4 / per_step) as usize;
    let mut hit = false;
    let mut worst: f64 = 0.0;
    // the library ignores approach speeds below 1e-6 per second
    let allow = 3e-5 + 3e-6 * dt * steps as f64;
    for k in 0..steps {
        sys.step(dt);
        hit |= !sys.recs().is_empty();
        let gap = (sys.snap(0).pos - sys.snap(1).pos).len() - r1 - r2;
        worst = worst.max(-gap);
        ensure!(gap > -allow, "spheres creeping at {} per step overlap by {} after step {}: {}", per_step, -gap, k, show(&w, dt));
    }
    ctx.maxi("creep overlap / tolerance", worst / allow);
    ensure!(hit, "spheres creeping together at {} per step never collided in {} steps: {}", per_step, steps, show(&w, dt));
    ctx.count("creep contact");
    let mut h = H::new(); h.f(per_step).f(r1).v(n); ctx.nontrivial(h.0);
    Ok(())
}

fn c11(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let dt = gen_dt(r);
    let rad = r.lr(0.06, 3.0);
    let n = r.dirx();
    let off = r.cube(6.0);
    let (mut c1, d) = plan(r, n, off + n * rad, rad);
    if r.p(0.15) { c1 = off + n * (rad * r.r(-3.0, 0.95)) + r.cube(2.0) * 0.3; }
    c1 += n.ortho() * r.r(-3.0, 3.0);
    let (v1, v2) = split(r, d, dt);
    let mut b1 = ball(r, c1, rad, v1);
    if r.p(0.5) { spin_up(r, &mut b1, dt, 2.5); }
    let ppos = if r.p(0.5) { Z } else { r.cube(1.5) };
    let slide = n.ortho() * r.r(-3.0, 3.0);
    let mut pb = Body::new((off + slide - ppos).r32()).vel(v2);
    let nl = if r.p(0.4) { 1.0 } else { r.lr(1e-3, 1e3) };
    let m = match r.below(4) { 0 => { pb.own_mass = r.lr(0.1, 10.0); 0.0 } 1 => r.lr(0.1, 10.0), _ => f64::INFINITY };
    let mut pc = Col::plane(ppos, (n * nl).r32(), m);
    pc.e = r.r(0.0, 1.0);
    pb.cols.push(pc);
    let (mut w, bi) = two(r, b1, pb);
    unit(ctx, r, &mut w, dt, 0);
    judge_ball(ctx, &w, bi, dt, 1e-4)
}

/// a point of the surface and a normal direction there: face, edge or corner
fn surface_point(r: &mut Rng, faces: &[Vec<V>], closed: bool) -> (V, V) {
    let f = &faces[r.below(faces.len())];
    let mut mid = Z;
    for v in f { mid += *v; }
    mid = mid * (1.0 / f.len() as f64);
    let mut n = poly_normal(f);
    if closed { if n.dot(mid) < 0.0 { n = -n; } } else if r.p(0.5) { n = -n; }
    let i = r.below(f.len());
    let (a, b) = (f[i], f[(i + 1) % f.len()]);
    match r.below(3) {
        0 => { let k = r.f(); let l = r.f(); (mid + (a + (b - a) * k - mid) * l, n) }
        1 => {
            let p = a + (b - a) * (0.05 + 0.9 * r.f());
            let out = (p - mid) - (b - a) * ((p - mid).dot(b - a) / (b - a).dot(b - a));
            let k = r.f();
            (p, (n * k + out.unit() * (1.0 - k) + r.dir() * 0.05).unit())
        }
        _ => { let k = r.f(); (a, (n * k + (a - mid).unit() * (1.1 - k) + r.dir() * 0.1).unit()) }
    }
}

fn ball_vs_solid(ctx: &mut Ctx, r: &mut Rng, mut other: Body, local_faces: Vec<Vec<V>>, closed: bool, size: f64) -> Res {
    let dt = gen_dt(r);
    let rad = r.lr(0.06, 2.0);
    let q = other.q();
    let (p, n) = surface_point(r, &local_faces, closed);
    let (p, n) = (other.pos + q.rot(p), q.rot(n));
    let (c1, d) = plan(r, n, p + n * rad, size + rad);
    let (v1, v2) = split(r, d, dt);
    other.vel = v2;
    let mut b1 = ball(r, c1, rad, v1);
    spin_solid(r, &mut b1, &mut other, dt);
    // must start outside
    let (c0, _) = centre(&b1);
    let g = other.geo0(0).unwrap();
    if g.dist(c0).0 - rad < 5e-3 { ctx.count("not outside at the start"); return Ok(()); }
    if closed && inside_closed(&g, c0) { ctx.count("not outside at the start"); return Ok(()); }
    let (mut w, bi) = two(r, b1, other);
    unit(ctx, r, &mut w, dt, 0);
    judge_ball(ctx, &w, bi, dt, 1e-4)
}
/// the ball may spin; so may a box (turned in its own space), but meshes are taken as not turning
fn spin_solid(r: &mut Rng, ball: &mut Body, other: &mut Body, dt: f64) {
    if r.p(0.4) { spin_up(r, ball, dt, 2.0); }
    if let Shape::Box { .. } = other.cols[0].shape { if r.p(0.4) { spin_up(r, other, dt, 1.0); } }
}
fn inside_closed(g: &G, p: V) -> bool {
    match g {
        G::Poly(fs) => {
            let mut mid = Z; let mut k = 0.0;
            for f in fs { for v in f { mid += *v; k += 1.0; } }
            let mid = mid * (1.0 / k);
            fs.iter().all(|f| { let n = poly_normal(f); let s = (mid - f[0]).dot(n).signum(); (p - f[0]).dot(n) * s > 0.0 })
        }
        G::Obb(..) => g.dist(p).0 == 0.0,
        _ => false,
    }
}

fn c12(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let size = match r.below(20) { 0..=5 => r.r(4.0, 8.0), 6..=8 => r.lr(0.02, 0.5), _ => r.r(0.5, 3.0) };
    if size < 0.5 { ctx.count("mesh smaller than the ball can be"); }
    let (kind, mut faces) = gen_mesh(r, size.max(0.5));
    if size < 0.5 { for f in faces.iter_mut() { for v in f.iter_mut() { *v = (*v * (size * 2.0)).r32(); } } }
    let mpos = if r.p(0.5) { Z } else { r.cube(1.5) };
    let placed: Vec<Vec<V>> = faces.iter().map(|f| f.iter().map(|v| *v + mpos).collect()).collect();
    // the closed-mesh helper needs the local origin inside
    let mut col = Col::mesh(mpos, faces.clone());
    col.e = r.r(0.0, 1.0);
    let rot = gen_rot(r);
    let at = r.cube(5.0);
    let b = carrier(r, vec![col], at, rot);
    ctx.count(&format!("mesh kind {}", kind));
    let closed = kind != "polygon";
    // surface_point decides outwardness from the mesh's own origin
    let mut other = b;
    let q = other.q();
    let shifted = other.pos + q.rot(mpos);
    let _ = shifted;
    let dt_faces: Vec<Vec<V>> = if closed { placed } else { placed };
    other.vel = Z;
    ball_vs_solid_off(ctx, r, other, dt_faces, closed, size, mpos)
}
/// like ball_vs_solid with the mesh centred at `c` in local space
fn ball_vs_solid_off(ctx: &mut Ctx, r: &mut Rng, other: Body, faces: Vec<Vec<V>>, closed: bool, size: f64, c: V) -> Res {
    if c == Z { return ball_vs_solid(ctx, r, other, faces, closed, size); }
    // pick the surface point on the centred copy, then shift by placing the body accordingly
    let centred: Vec<Vec<V>> = faces.iter().map(|f| f.iter().map(|v| *v - c).collect()).collect();
    let mut shifted = other.clone();
    shifted.pos = other.pos + other.q().rot(c);
    let dt = gen_dt(r);
    let rad = r.lr(0.06, 2.0);
    let q = other.q();
    let (p, n) = surface_point(r, &centred, closed);
    let (p, n) = (shifted.pos + q.rot(p), q.rot(n));
    let (c1, d) = plan(r, n, p + n * rad, size + rad);
    let (v1, v2) = split(r, d, dt);
    let mut other = other;
    other.vel = v2;
    let mut b1 = ball(r, c1, rad, v1);
    spin_solid(r, &mut b1, &mut other, dt);
    let (c0, _) = centre(&b1);
    let g = other.geo0(0).unwrap();
    if g.dist(c0).0 - rad < 5e-3 || (closed && inside_closed(&g, c0)) { ctx.count("not outside at the start"); return Ok(()); }
    let (mut w, bi) = two(r, b1, other);
    unit(ctx, r, &mut w, dt, 0);
    judge_ball(ctx, &w, bi, dt, 1e-4)
}

fn c14(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let h = V(r.r(0.1, 3.0), r.r(0.1, 3.0), r.r(0.1, 3.0));
    let mid = if r.p(0.4) { Z } else { r.cube(1.5) };
    let (mut min, mut max) = ((mid - h).r32(), (mid + h).r32());
    // documented: the corners may be given in any order per axis
    if r.p(0.3) { std::mem::swap(&mut min, &mut max); }
    if r.p(0.3) { std::mem::swap(&mut min.0, &mut max.0); }
    if r.p(0.2) { std::mem::swap(&mut min.1, &mut max.1); }
    let pos = if r.p(0.4) { Z } else { r.cube(1.5) };
    let mass = if r.p(0.6) { r.lr(0.2, 10.0) } else { 0.0 };
    let mut col = Col::bx(pos, min, max, mass);
    col.e = r.r(0.0, 1.0);
    let rot = gen_rot(r);
    let at = r.cube(5.0);
    let b = carrier(r, vec![col], at, rot);
    let c = pos + (min + max) * 0.5;
    let faces: Vec<Vec<V>> = box_faces(h).iter().map(|f| f.iter().map(|v| *v + c).collect()).collect();
    ball_vs_solid_off(ctx, r, b, faces, true, h.len(), c)
}

fn c13(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let dt = gen_dt(r);
    let size = r.r(0.4, 3.0);
    let n = r.dirx();
    let off = r.cube(5.0);
    let (_, faces) = gen_mesh(r, size);
    let mpos = if r.p(0.5) { Z } else { r.cube(1.0) };
    let mut rot = gen_rot(r);
    let flat = r.p(0.3);
    if flat {
        // turn the mesh so that one face arrives flat
        let f = &faces[r.below(faces.len())];
        let fnn = poly_normal(f);
        let fnn = if faces.len() > 1 && fnn.dot(f[0]) < 0.0 { -fnn } else { fnn };
        let ax = fnn.cross(-n);
        let ang = ax.len().atan2(fnn.dot(-n));
        rot = (if ax.len() > 1e-9 { ax.unit() * ang } else if fnn.dot(-n) > 0.0 { Z } else { n.ortho() * std::f64::consts::PI }).r32();
    }
    let mut col = Col::mesh(mpos, faces.clone());
    col.e = r.r(0.0, 1.0);
    let mut mb = carrier(r, vec![col], Z, rot);
    let q = mb.q();
    // lowest vertex along n
    let verts = |b: &Body| -> Vec<V> { let mut v: Vec<V> = Vec::new(); if let Some(G::Poly(fs)) = b.geo0(0) { for f in fs { for p in f { if v.iter().all(|x| (*x - p).len() > 1e-7) { v.push(p); } } } } v };
    let low = verts(&mb).iter().fold((f64::INFINITY, Z), |a, v| if v.dot(n) < a.0 { (v.dot(n), *v) } else { a }).1;
    let _ = q;
    let (mut p0, d) = plan(r, n, off, size);
    if r.p(0.15) { p0 = off + n * r.r(-2.0, 0.5) * size; }
    mb.pos = (p0 - low + n.ortho() * r.r(-3.0, 3.0)).r32();
    let (v1, v2) = split(r, d, dt);
    mb.vel = v1;
    let ppos = if r.p(0.5) { Z } else { r.cube(1.5) };
    let mut pb = Body::new((off - ppos).r32()).vel(v2);
    let m = match r.below(4) { 0 => { pb.own_mass = r.lr(0.1, 10.0); 0.0 } 1 => r.lr(0.1, 10.0), _ => f64::INFINITY };
    let nl = if r.p(0.4) { 1.0 } else { r.lr(1e-2, 1e2) };
    let mut pc = Col::plane(ppos, (n * nl).r32(), m);
    pc.e = r.r(0.0, 1.0);
    pb.cols.push(pc);
    if r.p(0.35) { spin_up(r, &mut mb, dt, 1.0); }
    let (mut w, mi) = two(r, mb, pb);
    unit(ctx, r, &mut w, dt, -7);
    if w.bodies[mi].ang != Z { return judge_turning_mesh(ctx, &w, mi, dt); }
    let (mb, pb) = (&w.bodies[mi], &w.bodies[1 - mi]);
    let (pp, pn) = if let Some(G::Plane(p, n)) = pb.geo0(0) { (p, n) } else { unreachable!() };
    let vs = verts(mb);
    let rel = (mb.vel - pb.vel) * dt;
    let ds: Vec<f64> = vs.iter().map(|v| (*v - pp).dot(pn)).collect();
    let gap0 = ds.iter().cloned().fold(f64::INFINITY, f64::min);
    let top = ds.iter().cloned().fold(-f64::INFINITY, f64::max);
    let dn = rel.dot(pn);
    let tol = 1e-4 + 20.0 * EPS32 * (mb.pos.len() + pb.pos.len() + rel.len() + 5.0);
    let mut sys = w.build();
    sys.step(dt);
    let recs = sys.recs();
    ctx.log(|| format!("{}\ngap0 {} dn {}\nrecords {:?}", show(&w, dt), gap0, dn, recs));
    let want = if gap0 < -tol { if dn / dt < -2e-3 { Some(0.0) } else if dn / dt > 2e-3 { None } else { ctx.count("gray"); return Ok(()) } }
        else if gap0 + dn.min(0.0) > tol { None }
        else if gap0 + dn < -2.0 * tol && gap0 > tol { Some(-gap0 / dn) }
        else { ctx.count("gray"); return Ok(()) };
    let x = match want {
        None => {
            ctx.count("miss");
            ensure!(recs.is_empty(), "a mesh that stays clear or separates collided (gap {} moving {}): {:?}", gap0, dn, recs[0]);
            return Ok(());
        }
        Some(x) => x,
    };
    ctx.count(if gap0 < 0.0 { "embedded approaching" } else { "hit" });
    ensure!(recs.len() == 1, "a mesh moving into the plane was not stopped (gap {} moving {})", gap0, dn);
    let rc = &recs[0];
    ensure!(rc.pair() == (mi, 1 - mi) || rc.pair() == (1 - mi, mi), "wrong pair {:?}", rc);
    ensure!((rc.t / dt * dn - x * dn).abs() <= tol, "first vertex touches at {} of the step, recorded {}", x, rc.t / dt);
    let sign = if rc.a == Some(mi) { 1.0 } else { -1.0 };
    ensure!((rc.n * sign + pn).len() < 1e-4, "normal {:?} should be {:?}", rc.n * sign, -pn);
    for i in 0..2 {
        let b = &w.bodies[i];
        let want = b.pos + b.q().rot(b.local_com()) + b.vel * rc.t;
        ensure!((sys.snap(i).pos - want).len() <= 2.0 * tol, "body {} should be at {:?}, is at {:?}", i, want, sys.snap(i).pos);
    }
    // vertices that reach the plane first (the library treats those within 1% of the mesh's extent as arriving together)
    let ext = top - gap0;
    let sure: Vec<V> = vs.iter().zip(&ds).filter(|(_, d)| **d - gap0 <= 0.012 * ext + 1e-4).map(|(v, _)| *v + mb.vel * rc.t).collect();
    let flat_now = ds.iter().filter(|d| **d - gap0 < 1e-5).count();
    if flat_now >= 3 { ctx.count("flat face"); } else if flat_now == 2 { ctx.count("flat edge"); } else { ctx.count("corner"); }
    if ext < 1e-4 { ctx.count("whole mesh flat"); }
    // within the convex hull of those vertices: project on many directions
    for k in 0..40 {
        let u = if k < 3 { V::from([(k == 0) as i32 as f64, (k == 1) as i32 as f64, (k == 2) as i32 as f64]) } else { r.dir() };
        let (lo, hi) = sure.iter().fold((f64::INFINITY, -f64::INFINITY), |a, v| (a.0.min(v.dot(u)), a.1.max(v.dot(u))));
        let y = rc.p.dot(u);
        ensure!(y >= lo - 3.0 * tol && y <= hi + 3.0 * tol, "point {:?} is not within the vertices that arrive first {:?}", rc.p, sure);
    }
    let pd = (rc.p - (pp + pb.vel * rc.t)).dot(pn);
    let allow = 0.012 * ext + 3.0 * tol;
    if gap0 > 0.0 { ensure!(pd.abs() <= allow, "point {:?} is {} off the plane", rc.p, pd); }
    let mut h = H::new(); h.v(mb.pos).v(rel).v(pn); ctx.nontrivial(h.0);
    if ctx.case % 97 == 3 { ctx.sample(|| format!("{} -> {:?}", show(&w, dt), rc)); }
    if recs.len() > 1 { bail!("more than one record"); }
    Ok(())
}

/// A mesh that turns during the step, against a plane. Its vertices are taken to go straight from where they start to
/// where they end; judged when the same single vertex is the lowest at both ends (it is then the lowest throughout).
fn judge_turning_mesh(ctx: &mut Ctx, w: &World, mi: usize, dt: f64) -> Res {
    let (mb, pb) = (&w.bodies[mi], &w.bodies[1 - mi]);
    let (pp, pn) = if let Some(G::Plane(p, n)) = pb.geo0(0) { (p, n) } else { unreachable!() };
    let local: Vec<V> = if let Shape::Mesh { pos, faces } = &mb.cols[0].shape { faces.iter().flatten().map(|v| *pos + *v).collect() } else { unreachable!() };
    let mut sys = w.build();
    sys.step(dt);
    let recs = sys.recs();
    let at = |v: V, t: f64| world_at(mb, v, t);
    let d0: Vec<f64> = local.iter().map(|v| (at(*v, 0.0) - pp).dot(pn)).collect();
    let d1: Vec<f64> = local.iter().map(|v| (at(*v, dt) - pp - pb.vel * dt).dot(pn)).collect();
    let lowest = |d: &Vec<f64>| (0..d.len()).fold(0, |a, i| if d[i] < d[a] { i } else { a });
    let (k0, k1) = (lowest(&d0), lowest(&d1));
    let (gap0, gap1) = (d0[k0], d1[k1]);
    let tol = 1e-4 + 20.0 * EPS32 * (mb.pos.len() + pb.pos.len() + (mb.vel.len() + pb.vel.len()) * dt + 5.0);
    ctx.log(|| format!("{}\ngap {} to {}, lowest {} then {}\nrecords {:?}", show(w, dt), gap0, gap1, k0, k1, recs));
    let stays = |sys: &Sys, t: f64| -> Res {
        for i in 0..2 {
            let (want, q) = pose_at(&w.bodies[i], t);
            let s = sys.snap(i);
            ensure!((s.pos - want).len() <= 2.0 * tol, "body {} should be at {:?}, is at {:?}", i, want, s.pos);
            ensure!(s.q.angle_to(q) < 5e-4 + 1e-4 * w.bodies[i].ang.len() * dt, "body {} is turned {} away from where its angular velocity brings it", i, s.q.angle_to(q));
        }
        Ok(())
    };
    if gap0 > tol && gap1 > tol {
        ctx.count("miss");
        ctx.count("miss turning");
        ensure!(recs.is_empty(), "a turning mesh that stays clear (gap {} to {}) collided: {:?}", gap0, gap1, recs[0]);
        return stays(&sys, dt);
    }
    let ext = |d: &Vec<f64>| d.iter().cloned().fold(-f64::INFINITY, f64::max) - d.iter().cloned().fold(f64::INFINITY, f64::min);
    let alone = |d: &Vec<f64>, k: usize| { let e = 0.012 * ext(d) + 1e-3; (0..d.len()).all(|i| d[i] - d[k] > e || (local[i] - local[k]).len() < 1e-9) };
    if (local[k0] - local[k1]).len() > 1e-9 || !alone(&d0, k0) || !alone(&d1, k1) { ctx.count("lowest vertex changes or is shared"); return Ok(()); }
    let x = if gap0 < -tol { 0.0 } else if gap0 > tol && gap1 < -2.0 * tol { gap0 / (gap0 - gap1) } else { ctx.count("gray"); return Ok(()) };
    let (vs, ve) = (at(local[k0], 0.0), at(local[k0], dt));
    let touch = vs + (ve - vs) * x;
    let (com, _) = pose_at(mb, x * dt);
    let ap = (pb.vel - mb.vel - mb.ang.cross(touch - com)).dot(pn);
    let margin = 2e-3 + (mb.vel.len() + pb.vel.len() + mb.ang.len() * (touch - com).len()) * 2e-3 + mb.ang.len() * 2.0 * tol * (1.0 + mb.vel.len() / (ap.abs().max(1e-6)));
    if ap < -margin {
        ctx.count("touching vertex moves away");
        ensure!(recs.is_empty(), "the lowest vertex moves away from the plane at {}, yet a collision was recorded: {:?}", -ap, recs[0]);
        return stays(&sys, dt);
    }
    if ap <= margin { ctx.count("gray"); return Ok(()); }
    ctx.count("hit turning");
    ctx.count(if gap0 < 0.0 { "embedded approaching" } else { "hit" });
    ensure!(recs.len() == 1, "a turning mesh whose lowest vertex goes from {} to {} was not stopped", gap0, gap1);
    let rc = &recs[0];
    ensure!(rc.pair() == (mi, 1 - mi) || rc.pair() == (1 - mi, mi), "wrong pair {:?}", rc);
    ensure!((rc.t / dt - x).abs() * (gap1 - gap0).abs() <= tol, "the vertex touches at {} of the step, recorded {}", x, rc.t / dt);
    let sign = if rc.a == Some(mi) { 1.0 } else { -1.0 };
    ensure!((rc.n * sign + pn).len() < 1e-4, "normal {:?} should be {:?}", rc.n * sign, -pn);
    let want = vs + (ve - vs) * (rc.t / dt);
    ensure!((rc.p - want).len() <= 2.0 * tol, "point {:?} is not the touching vertex {:?}", rc.p, want);
    stays(&sys, rc.t)?;
    let mut h = H::new(); h.v(mb.pos).v(mb.ang).v(pn); ctx.nontrivial(h.0);
    Ok(())
}
