//! C26-C29, C34: two runs that must agree.
use crate::crowd::*;
use crate::ctx::*;
use crate::m::*;
use crate::rng::Rng;
use crate::world::*;
use super::contact::show;
use super::hist::gen_col;
use fluffy_tribble::*;

pub fn props() -> Vec<Prop> {
    let assume: &'static [&'static str] = &["2-8 bodies within about 10 units, speeds up to 10, dt up to 0.5"];
    vec![
        Prop { id: "C26", quick: 60000, thorough: 3000000, rule: "Each case is one of: a world run with and without things that must not matter (bodies without colliders, null colliders, unlinked colliders, colliders removed again) and compared bit for bit; a world of nothing but such things and planes and overlapping colliders of one entity; two bodies on a collision course whose colliders are linked, unlinked, handed over and removed between the steps. Non-trivial: a collision next to inert things, or one that must or must not happen because of a link - distinct by state.", assume, min: &[("linked collision judged", 50), ("linked later and collided", 50), ("linked, not in reach: judged", 800), ("overlapping colliders of one body judged", 30), ("planes and empty bodies judged", 30), ("step with collisions compared", 400), ("unlinked passage judged", 300), ("world with collisions and inert objects", 90), ("collision of an entity with null colliders too", 800)], hang_violates: false, run: c26 },
        Prop { id: "C27", quick: 80000, thorough: 2000000, rule: "Each case runs 1-3 steps of a random world and of the same world rotated, mirrored, with axes permuted, moved, given a common velocity or built in another order, and compares the outcomes through the inverse of that change. Eight runs from starts shifted by 2e-5 measure how far rounding may matter; cases where that is more than 2e-3 are not judged. Non-trivial: a compared run with a collision - distinct by state.", assume, min: &[("mirrored: compared with collisions", 10), ("axes permuted: compared with collisions", 10), ("turned: compared with collisions", 20), ("moved: compared with collisions", 20), ("common velocity: compared with collisions", 20), ("other order: compared with collisions", 20), ("close calls compared", 8), ("close calls within a thousandth", 1)], hang_violates: false, run: |c, r| c27(c, r, 27) },
        Prop { id: "C28", quick: 4000, thorough: 240000, rule: "Each case runs two groups of spheres and static solids, 30 units apart or on one floor, together and separately for 20-120 steps with gravity, friction and sleeping, and compares every body after every step, as long as runs from starts shifted by 1e-5 agree within 1e-2. Non-trivial: a compared step after collisions in both groups - distinct by state.", assume, min: &[("collisions in both groups", 160), ("step with collisions compared", 9000), ("sleeper compared", 350)], hang_violates: false, run: c28 },
        Prop { id: "C29", quick: 30000, thorough: 1500000, rule: "Each case makes the same 10-60 random calls (adding, linking, editing, removing, forces, steps, sleeping) on two fresh systems whose entities have at most one collider each, with additional reads on the second one and a third system active in between, and compares every returned handle, result, state and record bit for bit. Non-trivial: a step with a collision - distinct by state.", assume, min: &[("three or more generators", 500), ("record compared", 800), ("step compared", 6000), ("with sleepers", 3000)], hang_violates: false, run: c29 },
        Prop { id: "C34", quick: 100000, thorough: 3000000, rule: "Each case runs 1-8 steps of a random world (friction, spins, composites, gravity, a limited force, sleeping) and of the same world in other units of length, mass and time (powers of two, so that no input is rounded), and compares all states and records after converting them back. Eight runs from starts shifted by 2e-5 measure how far rounding may matter; cases where that is more than 2e-3 are not judged. Non-trivial: a compared run with a collision - distinct by state.", assume: &["2-8 bodies within about 10 units, speeds up to 10, dt up to 0.5", "lengths in units up to 1024 times smaller, masses 1/1024 to 1024 times, times 1/64 to 16 times, speeds not below what they were (lengths and speeds below 1e-6 and steps below 1e-6 count as zero in the library)"], min: &[("other length: compared with collisions", 60), ("other mass: compared with collisions", 60), ("other time: compared with collisions", 60), ("spinning and rubbing", 20), ("with sleepers", 10), ("with gravity", 30), ("with a limited force", 10), ("states equal to the bit", 100)], hang_violates: false, run: |c, r| c27(c, r, 34) },
    ]
}

// ---------------------------------------------------------------- C26
fn bits_of(s: &Snap) -> &[u32] { &s.bits }
fn c26(ctx: &mut Ctx, r: &mut Rng) -> Res {
    match r.below(5) { 0 | 1 => extras(ctx, r), 2 => inert_world(ctx, r), _ => links(ctx, r) }
}
/// a body that can't touch anything
fn ghost(r: &mut Rng) -> Body {
    let mut b = Body::new(r.cube(3.0)).vel(r.cube(5.0)).rot(gen_rot(r));
    if r.p(0.5) { b.ang = r.cube(2.0); }
    if r.p(0.6) { b.own_mass = if r.p(0.2) { f64::INFINITY } else { r.lr(0.01, 100.0) }; }
    for _ in 0..r.below(3) { b.cols.push(Col::point(r.cube(1.0), r.lr(0.1, 10.0), r.r(0.1, 2.0))); }
    b
}
fn extras(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut o = Opts::new();
    o.statics = true; o.heavy = r.p(0.5); o.spin = r.p(0.5); o.friction = r.p(0.5); o.size = r.r(1.2, 3.0);
    let mut w = crowd(r, &o, 0.01);
    // single colliders only: the order of several is not fixed
    if w.bodies.iter().any(|b| b.cols.len() > 1) { for b in w.bodies.iter_mut() { b.cols.truncate(1); if !b.total_mass().is_infinite() && b.total_mass() == 0.0 { b.own_mass = f64::INFINITY; } } }
    w.iter_max = *r.pick(&[1, 3, 10, 30]);
    if r.p(0.5) { w.gravity = Some(r.cube(8.0)); }
    if r.p(0.5) { w.sleep = Some((r.lr(1e-3, 1.0), r.r(0.0, 0.3))); }
    let mut a = w.build();
    // the same with extras
    let mut ps = PhysicsSystem::new();
    ps.iteration_max = w.iter_max;
    match w.sleep { None => ps.energy_sleep_threshold = -1.0, Some((e, t)) => { ps.energy_sleep_threshold = e as f32; ps.sleep_time_threshold = t as f32; } }
    let mut b = Sys { ps, ents: Vec::new(), cols: Vec::new(), junk: Vec::new(), unit: ONE };
    let mut base = Vec::new();
    let mut ghosts: Vec<(usize, Body)> = Vec::new();
    let mut what = Vec::new();
    let mut nulls = Vec::new();
    let extra = |r: &mut Rng, b: &mut Sys, ghosts: &mut Vec<(usize, Body)>, what: &mut Vec<String>| {
        match r.below(4) {
            0 | 1 => { let g = ghost(r); what.push(format!("{:?}", g)); b.add(&g); ghosts.push((b.ents.len() - 1, g)); }
            2 => { let k = 1 + r.below(4); let mut c = gen_col(r, k); if let Shape::Sphere { c, .. } = &mut c.shape { *c = r.cube(2.0); } what.push(format!("unlinked {:?}", c)); b.ps.add_collider(c.wrapper()).ok().expect("a valid collider was refused"); }
            _ => { let k = 1 + r.below(4); let c = gen_col(r, k); what.push(format!("linked and unlinked again {:?}", c)); let h = b.ps.add_collider(c.wrapper()).ok().expect("a valid collider was refused");
                let g = ghost(r);
                let e = b.add(&g);
                let before = b.snap(b.ents.len() - 1);
                b.ps.link_collider(h, Some(e)).expect("a valid link was refused");
                if r.p(0.5) { b.ps.link_collider(h, None).expect("unlinking was refused"); } else { b.ps.remove_collider(h); }
                // moving the centre of mass there and back rounds
                b.set(b.ents.len() - 1, |x| { x.position = before.pos.to32(); });
                ghosts.push((b.ents.len() - 1, g)); }
        }
    };
    for x in &w.bodies {
        while r.p(0.45) { extra(r, &mut b, &mut ghosts, &mut what); }
        // colliders without mass, inertia or shape change nothing about what else their entity owns
        let mut x = x.clone();
        if r.p(0.4) {
            what.push(format!("null colliders on body {}", base.len()));
            for _ in 0..1 + r.below(3) { let at = r.below(x.cols.len() + 1); x.cols.insert(at, Col::point(r.cube(2.0), 0.0, 0.0)); }
            nulls.push(base.len());
        }
        b.add(&x);
        base.push(b.ents.len() - 1);
    }
    extra(r, &mut b, &mut ghosts, &mut what);
    if let Some(g) = w.gravity { b.ps.add_unary_force_generator(Box::new(GravityGenerator::new(g.to32()))).unwrap(); }
    let dt = *r.pick(&[1.0 / 60.0f32 as f64, 0.1, 0.3]);
    let n = 5 + r.below(20);
    ctx.log(|| format!("{}\nextras {:?}", show(&w, dt), what));
    let mut hits = 0;
    for k in 0..n {
        a.step(dt); b.step(dt);
        let (ra, rb) = (a.recs(), b.recs());
        ensure!(ra.len() == rb.len(), "step {}: {} collisions without the inert objects, {} with them ({:?})", k, ra.len(), rb.len(), rb.iter().map(|x| x.pair()).collect::<Vec<_>>());
        for (x, y) in ra.iter().zip(rb.iter()) {
            let (p, q) = (x.pair(), y.pair());
            ensure!(base.get(p.0) == Some(&q.0) && base.get(p.1) == Some(&q.1), "step {}: a collision of bodies {:?} became one of {:?} next to inert objects", k, (base[p.0], base[p.1]), q);
            if nulls.contains(&p.0) || nulls.contains(&p.1) { ctx.count("collision of an entity with null colliders too"); }
            ensure!(x.p == y.p && x.n == y.n && x.t == y.t && x.e == y.e && x.j == y.j, "step {}: the inert objects changed a collision from {:?} to {:?}", k, x, y);
        }
        for (i, j) in base.iter().enumerate() {
            let (x, y) = (a.snap(i), b.snap(*j));
            ensure!(bits_of(&x) == bits_of(&y), "step {}: body {} is at {:?} moving {:?} without the inert objects, at {:?} moving {:?} with them", k, i, x.pos, x.vel, y.pos, y.vel);
        }
        ctx.count("step compared");
        hits += ra.len();
        if !ra.is_empty() { ctx.count("step with collisions compared"); let mut h = H::new(); for x in &ra { h.v(x.p).f(x.t); } ctx.nontrivial(h.0); }
    }
    if hits > 0 { ctx.count("world with collisions and inert objects"); }
    Ok(())
}
/// nothing in this world may ever collide
fn inert_world(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut bodies = Vec::new();
    let n = 1 + r.below(5);
    // either planes, or one body of overlapping solids, among ghosts
    let planes = r.p(0.5);
    for _ in 0..n { bodies.push(ghost(r)); }
    if planes {
        for _ in 0..2 + r.below(3) {
            let mut b = Body::new(r.cube(1.0)).vel(r.cube(5.0)).rot(gen_rot(r));
            for _ in 0..1 + r.below(2) { b.cols.push(Col::plane(r.cube(0.5), r.dirx().r32(), if r.p(0.3) { f64::INFINITY } else { r.lr(0.1, 10.0) })); }
            if r.p(0.5) { b.cols.push(Col::point(r.cube(1.0), r.lr(0.1, 10.0), r.r(0.1, 2.0))); }
            bodies.push(b);
        }
    } else {
        let mut b = Body::new(r.cube(1.0)).vel(r.cube(5.0)).rot(gen_rot(r));
        if r.p(0.5) { b.ang = r.cube(3.0); }
        for _ in 0..2 + r.below(4) { let k = 1 + r.below(4); let mut c = gen_col(r, k); if r.p(0.7) { match &mut c.shape { Shape::Sphere { c, .. } => *c = r.cube(0.5), Shape::Plane { pos, .. } | Shape::Mesh { pos, .. } | Shape::Box { pos, .. } => *pos = r.cube(0.5), _ => () } } b.cols.push(c); }
        bodies.push(b);
    }
    r.shuffle(&mut bodies);
    let w = World::new(bodies).iters(*r.pick(&[1, 5, 30]));
    let mut s = w.build();
    for _ in 0..r.below(3) { let k = 1 + r.below(4); let c = gen_col(r, k); s.ps.add_collider(c.wrapper()).ok().expect("a valid collider was refused"); }
    let dt = *r.pick(&[1.0 / 60.0f32 as f64, 0.2, 1.0]);
    ctx.log(|| show(&w, dt));
    let start = s.snaps();
    let n = 1 + r.below(6);
    for k in 1..n + 1 {
        s.step(dt);
        let rec = s.recs();
        ensure!(rec.is_empty(), "step {}: nothing here can collide, yet bodies {:?} did", k, rec[0].pair());
        for (i, (x, y)) in s.snaps().iter().zip(start.iter()).enumerate() {
            ensure!(x.bits[6..12] == y.bits[6..12], "step {}: body {} changed its velocity from {:?} to {:?} without any force or collision", k, i, (y.vel, y.ang), (x.vel, x.ang));
            let want = y.pos + y.vel * (dt * k as f64);
            ensure!((x.pos - want).len() < 1e-5 * (1.0 + want.len() + y.vel.len()), "step {}: body {} should be at {:?}, is at {:?}", k, i, want, x.pos);
        }
    }
    ctx.count(if planes { "planes and empty bodies judged" } else { "overlapping colliders of one body judged" });
    let mut h = H::new(); for b in &w.bodies { h.v(b.pos); } ctx.nontrivial(h.0);
    Ok(())
}
/// two bodies on a collision course, and colliders that come and go
fn links(ctx: &mut Ctx, r: &mut Rng) -> Res {
    // body 0 flies at body 1; 2 is a spare body beside body 0 that flies along
    let d = r.dirx();
    let speed = r.lr(0.5, 5.0);
    let target = r.below(4);
    let rad = r.lr(0.2, 0.8);
    let mut tc = match target {
        0 => Col::sphere(Z, r.lr(0.3, 1.5), f64::INFINITY),
        1 => Col::plane(Z, (-d).r32(), f64::INFINITY),
        2 => { let h = r.r(0.5, 1.5); Col::bx(Z, V(-h, -h, -h), V(h, h, h), f64::INFINITY) }
        _ => Col::mesh(Z, gen_mesh(r, 2.0).1),
    };
    tc.e = 1.0;
    let movable = target == 0 && r.p(0.5);
    if movable { tc.mass = r.lr(0.5, 5.0); }
    let start = 3.5 + r.f();
    let side = d.ortho();
    let mk = |p: V| { let mut b = Body::new(p.r32()).vel((d * speed).r32()); b.own_mass = 1.0; b };
    let mut w = World::new(vec![mk(d * -start + side * r.r(-0.1, 0.1)), { let mut b = Body::new(Z); b.own_mass = if movable { 1.0 } else { f64::INFINITY }; b }, mk(d * -start + side * (if target == 1 { 4.0 } else { 6.0 }))]);
    w.iter_max = 1;
    let mut s = w.build();
    let ball = Col::sphere(Z, rad, 0.0);
    let ch = s.ps.add_collider(ball.wrapper()).ok().expect("a valid collider was refused");
    let th = s.ps.add_collider(tc.wrapper()).ok().expect("a valid collider was refused");
    // where the two colliders are linked now
    let mut on: [Option<usize>; 2] = [None, None];
    let mut gone = [false, false];
    let dt = r.lr(0.1, 0.4);
    ctx.log(|| format!("{} ball radius {} target {:?}", show(&w, dt), rad, tc));
    for k in 0..24 {
        for c in 0..2 {
            let h = if c == 0 { ch } else { th };
            if gone[c] { ensure!(s.ps.link_collider(h, Some(s.ents[0])).is_err() || s.ps.get_collider(h).is_some(), "a removed collider could be linked"); continue; }
            let p = if on[c].is_none() { 0.5 } else { 0.12 };
            if r.p(p) {
                if r.p(0.08) { s.ps.remove_collider(h); gone[c] = true; on[c] = None; ctx.log(|| format!("step {}: collider {} removed", k, c)); continue; }
                let to = if c == 0 { *r.pick(&[None, Some(0), Some(0), Some(0), Some(2)]) } else { *r.pick(&[None, Some(1), Some(1), Some(1), Some(1)]) };
                s.ps.link_collider(h, to.map(|i: usize| s.ents[i])).expect("a valid link was refused");
                on[c] = to;
                ctx.log(|| format!("step {}: collider {} linked to {:?}", k, c, to));
            }
        }
        if on[1] != Some(1) && on[1] != None { break; }
        let before = s.snaps();
        s.step(dt);
        let recs = s.recs();
        let after = s.snaps();
        // what is there to hit?
        let pair = match (on[0], on[1]) { (Some(a), Some(b)) => Some((a, b)), _ => None };
        match pair {
            None => {
                ensure!(recs.is_empty(), "step {}: bodies {:?} collided, but not both have a collider linked", k, recs[0].pair());
                for i in 0..3 { ensure!(after[i].bits[6..12] == before[i].bits[6..12], "step {}: body {} was deflected while nothing could collide", k, i);
                    let want = before[i].pos + before[i].vel * dt; ensure!((after[i].pos - want).len() < 1e-4, "step {}: body {} should be at {:?}, is at {:?}", k, i, want, after[i].pos); }
                ctx.count("step without a linked pair judged");
                // would it have collided?
                let (x, y) = (Body { cols: vec![ball.clone()], ..w.bodies[0].clone() }, Body { cols: vec![tc.clone()], ..w.bodies[1].clone() });
                if let Some(sw) = sweep2(&x.geo(0, before[0].origin, before[0].q).unwrap(), &y.geo(0, before[1].origin, before[1].q).unwrap(), (before[0].vel - before[1].vel) * dt) {
                    if sw.min_gap < -0.01 { ctx.count("unlinked passage judged"); let mut h = H::new(); h.v(before[0].pos).f(tc.mass).u(target as u64); ctx.nontrivial(h.0); }
                }
            }
            Some((a, b)) => {
                let (x, y) = (Body { cols: vec![ball.clone()], ..w.bodies[a].clone() }, Body { cols: vec![tc.clone()], ..w.bodies[b].clone() });
                let (ga, gb) = (x.geo(0, before[a].origin, before[a].q).unwrap(), y.geo(0, before[b].origin, before[b].q).unwrap());
                let sw = sweep2(&ga, &gb, (before[a].vel - before[b].vel) * dt).unwrap();
                for q in &recs { let p = q.pair(); ensure!((p == (a, b)) || p == (b, a), "step {}: bodies {:?} collided, but only {} and {} have colliders", k, p, a, b); }
                if sw.gap0 < 1e-3 { ctx.count("gray: linked while in contact"); return Ok(()); }
                if sw.min_gap > 1e-3 { ensure!(recs.is_empty(), "step {}: bodies {} and {} stay {} apart, yet collided", k, a, b, sw.min_gap); ctx.count("linked, not in reach: judged"); }
                else if sw.min_gap < -1e-3 {
                    ensure!(!recs.is_empty(), "step {}: bodies {} and {} have linked colliders that run into each other after {}, but did not collide", k, a, b, sw.first.unwrap() * dt);
                    ctx.count("linked collision judged");
                    if k > 0 { ctx.count("linked later and collided"); }
                    let mut h = H::new(); h.v(before[a].pos).f(rad).u(target as u64); ctx.nontrivial(h.0);
                    return Ok(());
                } else { ctx.count("gray: grazing"); return Ok(()); }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- comparing runs
#[derive(Clone)]
struct Frame { s: Vec<Snap>, r: Vec<Rec> }
fn run(w: &World, dt: f64, steps: usize) -> Vec<Frame> {
    let mut s = w.build();
    (0..steps).map(|_| { s.step(dt); Frame { s: s.snaps(), r: s.recs() } }).collect()
}
fn perturbed(r: &mut Rng, w: &World, d: f64, rot: bool) -> World {
    let mut w = w.clone();
    for b in w.bodies.iter_mut() {
        b.pos = b.pos + r.cube(d);
        if b.vel.len() > 0.0 { b.vel = b.vel + r.cube(d); }
        if b.ang.len() > 0.0 { b.ang = b.ang + r.cube(d); }
        if rot { b.rot = b.rot + r.cube(d); }
    }
    w
}
/// perturbed in every way, spinning too
fn nudged(r: &mut Rng, w: &World, d: f64) -> World {
    let mut w = perturbed(r, w, d, false);
    for b in w.bodies.iter_mut() { if b.total_mass().is_finite() { b.vel = b.vel + r.cube(d); b.ang = b.ang + r.cube(10.0 * d); } }
    w
}
fn far(m: f64) -> f64 { m }
/// largest difference between two states of a body, in units of their own size
fn differ(a: &Snap, b: &Snap) -> f64 {
    let f = |x: V, y: V| (x - y).len() / (1.0 + 0.1 * x.len());
    far(f(a.pos, b.pos).max(f(a.origin, b.origin)).max(f(a.vel, b.vel)).max(f(a.ang, b.ang)).max(M::rot(a.q).sub(M::rot(b.q)).norm()))
}
/// same collisions between the same bodies in the same order
fn same_pairs(a: &[Rec], b: &[Rec]) -> bool { a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.pair() == y.pair() || (x.pair().1, x.pair().0) == y.pair()) }
fn rec_differ(a: &Rec, b: &Rec) -> f64 {
    let n = if a.pair() == b.pair() { b.n } else { -b.n };
    let f = |x: V, y: V| (x - y).len() / (1.0 + 0.1 * x.len());
    f(a.p, b.p).max((a.n - n).len()).max((a.t - b.t).abs()).max((a.j - b.j).abs() / (1.0 + a.j))
}
fn frames_differ(a: &[Frame], b: &[Frame]) -> Option<f64> {
    let mut m = 0.0f64;
    for (x, y) in a.iter().zip(b.iter()) {
        if !same_pairs(&x.r, &y.r) { return None; }
        for (p, q) in x.s.iter().zip(y.s.iter()) { if p.asleep != q.asleep { return None; } m = m.max(differ(p, q)); }
        for (p, q) in x.r.iter().zip(y.r.iter()) { m = m.max(rec_differ(p, q)); }
    }
    Some(m)
}

// ---------------------------------------------------------------- C27
/// x -> m x + shift + boost t, body i of the changed world is body order[i] of the first
#[derive(Clone, Debug)]
struct Map { m: M, det: f64, turn: bool, shift: V, boost: V, order: Vec<usize> }
fn signed_permutation(r: &mut Rng) -> (M, f64) {
    let mut idx = vec![0, 1, 2];
    r.shuffle(&mut idx);
    let mut m = M::zero();
    for i in 0..3 { m.0[i][idx[i]] = if r.p(0.5) { 1.0 } else { -1.0 }; }
    let d = m.det();
    (m, d)
}
fn apply(w: &World, t: &Map) -> World {
    let f = |v: V| t.m.app(v);
    let mut out = w.clone();
    out.bodies = t.order.iter().map(|i| {
        let mut b = w.bodies[*i].clone();
        b.pos = (f(b.pos) + t.shift).r32();
        b.vel = (f(b.vel) + t.boost).r32();
        b.ang = (f(b.ang) * t.det).r32();
        if t.turn {
            // the whole world turned: local shapes stay as they are, but the normals of planes are not turned with their body
            let q = b.q();
            let (x, y, z) = (f(q.rot(V(1.0, 0.0, 0.0))), f(q.rot(V(0.0, 1.0, 0.0))), f(q.rot(V(0.0, 0.0, 1.0))));
            b.rot = axis_of(x, y, z).r32();
            for c in b.cols.iter_mut() { if let Shape::Plane { n, .. } = &mut c.shape { *n = f(*n).r32(); } }
        } else {
            b.rot = (f(b.rot) * t.det).r32();
            for c in b.cols.iter_mut() { match &mut c.shape {
                Shape::Null { pos, inertia } => { *pos = f(*pos); *inertia = t.m.mul(*inertia).mul(t.m.t()); }
                Shape::Sphere { c, .. } => *c = f(*c),
                Shape::Plane { pos, n } => { *pos = f(*pos); *n = f(*n); }
                Shape::Mesh { pos, faces } => { *pos = f(*pos); for x in faces.iter_mut() { for v in x.iter_mut() { *v = f(*v); } } }
                Shape::Box { pos, min, max } => { *pos = f(*pos); *min = f(*min); *max = f(*max); }
            } }
        }
        b
    }).collect();
    out.gravity = w.gravity.map(f);
    out
}
/// scaled axis of the rotation with these columns
fn axis_of(x: V, y: V, z: V) -> V {
    let (a, b, c) = (x.arr(), y.arr(), z.arr());
    let m = |i: usize, j: usize| [a, b, c][j][i];
    let tr = m(0, 0) + m(1, 1) + m(2, 2);
    let q = if tr > 0.0 {
        let s = (tr + 1.0).sqrt() * 2.0;
        Q(0.25 * s, V((m(2, 1) - m(1, 2)) / s, (m(0, 2) - m(2, 0)) / s, (m(1, 0) - m(0, 1)) / s))
    } else if m(0, 0) > m(1, 1) && m(0, 0) > m(2, 2) {
        let s = (1.0 + m(0, 0) - m(1, 1) - m(2, 2)).sqrt() * 2.0;
        Q((m(2, 1) - m(1, 2)) / s, V(0.25 * s, (m(0, 1) + m(1, 0)) / s, (m(0, 2) + m(2, 0)) / s))
    } else if m(1, 1) > m(2, 2) {
        let s = (1.0 + m(1, 1) - m(0, 0) - m(2, 2)).sqrt() * 2.0;
        Q((m(0, 2) - m(2, 0)) / s, V((m(0, 1) + m(1, 0)) / s, 0.25 * s, (m(1, 2) + m(2, 1)) / s))
    } else {
        let s = (1.0 + m(2, 2) - m(0, 0) - m(1, 1)).sqrt() * 2.0;
        Q((m(1, 0) - m(0, 1)) / s, V((m(0, 2) + m(2, 0)) / s, (m(1, 2) + m(2, 1)) / s, 0.25 * s))
    };
    q.axis()
}
/// do the outcomes of the first world and of the changed one agree?
fn compare(a: &[Frame], b: &[Frame], t: &Map, dt: f64, tol: f64, names: &[&str], maxi: &mut dyn FnMut(&str, f64)) -> Res {
    // bring the second run back: body order[i] of the first is body i of the second
    let mut inv = vec![0; t.order.len()];
    for (i, k) in t.order.iter().enumerate() { inv[*k] = i; }
    let mi = t.m.t();
    let j: f64 = a.iter().flat_map(|f| f.r.iter()).map(|x| x.j).sum();
    for k in 0..a.len() {
        let time = dt as f32 as f64 * (k + 1) as f64;
        let back = |x: V, time: f64| mi.app(x - t.shift - t.boost * time);
        let rec: Vec<Rec> = b[k].r.iter().map(|x| Rec { a: x.a.map(|i| t.order[i]), b: x.b.map(|i| t.order[i]), p: back(x.p, time - dt as f32 as f64 + x.t), n: mi.app(x.n), t: x.t, e: x.e, j: x.j }).collect();
        ensure!(same_pairs(&a[k].r, &rec), "step {}: collisions of bodies {:?}, but of {:?} when {:?}", k, a[k].r.iter().map(|x| x.pair()).collect::<Vec<_>>(), rec.iter().map(|x| x.pair()).collect::<Vec<_>>(), names);
        for (x, y) in a[k].r.iter().zip(rec.iter()) { let d = rec_differ(x, y); maxi("record difference / tolerance", d / tol); ensure!(d <= tol, "step {}: a collision {:?} became {:?} (brought back) when {:?}; tolerance {}", k, x, y, names, tol); }
        for i in 0..inv.len() {
            let (x, y) = (&a[k].s[i], &b[k].s[inv[i]]);
            let f = |p: V, q: V| (p - q).len() / (1.0 + 0.1 * p.len());
            let rot = if t.turn { mi.mul(M::rot(y.q)) } else { mi.mul(M::rot(y.q)).mul(t.m) };
            let d = f(x.pos, back(y.pos, time)).max(f(x.origin, back(y.origin, time))).max(f(x.vel, mi.app(y.vel - t.boost))).max(M::rot(x.q).sub(rot).norm());
            // contact points are rounded to the size of their coordinates, which turns into torque
            let lever = 5e-6 * (5.0 + t.shift.len()) * j;
            let slack = if lever == 0.0 || x.mass.is_infinite() || x.inertia.norm() == 0.0 { 0.0 } else { x.inertia.inv().map(|i| lever * i.norm()).unwrap_or(f64::INFINITY) };
            let spin = f(x.ang, mi.app(y.ang) * t.det);
            maxi("spin difference / tolerance", spin / (tol + slack));
            let d = d.max(spin * tol / (tol + slack));
            maxi("state difference / tolerance", d / tol);
            ensure!(d <= tol, "step {}: body {} at {:?} moving {:?} spinning {:?}, but at {:?} moving {:?} spinning {:?} (brought back) when {:?}; tolerance {}", k, i, x.pos, x.vel, x.ang, back(y.pos, time), mi.app(y.vel - t.boost), mi.app(y.ang) * t.det, names, tol);
        }
    }
    Ok(())
}
/// whether bodies that may collide overlap
fn overlapping(w: &World, f: &Frame) -> bool {
    (0..f.s.len()).any(|i| (0..i).any(|j| (f.s[i].mass.is_finite() || f.s[j].mass.is_finite()) && body_gap(&w.bodies[i], f.s[i].origin, f.s[i].q, &w.bodies[j], f.s[j].origin, f.s[j].q) < -1e-4))
}
/// one body is about to be hit by (or to hit) two others almost at the same time: which one is first does not depend on anything but the times
fn close_calls(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let (rad, m) = (r.r(0.4, 1.5), r.lr(0.1, 10.0));
    let dt = r.r(0.1, 0.4);
    let at = r.cube(2.0).r32();
    let vel = if r.p(0.5) { r.cube(3.0).r32() } else { Z };
    let col = |r: &mut Rng, c: Col| c.e(*r.pick(&[0.0, 0.5, 1.0]));
    let mut bodies = vec![Body::new(at).vel(vel).with(col(r, Col::sphere(Z, rad, m)))];
    // the other two: what they are, from where they come
    let (n1, n2) = (r.dir(), r.dir());
    if n1.dot(n2) > 0.3 { return Ok(()); }
    let t1 = r.r(0.1, 0.85) * dt;
    let gap = r.lr(1e-4, 0.03);
    let mut t2 = 0.0;
    for (k, n) in [n1, n2].iter().enumerate() {
        if r.p(0.6) {
            let r2 = r.r(0.4, 1.5);
            let approach = r.r(0.5, 5.0);
            let side = r.dir().cross(*n) * r.r(0.0, 3.0);
            let v = (vel - *n * approach + side).r32();
            let real = (vel - v).dot(*n);
            let t = if k == 0 { t1 } else { t1 + gap / real };
            t2 = t;
            let c = at + vel * t + *n * (rad + r2);
            let m2 = r.lr(0.1, 10.0);
            bodies.push(Body::new((c - v * t).r32()).vel(v).with(col(r, Col::sphere(Z, r2, m2))));
        } else {
            let real = vel.dot(*n);
            if real < 0.4 { return Ok(()); }
            let t = if k == 0 { t1 } else { t1 + gap / real };
            t2 = t;
            let n32 = (-*n).r32();
            bodies.push(Body::new((at + vel * t + *n * rad + n.cross(r.dir()) * 3.0).r32()).mass(f64::INFINITY).with(col(r, Col::plane(Z, n32, f64::INFINITY))));
        }
    }
    if t2 > 0.95 * dt { return Ok(()); }
    // the other two stay clear of each other
    for k in 0..=20 {
        let t = dt * k as f64 / 20.0;
        if body_gap(&bodies[1], bodies[1].pos + bodies[1].vel * t, bodies[1].q(), &bodies[2], bodies[2].pos + bodies[2].vel * t, bodies[2].q()) < 0.05 && (bodies[1].total_mass().is_finite() || bodies[2].total_mass().is_finite()) { return Ok(()); }
    }
    for i in 1..3 { if body_gap(&bodies[0], at, Q(1.0, Z), &bodies[i], bodies[i].pos, bodies[i].q()) < 1e-3 { return Ok(()); } }
    let w = World::new(bodies);
    let mut t = Map { m: M::diag(1.0, 1.0, 1.0), det: 1.0, turn: false, shift: Z, boost: Z, order: vec![0, 1, 2] };
    r.shuffle(&mut t.order);
    if r.p(0.3) { let (m, d) = signed_permutation(r); t.m = m; t.det = d; }
    if r.p(0.3) { t.shift = r.cube(5.0); }
    let tw = apply(&w, &t);
    ctx.log(|| format!("{} {:?}\n{}", show(&w, dt), t, show(&tw, dt)));
    let (a, b) = (run(&w, dt, 1), run(&tw, dt, 1));
    ensure!(a[0].r.len() == 1, "{} collisions with an iteration limit of one, of two that are due at {} and {}", a[0].r.len(), t1, t2);
    compare(&a, &b, &t, dt, 2e-3, &["two collisions close in time, in another order"], &mut |n, d| ctx.maxi(&format!("close calls: {}", n), d))?;
    ctx.count(if t2 - t1 < 1e-3 * t2 { "close calls within a thousandth" } else { "close calls compared" });
    let mut h = H::new(); h.v(a[0].r[0].p).f(t2); ctx.nontrivial(h.0);
    Ok(())
}
fn c27(ctx: &mut Ctx, r: &mut Rng, focus: u8) -> Res {
    if focus == 27 && r.p(0.2) { return close_calls(ctx, r); }
    let mut o = Opts::new();
    o.n = (2, 5); o.composite = r.p(0.6); o.statics = r.p(0.6); o.heavy = r.p(0.3); o.meshes = r.p(0.4); o.friction = r.p(0.6); o.spin = r.p(0.4);
    o.size = r.r(1.2, 2.5);
    let mut w = crowd(r, &o, 0.01);
    // without restitution bodies stay in touch, and rounding alone decides whether they touch again
    for b in w.bodies.iter_mut() { for c in b.cols.iter_mut() { if c.e < 0.4 { c.e = *r.pick(&[0.4f32 as f64, 1.0]); } } }
    w.iter_max = *r.pick(&[1, 3, 12]);
    if r.p(0.3) { w.gravity = Some(r.cube(8.0)); }
    let dt = r.lr(0.02, 0.5);
    let steps = 1 + r.below(if focus == 34 { 8 } else { 3 });
    let mut units = ONE;
    if focus == 34 {
        if r.p(0.3) { w.sleep = Some((r.lr(0.01, 100.0), r.r(0.0, 0.5) * dt * steps as f64)); }
        if r.p(0.3) { w.gust = Some((r.cube(9.0), r.cube(0.5), 30.0)); }
        while units == ONE {
            let l = *r.pick(&[0, 0, 1, 3, 6, 10]);
            let m = *r.pick(&[0, 0, -10, -3, 2, 10]);
            let t = *r.pick(&[0, 0, -6, -2, 1, 4]);
            units = Unit { l: 2f64.powi(l), m: 2f64.powi(m), t: 2f64.powi(t.min(l)) };
        }
    }
    let mut t = Map { m: M::diag(1.0, 1.0, 1.0), det: 1.0, turn: false, shift: Z, boost: Z, order: (0..w.bodies.len()).collect() };
    let mut names: Vec<&str> = Vec::new();
    if focus == 34 { names = [(units.l, "other length"), (units.m, "other mass"), (units.t, "other time")].iter().filter(|x| x.0 != 1.0).map(|x| x.1).collect(); }
    else { loop {
        match r.below(5) {
            0 => { let (m, d) = signed_permutation(r); t.m = m; t.det = d; t.turn = false; names.push(if d < 0.0 { "mirrored" } else { "axes permuted" }); }
            1 => { t.m = M::rot(Q::from_axis(r.dir() * r.r(0.1, 3.0))); t.det = 1.0; t.turn = true; names.push("turned"); }
            2 => { let s = *r.pick(&[1.0, 5.0, 10.0]); t.shift = r.cube(s); names.push("moved"); }
            3 => { let s = *r.pick(&[0.5, 5.0]); t.boost = r.cube(s); names.push("common velocity"); w.iter_max = 30; }
            _ => { r.shuffle(&mut t.order); names.push("other order"); }
        }
        if r.p(0.7) { break; }
    } }
    names.retain(|n| match *n { "mirrored" | "axes permuted" => !t.turn, "turned" => t.turn, _ => true });
    let a = run(&w, dt, steps);
    let hits: usize = a.iter().map(|f| f.r.len()).sum();
    if hits == 0 && r.p(0.8) { ctx.count("without a collision"); return Ok(()); }
    if t.boost.len() > 0.0 && a.iter().any(|f| f.r.len() >= w.iter_max as usize) { ctx.count("not judged: iteration limit reached"); return Ok(()); }
    let mut spread = 0.0f64;
    for _ in 0..8 {
        let p = perturbed(r, &w, 2e-5, true);
        match frames_differ(&a, &run(&p, dt, steps)) { Some(d) if d < 2e-3 => spread = spread.max(d), _ => { ctx.count("not judged: sensitive to rounding"); return Ok(()); } }
    }
    let mut tw = apply(&w, &t);
    tw.unit = units;
    let b = run(&tw, dt, steps);
    ctx.log(|| format!("{} {:?} {:?}\n{}", show(&w, dt), names, t, show(&tw, dt)));
    if ctx.verbose { for f in &a { eprintln!("first: {:?}", f.r); } for f in &b { eprintln!("second: {:?}", f.r); } }
    // friction can press bodies together again that have just been pushed apart; rounding decides how often they touch then
    for f in a.iter().chain(b.iter()) { for (x, y) in f.r.iter().zip(f.r.iter().skip(1)) { if same_pairs(&[x.clone()], &[y.clone()]) && y.t - x.t < 1e-3 * dt { ctx.count("not judged: touching repeatedly"); return Ok(()); } } }
    let tol = 2e-4 + 10.0 * spread;
    if let Err(e) = compare(&a, &b, &t, dt, tol, &names, &mut |n, d| ctx.maxi(n, d)) {
        // a second look: if any start next to one of the two agrees with the other, rounding decided
        ctx.count("second look");
        let step = [5e-6, 2e-5, 2e-5, 1e-4, 3e-4];
        let mut own = 0.0f64;
        for k in 0..200 {
            let d = step[k % 5];
            let q = run(&perturbed(r, &tw, d, true), dt, steps);
            if d < 5e-5 { if let Some(x) = frames_differ(&b, &q) { own = own.max(x); } }
            let p = run(&perturbed(r, &w, d, true), dt, steps);
            let close = tol * (d / 2e-5).max(1.0);
            if compare(&a, &q, &t, dt, close, &names, &mut |_, _| ()).is_ok() || compare(&p, &b, &t, dt, close, &names, &mut |_, _| ()).is_ok() || compare(&p, &q, &t, dt, close, &names, &mut |_, _| ()).is_ok() {
                ctx.count("not judged: sensitive to rounding at a second look");
                return Ok(());
            }
        }
        if compare(&a, &b, &t, dt, tol + 30.0 * own, &names, &mut |_, _| ()).is_ok() { ctx.count("not judged: sensitive to rounding at a second look"); return Ok(()); }
        // bodies that are in touch with two others at once collide at the start of a step, in the order they were added
        if names.contains(&"other order") { for (x, y) in a.iter().zip(b.iter()) {
            let back: Vec<Rec> = y.r.iter().map(|z| Rec { a: z.a.map(|i| t.order[i]), b: z.b.map(|i| t.order[i]), ..z.clone() }).collect();
            if let Some((p, q)) = x.r.iter().zip(back.iter()).find(|(p, q)| !same_pairs(&[(*p).clone()], &[(*q).clone()])) {
                if (p.t - q.t).abs() < 1e-3 * dt { ctx.count("not judged: simultaneous collisions"); return Ok(()); }
                break;
            }
        } }
        // bodies that overlap as a step starts (as the iteration limit left them) touch with several features at once
        let k = (0..a.len()).find(|k| compare(&a[..=*k], &b[..=*k], &t, dt, tol, &names, &mut |_, _| ()).is_err()).unwrap_or(0);
        if k > 0 && overlapping(&w, &a[k - 1]) && overlapping(&tw, &b[k - 1]) { ctx.count("not judged: overlapping as the step started"); return Ok(()); }
        return Err(e);
    }
    if focus == 34 {
        if a.iter().zip(b.iter()).all(|(x, y)| x.s.iter().zip(y.s.iter()).all(|(p, q)| p.pos == q.pos && p.vel == q.vel && p.ang == q.ang && p.q.0 == q.q.0)) {
            ctx.count("states equal to the bit");
            for (k, (x, y)) in a.iter().zip(b.iter()).enumerate() { for (i, (p, q)) in x.s.iter().zip(y.s.iter()).enumerate() {
                let same = |a: f64, b: f64, size: f64| a == b || (a - b).abs() <= 1e-5 * size;
                ensure!(same(p.mass, q.mass, p.mass) && same(p.own_mass, q.own_mass, p.own_mass), "step {}: the mass of body {} is {} ({} of its own), but {} ({}) with {:?}", k, i, p.mass, p.own_mass, q.mass, q.own_mass, names);
                ensure!(p.inertia.sub(q.inertia).norm() <= 1e-4 * p.inertia.norm() + 1e-10 * p.mass, "step {}: the inertia of body {} is {:?}, but {:?} with {:?}", k, i, p.inertia, q.inertia, names);
                let size = p.mass * p.vel.dot(p.vel) + p.inertia.norm() * p.ang.dot(p.ang);
                ensure!(same(p.energy, q.energy, 10.0 * size), "step {}: the energy of body {} is {}, but {} with {:?}", k, i, p.energy, q.energy, names);
            } }
        }
        if hits > 0 && o.friction && a[0].s.iter().any(|s| s.ang != Z) { ctx.count("spinning and rubbing"); }
        if a.iter().any(|f| f.s.iter().any(|s| s.asleep)) { ctx.count("with sleepers"); }
        if w.gravity.is_some() { ctx.count("with gravity"); }
        if w.gust.is_some() { ctx.count("with a limited force"); }
    }
    for n in names { ctx.count(&format!("{}: compared{}", n, if hits > 0 { " with collisions" } else { "" })); }
    if hits > 0 { let mut h = H::new(); for f in &a { for x in &f.r { h.v(x.p).f(x.t); } } ctx.nontrivial(h.0); }
    if ctx.case % 2003 == 3 { ctx.sample(|| show(&w, dt)); }
    Ok(())
}

// ---------------------------------------------------------------- C28
fn group(r: &mut Rng, at: V, floor: bool, fric: bool, e: f64) -> Vec<Body> {
    let mut out: Vec<Body> = Vec::new();
    let n = 2 + r.below(3);
    if !floor && r.p(0.7) { out.push(Body::new(at + V(0.0, -3.0, 0.0)).with(Col::bx(Z, V(-6.0, -1.0, -6.0), V(6.0, 1.0, 6.0), f64::INFINITY).e(e))); }
    if r.p(0.3) { let q = gen_rot(r); out.push(Body::new(at + V(2.5, -1.0, 0.0)).rot(q).with(Col::bx(Z, V(-0.7, -0.5, -0.6), V(0.7, 0.5, 0.6), f64::INFINITY).e(e))); }
    for _ in 0..n {
        let mut c = Col::sphere(Z, r.lr(0.2, 0.7), r.lr(0.2, 5.0)).e(e);
        if fric { c.mus = r.r(0.0, 1.0); c.mud = r.r(0.0, 1.0); c.thr = r.r(0.0, 1.0); }
        for _ in 0..50 {
            let p = at + V(r.r(-2.0, 2.0), r.r(-1.2, 2.0), r.r(-2.0, 2.0));
            let b = Body::new(p.r32()).vel(r.cube(3.0)).with(c.clone());
            if out.iter().all(|x| body_gap(&b, b.pos, b.q(), x, x.pos, x.q()) > 0.02) { out.push(b); break; }
        }
    }
    out
}
fn c28(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let floor = r.p(0.5);
    let fric = r.p(0.5);
    let e = *r.pick(&[0.0, 0.0, 0.3f32 as f64, 0.8f32 as f64, 1.0]);
    let ga = group(r, Z, floor, fric, e);
    let y = r.r(-1.0, 1.0);
    let gb = group(r, V(30.0, y, 0.0), floor, fric, e);
    let fl = if floor { let mut c = Col::plane(Z, V(0.0, 1.0, 0.0), f64::INFINITY).e(e); if fric { c.mus = 0.5; c.mud = 0.5; } vec![Body::new(V(0.0, -2.5, 0.0)).with(c)] } else { vec![] };
    let g = if r.p(0.8) { Some(V(0.0, -r.r(0.5, 10.0), 0.0)) } else { None };
    let sleep = if r.p(0.7) { Some((r.lr(1e-3, 0.3), r.r(0.05, 0.5))) } else { None };
    // a force that reaches one of the groups only
    let gust = if r.p(0.25) { Some((r.cube(3.0), r.cube(0.5), 15.0)) } else { None };
    if gust.is_some() { ctx.count("with a force on one group only"); }
    let mk = |b: Vec<Body>| World { bodies: b, gravity: g, iter_max: 100, sleep, gust, unit: ONE };
    let join = |a: &[Body], b: &[Body]| { let mut v = a.to_vec(); v.extend_from_slice(b); v };
    let (wa, wb) = (mk(join(&fl, &ga)), mk(join(&fl, &gb)));
    // interleaved at random, or one after the other
    let mut tags: Vec<(usize, usize)> = Vec::new();
    for i in 0..ga.len() { tags.push((0, i)); }
    for i in 0..gb.len() { tags.push((1, i)); }
    if r.p(0.6) {
        // keeps the order within each group
        let mut s: Vec<usize> = tags.iter().map(|t| t.0).collect();
        r.shuffle(&mut s);
        let (mut x, mut y) = (0, 0);
        tags = s.iter().map(|g| if *g == 0 { x += 1; (0, x - 1) } else { y += 1; (1, y - 1) }).collect();
    }
    let both = mk(join(&fl, &tags.iter().map(|t| if t.0 == 0 { ga[t.1].clone() } else { gb[t.1].clone() }).collect::<Vec<_>>()));
    let dt = *r.pick(&[1.0 / 60.0f32 as f64, 0.01f32 as f64, 0.05f32 as f64]);
    let steps = 20 + r.below(100);
    ctx.log(|| format!("{}\n{}", show(&wa, dt), show(&wb, dt)));
    let c = run(&both, dt, steps);
    let nf = fl.len();
    let mut compared = 0;
    let mut hit = [false, false];
    for (k, w) in [&wa, &wb].iter().enumerate() {
        let a = run(w, dt, steps);
        let ps: Vec<Vec<Frame>> = (0..4).map(|_| run(&perturbed(r, w, 1e-5, false), dt, steps)).collect();
        let idx: Vec<usize> = (0..nf).chain(tags.iter().enumerate().filter(|(_, t)| t.0 == k).map(|(i, _)| nf + i)).collect();
        let mut pushed = 0.0;
        'steps: for s in 0..steps {
            if c[s].r.iter().any(|x| { let (p, q) = x.pair(); p >= nf && q >= nf && tags[p - nf].0 != tags[q - nf].0 }) {
                // rightly so?
                let of = |g: usize| tags.iter().enumerate().filter(move |(_, t)| t.0 == g).map(|(i, _)| nf + i);
                let near = of(0).any(|p| of(1).any(|q| body_gap(&both.bodies[p], c[s].s[p].origin, c[s].s[p].q, &both.bodies[q], c[s].s[q].origin, c[s].s[q].q) < 0.01 + 2.0 * dt * (c[s].s[p].vel.len() + c[s].s[q].vel.len() + 20.0)));
                ensure!(near, "step {}: bodies of different groups collided, but none are near each other", s);
                ctx.count("stopped: the groups met");
                break;
            }
            pushed += a[s].r.iter().map(|x| x.j).sum::<f64>();
            if a[s].r.len() >= 100 || c[s].r.len() >= 100 { ctx.count("stopped: iteration limit reached"); break; }
            let mut spread = 0.0f64;
            for p in &ps { for i in 0..idx.len() {
                if p[s].s[i].asleep != a[s].s[i].asleep { ctx.count("stopped: sleep sensitive to rounding"); break 'steps; }
                spread = spread.max(differ(&p[s].s[i], &a[s].s[i]));
            } }
            if spread > 1e-2 { ctx.count("stopped: sensitive to rounding"); break; }
            let tol = 3e-4 + 10.0 * spread;
            for (i, j) in idx.iter().enumerate() {
                let (x, y) = (&a[s].s[i], &c[s].s[*j]);
                // contact points are rounded to the size of their coordinates, which turns into torque
                let lever = 1e-5 * pushed;
                let slack = if lever == 0.0 || x.mass.is_infinite() || x.inertia.norm() == 0.0 { 0.0 } else { x.inertia.inv().map(|i| lever * i.norm()).unwrap_or(f64::INFINITY) };
                let d = differ(&Snap { ang: y.ang, ..x.clone() }, y).max((x.ang - y.ang).len() / (1.0 + 0.1 * x.ang.len()) * tol / (tol + slack));
                if (d > tol || x.asleep != y.asleep) && i >= nf {
                    // a second look: how far do starts next to these two lead apart at this step?
                    ctx.count("second look");
                    let mut own = 0.0f64;
                    let mut slept = [false; 2];
                    for n in 0..60 {
                        let z = [3e-6, 1e-5, 3e-5, 1e-4][n % 4];
                        let p = run(&nudged(r, w, z), dt, s + 1);
                        own = own.max(differ(&p[s].s[i], x));
                        slept[p[s].s[i].asleep as usize] = true;
                        let p = run(&nudged(r, &both, z), dt, s + 1);
                        own = own.max(differ(&p[s].s[*j], y));
                        slept[p[s].s[*j].asleep as usize] = true;
                    }
                    // (a real influence of the other group shows in every run next to it, and in none without)
                    if x.asleep != y.asleep && slept[0] && slept[1] {
                        let with: Vec<bool> = (0..20).map(|n| run(&nudged(r, &both, [3e-6, 1e-5, 3e-5, 1e-4][n % 4]), dt, s + 1)[s].s[*j].asleep).collect();
                        let alone: Vec<bool> = (0..20).map(|n| run(&nudged(r, w, [3e-6, 1e-5, 3e-5, 1e-4][n % 4]), dt, s + 1)[s].s[i].asleep).collect();
                        let mixed = |v: &[bool]| v.iter().any(|a| *a != v[0]);
                        if mixed(&with) || mixed(&alone) { ctx.count("stopped: sleep sensitive to rounding at a second look"); break 'steps; }
                    }
                    if own > d / 3.0 { ctx.count("stopped: sensitive to rounding at a second look"); break 'steps; }
                }
                ctx.maxi("difference / tolerance", d / tol);
                ensure!(d <= tol, "step {}: body {} of group {} is at {:?} moving {:?} spinning {:?} alone, but at {:?} moving {:?} spinning {:?} next to the other group; tolerance {}", s, i, k, x.pos, x.vel, x.ang, y.pos, y.vel, y.ang, tol);
                ensure!(x.asleep == y.asleep || nf > 0 && i < nf, "step {}: body {} of group {} is {} alone, but {} next to the other group", s, i, k, if x.asleep { "asleep" } else { "awake" }, if y.asleep { "asleep" } else { "awake" });
                if x.asleep && i >= nf && x.mass.is_finite() { ctx.count("sleeper compared"); }
            }
            if !a[s].r.is_empty() { hit[k] = true; ctx.count("step with collisions compared"); }
            compared += 1;
        }
    }
    ctx.add("group step compared", compared);
    if hit[0] && hit[1] { ctx.count("collisions in both groups"); let mut h = H::new(); for b in &both.bodies { h.v(b.pos).v(b.vel); } ctx.nontrivial(h.0); }
    if ctx.case % 1003 == 3 { ctx.sample(|| show(&both, dt)); }
    Ok(())
}

// ---------------------------------------------------------------- C29
#[derive(Debug)]
struct Wind { v: V, k: f64 }
impl UnaryForceGenerator for Wind {
    fn make_force(&mut self, _dt: f32, ps: &PhysicsSystem, h: EntityHandle) -> Force {
        let e = ps.get_entity(h).expect("asked about an entity that is not there");
        let f = (self.v - V::of(&e.velocity)) * self.k;
        Force::new(f.to32(), (V::of(&e.position) + V(0.1, 0.0, 0.0)).to32())
    }
}
struct Two { a: Sys, b: Sys, free: Vec<(ColliderHandle, ColliderHandle)>, gens: Vec<(UnaryForceGeneratorHandle, UnaryForceGeneratorHandle)> }
fn c29(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let w = World::new(vec![]).iters(*r.pick(&[1, 5, 20])).sleep(*r.pick(&[-1.0, 0.01, 0.5]), *r.pick(&[0.0, 0.1, 0.5]));
    let mut t = Two { a: w.build(), b: w.build(), free: Vec::new(), gens: Vec::new() };
    let mut other = crowd(r, &Opts::new(), 0.01).iters(10).build();
    let mut o = Opts::new();
    o.statics = true; o.spin = r.p(0.5); o.friction = r.p(0.5); o.meshes = false; o.size = r.r(1.0, 2.5);
    // start from a crowd
    let mut pool = crowd(r, &o, 0.01).bodies;
    for b in pool.iter_mut() { b.cols.truncate(1); if r.p(0.1) { b.own_mass = f64::INFINITY; } if b.total_mass() == 0.0 { b.own_mass = 1.0; } }
    let n = 10 + r.below(51);
    let mut names: Vec<String> = Vec::new();
    for k in 0..n {
        let live = t.a.ents.len();
        let what: String;
        match r.below(16) {
            0 | 1 | 2 if !pool.is_empty() => {
                let b = pool.pop().unwrap();
                let (x, y) = (t.a.add(&b), t.b.add(&b));
                what = format!("add {:?}", b);
                ensure!(x == y, "adding an entity gave handle {:?} and {:?}", x, y);
                ensure!(t.a.cols.last() == t.b.cols.last(), "adding a collider gave handles {:?} and {:?}", t.a.cols.last(), t.b.cols.last());
            }
            3 => { let kk = r.below(5); let c = gen_col(r, kk); what = format!("add {:?}", c); let (x, y) = (t.a.ps.add_collider(c.wrapper()).ok(), t.b.ps.add_collider(c.wrapper()).ok()); ensure!(x == y && x.is_some(), "adding a collider gave {:?} and {:?}", x, y); t.free.push((x.unwrap(), y.unwrap())); }
            4 if live > 0 => {
                let i = r.below(live);
                what = format!("unlink or link collider of {}", i);
                if t.a.cols[i].is_empty() { if let Some((x, y)) = t.free.pop() { ensure!(t.a.ps.link_collider(x, Some(t.a.ents[i])) == t.b.ps.link_collider(y, Some(t.b.ents[i])), "linking gave different results"); t.a.cols[i].push(x); t.b.cols[i].push(y); } }
                else { let (x, y) = (t.a.cols[i].pop().unwrap(), t.b.cols[i].pop().unwrap()); ensure!(t.a.ps.link_collider(x, None) == t.b.ps.link_collider(y, None), "unlinking gave different results"); t.free.push((x, y)); }
            }
            5 if live > 0 && r.p(0.3) => {
                let i = r.below(live);
                what = format!("remove entity {}", i);
                let (x, y) = (t.a.ents.remove(i), t.b.ents.remove(i));
                t.a.ps.remove_entity(x); t.b.ps.remove_entity(y);
                let (x, y) = (t.a.cols.remove(i), t.b.cols.remove(i));
                for (p, q) in x.into_iter().zip(y.into_iter()) { let (u, v) = (t.a.ps.get_collider(p).is_some(), t.b.ps.get_collider(q).is_some()); ensure!(u == v, "after removing an entity its collider is there in one system only"); if u { t.free.push((p, q)); } }
            }
            6 | 7 if live > 0 => {
                let i = r.below(live);
                let (p, v, m) = (r.cube(3.0), r.cube(5.0), r.lr(0.1, 10.0));
                let sel = r.below(5);
                what = format!("edit {} ({})", i, sel);
                let f = |e: &mut Entity| match sel { 0 => e.position = p.to32(), 1 => e.velocity = v.to32(), 2 => e.rotation = v.to32(), 3 => e.angular_velocity = p.to32(), _ => e.own_mass = m as f32 };
                t.a.set(i, f); t.b.set(i, f);
            }
            8 if live > 0 => {
                let i = r.below(live);
                what = format!("new collider for {}", i);
                if let (Some(x), Some(y)) = (t.a.cols[i].get(0), t.b.cols[i].get(0)) { let kk = 1 + r.below(4); let c = gen_col(r, kk); let (u, v) = (t.a.ps.update_collider(*x, c.wrapper()).is_ok(), t.b.ps.update_collider(*y, c.wrapper()).is_ok()); ensure!(u == v, "updating a collider gave different results"); }
            }
            9 | 10 if t.gens.len() < 5 && r.p(0.8) => {
                let (v, kk) = (r.cube(5.0), r.r(0.0, 1.0));
                let g = r.p(0.5);
                what = format!("add force {:?} {}", v, g);
                let mk = || -> Box<dyn UnaryForceGenerator> { if g { Box::new(GravityGenerator::new(v.to32())) } else { Box::new(Wind { v, k: kk }) } };
                let (x, y) = (t.a.ps.add_unary_force_generator(mk()).ok(), t.b.ps.add_unary_force_generator(mk()).ok());
                ensure!(x == y && x.is_some(), "adding a force generator gave {:?} and {:?}", x, y);
                t.gens.push((x.unwrap(), y.unwrap()));
                if t.gens.len() > 2 { ctx.count("three or more generators"); }
            }
            10 if !t.gens.is_empty() && r.p(0.5) => { let i = r.below(t.gens.len()); let (x, y) = t.gens.remove(i); what = "remove force".into(); t.a.ps.remove_unary_force_generator(x); t.b.ps.remove_unary_force_generator(y); }
            _ => {
                let dt = *r.pick(&[1.0 / 60.0, 0.1, 0.3, 1e-7]);
                what = format!("step {}", dt);
                t.a.step(dt);
                if r.p(0.3) { other.step(0.1); }
                t.b.step(dt);
                ctx.count("step compared");
            }
        }
        ctx.log(|| what.clone());
        names.push(what);
        // reads must not matter
        if r.p(0.3) { for e in t.b.ents.clone() { let x = t.b.ps.get_entity(e); drop(x); } for c in t.b.cols.clone().iter().flat_map(|c| c.iter()) { drop(t.b.ps.get_collider(*c)); } }
        let (x, y) = (t.a.snaps(), t.b.snaps());
        for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
            ensure!(p.bits == q.bits, "call {} ({}): entity {} differs between two identical histories: {:?} and {:?}", k, names.last().unwrap(), i, p, q);
        }
        let (ra, rb) = (&t.a.ps.collision_records, &t.b.ps.collision_records);
        ensure!(ra.len() == rb.len(), "call {} ({}): {} and {} records after two identical histories", k, names.last().unwrap(), ra.len(), rb.len());
        for (p, q) in ra.iter().zip(rb.iter()) {
            ensure!(p.first_entity == q.first_entity && p.second_entity == q.second_entity && bits(&p.position) == bits(&q.position) && bits(&p.normal) == bits(&q.normal) && p.time.to_bits() == q.time.to_bits() && p.impulse_magnitude.to_bits() == q.impulse_magnitude.to_bits() && p.restitution_coefficient.to_bits() == q.restitution_coefficient.to_bits(),
                "call {} ({}): records differ between two identical histories", k, names.last().unwrap());
        }
        if !ra.is_empty() { ctx.count("record compared"); let mut h = H::new(); for s in &x { h.v(s.pos).v(s.vel); } ctx.nontrivial(h.0); }
        if x.iter().any(|s| s.asleep) { ctx.count("with sleepers"); }
    }
    Ok(())
}
