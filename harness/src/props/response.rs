//! C15-C21: which collision is handled, and what it does.
use crate::crowd::*;
use crate::ctx::*;
use crate::geo::*;
use crate::m::*;
use crate::rng::Rng;
use crate::world::*;
use super::contact::{show, EPS32};

pub fn props() -> Vec<Prop> {
    let assume: &'static [&'static str] = &["bodies about 2 across within about 10 units, masses 0.1 to 20, speeds up to 10 (more after collisions), dt up to 0.5; in other units also up to 1024 times as large, with masses 1/1024 to 1024 times as large", "impulse laws are judged on steps limited to one collision, where the pose after the step is the pose at the collision", "bodies whose inertia about one axis is between 1e-6 and 1e-4 of that about another are not judged for turning; below, they count as having none about it, and take up no angular momentum about it"];
    vec![
        Prop { id: "C15", quick: 90000, thorough: 4500000, rule: "Each case places 2-9 bodies (spheres, composites of spheres, meshes, planes, heavy solids) apart in random insertion order, flying at each other, and compares the first record of a one-collision step with the contact times of all pairs. Non-trivial: at least one contact - distinct by scene.", assume, min: &[("contact judged", 100), ("several contacts in the step", 60), ("no contact judged", 150), ("a composite body in the earliest contact", 70), ("a mesh in the earliest contact", 12), ("a plane in the earliest contact", 10), ("a spinning body in the earliest contact", 10), ("large world", 60)], hang_violates: false, run: c15 },
        Prop { id: "C16", quick: 80000, thorough: 4000000, rule: "Each case runs 3-20 steps of 2-7 finite bodies (spheres, composites, meshes; spins, friction, any restitution) and sums momenta before and after each. Non-trivial: a step with a collision - distinct by state.", assume, min: &[("collision judged", 500), ("angular momentum judged", 250), ("off-centre impulse", 200), ("friction involved", 250), ("steps with several collisions", 50), ("a rod involved", 40), ("large world", 80)], hang_violates: false, run: c16 },
        Prop { id: "C17", quick: 150000, thorough: 7500000, rule: "Each case runs 3-12 one-collision steps of frictionless bodies among statics and heavy movers and judges the impulse of every collision from the velocities around it. Non-trivial: a collision - distinct by state.", assume, min: &[("collision judged", 250), ("e = 1", 45), ("0 < e < 1", 90), ("e = 0", 100), ("against infinite mass", 120), ("off-centre impulse", 120), ("mesh involved", 35), ("box involved", 30), ("slow collision (below 0.01)", 30), ("a rod involved", 20), ("large world", 80)], hang_violates: false, run: |c, r| impulse(c, r, 17) },
        Prop { id: "C18", quick: 150000, thorough: 7500000, rule: "Each case runs 3-12 one-collision steps of bodies with random static and dynamic friction coefficients and splits the impulse of every collision, taken from the velocities around it, into normal and friction part. Non-trivial: a collision with slip and friction - distinct by state.", assume, min: &[("collision judged", 250), ("sliding friction", 80), ("friction stops the slip", 30), ("zero coefficient", 70), ("against infinite mass", 120), ("static by the threshold", 15), ("dynamic by the threshold", 30), ("slow collision (below 0.01)", 30), ("a rod involved", 20), ("large world", 80)], hang_violates: false, run: |c, r| impulse(c, r, 18) },
        Prop { id: "C19", quick: 50000, thorough: 2500000, rule: "Each case runs 5-40 steps of finite bodies thrown, with gravity, at planes, boxes, meshes and spheres of infinite mass, at rest or moving and spinning, some overlapping each other. Non-trivial: a step in which something hit an infinite mass - distinct by state.", assume, min: &[("hit on an infinite mass", 2000), ("hit on an infinite mass of its own", 400), ("hit on a moving infinite mass", 120), ("infinite masses overlapping", 130), ("stop judged", 280), ("plane passage judged", 8000), ("large world", 80)], hang_violates: false, run: c19 },
        Prop { id: "C20", quick: 150000, thorough: 7500000, rule: "Each case runs 3-15 steps of 2-7 bodies with iteration limits 0 to 10 and judges every record, and in frictionless worlds the velocities against the recorded impulses; in some the bodies are then removed one by one with a step after each. Non-trivial: a step with a record - distinct by state.", assume, min: &[("record judged", 400), ("several records in a step", 60), ("limit reached", 600), ("impulses account for velocities", 350), ("tiny step keeps records", 300), ("contact point judged", 80), ("step after a removal", 1000), ("large world", 80)], hang_violates: false, run: c20 },
        Prop { id: "C21", quick: 200000, thorough: 10000000, rule: "Each case runs 2-10 steps of 2-7 bodies with 1-3 bodies without colliders as clocks, iteration limits 0 to 10, and replays every body's path from the records. Non-trivial: a step with a record - distinct by state.", assume, min: &[("whole step", 1500), ("limit reached", 130), ("limit zero", 280), ("path replayed through a collision", 300), ("turning clock", 2700), ("large world", 80)], hang_violates: false, run: c21 },
    ]
}

fn scene(r: &mut Rng, o: &Opts) -> World { crowd(r, o, 0.01) }
fn dt_of(r: &mut Rng) -> f64 { match r.below(8) { 0 => 1.0 / 60.0f32 as f64, 1 => r.lr(1e-3, 0.05), _ => r.lr(0.05, 0.5) } }

/// sometimes the same scene runs much slower or faster: what happens must not depend on it (contacts slower than 1e-6 are no contacts)
fn pace(r: &mut Rng, w: &mut World, p: f64) -> f64 {
    if !r.p(p) { return 1.0; }
    let k = if r.p(0.85) { r.lr(1e-3, 0.3) } else { r.lr(1.0, 30.0) };
    for b in w.bodies.iter_mut() { b.vel = (b.vel * k).r32(); b.ang = (b.ang * k).r32(); }
    if let Some(g) = w.gravity { w.gravity = Some((g * (k * k)).r32()); }
    1.0 / k
}

// ---------------------------------------------------------------- C15
fn c15(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut o = Opts::new();
    o.n = (2, 6); o.composite = true; o.statics = true; o.heavy = true; o.meshes = true;
    o.size = r.r(1.2, 3.0);
    let mut w = scene(r, &o);
    let dt = if r.p(0.15) { dt_of(r) } else { r.lr(0.1, 2.0) } * pace(r, &mut w, 0.2);
    let nb = w.bodies.len();
    // a sphere that turns about its own centre is where it would be without turning
    if r.p(0.4) { for b in w.bodies.iter_mut() { if b.cols.len() == 1 && r.p(0.6) { if let Shape::Sphere { .. } = b.cols[0].shape { if b.cols[0].mass > 0.0 && b.cols[0].mass.is_finite() { b.ang = (r.cube(3.0) * (1.0 / dt).min(10.0)).r32(); } } } } }
    let tol_of = |i: usize, j: usize| {
        let (a, b) = (&w.bodies[i], &w.bodies[j]);
        let d = (a.pos - b.pos).len() + (a.vel - b.vel).len() * dt + 3.0;
        let far = if is_plane(a) || is_plane(b) { 0.0 } else { d };
        1e-4 + 40.0 * EPS32 * far * far / 0.1 + 20.0 * EPS32 * (a.pos.len() + b.pos.len() + d + 5.0)
    };
    // all pairs of colliders
    struct P { i: usize, j: usize, a: G, b: G, d: V, s: Sweep, tol: f64 }
    let mut pairs: Vec<P> = Vec::new();
    for i in 0..nb { for j in i + 1..nb {
        let (x, y) = (&w.bodies[i], &w.bodies[j]);
        if x.total_mass().is_infinite() && y.total_mass().is_infinite() { continue; }
        let d = (x.vel - y.vel) * dt;
        for a in 0..x.cols.len() { for b in 0..y.cols.len() {
            if let (Some(ga), Some(gb)) = (x.geo0(a), y.geo0(b)) {
                let solid = |g: &G| match g { G::Poly(_) | G::Obb(..) => true, _ => false };
                if solid(&ga) && solid(&gb) {
                    // mesh against mesh has no oracle here: require that their bounding balls stay apart
                    let far = (x.pos - y.pos).len() - d.len() - 3.5;
                    if far < 0.0 && !(matches_box(&ga) || matches_box(&gb)) { ctx.count("gray: meshes near each other"); return Ok(()); }
                    continue;
                }
                if let Some(s) = sweep2(&ga, &gb, d) { pairs.push(P { i, j, a: ga, b: gb, d, s, tol: tol_of(i, j) }); }
            }
        } }
    } }
    for p in &pairs {
        if p.s.gap0 < p.tol { ctx.count("gray: touching at the start"); return Ok(()); }
        if p.s.min_gap <= p.tol && p.s.min_gap > -2.0 * p.tol { ctx.count("gray: grazing"); return Ok(()); }
    }
    let hits: Vec<&P> = pairs.iter().filter(|p| p.s.first.is_some() && p.s.min_gap < 0.0).collect();
    super::contact::unit(ctx, r, &mut w, dt, 0);
    let mut sys = w.build();
    sys.step(dt);
    let recs = sys.recs();
    ctx.log(|| format!("{}\nhits {:?}\nrecords {:?}", show(&w, dt), hits.iter().map(|h| (h.i, h.j, h.s.first.unwrap() * dt)).collect::<Vec<_>>(), recs));
    let t = if hits.is_empty() {
        ensure!(recs.is_empty(), "nothing comes into contact, yet a collision was recorded: {:?}", recs[0]);
        ctx.count("no contact judged");
        dt
    } else {
        ensure!(!recs.is_empty(), "bodies {} and {} run into each other at {}, but no collision was handled", hits[0].i, hits[0].j, hits[0].s.first.unwrap() * dt);
        let rec = &recs[0];
        let x = rec.t / dt;
        ensure!(x >= -1e-6 && x <= 1.0 + 1e-5, "first record at {} in a step of {}", rec.t, dt);
        // nothing overlaps before the recorded time
        for p in &hits {
            let f = p.s.first.unwrap();
            if f >= x { continue; }
            for k in 0..64 {
                let y = f + (x - f) * (k as f64 + 1.0) / 64.0;
                let g = gap(&p.a, &p.b, p.d * y).unwrap();
                ensure!(g > -p.tol, "the first record is of bodies {:?} at {}, but bodies {} and {} run into each other at {} already (overlap {} by {})", rec.pair(), rec.t, p.i, p.j, f * dt, -g, y * dt);
            }
        }
        // and the recorded pair touches then
        let (a, b) = rec.pair();
        let g = pairs.iter().filter(|p| (p.i, p.j) == (a, b) || (p.j, p.i) == (a, b)).map(|p| (gap(&p.a, &p.b, p.d * x).unwrap() / p.tol).abs()).fold(f64::INFINITY, f64::min);
        ctx.maxi("|gap of the recorded pair| / tolerance", g);
        ensure!(g <= 1.0, "the first record is of bodies {:?} at {}, where their gap is {} tolerances", rec.pair(), rec.t, g);
        ctx.count("contact judged");
        if hits.len() > 1 { ctx.count("several contacts in the step"); }
        if w.bodies[a].ang != Z || w.bodies[b].ang != Z { ctx.count("a spinning body in the earliest contact"); }
        let has = |f: &dyn Fn(&Col) -> bool| w.bodies[a].cols.iter().any(|c| f(c)) || w.bodies[b].cols.iter().any(|c| f(c));
        if w.bodies[a].cols.len() > 1 || w.bodies[b].cols.len() > 1 { ctx.count("a composite body in the earliest contact"); }
        if has(&|c| if let Shape::Mesh { .. } = c.shape { true } else { false }) { ctx.count("a mesh in the earliest contact"); }
        if has(&|c| if let Shape::Plane { .. } = c.shape { true } else { false }) { ctx.count("a plane in the earliest contact"); }
        let mut h = H::new(); for b in &w.bodies { h.v(b.pos).v(b.vel); } ctx.nontrivial(h.0);
        rec.t
    };
    for i in 0..nb {
        let b = &w.bodies[i];
        let got = sys.snap(i);
        let (want, at) = match (&b.cols[..], b.ang != Z) { ([c], true) => (b.pos + b.q().rot(c.com()) + b.vel * t, got.pos), _ => (b.pos + b.vel * t, got.origin) };
        ensure!((at - want).len() < 2e-4, "body {} should be at {:?} at {}, is at {:?}", i, want, t, at);
    }
    if ctx.case % 2003 == 3 { ctx.sample(|| format!("{} -> {:?}", show(&w, dt), recs)); }
    Ok(())
}
fn matches_box(g: &G) -> bool { if let G::Obb(..) = g { true } else { false } }

// ---------------------------------------------------------------- impulses
fn inv_mass(s: &Snap) -> f64 { if s.mass.is_finite() { 1.0 / s.mass } else { 0.0 } }
/// change of relative velocity at the contact per unit impulse
fn kmat(a: &Snap, ia: &M, ra: V, b: &Snap, ib: &M, rb: V) -> M {
    let cr = |r: V| M([[0.0, -r.2, r.1], [r.2, 0.0, -r.0], [-r.1, r.0, 0.0]]);
    let one = M::diag(1.0, 1.0, 1.0);
    let f = |s: &Snap, i: &M, r: V| one.scale(inv_mass(s)).sub(cr(r).mul(*i).mul(cr(r)));
    f(a, ia, ra).add(f(b, ib, rb))
}
fn point_vel(v: V, w: V, r: V) -> V { v + w.cross(r) }

fn c16(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut o = Opts::new();
    o.composite = true; o.spin = true; o.meshes = true; o.friction = r.p(0.7);
    o.size = r.r(1.2, 3.0);
    let mut w = scene(r, &o);
    let single = r.p(0.6);
    w.iter_max = if single { 1 } else { 2 + r.below(8) as u8 };
    let dt = dt_of(r) * pace(r, &mut w, 0.2);
    super::contact::unit(ctx, r, &mut w, dt, 0);
    let mut sys = w.build();
    let steps = 3 + r.below(18);
    ctx.log(|| show(&w, dt));
    let about = r.cube(5.0);
    for k in 0..steps {
        let s0 = sys.snaps();
        sys.step(dt);
        let s1 = sys.snaps();
        let recs = sys.recs();
        if s1.iter().any(|s| !s.pos.finite() || !s.vel.finite() || !s.ang.finite()) { ctx.count("non-finite (left to C25)"); return Ok(()); }
        let size: f64 = s0.iter().chain(s1.iter()).map(|s| s.mass * s.vel.len()).sum();
        let jsum: f64 = recs.iter().map(|x| x.j).sum();
        let dp = (momentum(&s1) - momentum(&s0)).len();
        let tol = 2e-6 * (size + jsum) + 1e-9;
        ctx.maxi("momentum error / tolerance", dp / tol);
        ctx.log(|| format!("step {}: {:?}", k, recs));
        ensure!(dp <= tol, "step {} changed the total momentum by {} (sum of m|v| {}) in {} collisions: {:?}", k, dp, size, recs.len(), recs);
        if recs.is_empty() { continue; }
        ctx.add("collision judged", recs.len() as u64);
        if recs.len() > 1 { ctx.count("steps with several collisions"); }
        let mut h = H::new(); for s in &s0 { h.v(s.pos).v(s.vel); } ctx.nontrivial(h.0);
        if o.friction { ctx.count("friction involved"); }
        if !single { continue; }
        let (a, b) = recs[0].pair();
        for i in 0..s0.len() { if i != a && i != b { ensure!(s0[i].vel == s1[i].vel && s0[i].ang == s1[i].ang, "a collision of bodies {:?} changed the velocity of body {}", (a, b), i); } }
        if let (Some(ia), Some(ib)) = (inv_inertia(&s1[a]), inv_inertia(&s1[b])) {
            let l = |i: usize, s: &Snap| (s1[i].pos - about).cross(s.vel * s.mass) + s1[i].inertia.app(s.ang);
            // bodies without inertia about some axis take up no angular momentum about it
            let lost: V = [(a, &ia), (b, &ib)].iter().map(|(i, iv)| { let s = &s1[*i]; no_inertia(s, iv).app((recs[0].p - s.pos).cross((s.vel - s0[*i].vel) * s.mass)) }).fold(Z, |x, y| x + y);
            let dl = (l(a, &s1[a]) + l(b, &s1[b]) - l(a, &s0[a]) - l(b, &s0[b]) + lost).len();
            let arm = (s1[a].pos - about).len() + (s1[b].pos - about).len() + 2.0;
            let spin: f64 = [a, b].iter().map(|i| s1[*i].inertia.norm() * (s0[*i].ang.len() + s1[*i].ang.len())).sum();
            let cond: f64 = [(a, &ia), (b, &ib)].iter().map(|(i, iv)| s1[*i].inertia.norm() * iv.norm()).sum();
            let mv: f64 = [a, b].iter().map(|i| s0[*i].mass * (s0[*i].vel.len() + s1[*i].vel.len())).sum();
            let tol = 2e-6 * arm * (mv + recs[0].j) + 2e-6 * spin + 1e-6 * cond * recs[0].j * 2.0 + 1e-8;
            ctx.maxi("angular momentum error / tolerance", dl / tol);
            ensure!(dl <= tol, "the collision {:?} changed the angular momentum about {:?} by {} (tolerance {})", recs[0], about, dl, tol);
            ctx.count("angular momentum judged");
            if is_rod(&s1[a], &ia) || is_rod(&s1[b], &ib) { ctx.count("a rod involved"); }
            if s1[a].inertia.norm() == 0.0 || s1[b].inertia.norm() == 0.0 { ctx.count("a point mass involved"); }
            let j = (s1[a].vel - s0[a].vel) * s1[a].mass;
            if (recs[0].p - s1[a].pos).cross(j).len() > 0.05 * j.len() || (recs[0].p - s1[b].pos).cross(j).len() > 0.05 * j.len() { ctx.count("off-centre impulse"); }
        } else { ctx.count("gray: ill-conditioned inertia"); }
    }
    Ok(())
}

/// C17 and C18: the impulse of each collision
fn impulse(ctx: &mut Ctx, r: &mut Rng, focus: u8) -> Res {
    let mut o = Opts::new();
    o.n = (2, 5); o.composite = r.p(0.6); o.spin = true; o.meshes = r.p(0.4); o.statics = r.p(0.8); o.heavy = true; o.friction = focus == 18;
    o.size = r.r(1.2, 3.0);
    if r.p(0.3) { o.e = Some(*r.pick(&[0.0, 1.0, 1.0])); }
    let mut w = scene(r, &o);
    if focus == 17 && r.p(0.5) {
        // one side rough is still frictionless: make all pairs meet a smooth one by giving everything one kind of coefficient each
        for b in w.bodies.iter_mut() { for c in b.cols.iter_mut() { c.mus = 0.0; c.mud = 0.0; } }
        let k = r.below(w.bodies.len());
        for c in w.bodies[k].cols.iter_mut() { c.mus = r.r(0.0, 1.0); c.mud = r.r(0.0, 1.0); }
    }
    w.iter_max = 1;
    let dt = dt_of(r) * pace(r, &mut w, 0.25);
    super::contact::unit(ctx, r, &mut w, dt, 0);
    let mut sys = w.build();
    let steps = 3 + r.below(10);
    ctx.log(|| show(&w, dt));
    for k in 0..steps {
        let s0 = sys.snaps();
        sys.step(dt);
        let s1 = sys.snaps();
        let recs = sys.recs();
        if s1.iter().any(|s| !s.pos.finite() || !s.vel.finite() || !s.ang.finite()) { ctx.count("non-finite (left to C25)"); return Ok(()); }
        if s1.iter().any(|s| s.ang.len() * dt > 1.5) { ctx.count("stopped: turning too fast for linearized contacts"); return Ok(()); }
        if recs.is_empty() { continue; }
        let rec = &recs[0];
        let (a, b) = rec.pair();
        if a >= s0.len() || b >= s0.len() { return Ok(()); } // C20's
        let (ia, ib) = match (inv_inertia(&s1[a]), inv_inertia(&s1[b])) { (Some(x), Some(y)) => (x, y), _ => { ctx.count("gray: ill-conditioned inertia"); continue; } };
        let n = rec.n;
        let (ra, rb) = (rec.p - s1[a].pos, rec.p - s1[b].pos);
        let u0 = point_vel(s0[a].vel, s0[a].ang, ra) - point_vel(s0[b].vel, s0[b].ang, rb);
        let u1 = point_vel(s1[a].vel, s1[a].ang, ra) - point_vel(s1[b].vel, s1[b].ang, rb);
        let km = kmat(&s1[a], &ia, ra, &s1[b], &ib, rb);
        // the impulse on a, from whichever is finite (the lighter is more precise)
        let ja = (s1[a].vel - s0[a].vel) * s1[a].mass;
        let jb = (s1[b].vel - s0[b].vel) * -s1[b].mass;
        let j = if s1[a].mass.is_infinite() { jb } else if s1[b].mass.is_infinite() || s1[a].mass < s1[b].mass { ja } else { jb };
        let v_scale: f64 = [(a, ra), (b, rb)].iter().map(|(i, rr)| s0[*i].vel.len() + s1[*i].vel.len() + (s0[*i].ang.len() + s1[*i].ang.len()) * (rr.len() + s1[*i].pos.len() * 0.05)).sum();
        let cond = [(&s1[a], &ia), (&s1[b], &ib)].iter().map(|(s, i)| if s.mass.is_finite() { s.inertia.norm() * i.norm() } else { 0.0 }).fold(1.0, f64::max);
        let vt = 1e-5 * v_scale * (1.0 + cond * 0.02) + 1e-7;
        // rounding of the impulse as read from velocities
        let mm = if s1[a].mass.is_infinite() { s1[b].mass } else if s1[b].mass.is_infinite() { s1[a].mass } else { s1[a].mass.min(s1[b].mass) };
        let jt = 2e-6 * mm * v_scale + 1e-6 * j.len() + 1e-9;
        let jn = j.dot(-n);
        let jf = j + n * jn;
        let un0 = u0.dot(n);
        ctx.log(|| format!("step {}: {:?} u0 {:?} u1 {:?} J {:?}", k, rec, u0, u1, j));
        ctx.count("collision judged");
        if un0.abs() < 0.01 { ctx.count("slow collision (below 0.01)"); }
        let inf = s1[a].mass.is_infinite() || s1[b].mass.is_infinite();
        if inf { ctx.count("against infinite mass"); }
        if is_rod(&s1[a], &ia) || is_rod(&s1[b], &ib) { ctx.count("a rod involved"); }
        let has = |f: &dyn Fn(&Col) -> bool| w.bodies[a].cols.iter().any(|c| f(c)) || w.bodies[b].cols.iter().any(|c| f(c));
        if has(&|c| if let Shape::Mesh { .. } = c.shape { true } else { false }) { ctx.count("mesh involved"); }
        if has(&|c| if let Shape::Box { .. } = c.shape { true } else { false }) { ctx.count("box involved"); }
        if ra.cross(n).len() > 0.05 && s1[a].mass.is_finite() || rb.cross(n).len() > 0.05 && s1[b].mass.is_finite() { ctx.count("off-centre impulse"); }
        // energies make sense against infinite masses at rest only
        let still = [a, b].iter().all(|i| s1[*i].mass.is_finite() || (s1[*i].vel == Z && s1[*i].ang == Z));
        let ke = |s: &[Snap]| [a, b].iter().filter(|i| s1[**i].mass.is_finite()).map(|i| 0.5 * s[*i].mass * s[*i].vel.dot(s[*i].vel) + 0.5 * s1[*i].inertia.app(s[*i].ang).dot(s[*i].ang)).sum::<f64>();
        // a spin about an axis without inertia holds no energy and is not changed: whatever pushes against it is done work on
        let driven: f64 = [(a, &ia), (b, &ib)].iter().map(|(i, iv)| if s1[*i].mass.is_finite() { let s = &s1[*i]; no_inertia(s, iv).app((rec.p - s.pos).cross((s.vel - s0[*i].vel) * s.mass)).dot((s.ang + s0[*i].ang) * 0.5) } else { 0.0 }).sum();
        let (e0, e1) = (ke(&s0), ke(&s1) + driven);
        let et = 2e-5 * (e0.abs() + e1.abs() + driven.abs()) * (1.0 + cond * 0.05) + 1e-9;
        // the products of coefficients that apply: those of some pair of colliders of the two
        let prods = |f: &dyn Fn(&Col) -> f64| -> Vec<f64> { let mut v = Vec::new(); for x in &w.bodies[a].cols { for y in &w.bodies[b].cols { if x.geo_like() && y.geo_like() { v.push((f(x) as f32 * f(y) as f32) as f64); } } } v };
        if focus == 17 {
            let es = prods(&|c| c.e);
            ensure!(es.iter().any(|e| (e - rec.e).abs() < 1e-6), "the record's restitution {} is not a product of the colliders' {:?}", rec.e, es);
            let e = rec.e;
            let want = -e * un0;
            ctx.maxi("normal velocity error / tolerance", (u1.dot(n) - want).abs() / vt);
            ensure!((u1.dot(n) - want).abs() <= vt, "approach speed {} became {}, should be {} (e = {})", un0, u1.dot(n), want, e);
            ctx.maxi("tangential impulse / tolerance", jf.len() / jt);
            ensure!(jf.len() <= jt, "frictionless, but the impulse {:?} has a part {:?} along the surface (normal {:?})", j, jf, n);
            ensure!(jn >= -jt, "the impulse {:?} pulls the bodies together (normal {:?})", j, n);
            for (i, iv, rr, sg) in &[(a, &ia, ra, 1.0), (b, &ib, rb, -1.0)] {
                if s1[*i].mass.is_infinite() { continue; }
                let dw = iv.app(rr.cross(j * *sg));
                let arm = rr.len() + 0.05;
                let tol = 1e-6 * (s0[*i].ang.len() + s1[*i].ang.len()) + iv.norm() * ((jt + 1e-5 * cond * 0.02 * j.len()) * arm + 2e-6 * j.len() * (1.0 + s1[*i].pos.len())) + 1e-7;
                let err = (s1[*i].ang - s0[*i].ang - dw).len();
                ctx.maxi("spin error / tolerance", err / tol);
                ensure!(err <= tol, "the impulse {:?} at {:?} should change the spin of body {} by {:?}, it changed by {:?}", j, rr, i, dw, s1[*i].ang - s0[*i].ang);
            }
            if still {
                ensure!(e1 <= e0 + et, "the collision raised the kinetic energy from {} to {}", e0, e1);
                if e == 1.0 { ensure!((e1 - e0).abs() <= et, "restitution 1 but the kinetic energy went from {} to {}", e0, e1); }
            }
            ctx.count(if e == 1.0 { "e = 1" } else if e == 0.0 { "e = 0" } else { "0 < e < 1" });
            let mut h = H::new(); h.v(s0[a].pos).v(s0[b].pos).v(u0); ctx.nontrivial(h.0);
        } else {
            let (ps, pd) = (prods(&|c| c.mus), prods(&|c| c.mud));
            // the pair of colliders is known when just one pair has the recorded restitution; else any combination may apply
            let (es, ts) = (prods(&|c| c.e), prods(&|c| c.thr));
            let cand: Vec<usize> = (0..es.len()).filter(|i| (es[*i] - rec.e).abs() < 1e-6).collect();
            ensure!(!cand.is_empty(), "the record's restitution {} is not a product of the colliders' {:?}", rec.e, es);
            let mut lo = cand.iter().map(|i| ps[*i].min(pd[*i])).fold(f64::INFINITY, f64::min);
            let mut hi = cand.iter().map(|i| ps[*i].max(pd[*i])).fold(0.0, f64::max);
            // slip after the normal impulse, before friction
            let un = u0 - km.app(n) * jn;
            let _ = un;
            let kn = n.dot(km.app(n));
            if kn <= 0.0 { continue; }
            // the normal part of the response follows from restitution alone
            let jn0 = (1.0 + rec.e) * un0 / kn;
            let slip_after = u0 - km.app(n) * jn0;
            let slip = slip_after - n * slip_after.dot(n);
            // friction impulse on a: the rest
            let f = j + n * jn0;
            let ft = 4.0 * jt + 3e-5 * (1.0 + cond * 0.02) * jn0.abs();
            ensure!(f.dot(n).abs() <= ft, "the normal impulse is {}, restitution {} asks for {}", jn, rec.e, jn0);
            let sl = slip.len();
            if hi == 0.0 {
                ensure!(f.len() <= ft, "no friction, but an impulse {:?} along the surface", f);
                ctx.count("zero coefficient");
            }
            if sl <= 20.0 * vt { ctx.count("no slip"); if still { ensure!(e1 <= e0 + et, "the collision raised the kinetic energy from {} to {}", e0, e1); } continue; }
            // static or dynamic: by how the normal speed that is left compares with the slip
            let ratio = slip_after.dot(n).abs() / sl;
            let unsure = 1e-4 + 8.0 * vt / sl * (1.0 + ratio);
            if cand.iter().all(|i| ratio < ts[*i] - unsure) {
                lo = cand.iter().map(|i| ps[*i]).fold(f64::INFINITY, f64::min); hi = cand.iter().map(|i| ps[*i]).fold(0.0, f64::max);
                if cand.len() == 1 && (ps[cand[0]] - pd[cand[0]]).abs() > 0.05 { ctx.count("static by the threshold"); }
            } else if cand.iter().all(|i| ratio > ts[*i] + unsure) {
                lo = cand.iter().map(|i| pd[*i]).fold(f64::INFINITY, f64::min); hi = cand.iter().map(|i| pd[*i]).fold(0.0, f64::max);
                if cand.len() == 1 && (ps[cand[0]] - pd[cand[0]]).abs() > 0.05 { ctx.count("dynamic by the threshold"); }
            } else { ctx.count("too close to the threshold"); }
            let dir = slip * (1.0 / sl);
            let kt = dir.dot(km.app(dir));
            let stop = sl / kt;
            let opp = -f.dot(dir);
            let side = f + dir * opp;
            let dirt = ft + 2.0 * f.len() * vt / sl;
            ctx.maxi("friction sideways / tolerance", side.len() / dirt);
            ensure!(side.len() <= dirt, "friction {:?} is not against the slip {:?}", f, slip);
            let (wl, wh) = ((lo * jn0).min(stop), (hi * jn0).min(stop));
            let ut = vt / kt;
            ctx.maxi("friction above the cone / tolerance", (opp - wh) / (ft + ut));
            ctx.maxi("friction below the cone / tolerance", (wl - opp) / (ft + ut));
            ensure!(opp <= wh + ft + ut, "friction {} exceeds {} (normal impulse {}, coefficients up to {}, {} stops the slip {})", opp, wh, jn0, hi, stop, sl);
            ensure!(opp >= wl - ft - ut, "friction {} falls short of {} (normal impulse {}, coefficients from {}, {} stops the slip {})", opp, wl, jn0, lo, stop, sl);
            let after = u1 - n * u1.dot(n);
            ensure!(after.dot(dir) >= -4.0 * vt, "friction reversed the slip {:?} into {:?}", slip, after);
            if still { ensure!(e1 <= e0 + et, "the collision raised the kinetic energy from {} to {}", e0, e1); }
            if opp > 10.0 * ft {
                ctx.count(if opp > stop * 0.999 { "friction stops the slip" } else { "sliding friction" });
                let mut h = H::new(); h.v(s0[a].pos).v(s0[b].pos).v(u0); ctx.nontrivial(h.0);
            }
        }
        if ctx.case % 2003 == 3 { ctx.sample(|| format!("{} step {} -> {:?}", show(&w, dt), k, rec)); }
    }
    Ok(())
}

// ---------------------------------------------------------------- C19
fn c19(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut o = Opts::new();
    o.n = (1, 4); o.composite = r.p(0.5); o.spin = r.p(0.5); o.meshes = r.p(0.3); o.statics = true; o.heavy = true; o.friction = r.p(0.5);
    let mut w = scene(r, &o);
    let single = r.p(0.5);
    w.iter_max = if single { 1 } else { 2 + r.below(8) as u8 };
    if r.p(0.5) { w.gravity = Some(r.cube(10.0)); }
    // a moving heavy pair on a collision course, overlapping already or soon
    let mut overlap = false;
    if r.p(0.4) {
        let mut o2 = o; o2.friction = true;
        let at = V(r.r(8.0, 12.0), 0.0, 0.0);
        for _ in 0..2 { let mut b = heavy(r, &o2); b.pos = (at + r.cube(0.6)).r32(); b.vel = (r.dir() * r.lr(0.01, 3.0)).r32(); if r.p(0.5) { b.ang = r.cube(3.0); } let k = r.below(w.bodies.len() + 1); w.bodies.insert(k, b); }
        overlap = true;
    }
    for b in w.bodies.iter_mut() {
        let inf = b.total_mass().is_infinite();
        if inf && !is_plane(b) && b.ang == Z && r.p(0.3) { b.ang = r.cube(2.0); }
        // heavier by another collider only
        if inf && b.own_mass.is_finite() && r.p(0.2) { b.own_mass = r.lr(0.1, 10.0); }
    }
    if r.p(0.3) { w.sleep = Some((r.lr(1e-4, 1e-2), r.r(0.0, 0.2))); }
    let nb = w.bodies.len();
    let dt = dt_of(r) * pace(r, &mut w, 0.15);
    let steps = 5 + r.below(36);
    super::contact::unit(ctx, r, &mut w, dt, 0);
    let mut sys = w.build();
    let start = sys.snaps();
    let inf: Vec<bool> = w.bodies.iter().map(|b| b.total_mass().is_infinite()).collect();
    ctx.log(|| show(&w, dt));
    if overlap { ctx.count("infinite masses overlapping"); }
    for i in 0..nb { ensure!(!inf[i] || start[i].mass == f64::INFINITY, "body {} should be infinitely heavy, is {}", i, start[i].mass); }
    let mut travelled = vec![(Z, 0.0f64); nb];
    for k in 0..steps {
        let s0 = sys.snaps();
        sys.step(dt);
        let s1 = sys.snaps();
        let recs = sys.recs();
        if s1.iter().any(|s| !s.pos.finite() || !s.vel.finite() || !s.ang.finite()) { ctx.count("non-finite (left to C25)"); return Ok(()); }
        let t = if recs.len() >= w.iter_max as usize { recs[recs.len() - 1].t } else { dt };
        ctx.log(|| format!("step {}: {:?}", k, recs));
        for i in 0..nb {
            if !inf[i] { continue; }
            if w.bodies[i].own_mass.is_infinite() && recs.iter().any(|x| x.pair().0 == i || x.pair().1 == i) { ctx.count("hit on an infinite mass of its own"); }
            ensure!(s1[i].bits[6..12] == start[i].bits[6..12], "step {}: the velocity of infinitely heavy body {} changed: {:?} {:?} -> {:?} {:?}; records {:?}", k, i, start[i].vel, start[i].ang, s1[i].vel, s1[i].ang, recs);
            if start[i].vel == Z { ensure!(s1[i].bits[..3] == start[i].bits[..3], "step {}: infinitely heavy body {} at rest moved from {:?} to {:?}", k, i, start[i].pos, s1[i].pos); }
            else {
                travelled[i].0 += start[i].vel * t;
                let tol = 1e-6 * (start[i].pos.len() + travelled[i].0.len() + 1.0) * (k as f64 + 2.0) + 2e-6 * start[i].vel.len() * dt * (k as f64 + 2.0);
                let want = start[i].pos + travelled[i].0;
                ensure!((s1[i].pos - want).len() <= tol, "step {}: infinitely heavy body {} should be at {:?}, is at {:?}", k, i, want, s1[i].pos);
            }
            if start[i].ang == Z { ensure!(s1[i].q.angle_to(start[i].q) < 1e-6, "step {}: infinitely heavy body {} without spin turned", k, i); }
            else { let d = s1[i].q.angle_to(Q::from_axis(start[i].ang * t).mul(s0[i].q)); ensure!(d < 1e-5, "step {}: infinitely heavy body {} turned otherwise than its spin says, by {}", k, i, d); }
        }
        for x in &recs {
            let (a, b) = x.pair();
            if a >= nb || b >= nb { return Ok(()); }
            ensure!(!(inf[a] && inf[b]), "two infinite masses were made to collide: {:?}", x);
            if inf[a] || inf[b] {
                ctx.count("hit on an infinite mass");
                let i = if inf[a] { a } else { b };
                if start[i].vel != Z || start[i].ang != Z { ctx.count("hit on a moving infinite mass"); }
                let mut h = H::new(); h.f(x.t).v(x.p).v(s0[a].pos).v(s0[b].pos); ctx.nontrivial(h.0);
                if single {
                    let at = |s: &Snap| point_vel(s.vel, s.ang, x.p - s.pos);
                    let u = at(&s1[a]) - at(&s1[b]);
                    let f = if inf[a] { b } else { a };
                    let ok = match inv_inertia(&s1[f]) { Some(_) => true, None => false };
                    if ok && !o.friction {
                        let sc: f64 = [a, b].iter().map(|i| s0[*i].vel.len() + s1[*i].vel.len() + (s0[*i].ang.len() + s1[*i].ang.len()) * 2.0).sum::<f64>() + w.gravity.map(|g| g.len() * dt).unwrap_or(0.0);
                        ensure!(u.dot(x.n) <= 1e-3 * sc, "after hitting an infinite mass the bodies still approach by {}: {:?}", u.dot(x.n), x);
                        ctx.count("stop judged");
                    }
                }
            }
        }
        // a single sphere never ends up behind a plane (the plane still stops what hits it)
        if !single && recs.len() < w.iter_max as usize {
            for i in 0..nb { for j in 0..nb {
                if !inf[j] || !is_plane(&w.bodies[j]) || inf[i] || w.bodies[i].cols.len() != 1 { continue; }
                if let Shape::Sphere { .. } = w.bodies[i].cols[0].shape {
                    let was = body_gap(&w.bodies[i], s0[i].origin, s0[i].q, &w.bodies[j], s0[j].origin, s0[j].q);
                    let g = body_gap(&w.bodies[i], s1[i].origin, s1[i].q, &w.bodies[j], s1[j].origin, s1[j].q);
                    // spinning off-centre spheres move on arcs
                    let spin = (s0[i].ang.len().max(s1[i].ang.len()) * dt).min(2.0);
                    if was > 0.0 { ctx.count("plane passage judged"); ensure!(g > -2e-3 - spin * spin, "step {}: body {} passed {} into plane {}: {:?}", k, i, -g, j, recs); }
                }
            } }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C20
fn c20(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut o = Opts::new();
    o.friction = r.p(0.3);
    o.composite = o.friction && r.p(0.5); o.spin = o.friction; o.meshes = o.friction && r.p(0.3);
    o.statics = r.p(0.6); o.heavy = r.p(0.4);
    o.size = r.r(1.5, 3.0);
    let mut w = scene(r, &o);
    w.iter_max = *r.pick(&[0, 1, 2, 3, 5, 10]);
    let dt = dt_of(r) * pace(r, &mut w, 0.2);
    super::contact::unit(ctx, r, &mut w, dt, 0);
    let mut sys = w.build();
    let steps = 3 + r.below(13);
    ctx.log(|| show(&w, dt));
    let centred = |b: &Body| b.cols.len() == 1 || b.total_mass().is_infinite();
    for k in 0..steps {
        // settings may change, and steps need not be alike
        if r.p(0.1) { w.iter_max = *r.pick(&[0, 1, 2, 3, 5, 10, 255]); sys.ps.iteration_max = w.iter_max; ctx.count("iteration limit changed"); }
        let dt = if r.p(0.15) { dt * r.r(0.2, 1.0) } else { dt };
        if r.p(0.1) {
            // too small a step keeps the records
            let before = format!("{:?}", sys.recs());
            let tiny = *r.pick(&[0.0, 5e-7, -5e-7]);
            sys.ps.step(tiny as f32);
            ensure!(format!("{:?}", sys.recs()) == before, "a step of {} changed the records", tiny);
            ctx.count("tiny step keeps records");
        }
        let s0 = sys.snaps();
        sys.step(dt);
        let s1 = sys.snaps();
        let recs = sys.recs();
        ctx.log(|| format!("step {}: {:?}", k, recs));
        if s1.iter().any(|s| !s.pos.finite() || !s.vel.finite() || !s.ang.finite()) { ctx.count("non-finite (left to C25)"); return Ok(()); }
        ensure!(recs.len() <= w.iter_max as usize, "{} records with an iteration limit of {}", recs.len(), w.iter_max);
        if recs.len() == w.iter_max as usize { ctx.count("limit reached"); }
        if recs.len() > 1 { ctx.count("several records in a step"); }
        let mut last = 0.0;
        for x in &recs {
            ensure!(x.a.is_some() && x.b.is_some() && x.a != x.b, "a record names {:?}", x);
            let (a, b) = x.pair();
            ensure!(x.t >= last - 1e-6 * dt && x.t >= 0.0 && x.t <= dt * (1.0 + 1e-5), "times out of order or outside the step of {}: {:?}", dt, recs);
            last = x.t;
            ensure!((x.n.len() - 1.0).abs() < 1e-4, "the normal of {:?} has length {}", x, x.n.len());
            ensure!(x.j >= 0.0, "negative impulse in {:?}", x);
            let mut es = Vec::new();
            for p in &w.bodies[a].cols { for q in &w.bodies[b].cols { if p.geo_like() && q.geo_like() { es.push(p.e * q.e); } } }
            ensure!(es.iter().any(|e| (e - x.e).abs() < 1e-6), "the record {:?} has a restitution that no two colliders of the two multiply to: {:?}", x, es);
            ctx.count("record judged");
        }
        if !recs.is_empty() { let mut h = H::new(); for s in &s0 { h.v(s.pos).v(s.vel); } ctx.nontrivial(h.0); }
        // contact points lie between the bodies and the normal points off the first
        if w.iter_max == 1 && !o.spin { for x in &recs {
            let (a, b) = x.pair();
            for (i, sg) in &[(a, 1.0), (b, -1.0)] {
                if w.bodies[*i].cols.len() == 1 { ctx.count("contact point judged"); if let Some(G::Sphere(c, rad)) = w.bodies[*i].geo(0, s1[*i].origin, s1[*i].q) {
                    let d = x.p - c;
                    ensure!((d.len() - rad).abs() < 2e-3 + 0.02 * rad || d.len() < rad, "the point of {:?} is {} from the centre of sphere {} of radius {}", x, d.len(), i, rad);
                    ensure!(x.n.dot(d) * sg > 0.0, "the normal of {:?} does not point off the first body", x);
                } }
            }
        } }
        if !o.friction && w.bodies.iter().all(|b| centred(b)) {
            for i in 0..s0.len() {
                if s1[i].mass.is_infinite() { continue; }
                let mut p = s0[i].vel * s0[i].mass;
                let mut size = p.len();
                for x in &recs {
                    if x.a == Some(i) { p = p - x.n * x.j; size += x.j; }
                    if x.b == Some(i) { p = p + x.n * x.j; size += x.j; }
                }
                let d = (s1[i].vel * s1[i].mass - p).len();
                let tol = 3e-6 * size * (1.0 + recs.len() as f64) + 1e-8;
                ctx.maxi("unaccounted momentum / tolerance", d / tol);
                ensure!(d <= tol, "step {}: the records {:?} leave a momentum of {} of body {} unaccounted for ({:?} -> {:?}, mass {})", k, recs, d, i, s0[i].vel, s1[i].vel, s1[i].mass);
                if recs.iter().any(|x| x.a == Some(i) || x.b == Some(i)) { ctx.count("impulses account for velocities"); }
            }
        } else {
            // whoever is in no record keeps its velocity
            for i in 0..s0.len() { if !recs.iter().any(|x| x.a == Some(i) || x.b == Some(i)) {
                ensure!(s0[i].vel == s1[i].vel && s0[i].ang == s1[i].ang, "step {}: body {} is in no record but its velocity changed", k, i);
            } }
        }
    }
    // bodies are taken away, one by one, until none is left
    if r.p(0.4) {
        let mut left: Vec<usize> = (0..sys.ents.len()).collect();
        while !left.is_empty() {
            let i = left.remove(r.below(left.len()));
            ensure!(sys.ps.remove_entity(sys.ents[i]), "a live entity could not be removed");
            let dt = dt * r.r(0.2, 1.0);
            sys.step(dt);
            let recs = sys.recs();
            if sys.ps.collision_records.iter().any(|x| sys.ps.get_entity(x.first_entity).is_none() || sys.ps.get_entity(x.second_entity).is_none()) { bail!("after entity {} was removed, a step left records naming entities that are not there: {:?}", i, recs); }
            ensure!(left.len() > 1 || recs.is_empty(), "a step with {} entities left recorded {:?}", left.len(), recs);
            ctx.count("step after a removal");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C21
fn c21(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut o = Opts::new();
    o.statics = r.p(0.6); o.heavy = r.p(0.4); o.friction = r.p(0.3); o.spin = r.p(0.4);
    o.composite = r.p(0.3);
    o.size = r.r(1.5, 3.0);
    let mut w = scene(r, &o);
    w.iter_max = *r.pick(&[0, 1, 1, 2, 3, 5, 10]);
    if r.p(0.3) { w.gravity = Some(r.cube(10.0)); }
    let nb0 = w.bodies.len();
    for _ in 0..1 + r.below(3) {
        let mut b = Body::new(r.cube(3.0)).rot(gen_rot(r)).vel((r.dir() * r.lr(0.1, 10.0)).r32());
        if r.p(0.7) { b.own_mass = r.lr(0.1, 10.0); }
        if r.p(0.7) { b.ang = r.cube(4.0); }
        if r.p(0.3) { b.cols.push(Col::point(r.cube(1.0), r.lr(0.1, 2.0), 1.0)); }
        let k = r.below(w.bodies.len() + 1);
        w.bodies.insert(k, b);
    }
    let _ = nb0;
    let is_clock = |b: &Body| b.cols.iter().all(|c| !c.geo_like());
    let dt = dt_of(r) * pace(r, &mut w, 0.2);
    super::contact::unit(ctx, r, &mut w, dt, 0);
    let mut sys = w.build();
    let steps = 2 + r.below(9);
    ctx.log(|| show(&w, dt));
    let smooth = !o.friction && w.bodies.iter().all(|b| is_clock(b) || b.cols.len() == 1 || b.total_mass().is_infinite());
    for k in 0..steps {
        // settings may change, and steps need not be alike
        if r.p(0.1) { w.iter_max = *r.pick(&[0, 1, 2, 3, 5, 10, 255]); sys.ps.iteration_max = w.iter_max; ctx.count("iteration limit changed"); }
        let dt = if r.p(0.15) { dt * r.r(0.2, 1.0) } else { dt };
        let s0 = sys.snaps();
        sys.step(dt);
        let s1 = sys.snaps();
        let recs = sys.recs();
        ctx.log(|| format!("step {}: {:?}", k, recs));
        if s1.iter().any(|s| !s.pos.finite() || !s.vel.finite() || !s.ang.finite()) { ctx.count("non-finite (left to C25)"); return Ok(()); }
        let full = recs.len() < w.iter_max as usize;
        let t = if full { dt } else if recs.is_empty() { 0.0 } else { recs[recs.len() - 1].t };
        ctx.count(if full { "whole step" } else if w.iter_max == 0 { "limit zero" } else { "limit reached" });
        for i in 0..s0.len() {
            let b = &w.bodies[i];
            let involved = recs.iter().any(|x| x.a == Some(i) || x.b == Some(i));
            let sc = s0[i].pos.len() + s1[i].vel.len() * dt;
            // (every collision ends a stretch of movement, which rounds once more)
            let many = recs.len() as f64;
            let tol = (1e-6 + 1e-7 * many) * sc + 5e-6 * s1[i].vel.len() * dt + 1e-6;
            if !involved {
                // gravity acts before anything moves
                let v = s1[i].vel;
                let want = s0[i].pos + v * t;
                let err = (s1[i].pos - want).len();
                ctx.maxi("position error / tolerance", err / tol);
                ensure!(err <= tol, "step {}: body {} (velocity {:?}) is displaced by {:?}, {} of {} s should displace it by {:?}; limit {}, records {:?}", k, i, v, s1[i].pos - s0[i].pos, t, dt, v * t, w.iter_max, recs);
                let q = Q::from_axis(s1[i].ang * t).mul(s0[i].q);
                let d = s1[i].q.angle_to(q);
                ensure!(d < 2e-5 + 4e-7 * many + 5e-6 * s1[i].ang.len() * dt, "step {}: body {} (spin {:?}) turned {} away from what {} of {} s should turn it; records {:?}", k, i, s1[i].ang, d, t, dt, recs);
                if is_clock(b) && s1[i].ang.len() * dt > 1e-2 { ctx.count("turning clock"); }
                if w.iter_max == 0 { ensure!(s1[i].bits[..3] == s0[i].bits[..3], "an iteration limit of zero, but body {} moved", i); }
            } else if smooth {
                // replay the path through the recorded impulses
                let g = if s1[i].mass.is_finite() { w.gravity.unwrap_or(Z) * dt } else { Z };
                let (mut p, mut v, mut now) = (s0[i].pos, s0[i].vel + g, 0.0);
                let mut len = 0.0;
                let mut jv = 0.0;
                for x in &recs {
                    let sg = if x.a == Some(i) { -1.0 } else if x.b == Some(i) { 1.0 } else { continue };
                    p += v * (x.t - now);
                    len += v.len() * (x.t - now).abs();
                    now = x.t;
                    if s1[i].mass.is_finite() { v += x.n * (sg * x.j / s1[i].mass); jv += x.j / s1[i].mass; }
                }
                p += v * (t - now);
                len += v.len() * (t - now).abs();
                let tol = 2e-6 * (s0[i].pos.len() + len + (s0[i].vel.len() + jv) * dt) * (2.0 + recs.len() as f64) + 1e-6;
                let err = (s1[i].pos - p).len();
                ctx.maxi("replayed position error / tolerance", err / tol);
                ensure!(err <= tol, "step {}: body {} should be at {:?} after {} of {} s through {:?}, is at {:?}", k, i, p, t, dt, recs, s1[i].pos);
                ctx.count("path replayed through a collision");
            }
        }
        if !recs.is_empty() { let mut h = H::new(); for s in &s0 { h.v(s.pos).v(s.vel); } ctx.nontrivial(h.0); }
    }
    Ok(())
}
