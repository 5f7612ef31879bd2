//! C25: any valid use, watched for panics, hangs and non-finite values.
use crate::ctx::*;
use crate::m::*;
use crate::rng::Rng;
use crate::world::*;
use super::hist::gen_col;
use fluffy_tribble::*;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C25", quick: 12_000, thorough: 300_000,
        rule: "Each case is a random history of 10-60 calls on one system whose values are drawn from small lattices and extremes, so that bodies coincide, overlap, touch exactly, rest on each other, are massless, point-like, very light, very heavy or infinitely heavy, and are edited, relinked and removed at any moment. After every call all that can be read is checked. Non-trivial: a history with a collision - distinct by the sequence of states.",
        assume: &["positions within 10, speeds within 20 (spins within 20), masses 0, 0.001 to 1000 or infinite, sphere radii from 0.0501, box sides from 2e-6, dt from 0 to 2, forces of up to 20 times the mass; a history ends once a speed passes 1e5 (light bodies with long levers and spinning infinite planes)"],
        min: &[("calls", 11000), ("steps", 14000), ("collisions", 45000), ("steps that reached the limit", 3000), ("coincident bodies", 1500), ("asleep", 9000), ("removed", 550)], hang_violates: true, run: chaos }]
}
fn mass(r: &mut Rng) -> f64 { match r.below(8) { 0 | 1 => 0.0, 2 => f64::INFINITY, 3 => 1e-3f32 as f64, 4 => 1e3, 5 => 1.0, _ => r.lr(1e-3, 1e3) } }
fn point(r: &mut Rng) -> V { match r.below(4) { 0 => V(r.below(5) as f64 * 0.5 - 1.0, r.below(5) as f64 * 0.5 - 1.0, r.below(5) as f64 * 0.5 - 1.0), 1 => V(0.0, r.below(5) as f64 - 2.0, 0.0), 2 => Z, _ => r.cube(3.0) } }
fn speed(r: &mut Rng) -> V { match r.below(5) { 0 | 1 => Z, 2 => (r.dirx() * *r.pick(&[1.0, 10.0, 1e-3, 1e-6])).r32(), 3 => r.cube(10.0), _ => r.cube(1.0) } }
fn col(r: &mut Rng) -> Col {
    let k = *r.pick(&[0, 1, 1, 1, 2, 3, 4]);
    let mut c = gen_col(r, k);
    c.mass = mass(r);
    if r.p(0.6) {
        let p = if r.p(0.6) { Z } else { point(r) };
        match &mut c.shape {
            Shape::Null { pos, inertia } => { *pos = p; *inertia = match r.below(4) { 0 => M::zero(), 1 => M::diag(0.0, 1.0, 1.0), 2 => M::diag(1.0, 1.0, 1.0), _ => M::diag(1e-6f32 as f64, 1e-6f32 as f64, 1e-6f32 as f64) }; }
            Shape::Sphere { c, r: rad } => { *c = p; *rad = *r.pick(&[0.0501f32 as f64, 0.5, 1.0, 5.0]); }
            Shape::Plane { pos, n } => { *pos = p; *n = r.dirx().r32(); }
            Shape::Mesh { pos, faces } => { *pos = p; if r.p(0.7) { *faces = box_faces(V(0.5, 0.5, 0.5)); if r.p(0.3) { faces.truncate(1 + r.below(6)); } } }
            Shape::Box { pos, min, max } => { *pos = p; let h = *r.pick(&[V(0.5, 0.5, 0.5), V(1.0, 0.5, 2.0), V(1e-6f32 as f64, 1.0, 1.0), V(1e-6f32 as f64, 1e-6f32 as f64, 1e-6f32 as f64), V(1e-3f32 as f64, 1e-3f32 as f64, 1e-3f32 as f64)]); *min = -h; *max = h; }
        }
    }
    if r.p(0.3) { c.e = 1.0; } else if r.p(0.3) { c.e = 0.0; }
    if r.p(0.3) { c.mus = 0.0; c.mud = 0.0; } else if r.p(0.3) { c.mus = 1.0; c.mud = 1.0; }
    c
}
#[derive(Debug)]
struct Spring { k: f32, off: V }
impl UnaryForceGenerator for Spring {
    fn make_force(&mut self, _dt: f32, ps: &PhysicsSystem, h: EntityHandle) -> Force {
        let e = ps.get_entity(h).expect("asked about an entity that is not there");
        let m = e.get_last_total_mass();
        let f = V::of(&e.position) * -(self.k as f64);
        let f = if f.len() > 20.0 { f.unit() * 20.0 } else { f };
        Force::new((f * m as f64).to32(), (V::of(&e.position) + self.off).to32())
    }
}
fn fin(v: &fluffy_tribble::types::Vec3) -> bool { v.iter().all(|x| x.is_finite()) }

fn chaos(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let mut ps = PhysicsSystem::new();
    let knobs = |r: &mut Rng, ps: &mut PhysicsSystem| {
        ps.iteration_max = *r.pick(&[0, 1, 3, 10, 10, 30, 255]);
        ps.energy_sleep_threshold = *r.pick(&[-1.0, 0.0, 1e-3, 1e-3, 1.0, 1e3]);
        ps.sleep_time_threshold = *r.pick(&[0.0, 0.01, 0.1, 1.0]);
    };
    knobs(r, &mut ps);
    let mut es: Vec<EntityHandle> = Vec::new();
    let mut cs: Vec<ColliderHandle> = Vec::new();
    let mut gs: Vec<UnaryForceGeneratorHandle> = Vec::new();
    let n = 10 + r.below(51);
    let mut h = H::new();
    let mut hits = 0;
    let mut big = 0.0f64;
    'all: for k in 0..n {
        let op = if k < 3 { 0 } else { r.below(22) };
        let what;
        match op {
            0 | 1 if es.len() < 8 => {
                let mut e = Entity::new();
                let p = if !es.is_empty() && r.p(0.3) { V::of(&ps.get_entity(*r.pick(&es)).expect("live entity not found").position) } else { point(r) };
                e.position = p.to32(); e.rotation = gen_rot(r).to32(); e.velocity = speed(r).to32(); e.angular_velocity = speed(r).to32(); e.own_mass = mass(r) as f32;
                what = format!("add entity {:?}", (e.position, e.rotation, e.velocity, e.angular_velocity, e.own_mass));
                let eh = ps.add_entity(e).expect("a valid entity was refused");
                es.push(eh);
                let m = r.below(4);
                for _ in 0..m.max(1) { let c = col(r); ctx.log(|| format!("with {:?}", c)); let ch = ps.add_collider(c.wrapper()).ok().expect("a valid collider was refused"); ps.link_collider(ch, Some(eh)).expect("a valid link was refused"); cs.push(ch); }
            }
            2 => { let c = col(r); what = format!("add {:?}", c); cs.push(ps.add_collider(c.wrapper()).ok().expect("a valid collider was refused")); }
            3 if !cs.is_empty() => {
                let c = *r.pick(&cs);
                let to = if es.is_empty() || r.p(0.3) { None } else { Some(*r.pick(&es)) };
                what = format!("link {:?} to {:?}", c, to);
                let _ = ps.link_collider(c, to);
            }
            4 if !cs.is_empty() && r.p(0.5) => { let i = r.below(cs.len()); what = format!("remove collider {:?}", cs[i]); ps.remove_collider(cs[i]); if r.p(0.9) { cs.remove(i); } ctx.count("removed"); }
            5 if !es.is_empty() && r.p(0.7) => { let i = r.below(es.len()); what = format!("remove entity {:?}", es[i]); ps.remove_entity(es[i]); es.remove(i); ctx.count("removed"); }
            6 | 7 if !es.is_empty() => {
                let i = *r.pick(&es);
                let mut e = ps.get_entity(i).expect("live entity not found");
                if r.p(0.3) { e.position = point(r).to32(); }
                if r.p(0.3) { e.rotation = gen_rot(r).to32(); }
                if r.p(0.5) { e.velocity = speed(r).to32(); }
                if r.p(0.3) { e.angular_velocity = speed(r).to32(); }
                if r.p(0.2) { e.own_mass = mass(r) as f32; }
                what = format!("update entity {:?} {:?}", i, (e.position, e.rotation, e.velocity, e.angular_velocity, e.own_mass));
                let _ = ps.update_entity(i, e);
            }
            8 if !cs.is_empty() => {
                let c = *r.pick(&cs);
                let x = col(r);
                what = format!("update collider {:?} {:?}", c, x);
                let _ = ps.update_collider(c, x.wrapper());
            }
            9 if gs.len() < 2 => {
                let g: Box<dyn UnaryForceGenerator> = if r.p(0.7) { Box::new(GravityGenerator::new(point(r).to32() * 5.0)) } else { Box::new(Spring { k: r.r(0.0, 10.0) as f32, off: if r.p(0.5) { Z } else { r.cube(0.05) } }) };
                what = format!("add {:?}", g);
                gs.push(ps.add_unary_force_generator(g).ok().expect("a generator was refused"));
            }
            10 if !gs.is_empty() && r.p(0.3) => { let g = gs.pop().unwrap(); what = format!("remove generator {:?}", g); let _ = ps.remove_unary_force_generator(g); }
            11 => { knobs(r, &mut ps); what = "knobs".into(); }
            _ => {
                let dt = *r.pick(&[0.0, 5e-7, 1e-6, 1e-5, 1.0 / 60.0, 1.0 / 60.0, 0.1, 0.1, 0.5, 1.0, 2.0]) as f32;
                let m = 1 + r.below(4);
                what = format!("step {} x {}", dt, m);
                ctx.log(|| what.clone());
                for _ in 0..m {
                    if ctx.verbose { for e in &es { let x = ps.get_entity(*e).unwrap(); eprintln!("{:?} p {:?} v {:?} w {:?} m {} E {}", e, V::of(&x.position), V::of(&x.velocity), V::of(&x.angular_velocity), x.get_last_total_mass(), x.get_total_energy()); } }
                    ps.step(dt);
                    if ctx.verbose { for r in &ps.collision_records { eprintln!("   {:?}-{:?} at {:?} n {:?} t {} imp {}", r.first_entity, r.second_entity, V::of(&r.position), V::of(&r.normal), r.time, r.impulse_magnitude); } }
                    ctx.count("steps");
                    if dt.abs() >= 1e-6 { hits += ps.collision_records.len(); ctx.add("collisions", ps.collision_records.len() as u64);
                        if ps.collision_records.len() >= ps.iteration_max as usize { ctx.count("steps that reached the limit"); } }
                    look(&ps, &es, &cs, &mut big).map_err(|m| format!("after {}: {}", what, m))?;
                    if big > 1e5 { ctx.count("stopped: speeds of over 1e5"); break 'all; }
                }
            }
        }
        ctx.log(|| what.clone());
        ctx.count("calls");
        if es.len() > 1 { let p: Vec<V> = es.iter().map(|e| V::of(&ps.get_entity(*e).expect("live entity not found").position)).collect(); if (0..p.len()).any(|i| (0..i).any(|j| p[i] == p[j])) { ctx.count("coincident bodies"); } }
        let z = look(&ps, &es, &cs, &mut big).map_err(|m| format!("after {}: {}", what, m))?;
        ctx.add("asleep", z.0);
        h.u(z.1);
    }
    ctx.maxi("largest speed", big);
    if hits > 0 { ctx.nontrivial(h.0); }
    if ctx.case % 2003 == 3 { let l = ctx.log.clone(); ctx.sample(|| l.join(" | ")); }
    Ok(())
}
fn look(ps: &PhysicsSystem, es: &[EntityHandle], cs: &[ColliderHandle], big: &mut f64) -> Result<(u64, u64), String> {
    let mut asleep = 0;
    let mut h = H::new();
    for e in es {
        let x = ps.get_entity(*e).expect("live entity not found");
        let o = x.get_last_orientation();
        ensure!(fin(&x.position) && fin(&x.rotation) && fin(&x.velocity) && fin(&x.angular_velocity) && fin(&o.position) && fin(&o.local_origin_in_world()) && o.rotation.as_vector().iter().all(|q| q.is_finite()),
            "entity {:?} has position {:?}, rotation {:?}, velocity {:?}, angular velocity {:?}", e, x.position, x.rotation, x.velocity, x.angular_velocity);
        let (m, en) = (x.get_last_total_mass(), x.get_total_energy());
        ensure!(!m.is_nan() && m >= 0.0 && !x.own_mass.is_nan(), "entity {:?} has mass {} (own {})", e, m, x.own_mass);
        ensure!(!en.is_nan(), "entity {:?} has an energy of {}", e, en);
        ensure!(x.get_last_moment_of_inertia().iter().all(|q| q.is_finite()), "entity {:?} has an inertia of {:?}", e, x.get_last_moment_of_inertia());
        let s = x.velocity.magnitude().max(x.angular_velocity.magnitude()) as f64;
        if s > *big { *big = s; }
        if x.was_asleep() { asleep += 1; }
        h.v(V::of(&x.position)).v(V::of(&x.velocity));
    }
    for c in cs { if let Some(w) = ps.get_collider(*c) { let m = match &w { ColliderWrapper::Null(c) => fin(&c.position), ColliderWrapper::Sphere(c) => fin(&c.center), ColliderWrapper::Plane(c) => fin(&c.position) && fin(&c.normal), ColliderWrapper::Mesh(c) => fin(&c.position), ColliderWrapper::AlignedBox(c) => fin(&c.position) && fin(&c.min_corner) }; ensure!(m, "a collider reads back as something not finite"); } }
    for r in &ps.collision_records {
        ensure!(fin(&r.position) && fin(&r.normal) && r.time.is_finite() && r.impulse_magnitude.is_finite() && r.restitution_coefficient.is_finite(),
            "a record has position {:?}, normal {:?}, time {}, impulse {}", r.position, r.normal, r.time, r.impulse_magnitude);
        h.f(r.time as f64);
    }
    Ok((asleep, h.0))
}
