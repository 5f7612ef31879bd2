//! C08, C09: contact-free steps with recorded force generators.
use crate::crowd::{inv_inertia, is_rod};
use crate::ctx::*;
use crate::m::*;
use crate::rng::{mix, Rng};
use crate::world::*;
use fluffy_tribble::*;
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    let rule = "Each case runs a history of 1-12 steps of a contact-free world of 1-5 bodies (composites of every collider kind, zero, finite and infinite masses, spins) under 0-4 recorded force generators that come and go, and judges every step against the recorded calls. Non-trivial: a step in which a force acted on a finite-mass body - distinct by world and step.";
    let assume: &'static [&'static str] = &["bodies stay 30 units apart, so nothing touches", "inertia about each axis over 1e-4 of the tensor's size, or (practically) zero: nothing turns about an axis without inertia", "masses 0, 0.01 to 100, or infinite", "steps in which something turns by over 1 rad count only if no contact was found in them (contact detection is documented as linearized)"];
    vec![
        Prop { id: "C08", quick: 300_000, thorough: 12_000_000, rule, assume, min: &[("velocity judged", 2000), ("turning judged", 1000), ("torque judged", 500), ("torque on a rod judged", 80), ("zero or infinite mass judged", 500), ("tiny step judged", 100)], hang_violates: false, run: |c, r| run(c, r, 8) },
        Prop { id: "C09", quick: 300_000, thorough: 12_000_000, rule, assume, min: &[("generator calls", 2000), ("generator removed", 100), ("generator added later", 100), ("gravity judged", 300), ("zero or infinite mass judged", 500), ("sleeper asked", 20)], hang_violates: false, run: |c, r| run(c, r, 9) },
    ]
}
#[derive(Clone, Debug)]
struct Call { id: u64, h: EntityHandle, dt: u32, state: Vec<u32>, f: V, at: V }
#[derive(Debug)]
struct LogGen { id: u64, kind: usize, a: V, b: V, k: f64, calls: u64, log: Rc<RefCell<Vec<Call>>> }
impl UnaryForceGenerator for LogGen {
    fn make_force(&mut self, dt: f32, ps: &PhysicsSystem, h: EntityHandle) -> Force {
        let e = ps.get_entity(h).expect("asked about an entity that is not there");
        let s = snap(&e);
        // the system can be looked at from here
        for c in e.get_colliders() { let c = ps.get_collider(c).expect("an owned collider cannot be read while forces are asked for"); assert!(owner(&c) == Some(h), "an owned collider names another owner while forces are asked for"); }
        self.calls += 1;
        let (f, at) = match self.kind {
            0 => (self.a, s.pos),
            1 => (self.a, s.pos + self.b),
            2 => { let p = V::of(&e.get_last_orientation().position_into_world(&self.b.to32())); ((s.pos + self.a - p) * self.k, p) }
            3 => (-s.vel * self.k, s.pos),
            4 => { let x = mix(self.id ^ mix(self.calls)); let q = |i: u32| ((x >> (i * 16)) & 0xffff) as f64 / 8192.0 - 4.0; (V(q(0), q(1), q(2)), s.pos + V(q(3), q(0), q(1))) }
            _ => (Z, s.pos + self.b),
        };
        let (f, at) = (f.r32(), at.r32());
        self.log.borrow_mut().push(Call { id: self.id, h, dt: dt.to_bits(), state: s.bits, f, at });
        Force::new(f.to32(), at.to32())
    }
}
enum Gen { Log(UnaryForceGeneratorHandle, u64), Grav(UnaryForceGeneratorHandle, V) }

fn body(r: &mut Rng, at: V) -> Body {
    let mut b = Body::new((at + r.cube(2.0)).r32()).rot(gen_rot(r));
    if r.p(0.7) { b.vel = r.cube(4.0); }
    if r.p(0.6) { b.ang = r.cube(4.0); }
    if r.p(0.6) { b.own_mass = r.lr(0.01, 50.0); }
    if r.p(0.1) {
        // all its mass on one line, and something without mass beside it
        let (c, d) = (r.cube(1.0), r.dirx());
        for _ in 0..2 + r.below(2) { b.cols.push(Col::point((c + d * r.r(-2.0, 2.0)).r32(), r.lr(0.3, 5.0), 0.0)); }
        if r.p(0.5) { b.cols.push(Col::sphere(r.cube(2.0), r.lr(0.1, 2.0), 0.0)); }
        return b;
    }
    for _ in 0..r.below(4) {
        let m = match r.below(10) { 0 => 0.0, 1 => f64::INFINITY, _ => r.lr(0.01, 50.0) };
        b.cols.push(match r.below(6) {
            0 | 1 => Col::sphere(r.cube(2.0), r.lr(0.1, 2.0), m),
            2 => Col::bx(r.cube(1.0), V(-r.r(0.1, 1.0), -r.r(0.1, 1.0), -r.r(0.1, 1.0)), V(r.r(0.1, 1.0), r.r(0.1, 1.0), r.r(0.1, 1.0)), m),
            3 => { let rm = M::rot(Q::from_axis(r.cube(2.0))); let (x, y, z) = (r.r(0.2, 3.0), r.r(0.2, 3.0), r.r(0.2, 3.0)); Col::new(Shape::Null { pos: r.cube(2.0), inertia: rm.mul(M::diag(x + y, y + z, x + z)).mul(rm.t()).r32() }, m) }
            4 => Col::mesh(r.cube(1.0), gen_mesh(r, 1.0).1),
            _ => Col::point(r.cube(2.0), m, r.r(0.1, 2.0)),
        });
    }
    b
}

fn run(ctx: &mut Ctx, r: &mut Rng, focus: u8) -> Res {
    let n = 1 + r.below(5);
    let mut bodies = Vec::new();
    for i in 0..n { bodies.push(body(r, V(30.0 * i as f64 - 60.0, 0.0, 0.0))); }
    let mut w = World::new(bodies).iters(1 + r.below(5) as u8);
    let sleepy = r.p(0.25);
    if sleepy { w = w.sleep(r.lr(1e-3, 1.0), r.r(0.0, 0.1)); }
    let mut s = w.build();
    let log: Rc<RefCell<Vec<Call>>> = Rc::new(RefCell::new(Vec::new()));
    let mut gens: Vec<Gen> = Vec::new();
    let mut calls_of: std::collections::BTreeMap<u64, u64> = Default::default();
    let mut next = 0u64;
    let steps = 1 + r.below(12);
    ctx.log(|| format!("{:?}", w));
    for k in 0..steps {
        // generators come and go
        while (k == 0 && gens.len() < 3 && r.p(0.6)) || (k > 0 && gens.len() < 4 && r.p(0.15)) {
            if r.p(0.3) {
                let a = if r.p(0.5) { r.dirx() * r.r(0.0, 20.0) } else { r.cube(10.0) }.r32();
                let h = s.ps.add_unary_force_generator(Box::new(GravityGenerator::new(a.to32()))).unwrap();
                ctx.log(|| format!("step {}: add gravity {:?}", k, a));
                gens.push(Gen::Grav(h, a));
            } else {
                next += 1;
                let g = LogGen { id: next, kind: r.below(6), a: r.cube(5.0), b: r.cube(2.0), k: r.r(0.1, 5.0), calls: 0, log: log.clone() };
                ctx.log(|| format!("step {}: add {:?}", k, g.id));
                let h = s.ps.add_unary_force_generator(Box::new(g)).unwrap();
                gens.push(Gen::Log(h, next));
            }
            if k > 0 { ctx.count("generator added later"); }
        }
        if !gens.is_empty() && k > 0 && r.p(0.12) {
            let i = r.below(gens.len());
            match gens.remove(i) {
                Gen::Log(h, id) => match s.ps.remove_unary_force_generator(h) {
                    Some(b) => if focus == 9 {
                        match b.downcast_ref::<LogGen>() {
                            Some(g) => { let c = calls_of.get(&id).cloned().unwrap_or(0); ensure!(g.id == id && g.calls == c, "removing generator {} returned generator {} with {} of {} calls", id, g.id, g.calls, c); }
                            None => bail!("removing a generator returned another one"),
                        }
                        ensure!(s.ps.remove_unary_force_generator(h).is_none(), "a generator was removed twice");
                        ctx.count("generator removed");
                    },
                    None => { if focus == 9 { bail!("removing a live generator returned nothing"); } return Ok(()); }
                },
                Gen::Grav(h, a) => match s.ps.remove_unary_force_generator(h) {
                    Some(b) => if focus == 9 { match b.downcast_ref::<GravityGenerator>() { Some(g) => ensure!(V::of(&g.acceleration) == a, "the removed gravity generator changed"), None => bail!("removing a generator returned another one") } },
                    None => { if focus == 9 { bail!("removing a live generator returned nothing"); } return Ok(()); }
                },
            }
        }
        let tiny = r.p(0.08);
        let dt = if tiny { *r.pick(&[0.0, 1e-7, -9e-7, 9.9e-7, -1e-8]) } else { let d = match r.below(4) { 0 => 1.0 / 60.0, 1 => r.lr(2e-6, 1e-3), _ => if r.p(0.08) { r.lr(0.3, 4.0) } else { r.lr(1e-3, 0.3) } }; if !sleepy && r.p(0.04) { -d } else { d } } as f32 as f64;
        let before = s.snaps();
        let recs = s.recs().len();
        log.borrow_mut().clear();
        s.step(dt);
        let after = s.snaps();
        let calls = log.borrow().clone();
        for c in &calls { *calls_of.entry(c.id).or_insert(0) += 1; }
        ctx.log(|| format!("step {} dt {}: {} calls; {:?}", k, dt, calls.len(), after.iter().map(|a| (a.pos, a.vel, a.ang)).collect::<Vec<_>>()));
        if tiny {
            ctx.count("tiny step judged");
            if focus == 8 {
                for i in 0..n { ensure!(before[i].bits == after[i].bits, "a step of {} changed body {}", dt, i); }
                ensure!(s.recs().len() == recs, "a step of {} changed the records", dt);
            }
            if focus == 9 { ensure!(calls.is_empty(), "a step of {} asked generators", dt); }
            continue;
        }
        // forces can drive light bodies far enough to meet
        let reach: Vec<f64> = (0..n).map(|i| (after[i].pos - before[i].pos).len() + after[i].vel.len() * dt.abs() + before[i].vel.len() * dt.abs()).collect();
        let mut near = false;
        for i in 0..n { for j in 0..i { near |= !((before[i].pos - before[j].pos).len() - reach[i] - reach[j] > 20.0); } }
        // collision detection is documented to be linearized: only sensible for small turns per step
        if (0..n).any(|i| after[i].ang.len() * dt.abs() > 1.0 || before[i].ang.len() * dt.abs() > 1.0) { ctx.count("not judged further: turns of over 1 rad per step"); if s.recs().len() > 0 { break; } }
        if near { ctx.count("stopped: bodies came near each other"); break; }
        if s.recs().len() > 0 {
            // the collision itself may have slowed a turn that was too fast for the linearized detection
            let fast = (0..n).any(|i| {
                let a = &before[i];
                let tq = calls.iter().filter(|c| c.h == s.ents[i]).fold(Z, |t, c| t + (c.at - a.pos).cross(c.f));
                let da = if tq == Z { Z } else { match a.inertia.inv() { Some(m) => m.app(tq) * dt, None => return true } };
                (a.ang + da).len() * dt.abs() > 1.0
            });
            if fast { ctx.count("not judged further: turns of over 1 rad per step"); break; }
        }
        if s.recs().len() > 0 { if focus == 8 { bail!("a collision was recorded in a contact-free world: {:?}", s.recs()); } return Ok(()); }
        for i in 0..n {
            let (a, z) = (&before[i], &after[i]);
            let h = s.ents[i];
            let finite = a.mass.is_finite() && a.mass > 1e-6;
            let mine: Vec<&Call> = calls.iter().filter(|c| c.h == h).collect();
            if focus == 9 {
                if !finite { ensure!(mine.is_empty(), "a body of mass {} was asked for by generators", a.mass); }
                for g in &gens { if let Gen::Log(_, id) = g {
                    let c = mine.iter().filter(|c| c.id == *id).count();
                    ensure!(c == finite as usize, "generator {} was asked {} times about body {} of mass {}", id, c, i, a.mass);
                } }
                for c in &mine {
                    ensure!(gens.iter().any(|g| if let Gen::Log(_, id) = g { *id == c.id } else { false }), "removed generator {} was asked", c.id);
                    ensure!(c.dt == (dt as f32).to_bits(), "a generator was given dt {} in a step of {}", f32::from_bits(c.dt), dt);
                    ensure!(c.state == a.bits, "a generator saw body {} in another state than at the start of the step", i);
                    ctx.count("generator calls");
                }
                if a.asleep && !mine.is_empty() { ctx.count("sleeper asked"); }
            }
            if !finite {
                ctx.count("zero or infinite mass judged");
                if a.asleep || z.asleep { continue; }
                if focus == 8 { ensure!(a.vel == z.vel && a.ang == z.ang, "body {} of mass {} changed velocity without contact: {:?} -> {:?}, {:?} -> {:?}", i, a.mass, a.vel, z.vel, a.ang, z.ang); }
            }
            if a.asleep { continue; }
            let mut f = Z;
            let mut tq = Z;
            let mut mag = 0.0;
            let mut tmag = 0.0;
            let mut grav = Z;
            for c in &mine { f += c.f; mag += c.f.len(); tq += (c.at - a.pos).cross(c.f); tmag += (c.at - a.pos).len() * c.f.len() + 1e-6 * c.at.len() * c.f.len(); }
            for g in &gens { if let Gen::Grav(_, x) = g { grav += *x; mag += x.len() * a.mass; } }
            let only_gravity = finite && mine.is_empty() && grav.len() > 0.0;
            if finite {
                let dv = f * (dt / a.mass) + grav * dt;
                let tol = 1e-6 * (mag * dt.abs() / a.mass + a.vel.len()) + 1e-9;
                let err = (z.vel - a.vel - dv).len();
                ctx.maxi("velocity error / tolerance", err / tol);
                if focus == 8 || (focus == 9 && only_gravity) { ensure!(err <= tol, "step {} of {} s changed the velocity of body {} (mass {}) by {:?}, should be {:?}", k, dt, i, a.mass, z.vel - a.vel, dv); }
                if only_gravity { ctx.count("gravity judged"); if focus == 9 {
                    ensure!((z.ang - a.ang).len() <= 1e-6 * a.ang.len() + 1e-9, "gravity alone changed the angular velocity of body {} by {:?}", i, z.ang - a.ang);
                } }
                if f.len() > 0.0 || grav.len() > 0.0 { ctx.count("velocity judged"); let mut hh = H::new(); hh.v(a.pos).v(f).f(dt).f(a.mass); ctx.nontrivial(hh.0); }
                if focus == 8 {
                    let inr = a.inertia;
                    if inr.norm() == 0.0 {
                        ensure!(a.ang == z.ang, "body {} without inertia changed its angular velocity", i);
                    } else if let Some(inv) = inv_inertia(a) {
                        let cond = inr.norm() * inv.norm();
                        let dw = inv.app(tq) * dt;
                        let tol = 1e-6 * a.ang.len() + (5e-6 * cond) * inv.norm() * tmag * dt.abs() + 1e-9;
                        let err = (z.ang - a.ang - dw).len();
                        ctx.maxi("angular velocity error / tolerance", err / tol);
                        ensure!(err <= tol, "step {} of {} s changed the angular velocity of body {} by {:?}, should be {:?}", k, dt, i, z.ang - a.ang, dw);
                        if tq.len() > 1e-3 { ctx.count("torque judged"); if is_rod(a, &inv) { ctx.count("torque on a rod judged"); } }
                    } else { ctx.count("gray: ill-conditioned inertia"); }
                }
            }
            if focus == 8 {
                if z.asleep && !(z.vel == z.vel) { bail!("NaN"); }
                let tol = 1e-6 * (a.pos.len() + z.vel.len() * dt.abs()) + 1e-7;
                let err = (z.pos - a.pos - z.vel * dt).len();
                ctx.maxi("position error / tolerance", err / tol);
                ensure!(err <= tol, "step {} of {} s displaced body {} by {:?}, its new velocity {:?} should by {:?}", k, dt, i, z.pos - a.pos, z.vel, z.vel * dt);
                let q = Q::from_axis(z.ang * dt).mul(a.q);
                let d = z.q.angle_to(q);
                ensure!(d < 3e-6 * (2.0 + z.ang.len() * dt.abs()), "step {} of {} s turned body {} to {:?}, its new angular velocity {:?} leads to {:?} ({} away)", k, dt, i, z.q, z.ang, q, d);
                if z.ang.len() * dt.abs() > 1e-3 { ctx.count("turning judged"); }
            }
        }
    }
    if ctx.case % 5003 == 3 { ctx.sample(|| format!("{} steps of {:?}", steps, w)); }
    Ok(())
}
