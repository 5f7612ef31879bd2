//! C33: what is removed is freed, and nothing grows with the number of steps or calls.
use crate::ctx::*;
use crate::m::*;
use crate::rng::Rng;
use crate::world::*;
use fluffy_tribble::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::rc::Rc;

/// counts the bytes a thread holds
pub struct Counting;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; static CALLS: Cell<u64> = const { Cell::new(0) }; }
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(l); if !p.is_null() { let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64)); let _ = CALLS.try_with(|c| c.set(c.get() + 1)); } p }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { let p = System.alloc_zeroed(l); if !p.is_null() { let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64)); let _ = CALLS.try_with(|c| c.set(c.get() + 1)); } p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l); let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64)); }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { let q = System.realloc(p, l, n); if !q.is_null() { let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64)); } q }
}
#[global_allocator]
static ALLOC: Counting = Counting;
fn live() -> i64 { LIVE.with(|c| c.get()) }

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C33", quick: 2400, thorough: 120000, rule: "Each case builds a world that stays (floors, boxes, meshes, generators, resting bodies) and repeats one random round of calls 60-200 times: adding bodies, colliders of every kind and generators, refused additions and updates, linking, moving colliders between bodies, edits, steps in which bodies fall asleep against what stays, hits, and the removal, in any order, of all that was added; a counting allocator is read after every round and after dropping the system. Non-trivial: a case whose bodies collided or slept in the rounds - distinct by world.",
        assume: &["growth of less than 1 kB over all the rounds of a case passes as slack of containers"], min: &[("round", 40000), ("bodies removed asleep", 10000), ("collisions", 60000), ("generator removed", 20000), ("refused call", 80000), ("collider removed alone", 40000), ("system dropped with things in it", 150), ("allocations", 4000000)], hang_violates: false, run }]
}

#[derive(Debug)]
struct Counted { born: Rc<Cell<i64>>, gone: Rc<Cell<i64>>, ballast: Vec<u8>, a: V }
impl Counted { fn new(born: &Rc<Cell<i64>>, gone: &Rc<Cell<i64>>, n: usize, a: V) -> Counted { born.set(born.get() + 1); Counted { born: born.clone(), gone: gone.clone(), ballast: vec![1; n], a } } }
impl Drop for Counted { fn drop(&mut self) { self.gone.set(self.gone.get() + 1); let _ = &self.born; } }
impl UnaryForceGenerator for Counted {
    fn make_force(&mut self, _dt: f32, ps: &PhysicsSystem, h: EntityHandle) -> Force {
        let e = ps.get_entity(h).expect("asked about an entity that is not there");
        assert!(self.ballast.iter().all(|x| *x == 1));
        Force::new((self.a * e.get_last_total_mass() as f64).to32(), e.position)
    }
}
#[derive(Default)]
struct Seen { collisions: u64, asleep: u64, gens: u64, refused: u64, alone: u64 }

fn col(r: &mut Rng) -> Col {
    let mut c = match r.below(6) {
        0 | 1 => Col::sphere(r.cube(0.3), r.lr(0.2, 0.6), if r.p(0.2) { r.lr(0.01, 500.0) } else { r.lr(0.2, 2.0) }),
        2 => Col::bx(Z, V(-0.3, -0.2, -0.4), V(0.3, 0.2, 0.4), 1.0),
        3 => Col::mesh(Z, gen_mesh(r, 0.8).1),
        4 => Col::point(r.cube(0.4), r.lr(0.2, 1.0), 0.3),
        _ => Col::sphere(Z, 0.5, 1.0),
    };
    if r.p(0.7) { c.e = 0.0; }
    c
}
/// one round: whatever it adds it also removes; the same calls every time
fn round(s: &mut Sys, r: &mut Rng, seen: &mut Seen, born: &Rc<Cell<i64>>, gone: &Rc<Cell<i64>>, stay: usize) -> Res {
    let mut ents: Vec<EntityHandle> = Vec::new();
    let mut loose: Vec<ColliderHandle> = Vec::new();
    let mut owned: Vec<(ColliderHandle, EntityHandle)> = Vec::new();
    let mut gens: Vec<UnaryForceGeneratorHandle> = Vec::new();
    let n = 1 + r.below(4);
    for k in 0..n {
        let mut b = Body::new(V(k as f64 * 1.3 - 2.0, 0.0, r.r(-0.2, 0.2)));
        b.own_mass = r.lr(0.3, 2.0);
        if r.p(0.3) { b.vel = r.cube(2.0); }
        if r.p(0.3) { b.ang = r.cube(2.0); }
        let h = s.ps.add_entity(entity_of(&b)).expect("valid entity refused");
        ents.push(h);
        if r.p(0.7) {
            let mut c = Col::sphere(Z, 0.5, 1.0); c.e = 0.0;
            let c = s.ps.add_collider(c.wrapper()).ok().expect("valid collider refused");
            s.ps.link_collider(c, Some(h)).expect("valid link refused");
            owned.push((c, h));
        }
    }
    for _ in 0..4 + r.below(12) {
        match r.below(12) {
            0 | 1 => { let c = col(r); let h = s.ps.add_collider(c.wrapper()).ok().expect("valid collider refused"); loose.push(h); }
            2 | 3 => if !loose.is_empty() { let i = r.below(loose.len()); let c = loose.swap_remove(i); let e = *r.pick(&ents); s.ps.link_collider(c, Some(e)).expect("valid link refused"); owned.push((c, e)); },
            4 => if !owned.is_empty() { let i = r.below(owned.len()); let c = owned[i].0; if r.p(0.5) { s.ps.link_collider(c, None).expect("valid unlink refused"); owned.swap_remove(i); loose.push(c); } else { let e = *r.pick(&ents); s.ps.link_collider(c, Some(e)).expect("valid link refused"); owned[i].1 = e; } },
            5 => {
                // refused calls
                let mut e = Entity::new(); e.own_mass = -1.0;
                if s.ps.add_entity(e).is_err() { seen.refused += 1; }
                let h = *r.pick(&ents);
                let mut e = s.ps.get_entity(h).expect("live entity not found"); e.own_mass = -1.0;
                if s.ps.update_entity(h, e).is_err() { seen.refused += 1; }
                if s.ps.add_collider(ColliderWrapper::Mesh(MeshCollider::new())).is_err() { seen.refused += 1; }
                if s.ps.add_collider(ColliderWrapper::Sphere(SphereCollider::new(-1.0))).is_err() { seen.refused += 1; }
                if let Some((c, _)) = owned.first() { if s.ps.update_collider(*c, ColliderWrapper::Sphere(SphereCollider::new(-1.0))).is_err() { seen.refused += 1; } }
            }
            6 => {
                let g = Counted::new(born, gone, r.below(200), r.cube(1.0));
                gens.push(s.ps.add_unary_force_generator(Box::new(g)).ok().expect("a generator was refused"));
            }
            7 => if !gens.is_empty() {
                let i = r.below(gens.len());
                let before = gone.get();
                let b = s.ps.remove_unary_force_generator(gens.swap_remove(i)).expect("a live generator was not there");
                ensure!(gone.get() == before, "removing a generator, which hands it back, also dropped one");
                drop(b);
                ensure!(gone.get() == before + 1, "dropping the generator handed back dropped {} generators", gone.get() - before);
                seen.gens += 1;
            },
            8 => { let h = *r.pick(&ents); let mut e = s.ps.get_entity(h).expect("live entity not found"); e.velocity = r.cube(3.0).to32(); let _ = s.ps.update_entity(h, e); }
            9 => if !owned.is_empty() {
                let i = r.below(owned.len());
                let c = s.ps.get_collider(owned[i].0).expect("live collider not found");
                let _ = s.ps.update_collider(owned[i].0, c);
            },
            10 => if !owned.is_empty() && r.p(0.5) { let i = r.below(owned.len()); s.ps.remove_collider(owned.swap_remove(i).0); seen.alone += 1; } else if !loose.is_empty() { let i = r.below(loose.len()); s.ps.remove_collider(loose.swap_remove(i)); seen.alone += 1; },
            _ => for _ in 0..1 + r.below(4) { s.step(0.05); seen.collisions += s.ps.collision_records.len() as u64; },
        }
    }
    for _ in 0..r.below(12) { s.step(0.05); seen.collisions += s.ps.collision_records.len() as u64; }
    // a kick to what stays
    if r.p(0.3) && stay > 0 { let i = r.below(stay); s.set(i, |e| if e.own_mass.is_finite() { e.velocity = r.cube(1.0).to32() }); }
    // take all of it away again
    let gens_first = r.p(0.5);
    if gens_first { for g in gens.drain(..) { if s.ps.remove_unary_force_generator(g).is_none() { bail!("a live generator was not there"); } seen.gens += 1; } }
    r.shuffle(&mut ents);
    let some = r.p(0.3);
    for h in &ents {
        if some && r.p(0.5) { for (c, e) in &owned { if e == h { s.ps.remove_collider(*c); seen.alone += 1; } } }
        if s.ps.get_entity(*h).map(|e| e.was_asleep()).unwrap_or(false) { seen.asleep += 1; }
        ensure!(s.ps.remove_entity(*h), "a live entity could not be removed");
        if r.p(0.2) { s.step(0.05); }
    }
    for c in &loose { s.ps.remove_collider(*c); seen.alone += 1; }
    for g in gens { if s.ps.remove_unary_force_generator(g).is_none() { bail!("a live generator was not there"); } seen.gens += 1; }
    s.step(0.05);
    Ok(())
}

fn run(ctx: &mut Ctx, r: &mut Rng) -> Res {
    // what stays
    let mut bodies = Vec::new();
    let axis = V(0.0, 1.0, 0.0);
    match r.below(4) {
        0 => bodies.push(Body::new(V(0.0, -0.6, 0.0)).with(Col::plane(Z, axis, f64::INFINITY).e(0.0))),
        1 => bodies.push(Body::new(V(0.0, -0.6, 0.0)).with(Col::bx(Z, V(-20.0, -1.0, -20.0), V(20.0, 0.0, 20.0), f64::INFINITY).e(0.0))),
        2 => { bodies.push(Body::new(V(0.0, -0.6, 0.0)).with(Col::plane(Z, axis, f64::INFINITY).e(0.0))); bodies.push(Body::new(V(0.0, -0.6, 0.0)).with(Col::sphere(V(3.0, 0.0, 0.0), 1.0, f64::INFINITY).e(0.0))); }
        _ => {}
    }
    for k in 0..r.below(4) { bodies.push(Body::new(V(k as f64 * 1.3 - 2.0, 1.5, 0.0)).with(Col::sphere(Z, 0.5, 1.0).e(0.0))); }
    let sleepy = r.p(0.8);
    let mut w = World::new(bodies).iters(2 + r.below(20) as u8);
    if sleepy { w = w.sleep(r.lr(1e-2, 5.0), r.r(0.01, 0.15)); }
    if r.p(0.8) { w.gravity = Some(V(0.0, -r.r(0.5, 5.0), 0.0)); }
    let rounds = if ctx.thorough { 100 + r.below(200) } else { 60 + r.below(60) };
    let left = r.p(0.5);
    ctx.log(|| format!("{} rounds on {:?}", rounds, w));
    let script = r.u64();
    let mut seen = Seen::default();
    let calls0 = CALLS.with(|c| c.get());
    // whatever is set up once per thread or process
    {
        let mut s = w.build();
        let (b, g) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
        let stay = s.ents.len();
        round(&mut s, &mut Rng::new(script), &mut Seen::default(), &b, &g, stay)?;
        println!();
    }
    let (early, late, levels) = {
        // nothing in here may keep memory of its own
        let mut levels: Vec<i64> = Vec::with_capacity(rounds);
        let (mut early, mut late) = (i64::MIN, i64::MAX);
        let base = live();
        {
            let born = Rc::new(Cell::new(0));
            let gone = Rc::new(Cell::new(0));
            let mut s = w.build();
            let stay = s.ents.len();
            let kept = s.ps.add_unary_force_generator(Box::new(Counted::new(&born, &gone, 10, Z))).ok().expect("a generator was refused");
            let origin: Vec<Entity> = s.ents.iter().map(|h| s.ps.get_entity(*h).expect("live entity not found")).collect();
            for k in 0..rounds {
                let mut q = Rng::new(script);
                // what stays starts each round from the same place
                for i in 0..stay { let o = &origin[i]; s.set(i, |e| { e.position = o.position; e.rotation = o.rotation; e.velocity = o.velocity; e.angular_velocity = o.angular_velocity; }); }
                round(&mut s, &mut q, &mut seen, &born, &gone, stay)?;
                ensure!(born.get() - gone.get() == 1, "round {}: {} generators were made, {} removed ones are gone, one should remain", k, born.get(), gone.get());
                for c in &s.ps.collision_records { let _ = c; }
                let l = live() - base;
                levels.push(l);
                if k >= 15 && k < 35 { early = early.max(l); }
                if k + 20 >= rounds { late = late.min(l); }
            }
            if left {
                // with things in it
                for i in 0..5 { let b = Body::new(V(i as f64, 3.0, 0.0)).with(Col::sphere(Z, 0.3, 1.0)).with(Col::point(Z, 1.0, 1.0)); s.add(&b); }
                let mut q = Rng::new(script);
                let c = col(&mut q); let _ = s.ps.add_collider(c.wrapper());
                s.ps.add_unary_force_generator(Box::new(Counted::new(&born, &gone, 10, Z))).ok().expect("a generator was refused");
                for _ in 0..10 { s.step(0.05); }
            } else { ensure!(s.ps.remove_unary_force_generator(kept).is_some(), "a live generator was not there"); }
            drop(s);
            ensure!(born.get() == gone.get(), "after the system was dropped, {} of {} generators are gone", gone.get(), born.get());
        }
        let l = live() - base;
        ensure!(l == 0, "{} bytes are still held after the system was dropped, after {} rounds", l, rounds);
        (early, late, levels)
    };
    ctx.log(|| format!("bytes held after each round: {:?}", levels));
    ctx.maxi("growth over the rounds, bytes", (late - early) as f64);
    ensure!(late - early <= 1024, "the system holds {} bytes more after {} rounds than after 35; every round removes all it adds: {:?}", late - early, rounds, levels);
    ctx.add("round", rounds as u64);
    ctx.add("bodies removed asleep", seen.asleep); ctx.add("collisions", seen.collisions); ctx.add("generator removed", seen.gens); ctx.add("refused call", seen.refused); ctx.add("collider removed alone", seen.alone);
    ctx.add("allocations", CALLS.with(|c| c.get()) - calls0);
    if left { ctx.count("system dropped with things in it"); }
    if seen.collisions > 0 || seen.asleep > 0 { let mut h = H::new(); for b in &w.bodies { h.v(b.pos); } h.u(seen.collisions).u(levels[rounds - 1] as u64); ctx.nontrivial(h.0); }
    if ctx.case % 503 == 3 { ctx.sample(|| format!("{} rounds on {:?}: {} bytes", rounds, w, levels[rounds - 1])); }
    Ok(())
}
