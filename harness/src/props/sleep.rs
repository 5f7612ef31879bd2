//! C22, C23: falling asleep and waking up.
use crate::crowd::*;
use crate::ctx::*;
use crate::m::*;
use crate::rng::{mix, Rng};
use crate::world::*;
use fluffy_tribble::*;
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    let assume: &'static [&'static str] = &["sleep times above zero, so a body that is woken in a step is awake at its end", "energies within 1e-4 (relative) of the threshold may count either way", "a group counts as in contact where the records of the step in which it fell asleep say so, the bodies still touch and their restitution is zero", "edits of sleeping infinite masses are not judged (their removal is)"];
    vec![
        Prop { id: "C22", quick: 8000, thorough: 320000, rule: "Each case drives 1-12 bodies for 20-200 steps of varying dt: bodies whose speed a generator scripts across the threshold, stacks built up by falling, bouncing balls; with edits, unchanged write-backs, hits and tiny steps in between. Non-trivial: a body fell asleep - distinct by its state then.", assume, min: &[("fell asleep", 1500), ("fell asleep again after waking", 400), ("timer reset by motion", 700), ("must be asleep by now, and is", 600), ("held up by contact", 800), ("asleep step", 50000), ("negative threshold", 15), ("tiny step", 1500), ("fell asleep with what it touches", 3000), ("fell asleep on a sleeping support", 1500), ("fell asleep after the thresholds were changed", 300)], hang_violates: false, run: |c, r| run(c, r, 22) },
        Prop { id: "C23", quick: 5000, thorough: 200000, rule: "Each case lets towers, bridges and beds of balls on planes, boxes or big spheres come to rest, then throws bodies at them, edits (bodies, supports, and which colliders they own), removes and writes back, and compares who is awake after every call with the contact groups recorded as they fell asleep. Non-trivial: an event that woke a group - distinct by scene and event.", assume, min: &[("struck sleeper awake", 300), ("group woken by a hit", 20), ("edited sleeper awake", 350), ("group woken by an edit", 140), ("woken by a removal", 80), ("group woken by a change of colliders", 100), ("group woken by an edit of its support", 30), ("write-back leaves asleep", 150), ("others stay asleep", 80000), ("chain of three woken", 70), ("infinite sleeper struck", 15000)], hang_violates: false, run: |c, r| run(c, r, 23) },
    ]
}

/// gives each body the velocity the script wants after this step, or nothing for bodies it does not know
#[derive(Debug)]
struct Script { seed: u64, speed: Vec<(EntityHandle, f64, f64)>, gravity: V, runs: u64, step: std::rc::Rc<std::cell::Cell<u64>> }
impl UnaryForceGenerator for Script {
    fn make_force(&mut self, dt: f32, ps: &PhysicsSystem, h: EntityHandle) -> Force {
        let e = ps.get_entity(h).expect("asked about an entity that is not there");
        let at = e.position;
        let m = e.get_last_total_mass() as f64;
        let v = V::of(&e.velocity);
        let f = match self.speed.iter().find(|x| x.0 == h) {
            Some((_, lo, hi)) => {
                // runs of steps below and above
                let k = self.step.get() / self.runs;
                let x = mix(self.seed ^ mix(k));
                let q = (x >> 20) as f64 / (1u64 << 44) as f64;
                let s = if x % 4 == 0 { hi * (1.1 + q) } else { lo * q };
                let d = V(1.0, 0.0, 0.0) * if x & 256 == 0 { s } else { -s };
                (d - v) * (m / dt as f64)
            }
            None => self.gravity * m,
        };
        Force::new(f.r32().to32(), at)
    }
}

struct Life { t_may: Option<f64>, t_sure: Option<f64>, woken: u32 }
struct Mon { changed: bool, thr: f64, time: f64, life: Vec<Life>, edges: HashSet<(usize, usize)>, loose: HashSet<(usize, usize)>, last: Vec<Option<Snap>>, focus: u8, max_dt: f64, alive: Vec<bool> }
impl Mon {
    fn new(w: &World, focus: u8) -> Mon {
        let n = w.bodies.len();
        let (thr, time) = w.sleep.unwrap();
        Mon { changed: false, thr, time, life: (0..n).map(|_| Life { t_may: None, t_sure: None, woken: 0 }).collect(), edges: HashSet::new(), loose: HashSet::new(), last: vec![None; n], focus, max_dt: 0.0, alive: vec![true; n] }
    }
    fn added(&mut self) { self.life.push(Life { t_may: None, t_sure: None, woken: 0 }); self.last.push(None); self.alive.push(true); }
    fn snaps(&self, sys: &Sys) -> Vec<Option<Snap>> { (0..sys.ents.len()).map(|i| if self.alive[i] { Some(sys.snap(i)) } else { None }).collect() }
    fn wake(&mut self, i: usize) { self.life[i].t_may = None; self.life[i].t_sure = None; self.life[i].woken += 1; self.edges.retain(|e| e.0 != i && e.1 != i); self.loose.retain(|e| e.0 != i && e.1 != i); }
    /// everything joined to the seeds through finite bodies by `edge`
    fn group(&self, seeds: &[usize], s: &[Option<Snap>], edge: &dyn Fn(usize, usize) -> bool, through: &dyn Fn(usize) -> bool) -> HashSet<usize> {
        let mut seen: HashSet<usize> = seeds.iter().cloned().collect();
        let mut q: Vec<usize> = seeds.to_vec();
        while let Some(i) = q.pop() {
            for j in 0..s.len() { if s[j].is_some() && !seen.contains(&j) && edge(i, j) && through(j) { seen.insert(j); q.push(j); } }
        }
        seen
    }
}
fn finite(s: &Option<Snap>) -> bool { s.as_ref().map(|x| x.mass.is_finite()).unwrap_or(false) }
fn asleep(s: &Option<Snap>) -> bool { s.as_ref().map(|x| x.asleep).unwrap_or(false) }

/// scenes
fn stacks(r: &mut Rng, focus: u8) -> (World, V) {
    // build along +y, then turn all onto a random axis direction
    let axis = r.below(3);
    let sign = if r.p(0.5) { 1.0 } else { -1.0 };
    let turn = move |v: V| { let a = [v.0, v.1 * sign, v.2 * sign]; V::from([a[(3 - axis) % 3], a[(4 - axis) % 3], a[(5 - axis) % 3]]) };
    // turn maps y onto one of the axes (cyclic shift keeps handedness)
    let mut bodies = Vec::new();
    let e_all = 0.0;
    let floor = r.below(3);
    let mut beds: Vec<(f64, f64)> = Vec::new(); // x and top of support
    let slots = 2 + r.below(4);
    let gap = *r.pick(&[0.05, 0.1, 1.0]);
    match floor {
        0 => { bodies.push(Body::new(Z).with(Col::plane(Z, turn(V(0.0, 1.0, 0.0)), f64::INFINITY).e(e_all))); }
        1 => {
            let h = V(20.0, 1.0, 5.0);
            let (a, b) = (turn(V(-h.0, -2.0, -h.2)), turn(V(h.0, 0.0, h.2)));
            let (mn, mx) = (V(a.0.min(b.0), a.1.min(b.1), a.2.min(b.2)), V(a.0.max(b.0), a.1.max(b.1), a.2.max(b.2)));
            bodies.push(Body::new(Z).with(Col::bx(Z, mn, mx, f64::INFINITY).e(e_all)));
        }
        _ => {}
    }
    let rad = *r.pick(&[0.25, 0.5, 0.4f32 as f64]);
    for k in 0..slots {
        let x = (k as f64 - slots as f64 / 2.0) * (2.0 * rad + gap);
        if floor == 2 {
            // each tower on its own big sphere
            let x2 = x * 3.0;
            bodies.push(Body::new(turn(V(x2, -2.0 * rad, 0.0)).r32()).with(Col::sphere(Z, 2.0 * rad, f64::INFINITY).e(e_all)));
            beds.push((x2, 0.0));
        } else { beds.push((x, 0.0)); }
    }
    let drop = |r: &mut Rng| if r.p(0.5) { 1e-3 } else { r.r(0.0, 0.6) };
    let mut heights: Vec<f64> = beds.iter().map(|b| b.1).collect();
    let total = 1 + r.below(6); let _ = focus;
    let mut tall = vec![0; slots];
    for _ in 0..total {
        let k = r.below(slots);
        if tall[k] >= 3 { continue; }
        if floor != 2 && k + 1 < slots && tall[k + 1] < 3 && r.p(0.2) {
            // a bridge over two towers
            let top = heights[k].max(heights[k + 1]);
            if (heights[k] - heights[k + 1]).abs() > 1e-9 { continue; }
            let (xa, xb) = (beds[k].0, beds[k + 1].0);
            let c = turn(V((xa + xb) / 2.0, 0.0, 0.0));
            let y = top + rad + drop(r);
            let h = (xb - xa) / 2.0;
            let b = Body::new((c + turn(V(0.0, y, 0.0))).r32())
                .with(Col::sphere(turn(V(-h, 0.0, 0.0)).r32(), rad, 0.5).e(e_all)).with(Col::sphere(turn(V(h, 0.0, 0.0)).r32(), rad, 0.5).e(e_all));
            bodies.push(b);
            heights[k] = y + rad; heights[k + 1] = y + rad;
            tall[k] += 1; tall[k + 1] += 1;
        } else {
            let y = heights[k] + rad + drop(r);
            let mut b = Body::new(turn(V(beds[k].0, y, 0.0)).r32());
            let m = if r.p(0.7) { 1.0 } else { r.lr(0.5, 2.0) };
            let mut c = Col::sphere(Z, rad, m).e(e_all);
            if r.p(0.3) { c.mus = r.r(0.0, 1.0); c.mud = r.r(0.0, 1.0); }
            b.cols.push(c);
            if r.p(0.3) { b.own_mass = r.lr(0.1, 1.0); }
            bodies.push(b);
            heights[k] = y + rad;
            tall[k] += 1;
        }
    }
    // idle bystanders of infinite mass, out of the way
    if r.p(0.3) { bodies.push(Body::new((turn(V(0.0, 30.0, 0.0))).r32()).with(Col::sphere(Z, 1.0, f64::INFINITY))); }
    for b in bodies.iter_mut() { if b.total_mass().is_infinite() { crate::crowd::inherent(r, b); } }
    r.shuffle(&mut bodies);
    let g = turn(V(0.0, -1.0, 0.0)) * r.r(1.0, 10.0);
    let w = World::new(bodies).iters(*r.pick(&[40, 60, 100])).sleep(r.lr(1e-3, 2e-2), r.r(0.03, 0.4));
    (w, g.r32())
}

fn run(ctx: &mut Ctx, r: &mut Rng, focus: u8) -> Res {
    let kind = if focus == 23 { 1 } else { r.below(3) };
    let base = *r.pick(&[1.0 / 60.0f32 as f64, 0.03125, 0.05f32 as f64, 0.01f32 as f64]);
    let tick = std::rc::Rc::new(std::cell::Cell::new(0u64));
    let (mut w, g) = match kind {
        0 => {
            let n = 1 + r.below(4);
            let mut bodies: Vec<Body> = Vec::new();
            for i in 0..n {
                let mut b = Body::new(V(0.0, i as f64 * 10.0, 0.0) + r.cube(1.0)).rot(gen_rot(r)).mass(if r.p(0.5) { r.lr(0.1, 5.0) } else { 0.0 });
                match r.below(5) {
                    0 => b.cols.push(Col::sphere(r.cube(0.5), r.lr(0.1, 1.0), r.lr(0.1, 5.0))),
                    1 => { b.cols.push(Col::sphere(r.cube(0.5), r.lr(0.1, 1.0), r.lr(0.1, 5.0))); b.cols.push(Col::point(r.cube(1.0), r.lr(0.1, 2.0), r.r(0.1, 1.0))); }
                    2 => b.cols.push(Col::bx(r.cube(0.5), V(-0.5, -0.25, -1.0), V(0.5, 0.25, 1.0), if r.p(0.2) { f64::INFINITY } else { 1.0 })),
                    3 => b.cols.push(Col::point(Z, r.lr(0.1, 2.0), 1.0)),
                    _ => {}
                }
                bodies.push(b);
            }
            (World::new(bodies).iters(5).sleep(if r.p(0.1) { 0.0 } else { r.lr(1e-4, 0.5) }, r.r(0.02, 0.5)), r.cube(5.0))
        }
        1 => stacks(r, focus),
        _ => {
            let mut o = Opts::new();
            o.friction = r.p(0.5); o.statics = true; o.spin = r.p(0.5);
            let mut w = crowd(r, &o, 0.01);
            w.iter_max = 20;
            w.sleep = Some((r.lr(1e-2, 2.0), r.r(0.02, 0.3)));
            (w, if r.p(0.5) { Z } else { r.cube(5.0) })
        }
    };
    if focus == 22 && r.p(0.05) { let t = w.sleep.unwrap().1; w.sleep = Some((-r.lr(1e-9, 1.0), t)); }
    let (thr, time) = w.sleep.unwrap();
    let mut sys = w.build();
    let mut speed = Vec::new();
    if kind == 0 {
        for (i, b) in w.bodies.iter_mut().enumerate() {
            let s = sys.snap(i);
            if !s.mass.is_finite() || s.mass <= 1e-3 { continue; }
            let v = (2.0 * thr.abs() / s.mass).sqrt().max(1e-3);
            // some of the energy in spin, or too much of it
            if r.p(0.4) { let a = r.dir(); let i1 = s.inertia.app(a).dot(a); if i1 > 1e-4 { let wv = a * ((2.0 * thr.abs() * *r.pick(&[0.3, 0.8, 1.5])) / i1).sqrt(); sys.set(i, |e| e.angular_velocity = wv.r32().to32()); b.ang = wv.r32(); } }
            speed.push((sys.ents[i], v * 0.95, v));
        }
    }
    let script = Script { seed: r.u64(), speed, gravity: g, runs: 1 + r.below(12) as u64, step: tick.clone() };
    if kind == 0 || g != Z { sys.ps.add_unary_force_generator(Box::new(script)).unwrap(); }
    let mut mon = Mon::new(&w, focus);
    let steps = if focus == 23 { 60 + r.below(80) } else { 20 + r.below(150) };
    let vary = r.p(0.3);
    ctx.log(|| format!("kind {} gravity {:?} dt {} sleep ({}, {}) {:?}", kind, g, base, thr, time, w));
    if thr < 0.0 { ctx.count("negative threshold"); }
    let mut calm = 0;
    for k in 0..steps {
        tick.set(k as u64);
        let dt = if vary { r.lr(base * 0.5, base * 2.0) } else { base };
        // events
        let sleeping: Vec<usize> = (0..sys.ents.len()).filter(|i| mon.alive[*i] && asleep(&mon.last[*i])).collect();
        let nfin = (0..sys.ents.len()).filter(|i| mon.alive[*i] && finite(&mon.last[*i])).count();
        let nslp = sleeping.iter().filter(|i| finite(&mon.last[**i])).count();
        if nfin > 0 && nfin == nslp { calm += 1; } else { calm = 0; }
        let p = if focus == 23 { if calm > 2 { 0.5 } else if nslp > 0 { 0.05 } else { 0.0 } } else { 0.06 };
        // the thresholds are settings that may change at any time
        if focus == 22 && k > 3 && r.p(0.02) {
            if r.p(0.6) { mon.thr = (thr * r.lr(0.3, 3.0)) as f32 as f64; } else { mon.thr = thr; }
            if r.p(0.6) { mon.time = (time * r.lr(0.3, 3.0)) as f32 as f64; } else { mon.time = time; }
            sys.ps.energy_sleep_threshold = mon.thr as f32; sys.ps.sleep_time_threshold = mon.time as f32;
            mon.changed = true;
        }
        if r.p(p) { event(ctx, r, &mut sys, &mut w, &mut mon, kind, g)?; }
        if focus == 22 && r.p(0.05) {
            let before = mon.snaps(&sys);
            sys.step(*r.pick(&[0.0, 5e-7, -5e-7]));
            let after = mon.snaps(&sys);
            for i in 0..before.len() { if let (Some(a), Some(b)) = (&before[i], &after[i]) { ensure!(a.bits == b.bits, "a step too small to count changed body {}", i); } }
            ctx.count("tiny step");
        }
        step(ctx, &mut sys, &w, &mut mon, dt, k)?;
        if mon.last.iter().any(|s| s.as_ref().map(|s| !s.pos.finite() || !s.vel.finite() || !s.ang.finite()).unwrap_or(false)) { ctx.count("non-finite (left to C25)"); return Ok(()); }
    }
    if ctx.case % 2003 == 3 { ctx.sample(|| format!("kind {} sleep ({}, {}) {:?}", kind, thr, time, w)); }
    Ok(())
}

fn step(ctx: &mut Ctx, sys: &mut Sys, w: &World, mon: &mut Mon, dt: f64, k: usize) -> Res {
    let s0 = mon.snaps(sys);
    // woken between the steps
    for i in 0..s0.len() { if mon.alive[i] && asleep(&mon.last[i]) && !asleep(&s0[i]) { mon.wake(i); } }
    sys.step(dt);
    let s1 = mon.snaps(sys);
    let recs = sys.recs();
    if dt > mon.max_dt { mon.max_dt = dt; }
    let n = s1.len();
    ctx.log(|| format!("step {} dt {}: asleep {:?} records {:?}", k, dt, (0..n).filter(|i| asleep(&s1[*i])).collect::<Vec<_>>(), recs.iter().map(|x| x.pair()).collect::<Vec<_>>()));
    let touching: Vec<(usize, usize)> = recs.iter().map(|x| x.pair()).collect();
    let in_rec = |i: usize| touching.iter().any(|p| p.0 == i || p.1 == i);
    // ------------------------------------------------ C23: waking
    let struck: Vec<usize> = (0..n).filter(|i| asleep(&s0[*i]) && finite(&s0[*i]) && in_rec(*i)).collect();
    if mon.focus == 23 {
        for i in &struck {
            ensure!(!asleep(&s1[*i]), "step {}: body {} slept, took part in a collision, and is asleep after it: {:?}", k, i, touching);
            ctx.count("struck sleeper awake");
        }
        let sure = mon.group(&struck, &s0, &|i, j| mon.edges.contains(&(i.min(j), i.max(j))), &|j| finite(&s0[j]));
        for i in &sure { ensure!(!asleep(&s1[*i]), "step {}: bodies {:?} were struck, and body {} they slept in contact with is still asleep; contacts {:?}", k, struck, i, mon.edges); }
        if sure.len() > struck.len() { ctx.count("group woken by a hit"); if sure.len() >= struck.len() + 2 { ctx.count("chain of three woken"); } let mut h = H::new(); for i in &struck { h.v(s0[*i].as_ref().unwrap().pos); } h.u(n as u64); ctx.nontrivial(h.0); }
        // who may have woken: whoever touches, directly or through others, something that was struck
        let gaps = |i: usize, j: usize| { let (a, b) = (s0[i].as_ref().unwrap(), s0[j].as_ref().unwrap()); body_gap(&w.bodies[i], a.origin, a.q, &w.bodies[j], b.origin, b.q) };
        let woken: Vec<usize> = (0..n).filter(|i| asleep(&s0[*i]) && !asleep(&s1[*i])).collect();
        if !woken.is_empty() {
            let may = mon.group(&struck, &s0, &|i, j| gaps(i, j) < 5e-3 || mon.loose.contains(&(i.min(j), i.max(j))), &|j| finite(&s0[j]) && asleep(&s0[j]));
            for i in &woken { ensure!(may.contains(i), "step {}: body {} woke up, but nothing struck it or what it touches (struck {:?}, records {:?})", k, i, struck, touching); }
        }
        for i in 0..n { if asleep(&s0[i]) && asleep(&s1[i]) {
            ctx.count("others stay asleep");
            if !finite(&s0[i]) && in_rec(i) { ctx.count("infinite sleeper struck"); }
        } }
        // something going right through a sleeper has struck it
        if recs.len() < w.iter_max as usize {
            for i in 0..n { if !asleep(&s1[i]) || w.bodies[i].cols.len() != 1 { continue; } for j in 0..n {
                if i == j || asleep(&s1[j]) || s1[j].is_none() || w.bodies[j].cols.len() != 1 { continue; }
                if !finite(&s1[i]) && !finite(&s1[j]) { continue; }
                let (a, b) = (s1[i].as_ref().unwrap(), s1[j].as_ref().unwrap());
                let g = body_gap(&w.bodies[i], a.origin, a.q, &w.bodies[j], b.origin, b.q);
                let b0 = s0[j].as_ref().unwrap();
                let g0 = body_gap(&w.bodies[i], a.origin, a.q, &w.bodies[j], b0.origin, b0.q);
                ensure!(g > -0.02 || g0 < 0.0, "step {}: body {} is {} inside the sleeping body {}, without having struck it", k, j, -g, i);
            } }
        }
    }
    for i in &struck { mon.wake(*i); }
    // ------------------------------------------------ C22: falling asleep
    for i in 0..n {
        let (a, b) = match (&s0[i], &s1[i]) { (Some(a), Some(b)) => (a, b), _ => continue };
        if a.asleep && !b.asleep { if !struck.contains(&i) { mon.wake(i); } }
        if mon.focus == 22 && b.asleep && mon.thr < 0.0 { return Err(format!("step {}: body {} fell asleep with a negative threshold", k, i)); }
        if a.asleep && b.asleep && !struck.contains(&i) {
            if mon.focus == 22 {
                ensure!(a.bits[..6] == b.bits[..6], "step {}: body {} is asleep but its pose changed from {:?} {:?} to {:?} {:?}", k, i, a.pos, a.rot, b.pos, b.rot);
                ensure!(b.vel == Z && b.ang == Z, "step {}: body {} has slept for a whole step but its velocities are {:?} {:?}", k, i, b.vel, b.ang);
                ctx.count("asleep step");
            }
            continue;
        }
        // awake at the end, or fell asleep at the end
        let e = b.energy;
        let may = !(e > mon.thr + 1e-4 * mon.thr.abs());
        let sure = e <= mon.thr - 1e-4 * mon.thr.abs();
        let l = &mut mon.life[i];
        if !may && l.t_may.is_some() && mon.focus == 22 { ctx.count("timer reset by motion"); }
        l.t_may = if may { Some(l.t_may.map_or(0.0, |t| t + dt)) } else { None };
        l.t_sure = if sure { Some(l.t_sure.map_or(0.0, |t| t + dt)) } else { None };
        if b.asleep && mon.focus == 22 {
            let t = l.t_may;
            let tol = 3e-5 * mon.time + 1e-6;
            match t {
                None => return Err(format!("step {}: body {} fell asleep with an energy of {} (threshold {})", k, i, e, mon.thr)),
                Some(t) => ensure!(t >= mon.time - tol, "step {}: body {} fell asleep after {} at rest since it last moved or woke, the sleep time is {}", k, i, t, mon.time),
            }
            ctx.count("fell asleep");
            if mon.changed { ctx.count("fell asleep after the thresholds were changed"); }
            if l.woken > 0 { ctx.count("fell asleep again after waking"); }
            let mut h = H::new(); h.v(b.pos).v(b.vel).f(e).u(k as u64); ctx.nontrivial(h.0);
        }
    }
    if mon.focus == 22 {
        let due = |i: usize| mon.life[i].t_sure.map_or(false, |t| t > mon.time + 2.0 * mon.max_dt + 1e-4 * mon.time);
        for i in 0..n {
            if s1[i].is_none() || !due(i) { continue; }
            if asleep(&s1[i]) { ctx.count("must be asleep by now, and is"); continue; }
            let edge = |a: usize, b: usize| touching.contains(&(a, b)) || touching.contains(&(b, a));
            // through finite bodies only, infinite ones count as ends
            let fin = mon.group(&[i], &s1, &edge, &|j| finite(&s1[j]));
            let held = if !finite(&s1[i]) { false } else { (0..n).any(|j| s1[j].is_some() && !asleep(&s1[j]) && !due(j) && (fin.contains(&j) || fin.iter().any(|a| edge(*a, j)))) };
            ensure!(held, "step {}: body {} has been at rest for {} (sleep time {}) and is still awake; energy {} threshold {}; in contact with {:?}", k, i, mon.life[i].t_sure.unwrap(), mon.time, s1[i].as_ref().unwrap().energy, mon.thr, fin);
            ctx.count("held up by contact");
        }
    }
    // ------------------------------------------------ C22: nobody falls asleep against a body that's still awake
    if mon.focus == 22 {
        for x in &recs {
            let (a, b) = x.pair();
            if a >= n || b >= n || x.e != 0.0 { continue; }
            for (i, j) in [(a, b), (b, a)] {
                if !asleep(&s1[i]) || (asleep(&s0[i]) && !struck.contains(&i)) || !finite(&s1[i]) || s1[j].is_none() { continue; }
                let (p, q) = (s1[i].as_ref().unwrap(), s1[j].as_ref().unwrap());
                // a light touch, which leaves no speed along the normal, and they still touch
                if !(x.j * (1.0 / p.mass + 1.0 / q.mass) < 0.1) { ctx.count("gray: fell asleep after a harder hit"); continue; }
                if !(body_gap(&w.bodies[i], p.origin, p.q, &w.bodies[j], q.origin, q.q).abs() < 1e-3) { continue; }
                ensure!(asleep(&s1[j]), "step {}: body {} fell asleep, in contact with body {} which is still awake; records {:?}", k, i, j, touching);
                ctx.count(if finite(&s1[j]) { "fell asleep with what it touches" } else { "fell asleep on a sleeping support" });
            }
        }
    }
    // ------------------------------------------------ contact groups of those that fell asleep now
    for x in &recs {
        let (a, b) = x.pair();
        if a >= n || b >= n { continue; }
        if !asleep(&s1[a]) || !asleep(&s1[b]) { continue; }
        if asleep(&s0[a]) && asleep(&s0[b]) { continue; }
        mon.loose.insert((a.min(b), a.max(b)));
        if x.e != 0.0 { continue; }
        let (p, q) = (s1[a].as_ref().unwrap(), s1[b].as_ref().unwrap());
        if body_gap(&w.bodies[a], p.origin, p.q, &w.bodies[b], q.origin, q.q).abs() < 1e-3 { mon.edges.insert((a.min(b), a.max(b))); }
    }
    mon.last = s1;
    Ok(())
}

fn event(ctx: &mut Ctx, r: &mut Rng, sys: &mut Sys, w: &mut World, mon: &mut Mon, kind: usize, g: V) -> Res {
    let n = sys.ents.len();
    let s0 = mon.snaps(sys);
    let live: Vec<usize> = (0..n).filter(|i| s0[*i].is_some()).collect();
    if live.is_empty() { return Ok(()); }
    let slp: Vec<usize> = live.iter().cloned().filter(|i| finite(&s0[*i]) && asleep(&s0[*i])).collect();
    let fin: Vec<usize> = live.iter().cloned().filter(|i| finite(&s0[*i])).collect();
    let what = r.below(if kind == 1 { 8 } else { 3 });
    let check = mon.focus == 23;
    match what {
        // unchanged write-back
        0 => {
            let i = *r.pick(&live);
            sys.set(i, |_| {});
            let s1 = mon.snaps(sys);
            for j in &live { ensure!(asleep(&s0[*j]) == asleep(&s1[*j]), "writing body {} back unchanged {} body {}", i, if asleep(&s0[*j]) { "woke" } else { "put to sleep" }, j); }
            if asleep(&s0[i]) { ctx.count("write-back leaves asleep"); }
            ctx.log(|| format!("wrote back body {}", i));
        }
        // an edit
        1 | 2 => {
            let infs: Vec<usize> = live.iter().cloned().filter(|i| !finite(&s0[*i]) && asleep(&s0[*i])).collect();
            let pool = if !infs.is_empty() && r.p(0.12) { &infs } else if !slp.is_empty() && r.p(0.8) { &slp } else { &fin };
            if pool.is_empty() { return Ok(()); }
            let i = *r.pick(pool);
            let up = if g == Z { r.dir() } else { g.unit() * -1.0 };
            let how = r.below(5);
            let (s, mag) = (r.r(0.5, 2.0), r.lr(1e-4, 0.5));
            let d = r.dir();
            sys.set(i, |e| match how {
                // (a support is moved away from what rests on it)
                0 => e.position += (up * if infs.contains(&i) { -mag } else if mag < 0.02 { 0.02 } else { mag }).r32().to32(),
                1 => e.velocity += (d * mag).r32().to32(),
                2 => e.angular_velocity += (d * mag).r32().to32(),
                3 => if e.own_mass.is_infinite() { e.velocity += (d * mag).r32().to32() } else if e.own_mass > 0.01 && s < 1.25 { e.own_mass *= if s < 0.8 { 0.0 } else { 0.5 } } else { e.own_mass += s as f32 * 0.5 },
                _ => { let q = Q::from_axis(d * mag).mul(Q::from_axis(V::of(&e.rotation))); let v = q.axis(); e.rotation = v.r32().to32(); }
            });
            ctx.log(|| format!("edited body {} ({})", i, how));
            let s1 = mon.snaps(sys);
            if check {
                if asleep(&s0[i]) { ctx.count("edited sleeper awake"); }
                ensure!(!asleep(&s1[i]), "body {} was edited ({}) while asleep and is still asleep", i, ["position", "velocity", "angular velocity", "mass", "rotation"][how]);
                woke_group(ctx, mon, w, &s0, &s1, &[i], &format!("body {} was edited", i), if finite(&s0[i]) { "group woken by an edit" } else { "group woken by an edit of its support" })?;
            }
        }
        // a removal
        3 => {
            let inf: Vec<usize> = live.iter().cloned().filter(|i| !finite(&s0[*i])).collect();
            let i = if r.p(0.25) && !inf.is_empty() { *r.pick(&inf) } else if !slp.is_empty() { *r.pick(&slp) } else { return Ok(()) };
            ensure!(sys.ps.remove_entity(sys.ents[i]), "a live entity could not be removed");
            mon.alive[i] = false;
            ctx.log(|| format!("removed body {}", i));
            let s1 = mon.snaps(sys);
            if check { woke_group(ctx, mon, w, &s0, &s1, &[i], &format!("body {} was removed", i), "woken by a removal")?; }
            mon.last[i] = None;
        }
        // a collider comes or goes
        6 | 7 => {
            let infs: Vec<usize> = live.iter().cloned().filter(|i| !finite(&s0[*i]) && asleep(&s0[*i])).collect();
            let pool = if !infs.is_empty() && r.p(0.25) { &infs } else if !slp.is_empty() && r.p(0.9) { &slp } else { &live };
            if pool.is_empty() { return Ok(()); }
            let i = *r.pick(pool);
            let before = w.clone();
            let mut seeds = vec![i];
            let how;
            if what == 6 {
                if w.bodies[i].cols.is_empty() { return Ok(()); }
                let (c, h) = (w.bodies[i].cols.pop().unwrap(), sys.cols[i].pop().unwrap());
                match r.below(3) {
                    0 => { how = "lost a collider (unlinked)"; sys.ps.link_collider(h, None).expect("unlinking was refused"); }
                    1 => { how = "lost a collider (removed)"; sys.ps.remove_collider(h); }
                    _ => {
                        let j = *r.pick(&live);
                        how = if i == j { "had a collider linked again" } else { "lost a collider (to another body)" };
                        sys.ps.link_collider(h, Some(sys.ents[j])).expect("a valid link was refused");
                        w.bodies[j].cols.push(c); sys.cols[j].push(h);
                        if i == j { seeds.clear(); } else { seeds.push(j); }
                    }
                }
            } else {
                how = "got another collider";
                let c = Col::point(r.cube(0.1), r.lr(0.1, 1.0), r.r(0.01, 0.1));
                let h = sys.ps.add_collider(c.wrapper()).ok().expect("a valid collider was refused");
                let s1 = mon.snaps(sys);
                for j in &live { ensure!(asleep(&s0[*j]) == asleep(&s1[*j]), "adding a collider woke body {}", j); }
                sys.ps.link_collider(h, Some(sys.ents[i])).expect("a valid link was refused");
                w.bodies[i].cols.push(c); sys.cols[i].push(h);
            }
            ctx.log(|| format!("body {} {} {:?}", i, how, seeds));
            let s1 = mon.snaps(sys);
            if check {
                for i in &seeds { ensure!(!asleep(&s1[*i]), "body {} {} while asleep and is still asleep", i, how); if asleep(&s0[*i]) { ctx.count("sleeper awake after a change of its colliders"); } }
                woke_group(ctx, mon, &before, &s0, &s1, &seeds, &format!("body {} {}", i, how), "group woken by a change of colliders")?;
            }
        }
        // something thrown in
        4 | 5 => {
            let aim = if r.p(0.7) && !slp.is_empty() { Some(*r.pick(&slp)) } else { None };
            let rad = r.r(0.1, 0.3);
            let down = if g == Z { r.dir() } else { g.unit() };
            let side = down.ortho();
            let (from, at) = match aim {
                Some(i) => { let p = s0[i].as_ref().unwrap().pos; let d = (r.dir() - down * 0.7).unit(); let d = if d.dot(down) > 0.0 { d - down * (2.0 * d.dot(down)) } else { d }; (p + d * r.r(1.5, 3.0), p) }
                None => { let x = side * r.r(-3.0, 3.0) - down * r.r(4.0, 6.0); (x, x + r.cube(2.0) - down * 1.0) }
            };
            let mut b = Body::new(from.r32()).with(Col::sphere(Z, rad, r.lr(0.1, 2.0)).e(*r.pick(&[0.0, 0.5, 1.0])));
            b.vel = ((at - from).unit() * r.lr(0.5, 10.0)).r32();
            // not into something
            let q = b.q();
            for j in &live { let s = s0[*j].as_ref().unwrap(); if body_gap(&b, b.pos, q, &w.bodies[*j], s.origin, s.q) < 0.1 { return Ok(()); } }
            w.bodies.push(b.clone());
            sys.add(&b);
            mon.added();
            ctx.log(|| format!("threw in {:?}", b));
            let s1 = mon.snaps(sys);
            for j in &live { ensure!(asleep(&s0[*j]) == asleep(&s1[*j]), "adding a body woke body {}", j); }
        }
        _ => {}
    }
    // timers restart for what woke, contacts are forgotten
    let s1 = mon.snaps(sys);
    for i in 0..n { if mon.alive[i] && asleep(&s0[i]) && !asleep(&s1[i]) { mon.wake(i); } }
    for i in 0..n { if !mon.alive[i] { mon.edges.retain(|e| e.0 != i && e.1 != i); mon.loose.retain(|e| e.0 != i && e.1 != i); } }
    for i in 0..s1.len() { if mon.alive[i] { mon.last[i] = s1[i].clone(); } }
    Ok(())
}
/// who must and who may be awake after a call that concerns the seeds
fn woke_group(ctx: &mut Ctx, mon: &Mon, w: &World, s0: &[Option<Snap>], s1: &[Option<Snap>], seeds: &[usize], why: &str, count: &str) -> Res {
    let was_asleep: Vec<usize> = seeds.iter().cloned().filter(|i| asleep(&s0[*i])).collect();
    let sure = mon.group(&was_asleep, s0, &|i, j| mon.edges.contains(&(i.min(j), i.max(j))), &|j| finite(&s0[j]));
    let mut k = 0;
    for i in &sure { if s1[*i].is_some() && !seeds.contains(i) { k += 1; ensure!(!asleep(&s1[*i]), "{}, and body {} that slept in contact with it is still asleep; contacts {:?}", why, i, mon.edges); } }
    if k > 0 { ctx.count(count); if k > 1 { ctx.count("chain of three woken"); } let mut h = H::new(); for i in seeds { h.v(s0[*i].as_ref().unwrap().pos).u(*i as u64); } h.u(k); ctx.nontrivial(h.0); }
    let gaps = |i: usize, j: usize| { let (a, b) = (s0[i].as_ref().unwrap(), s0[j].as_ref().unwrap()); body_gap(&w.bodies[i], a.origin, a.q, &w.bodies[j], b.origin, b.q) };
    let may = mon.group(seeds, s0, &|i, j| gaps(i, j) < 5e-3 || mon.loose.contains(&(i.min(j), i.max(j))), &|j| finite(&s0[j]) && asleep(&s0[j]));
    for i in 0..s1.len() { if i < s0.len() && asleep(&s0[i]) && s1[i].is_some() && !asleep(&s1[i]) {
        ensure!(may.contains(&i), "{}, and body {}, which does not touch it or its group, woke up", why, i);
    } else if asleep(&s1[i]) { ctx.count("others stay asleep"); } }
    Ok(())
}
