//! C01-C05: random histories of the store/edit/link API against a reference model.
use crate::ctx::*;
use crate::m::*;
use crate::rng::Rng;
use crate::world::*;
use fluffy_tribble::types::Vec3;
use fluffy_tribble::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    let rule = "Each case is a random history of 12-60 calls (add, get, update, link, unlink, remove of entities, all five collider kinds and force generators, steps, calls with dead handles and with invalid values) on one system, judged after every call against a reference model. Non-trivial: a history in which storage was reused or colliders changed owner - distinct by its sequence of operations.";
    let assume: &'static [&'static str] = &["positions up to about 50, masses 0.01 to 100 or zero or infinite"];
    vec![
        Prop { id: "C01", quick: 120_000, thorough: 5_000_000, rule, assume, min: &[("dead handle refused", 500), ("slot reused by a new object", 400), ("op remove linked collider", 100), ("op remove entity with colliders", 100), ("generator removed and returned", 80)], hang_violates: false, run: |c, r| history(c, r, 1) },
        Prop { id: "C02", quick: 120_000, thorough: 5_000_000, rule, assume, min: &[("op relink", 200), ("op unlink", 100), ("op remove linked collider", 100), ("op remove entity with colliders", 100), ("refused link", 120), ("op unlink from a sleeper", 15), ("op relink from a sleeper", 60), ("op remove collider of a sleeper", 15)], hang_violates: false, run: |c, r| history(c, r, 2) },
        Prop { id: "C03", quick: 120_000, thorough: 5_000_000, rule, assume, min: &[("finite composite judged", 2000), ("infinite judged", 300), ("massless judged", 300), ("rotated entity judged", 2000), ("op unlink from a sleeper", 15)], hang_violates: false, run: |c, r| history(c, r, 3) },
        Prop { id: "C04", quick: 120_000, thorough: 5_000_000, rule, assume, min: &[("inertia judged", 2000), ("parallel axis matters", 500), ("infinite at rest", 80), ("infinite in motion", 500)], hang_violates: false, run: |c, r| history(c, r, 4) },
        Prop { id: "C05", quick: 120_000, thorough: 5_000_000, rule, assume, min: &[("refused invalid", 500), ("refused kind change", 70), ("round trip unchanged", 500), ("entity added from a copy", 200), ("collider made from a copy", 500), ("faces added to a copied mesh", 50), ("swapped box corners", 300), ("plane normal scaled", 300)], hang_violates: false, run: |c, r| history(c, r, 5) },
    ]
}

#[derive(Debug)]
pub struct MarkGen { pub id: u32, pub seen: Rc<RefCell<Vec<(u32, EntityHandle)>>> }
impl UnaryForceGenerator for MarkGen {
    fn make_force(&mut self, _dt: f32, ps: &PhysicsSystem, h: EntityHandle) -> Force {
        self.seen.borrow_mut().push((self.id, h));
        Force::new(Vec3::zeros(), ps.get_entity(h).map(|e| e.position).unwrap_or(Vec3::zeros()))
    }
}

#[derive(Clone, Debug)]
struct ME { h: EntityHandle, alive: bool, own: f64, vel: V, ang: V, q: Q, origin: V, cols: BTreeSet<usize>, vbits: [u32; 6], exact: bool, pos_set: V }
#[derive(Clone, Debug)]
struct MC { h: ColliderHandle, alive: bool, col: Col, owner: Option<usize> }
struct MG { h: UnaryForceGeneratorHandle, alive: bool, id: u32 }

pub fn gen_mass(r: &mut Rng) -> f64 { match r.below(8) { 0 | 1 => 0.0, 2 => f64::INFINITY, 3 if r.p(0.3) => r.lr(1e-9, 1e-5), _ => r.lr(0.01, 100.0) } }
pub fn gen_col(r: &mut Rng, kind: usize) -> Col {
    let m = gen_mass(r);
    let p = if r.p(0.3) { Z } else { r.cube(4.0) };
    let mut c = match kind {
        0 => {
            let q = Q::from_axis(r.dir() * r.r(0.0, 3.0));
            let rm = M::rot(q);
            // a physical tensor: principal moments satisfying the triangle inequality
            let (a, b, c) = (r.r(0.0, 5.0), r.r(0.0, 5.0), r.r(0.0, 5.0));
            let t = rm.mul(M::diag(a + b, b + c, a + c)).mul(rm.t()).r32();
            let t = if r.p(0.3) { M::zero() } else { t };
            Col::new(Shape::Null { pos: p, inertia: t }, m)
        }
        1 => Col::sphere(p, r.lr(0.0502, 6.0), m),
        2 => Col::plane(p, (r.dirx() * if r.p(0.4) { 1.0 } else { r.lr(1e-4, 1e4) }).r32(), m),
        3 => Col::mesh(p, gen_mesh(r, 2.0).1),
        _ => {
            let a = r.cube(3.0);
            let s = V(r.lr(0.01, 4.0), r.lr(0.01, 4.0), r.lr(0.01, 4.0));
            let (mut lo, mut hi) = (a, (a + s).r32());
            if r.p(0.4) { std::mem::swap(&mut lo.0, &mut hi.0); }
            if r.p(0.4) { std::mem::swap(&mut lo.1, &mut hi.1); }
            if r.p(0.4) { std::mem::swap(&mut lo.2, &mut hi.2); }
            Col::bx(p, lo, hi, m)
        }
    };
    c.e = r.r(0.0, 1.0); c.mus = r.r(0.0, 1.0); c.mud = r.r(0.0, 1.0); c.thr = if r.p(0.2) { r.lr(1e-3, 1e3) } else { r.r(0.0, 1.0) };
    c
}
/// `old` with one attribute changed
fn tweak(r: &mut Rng, old: &Col, fresh: Col) -> Col {
    let mut c = old.clone();
    match r.below(6) {
        0 => c.mass = fresh.mass,
        1 => { c.e = fresh.e; }
        2 => { c.mus = fresh.mus; c.mud = fresh.mud; c.thr = fresh.thr; }
        3 => c.shape = fresh.shape,
        4 => match (&mut c.shape, fresh.shape) {
            (Shape::Null { pos, .. }, Shape::Null { pos: f, .. }) | (Shape::Sphere { c: pos, .. }, Shape::Sphere { c: f, .. }) | (Shape::Plane { pos, .. }, Shape::Plane { pos: f, .. })
            | (Shape::Mesh { pos, .. }, Shape::Mesh { pos: f, .. }) | (Shape::Box { pos, .. }, Shape::Box { pos: f, .. }) => *pos = f,
            _ => {}
        },
        _ => match (&mut c.shape, fresh.shape) {
            (Shape::Null { inertia, .. }, Shape::Null { inertia: f, .. }) => *inertia = f,
            (Shape::Sphere { r, .. }, Shape::Sphere { r: f, .. }) => *r = f,
            (Shape::Plane { n, .. }, Shape::Plane { n: f, .. }) => *n = f,
            (Shape::Mesh { faces, .. }, Shape::Mesh { faces: f, .. }) => *faces = f,
            (Shape::Box { max, min, .. }, Shape::Box { max: f, min: g, .. }) => if r.p(0.5) { let d = f - g; *max = (*min + d).r32(); } else { *max = f; *min = g; },
            _ => {}
        },
    }
    c
}
fn kind_of(c: &Col) -> usize { match c.shape { Shape::Null { .. } => 0, Shape::Sphere { .. } => 1, Shape::Plane { .. } => 2, Shape::Mesh { .. } => 3, Shape::Box { .. } => 4 } }
const KIND: [&str; 5] = ["null", "sphere", "plane", "mesh", "box"];
/// an invalid version of a collider
fn spoil(r: &mut Rng, mut c: Col) -> Option<Col> {
    let neg = -r.lr(1e-3, 10.0);
    match &mut c.shape {
        Shape::Null { .. } => c.mass = neg,
        Shape::Sphere { r: rad, .. } => if r.p(0.4) { c.mass = neg } else { *rad = *r.pick(&[0.05f32 as f64, 0.0, -1.0, 0.03, 0.049f32 as f64]) },
        Shape::Plane { n, .. } => if r.p(0.4) { c.mass = neg } else { *n = if r.p(0.4) { Z } else { (r.dir() * 5e-7).r32() } },
        Shape::Mesh { faces, .. } => faces.clear(),
        Shape::Box { min, max, .. } => if r.p(0.4) { c.mass = neg } else {
            let (mut a, mut b) = (min.arr(), max.arr());
            let k = r.below(3);
            if r.p(0.5) { b[k] = a[k]; } else { a[k] = 0.0; b[k] = *r.pick(&[5e-7f32 as f64, -5e-7f32 as f64, 0.0]); }
            *min = V::from(a); *max = V::from(b);
        },
    }
    Some(c)
}

fn own_bits(w: &ColliderWrapper) -> (usize, Vec<u32>, Option<EntityHandle>) {
    let mut v = Vec::new();
    let pv = |x: &Vec3, v: &mut Vec<u32>| { for b in bits(x).iter() { v.push(*b); } };
    match w {
        ColliderWrapper::Null(c) => { pv(&c.position, &mut v); v.push(c.mass.to_bits()); for i in 0..9 { v.push(c.moment_of_inertia[i].to_bits()); } (0, v, c.get_entity()) }
        ColliderWrapper::Sphere(c) => { pv(&c.center, &mut v); for x in &[c.radius, c.mass, c.restitution_coefficient, c.friction_threshold, c.static_friction_coefficient, c.dynamic_friction_coefficient] { v.push(x.to_bits()); } (1, v, c.get_entity()) }
        ColliderWrapper::Plane(c) => { pv(&c.position, &mut v); pv(&c.normal, &mut v); for x in &[c.mass, c.restitution_coefficient, c.friction_threshold, c.static_friction_coefficient, c.dynamic_friction_coefficient] { v.push(x.to_bits()); } (2, v, c.get_entity()) }
        ColliderWrapper::Mesh(c) => { pv(&c.position, &mut v); for x in &[c.restitution_coefficient, c.friction_threshold, c.static_friction_coefficient, c.dynamic_friction_coefficient] { v.push(x.to_bits()); } v.push(c.face_count() as u32); v.push(c.edge_count() as u32); v.push(c.vertex_count() as u32); (3, v, c.get_entity()) }
        ColliderWrapper::AlignedBox(c) => { pv(&c.position, &mut v); pv(&c.min_corner, &mut v); pv(&c.max_corner, &mut v); for x in &[c.mass, c.restitution_coefficient, c.friction_threshold, c.static_friction_coefficient, c.dynamic_friction_coefficient] { v.push(x.to_bits()); } (4, v, c.get_entity()) }
    }
}
/// documented read-back of an accepted collider (bits; the plane's normal and mesh counts are judged apart)
fn expect_bits(c: &Col) -> (usize, Vec<u32>) {
    let mut v = Vec::new();
    let pv = |x: V, v: &mut Vec<u32>| { for b in x.arr().iter() { v.push((*b as f32).to_bits()); } };
    let f = |x: f64| (x as f32).to_bits();
    let fr = [f(c.e), f(c.thr), f(c.mus), f(c.mud)];
    match &c.shape {
        Shape::Null { pos, inertia } => { pv(*pos, &mut v); v.push(f(c.mass)); let m = inertia.to32(); for i in 0..9 { v.push(m[i].to_bits()); } (0, v) }
        Shape::Sphere { c: p, r } => { pv(*p, &mut v); v.push(f(*r)); v.push(f(c.mass)); v.extend(fr.iter()); (1, v) }
        Shape::Plane { pos, n } => { pv(*pos, &mut v); pv(n.unit(), &mut v); v.push(f(c.mass)); v.extend(fr.iter()); (2, v) }
        Shape::Mesh { pos, faces } => {
            pv(*pos, &mut v); v.extend(fr.iter());
            let mut vs: Vec<V> = Vec::new();
            let mut es: BTreeSet<(usize, usize)> = BTreeSet::new();
            for fc in faces {
                let ix: Vec<usize> = fc.iter().map(|p| match vs.iter().position(|x| (*x - *p).len() < 1e-6) { Some(i) => i, None => { vs.push(*p); vs.len() - 1 } }).collect();
                for i in 0..ix.len() { let (a, b) = (ix[i], ix[(i + 1) % ix.len()]); es.insert((a.min(b), a.max(b))); }
            }
            v.push(faces.len() as u32); v.push(es.len() as u32); v.push(vs.len() as u32);
            (3, v)
        }
        Shape::Box { pos, min, max } => {
            pv(*pos, &mut v);
            pv(V(min.0.min(max.0), min.1.min(max.1), min.2.min(max.2)), &mut v);
            pv(V(min.0.max(max.0), min.1.max(max.1), min.2.max(max.2)), &mut v);
            v.push(f(c.mass)); v.extend(fr.iter());
            (4, v)
        }
    }
}

struct HS {
    ps: PhysicsSystem,
    ents: Vec<ME>,
    cols: Vec<MC>,
    gens: Vec<MG>,
    seen: Rc<RefCell<Vec<(u32, EntityHandle)>>>,
    ops: u64,
    marks: u32,
}
/// everything readable, keyed by object
#[derive(Clone, PartialEq, Debug)]
struct Full { e: BTreeMap<usize, (Vec<u32>, BTreeSet<(usize, u64)>)>, c: BTreeMap<usize, (usize, Vec<u32>, Option<EntityHandle>)>, recs: usize }

impl HS {
    fn full(&self) -> Full {
        let mut e = BTreeMap::new();
        for (i, m) in self.ents.iter().enumerate() { if m.alive { if let Some(x) = self.ps.get_entity(m.h) {
            e.insert(i, (snap(&x).bits, x.get_colliders().iter().map(|h| { let (a, b) = h.into_raw_parts(); (a, b) }).collect()));
        } } }
        let mut c = BTreeMap::new();
        for (i, m) in self.cols.iter().enumerate() { if m.alive { if let Some(x) = self.ps.get_collider(m.h) { c.insert(i, own_bits(&x)); } } }
        Full { e, c, recs: self.ps.collision_records.len() }
    }
    fn live_e(&self) -> Vec<usize> { (0..self.ents.len()).filter(|i| self.ents[*i].alive).collect() }
    fn live_c(&self) -> Vec<usize> { (0..self.cols.len()).filter(|i| self.cols[*i].alive).collect() }
    fn body(&self, i: usize) -> Body {
        let m = &self.ents[i];
        let mut b = Body::new(m.origin);
        b.own_mass = m.own;
        for c in &m.cols { b.cols.push(self.cols[*c].col.clone()); }
        b
    }
    /// The wrapper of a collider: made from scratch, or by editing a copy of a stored one of the same kind
    /// (usually of `like`). A mesh made that way keeps the faces of the copy and may get more.
    fn wrapper_from_copy(&self, ctx: &mut Ctx, r: &mut Rng, c: &mut Col, like: Option<usize>) -> ColliderWrapper {
        let k = kind_of(c);
        let same: Vec<usize> = self.live_c().into_iter().filter(|i| kind_of(&self.cols[*i].col) == k).collect();
        if same.is_empty() || !r.p(0.4) { return c.wrapper(); }
        let from = match like { Some(i) if r.p(0.7) => i, _ => *r.pick(&same) };
        if let (Shape::Mesh { faces, .. }, Shape::Mesh { faces: base, .. }) = (&mut c.shape, &self.cols[from].col.shape) {
            let mut all = base.clone();
            if r.p(0.5) { all.extend(faces.drain(..)); all.truncate(40); ctx.count("faces added to a copied mesh"); }
            *faces = all;
        }
        match self.ps.get_collider(self.cols[from].h) { Some(w) => { ctx.count("collider made from a copy"); c.wrapper_over(w) }, None => c.wrapper() }
    }
    /// after the set of owned colliders changed: the local space stays
    fn com(&self, i: usize) -> V { self.ents[i].origin + self.ents[i].q.rot(self.body(i).local_com()) }
}

fn bits6(e: &Entity) -> [u32; 6] { let (a, b) = (bits(&e.velocity), bits(&e.angular_velocity)); [a[0], a[1], a[2], b[0], b[1], b[2]] }

fn rand_entity(r: &mut Rng, e: &mut Entity, mark: u32) {
    e.position = r.cube(20.0).to32();
    e.rotation = match r.below(6) { 0 => V(0.0, 0.0, 0.0), 1 => r.dirx() * (std::f64::consts::PI * r.below(5) as f64 / 2.0), 2 => r.dir() * r.r(3.0, 9.0), _ => r.dir() * r.r(0.0, 3.2) }.to32();
    e.velocity = if r.p(0.3) { Z } else { r.cube(3.0) }.to32();
    e.angular_velocity = if r.p(0.3) { Z } else { r.cube(3.0) }.to32();
    e.own_mass = match r.below(8) { 0 | 1 => 0.0, 2 => 0.125 * mark as f32, _ => r.lr(0.01, 100.0) as f32 };
}

/// Which of C01-C05 a judgement belongs to: the decimal digits of `class`. Each check reports its own only.
fn mine(focus: u8, class: u32) -> bool { let mut c = class; while c > 0 { if c % 10 == focus as u32 { return true; } c /= 10; } false }
/// an answer of the API: when it is another property's the history ends here, as the model no longer applies
macro_rules! jd { ($ctx:expr, $f:expr, $k:expr, $c:expr, $($t:tt)*) => { if !($c) { if mine($f, $k) { return Err(format!($($t)*)); } $ctx.count("history cut short (judged by another property)"); return Ok(()); } } }

fn history(ctx: &mut Ctx, r: &mut Rng, focus: u8) -> Res {
    let mut ps = PhysicsSystem::new();
    // in some histories whatever is left alone (or even moves) soon sleeps
    match r.below(10) {
        0..=4 => ps.energy_sleep_threshold = -1.0,
        5 | 6 => ps.energy_sleep_threshold = 0.001,
        _ => { ps.energy_sleep_threshold = r.lr(1.0, 1e5) as f32; ps.sleep_time_threshold = *r.pick(&[0.0, 0.0, 0.01]); }
    }
    let seen = Rc::new(RefCell::new(Vec::new()));
    let mut s = HS { ps, ents: Vec::new(), cols: Vec::new(), gens: Vec::new(), seen, ops: 0, marks: 0 };
    let n = 12 + r.below(49);
    let mut h = H::new();
    let mut interesting = false;
    let mut used_e: HashSet<(usize, u64)> = HashSet::new();
    let mut used_c: HashSet<(usize, u64)> = HashSet::new();
    let mut used_g: HashSet<(usize, u64)> = HashSet::new();
    for step in 0..n {
        s.ops += 1;
        let le = s.live_e();
        let lc = s.live_c();
        let before = s.full();
        // which objects the call may change
        let mut touched_e: BTreeSet<usize> = BTreeSet::new();
        let mut touched_c: BTreeSet<usize> = BTreeSet::new();
        let mut stepped = false;
        let mut linked = false;
        let op = if step < 3 { r.below(2) } else { match r.below(30) { 0 | 1 => 0, 2..=5 => 1, 6 => 2, 7 => 3, 8..=10 => 4, 11..=13 => 5, 14..=17 => 6, 18 => 7, 19 => 8, 20 | 21 => 9, 22 => 10, 23 => 11, 24 | 25 => 12, 26 => 13, 27 => 14, 28 => 15, _ => 16 } };
        h.u(op as u64);
        let sleepers = |m: &HS, i: Option<usize>| i.map_or(false, |i| m.ps.get_entity(m.ents[i].h).map_or(false, |e| e.was_asleep()));
        let what;
        match op {
            0 => {
                s.marks += 1;
                let copied = !le.is_empty() && r.p(0.25);
                let mut e = if copied {
                    // a copy of a stored entity, as a user duplicating one makes
                    ctx.count("entity added from a copy");
                    s.ps.get_entity(s.ents[*r.pick(&le)].h).expect("live entity not found")
                } else { Entity::new() };
                rand_entity(r, &mut e, s.marks);
                if r.p(0.15) {
                    e.own_mass = -r.lr(1e-3, 10.0) as f32;
                    what = "add entity with negative mass".to_string();
                    ctx.count("refused invalid");
                    jd!(ctx, focus, 5, s.ps.add_entity(e).is_err(), "an entity with negative mass was accepted");
                } else {
                    what = format!("add entity {:?} rot {:?} own {}", e.position, e.rotation, e.own_mass);
                    let m = ME { h: EntityHandle::from_raw_parts(0, 0), alive: true, own: e.own_mass as f64, vel: V::of(&e.velocity), ang: V::of(&e.angular_velocity), q: Q::from_axis(V::of(&e.rotation)), origin: V::of(&e.position), cols: BTreeSet::new(), vbits: bits6(&e), exact: true, pos_set: V::of(&e.position) };
                    let hd = match s.ps.add_entity(e) { Ok(h) => h, Err(_) => { jd!(ctx, focus, 5, false, "a valid entity was refused"); return Ok(()) } };
                    for o in &s.ents { jd!(ctx, focus, 1, o.h != hd, "an entity handle was handed out twice: {:?}", hd); }
                    if !used_e.insert((hd.into_raw_parts().0, 0)) { ctx.count("slot reused by a new object"); interesting = true; }
                    touched_e.insert(s.ents.len());
                    s.ents.push(ME { h: hd, ..m });
                }
            }
            1 => {
                let k = r.below(5);
                let mut c = gen_col(r, k);
                if r.p(0.12) {
                    c = spoil(r, c).unwrap();
                    what = format!("add invalid {} {:?}", KIND[k], c);
                    ctx.count("refused invalid");
                    jd!(ctx, focus, 5, s.ps.add_collider(c.wrapper()).is_err(), "an invalid collider was accepted: {:?}", c);
                } else {
                    if let Shape::Box { min, max, .. } = &c.shape { if min.0 > max.0 || min.1 > max.1 || min.2 > max.2 { ctx.count("swapped box corners"); } }
                    if let Shape::Plane { n, .. } = &c.shape { if (n.len() - 1.0).abs() > 1e-3 { ctx.count("plane normal scaled"); } }
                    let w = s.wrapper_from_copy(ctx, r, &mut c, None);
                    let hd = match s.ps.add_collider(w) { Ok(h) => h, Err(_) => { jd!(ctx, focus, 5, false, "a valid collider was refused: {:?}", c); return Ok(()) } };
                    what = format!("add {} {:?}", KIND[k], c);
                    for o in &s.cols { jd!(ctx, focus, 1, o.h != hd, "a collider handle was handed out twice: {:?}", hd); }
                    if !used_c.insert((hd.into_raw_parts().0, 0)) { ctx.count("slot reused by a new object"); interesting = true; }
                    touched_c.insert(s.cols.len());
                    let ci = s.cols.len();
                    s.cols.push(MC { h: hd, alive: true, col: c, owner: None });
                    if r.p(0.7) && !le.is_empty() {
                        let ei = *r.pick(&le);
                        jd!(ctx, focus, 2, s.ps.link_collider(hd, Some(s.ents[ei].h)).is_ok(), "linking a live collider to a live entity failed");
                        s.ents[ei].cols.insert(ci); s.cols[ci].owner = Some(ei); s.ents[ei].exact = false;
                        touched_e.insert(ei);
                        linked = true;
                    }
                }
            }
            2 if !le.is_empty() => {
                let ei = *r.pick(&le);
                if !s.ents[ei].cols.is_empty() { ctx.count("op remove entity with colliders"); interesting = true; }
                what = format!("remove entity {} ({} colliders)", ei, s.ents[ei].cols.len());
                jd!(ctx, focus, 1, s.ps.remove_entity(s.ents[ei].h), "removing a live entity reported that nothing was removed");
                s.ents[ei].alive = false;
                let cs: Vec<usize> = s.ents[ei].cols.iter().cloned().collect();
                for c in cs { s.cols[c].alive = false; touched_c.insert(c); }
                touched_e.insert(ei);
            }
            3 if !lc.is_empty() => {
                let ci = *r.pick(&lc);
                what = format!("remove collider {} owner {:?}", ci, s.cols[ci].owner);
                if sleepers(&s, s.cols[ci].owner) { ctx.count("op remove collider of a sleeper"); }
                s.ps.remove_collider(s.cols[ci].h);
                s.cols[ci].alive = false;
                touched_c.insert(ci);
                if let Some(o) = s.cols[ci].owner { ctx.count("op remove linked collider"); interesting = true; s.ents[o].cols.remove(&ci); s.ents[o].exact = false; touched_e.insert(o); }
            }
            4 if !le.is_empty() => {
                // edit an entity from what is read
                let ei = *r.pick(&le);
                s.marks += 1;
                let mut e = s.ps.get_entity(s.ents[ei].h).expect("live entity not found");
                if r.p(0.6) { rand_entity(r, &mut e, s.marks); } else {
                    let mut f = e.clone();
                    rand_entity(r, &mut f, s.marks);
                    ctx.count("one field updated");
                    match r.below(6) { 0 => e.position = f.position, 1 => e.rotation = f.rotation, 2 => e.velocity = f.velocity, 3 => e.angular_velocity = f.angular_velocity, 4 => e.own_mass = f.own_mass, _ => {} }
                }
                if r.p(0.15) {
                    e.own_mass = -r.lr(1e-3, 10.0) as f32;
                    what = format!("update entity {} with negative mass", ei);
                    ctx.count("refused invalid");
                    jd!(ctx, focus, 5, s.ps.update_entity(s.ents[ei].h, e).is_err(), "an update to a negative mass was accepted");
                } else {
                    what = format!("update entity {}: pos {:?} rot {:?} own {}", ei, e.position, e.rotation, e.own_mass);
                    let (own, vel, ang, q, p, vb) = (e.own_mass as f64, V::of(&e.velocity), V::of(&e.angular_velocity), Q::from_axis(V::of(&e.rotation)), V::of(&e.position), bits6(&e));
                    jd!(ctx, focus, 5, s.ps.update_entity(s.ents[ei].h, e).is_ok(), "a valid entity update was refused");
                    let lcom = s.body(ei).local_com();
                    let m = &mut s.ents[ei];
                    m.own = own; m.vel = vel; m.ang = ang; m.q = q; m.vbits = vb; m.pos_set = p; m.exact = true;
                    m.origin = p - q.rot(lcom);
                    touched_e.insert(ei);
                    // writing may wake others that sleep against it
                    for x in &le { touched_e.insert(*x); }
                }
            }
            5 if !lc.is_empty() => {
                let ci = *r.pick(&lc);
                let k = kind_of(&s.cols[ci].col);
                let z = r.below(10);
                if z == 0 {
                    let k2 = (k + 1 + r.below(4)) % 5;
                    let c = gen_col(r, k2);
                    what = format!("update {} collider {} with a {}", KIND[k], ci, KIND[k2]);
                    ctx.count("refused kind change");
                    jd!(ctx, focus, 5, s.ps.update_collider(s.cols[ci].h, c.wrapper()).is_err(), "an update with another kind of collider was accepted");
                } else if z <= 2 {
                    let base = gen_col(r, k);
                    let c = spoil(r, base).unwrap();
                    what = format!("update {} collider {} with invalid {:?}", KIND[k], ci, c);
                    ctx.count("refused invalid");
                    jd!(ctx, focus, 5, s.ps.update_collider(s.cols[ci].h, c.wrapper()).is_err(), "an invalid collider update was accepted: {:?}", c);
                    // the owner's cached values may be recalculated (rounding)
                    if let Some(o) = s.cols[ci].owner { touched_e.insert(o); }
                } else {
                    let mut c = gen_col(r, k);
                    if r.p(0.5) { c = tweak(r, &s.cols[ci].col, c); ctx.count("one attribute updated"); }
                    if let Shape::Box { min, max, .. } = &c.shape { if min.0 > max.0 || min.1 > max.1 || min.2 > max.2 { ctx.count("swapped box corners"); } }
                    if let Shape::Plane { n, .. } = &c.shape { if (n.len() - 1.0).abs() > 1e-3 { ctx.count("plane normal scaled"); } }
                    let w = s.wrapper_from_copy(ctx, r, &mut c, Some(ci));
                    jd!(ctx, focus, 5, s.ps.update_collider(s.cols[ci].h, w).is_ok(), "a valid collider update was refused: {:?}", c);
                    what = format!("update {} collider {} to {:?}", KIND[k], ci, c);
                    s.cols[ci].col = c;
                    touched_c.insert(ci);
                    if let Some(o) = s.cols[ci].owner { s.ents[o].exact = false; touched_e.insert(o); }
                }
            }
            6 if !lc.is_empty() && !le.is_empty() => {
                let ci = *r.pick(&lc);
                let ei = *r.pick(&le);
                what = format!("link collider {} (owner {:?}) to entity {}", ci, s.cols[ci].owner, ei);
                if sleepers(&s, s.cols[ci].owner) { ctx.count("op relink from a sleeper"); }
                if let Some(o) = s.cols[ci].owner { if o != ei { ctx.count("op relink"); interesting = true; } s.ents[o].cols.remove(&ci); s.ents[o].exact = false; touched_e.insert(o); }
                jd!(ctx, focus, 2, s.ps.link_collider(s.cols[ci].h, Some(s.ents[ei].h)).is_ok(), "linking a live collider to a live entity failed");
                s.cols[ci].owner = Some(ei);
                s.ents[ei].cols.insert(ci); s.ents[ei].exact = false;
                touched_e.insert(ei); touched_c.insert(ci);
            }
            7 if !lc.is_empty() => {
                let ci = *r.pick(&lc);
                what = format!("unlink collider {} (owner {:?})", ci, s.cols[ci].owner);
                if sleepers(&s, s.cols[ci].owner) { ctx.count("op unlink from a sleeper"); }
                jd!(ctx, focus, 2, s.ps.link_collider(s.cols[ci].h, None).is_ok(), "unlinking a live collider failed");
                if let Some(o) = s.cols[ci].owner { ctx.count("op unlink"); s.ents[o].cols.remove(&ci); s.ents[o].exact = false; touched_e.insert(o); }
                s.cols[ci].owner = None;
                touched_c.insert(ci);
            }
            8 => {
                let id = s.gens.len() as u32;
                let hd = match s.ps.add_unary_force_generator(Box::new(MarkGen { id, seen: s.seen.clone() })) { Ok(h) => h, Err(_) => { jd!(ctx, focus, 5, false, "a force generator was refused"); return Ok(()) } };
                for g in &s.gens { jd!(ctx, focus, 1, g.h != hd, "a generator handle was handed out twice"); }
                if !used_g.insert((hd.into_raw_parts().0, 0)) { ctx.count("slot reused by a new object"); }
                s.gens.push(MG { h: hd, alive: true, id });
                what = format!("add generator {}", id);
            }
            9 => {
                let dt = r.lr(1e-3, 0.02);
                what = format!("step {}", dt);
                s.seen.borrow_mut().clear();
                s.ps.step(dt as f32);
                stepped = true;
                for (id, hd) in s.seen.borrow().iter() {
                    jd!(ctx, focus, 1, s.gens.iter().any(|g| g.id == *id && g.alive), "removed generator {} was asked for a force", id);
                    jd!(ctx, focus, 1, s.ents.iter().any(|e| e.alive && e.h == *hd), "a generator was asked about an entity that is not in the system");
                }
            }
            10 if s.gens.iter().any(|g| g.alive) => {
                let live: Vec<usize> = (0..s.gens.len()).filter(|i| s.gens[*i].alive).collect();
                let g = *r.pick(&live);
                what = format!("remove generator {}", s.gens[g].id);
                match s.ps.remove_unary_force_generator(s.gens[g].h) {
                    Some(b) => {
                        match b.downcast_ref::<MarkGen>() { Some(m) => jd!(ctx, focus, 1, m.id == s.gens[g].id, "removing generator {} returned generator {}", s.gens[g].id, m.id), None => jd!(ctx, focus, 1, false, "removing a generator returned something else") }
                        ctx.count("generator removed and returned");
                    }
                    None => jd!(ctx, focus, 1, false, "removing a live generator returned nothing"),
                }
                s.gens[g].alive = false;
            }
            11 if s.gens.iter().any(|g| !g.alive) => {
                let dead: Vec<usize> = (0..s.gens.len()).filter(|i| !s.gens[*i].alive).collect();
                let g = *r.pick(&dead);
                what = "remove a dead generator".into();
                ctx.count("dead handle refused");
                jd!(ctx, focus, 1, s.ps.remove_unary_force_generator(s.gens[g].h).is_none(), "a generator was removed twice");
            }
            12 if s.ents.iter().any(|e| !e.alive) => {
                let dead: Vec<usize> = (0..s.ents.len()).filter(|i| !s.ents[*i].alive).collect();
                let d = s.ents[*r.pick(&dead)].h;
                ctx.count("dead handle refused");
                match r.below(4) {
                    0 => { what = "get a dead entity".into(); jd!(ctx, focus, 1, s.ps.get_entity(d).is_none(), "a removed entity is still found"); }
                    1 => { what = "update a dead entity".into(); let mut e = Entity::new(); rand_entity(r, &mut e, 1); jd!(ctx, focus, 1, s.ps.update_entity(d, e).is_err(), "updating a removed entity succeeded"); }
                    2 => { what = "remove a dead entity".into(); jd!(ctx, focus, 1, !s.ps.remove_entity(d), "an entity was removed twice"); }
                    _ => {
                        what = "link to a dead entity".into();
                        ctx.count("refused link");
                        if !lc.is_empty() { let ci = *r.pick(&lc); jd!(ctx, focus, 12, s.ps.link_collider(s.cols[ci].h, Some(d)).is_err(), "linking to a removed entity succeeded"); }
                    }
                }
            }
            13 | 14 if s.cols.iter().any(|e| !e.alive) => {
                let dead: Vec<usize> = (0..s.cols.len()).filter(|i| !s.cols[*i].alive).collect();
                let di = *r.pick(&dead);
                let d = s.cols[di].h;
                ctx.count("dead handle refused");
                match r.below(4) {
                    0 => { what = "get a dead collider".into(); jd!(ctx, focus, 1, s.ps.get_collider(d).is_none(), "a removed collider is still found"); }
                    1 => { what = "update a dead collider".into(); let k = kind_of(&s.cols[di].col); let c = gen_col(r, k); jd!(ctx, focus, 1, s.ps.update_collider(d, c.wrapper()).is_err(), "updating a removed collider succeeded"); }
                    2 => { what = "remove a dead collider".into(); s.ps.remove_collider(d); }
                    _ => {
                        what = "link a dead collider".into();
                        ctx.count("refused link");
                        let t = if le.is_empty() || r.p(0.3) { None } else { Some(s.ents[*r.pick(&le)].h) };
                        jd!(ctx, focus, 12, s.ps.link_collider(d, t).is_err(), "linking a removed collider succeeded");
                    }
                }
            }
            15 if !le.is_empty() => {
                // write back what is read
                let ei = *r.pick(&le);
                what = format!("write entity {} back", ei);
                let a = s.ps.get_entity(s.ents[ei].h).expect("live entity not found");
                let sa = snap(&a);
                jd!(ctx, focus, 5, s.ps.update_entity(s.ents[ei].h, a).is_ok(), "writing back an entity as read was refused");
                let sb = snap(&s.ps.get_entity(s.ents[ei].h).expect("live entity not found"));
                let tol = 1e-5 * (1.0 + sa.pos.len() + (sa.pos - sa.origin).len());
                jd!(ctx, focus, 5, (sa.pos - sb.pos).len() < tol && sa.q.angle_to(sb.q) < 1e-5 && sa.vel == sb.vel && sa.ang == sb.ang && sa.own_mass == sb.own_mass && sa.asleep == sb.asleep && (sa.origin - sb.origin).len() < tol,
                    "writing back an entity as read changed it: {:?} -> {:?}", sa, sb);
                ctx.count("round trip unchanged");
                touched_e.insert(ei);
            }
            16 if !lc.is_empty() => {
                let ci = *r.pick(&lc);
                what = format!("write collider {} back", ci);
                let a = s.ps.get_collider(s.cols[ci].h).expect("live collider not found");
                let x = own_bits(&a);
                jd!(ctx, focus, 5, s.ps.update_collider(s.cols[ci].h, a).is_ok(), "writing back a {} collider as read was refused", KIND[x.0]);
                let y = own_bits(&s.ps.get_collider(s.cols[ci].h).expect("live collider not found"));
                if x.0 == 2 {
                    jd!(ctx, focus, 5, x.1[..3] == y.1[..3] && x.1[6..] == y.1[6..] && x.2 == y.2, "writing back a plane as read changed it");
                    touched_c.insert(ci);
                } else { jd!(ctx, focus, 5, x == y, "writing back a {} collider as read changed it", KIND[x.0]); }
                if let Some(o) = s.cols[ci].owner { touched_e.insert(o); }
                ctx.count("round trip unchanged");
            }
            _ => { what = "nothing".into(); }
        }
        ctx.log(|| format!("{}: {}", step, what));
        let after = s.full();
        let here = |class: u32, m: String| -> Res { if mine(focus, class) { Err(format!("after op {} ({}): {}", step, what, m)) } else { Ok(()) } };
        // ----- existence and isolation (C01)
        for i in 0..s.ents.len() {
            let m = &s.ents[i];
            let got = s.ps.get_entity(m.h);
            if m.alive && got.is_none() { { here(1, format!("live entity {} is gone", i))?; return Ok(()); } }
            if !m.alive && got.is_some() { { here(1, format!("removed entity {} is found again", i))?; return Ok(()); } }
        }
        for i in 0..s.cols.len() {
            let m = &s.cols[i];
            let got = s.ps.get_collider(m.h);
            if m.alive && got.is_none() { { here(12, format!("live collider {} is gone", i))?; return Ok(()); } }
            if !m.alive && got.is_some() { { here(12, format!("removed collider {} is found again", i))?; return Ok(()); } }
        }
        if !stepped {
            for (i, x) in &before.e {
                if touched_e.contains(i) { continue; }
                if after.e.get(i) != Some(x) {
                    // removing a body or its colliders, or giving it more, wakes what sleeps against it (and does no more)
                    let woken = |x: &(Vec<u32>, BTreeSet<(usize, u64)>)| { let mut y = x.clone(); y.0[14] = 0; y };
                    if ([2, 3, 6, 7].contains(&op) || linked) && x.0[14] == 1 && after.e.get(i) == Some(&woken(x)) { ctx.count("woken by a removal or link"); continue; }
                    here(1, format!("entity {} changed though the call does not concern it", i))?;
                }
            }
            for (i, x) in &before.c {
                if touched_c.contains(i) { continue; }
                if after.c.get(i) != Some(x) { here(1, format!("collider {} changed though the call does not concern it", i))?; }
            }
            if before.recs != after.recs { here(1, "the collision records changed".into())?; }
        }
        // ----- identity by content: the handle still names the object it was given for
        for i in s.live_c() {
            let w = s.ps.get_collider(s.cols[i].h).unwrap();
            let (k, b, _) = own_bits(&w);
            let (k2, b2) = expect_bits(&s.cols[i].col);
            if k != k2 { { here(15, format!("collider {} was a {}, now reads as a {}", i, KIND[k2], KIND[k]))?; return Ok(()); } }
            if k == 2 {
                let nn = if let ColliderWrapper::Plane(p) = &w { V::of(&p.normal) } else { unreachable!() };
                let want = if let Shape::Plane { n, .. } = &s.cols[i].col.shape { n.unit() } else { unreachable!() };
                if (nn - want).len() > 1e-6 { here(15, format!("plane {} reads normal {:?}, stored direction {:?}", i, nn, want))?; }
                if b[..3] != b2[..3] || b[6..] != b2[6..] { here(15, format!("plane {} reads other values than accepted", i))?; }
            } else if b != b2 { here(15, format!("{} {} reads other values than accepted: {:?} vs {:?}", KIND[k], i, b, s.cols[i].col))?; }
        }
        // ----- ownership (C02)
        for i in s.live_c() {
            let (_, _, o) = own_bits(&s.ps.get_collider(s.cols[i].h).unwrap());
            let want = s.cols[i].owner.map(|e| s.ents[e].h);
            if o != want { here(2, format!("collider {} reports owner {:?}, should be {:?}", i, o, want))?; }
        }
        for i in s.live_e() {
            let got = s.ps.get_entity(s.ents[i].h).unwrap().get_colliders();
            let want: HashSet<ColliderHandle> = s.ents[i].cols.iter().map(|c| s.cols[*c].h).collect();
            if got != want { here(2, format!("entity {} owns {:?}, should own {:?}", i, got, want))?; }
        }
        // ----- values of entities (C03, C04, C05)
        for i in s.live_e() {
            let e = s.ps.get_entity(s.ents[i].h).unwrap();
            let g = snap(&e);
            let b = s.body(i);
            let lcom = b.local_com();
            if stepped {
                // motion is judged elsewhere: adopt velocity and pose of the centre of mass
                let m = &mut s.ents[i];
                m.vel = g.vel; m.ang = g.ang; m.q = g.q; m.vbits = bits6(&e);
                m.origin = g.pos - g.q.rot(lcom);
                m.pos_set = g.pos; m.exact = false;
                // a body moves as one piece: its local space goes with it
            }
            let m = &s.ents[i];
            if !g.pos.finite() || !g.vel.finite() { ctx.count("non-finite (left to C25)"); return Ok(()); }
            let scale = 1.0 + m.origin.len() + lcom.len() + b.cols.iter().map(|c| c.com().len()).fold(0.0, f64::max);
            let tol = 2e-5 * scale;
            if g.own_mass != m.own { here(15, format!("entity {} own mass reads {}, accepted {}", i, g.own_mass, m.own))?; }
            if bits6(&e) != m.vbits { here(15, format!("entity {} velocities read {:?} {:?}, accepted {:?} {:?}", i, g.vel, g.ang, m.vel, m.ang))?; }
            let da = g.q.angle_to(m.q);
            if da > 2e-5 { here(35, format!("entity {} rotation is off by {}", i, da))?; }
            let rr = Q::from_axis(g.rot).angle_to(g.q);
            if rr > 1e-5 { here(5, format!("entity {} reads a rotation vector {:?} that differs from its orientation by {}", i, g.rot, rr))?; }
            let want_m = b.total_mass();
            if want_m.is_infinite() { if g.mass != f64::INFINITY { here(3, format!("entity {} total mass {} should be infinite", i, g.mass))?; } }
            else if (g.mass - want_m).abs() > 1e-5 * want_m { here(3, format!("entity {} total mass {}, should be {}", i, g.mass, want_m))?; }
            let com = s.com(i);
            let d = (g.pos - com).len();
            ctx.maxi("position error / tolerance", d / tol);
            if d > tol { here(3, format!("entity {} position {:?}, its centre of mass should be at {:?}", i, g.pos, com))?; }
            if m.exact && b.cols.iter().all(|c| c.m() == 0.0) && (g.pos - m.pos_set).len() > 0.0 && b.cols.is_empty() { here(5, format!("entity {} position reads {:?}, accepted {:?}", i, g.pos, m.pos_set))?; }
            let d = (g.origin - m.origin).len();
            ctx.maxi("local origin error / tolerance", d / tol);
            if d > tol { here(3, format!("the local space of entity {} is at {:?}, should be at {:?}", i, g.origin, m.origin))?; }
            let colm: f64 = b.cols.iter().map(|c| c.m()).sum();
            if colm.is_infinite() { ctx.count("infinite judged"); } else if colm > 0.0 { ctx.count("finite composite judged"); } else { ctx.count("massless judged"); }
            if m.q.angle_to(Q(1.0, Z)) > 0.1 { ctx.count("rotated entity judged"); }
            // inertia and energy
            if want_m.is_finite() {
                let rm = M::rot(m.q);
                let want = rm.mul(b.local_inertia()).mul(rm.t());
                let mag = b.cols.iter().map(|c| c.tensor().norm() + c.m() * (c.com() - lcom).dot(c.com() - lcom)).sum::<f64>();
                let off: f64 = b.cols.iter().map(|c| c.m() * tol * (4.0 * (c.com() - lcom).len() + 4.0 * tol)).sum();
                let it = 2e-5 * mag + off + 1e-12;
                let d = g.inertia.sub(want).norm();
                ctx.maxi("inertia error / tolerance", d / it);
                if d > it { here(4, format!("entity {} moment of inertia {:?}, should be {:?}", i, g.inertia.0, want.0))?; }
                if b.cols.iter().any(|c| c.m() > 0.0) { ctx.count("inertia judged"); }
                if b.cols.iter().any(|c| c.m() * (c.com() - lcom).dot(c.com() - lcom) > 0.1 * mag) { ctx.count("parallel axis matters"); }
                let we = 0.5 * want_m * m.vel.dot(m.vel) + 0.5 * want.app(m.ang).dot(m.ang);
                let et = 1e-5 * we.abs() + it * m.ang.dot(m.ang) + 1e-12;
                if (g.energy - we).abs() > et { here(4, format!("entity {} energy {}, should be {}", i, g.energy, we))?; }
            } else {
                let moving = m.vel.len() > 1e-3 || m.ang.len() > 1e-3;
                if m.vel == Z && m.ang == Z { ctx.count("infinite at rest"); if g.energy != 0.0 { here(4, format!("infinite-mass entity {} at rest has energy {}", i, g.energy))?; } }
                else if moving { ctx.count("infinite in motion"); if g.energy != f64::INFINITY { here(4, format!("infinite-mass entity {} in motion has energy {}", i, g.energy))?; } }
            }
        }
        // refused whole
        if touched_e.is_empty() && touched_c.is_empty() && !stepped && before != after { here(125, "a call that was refused (or read only) changed something".into())?; }
    }
    ctx.add("calls", s.ops);
    if interesting { h.u(s.ents.len() as u64).u(s.cols.len() as u64).u(r.u64()); ctx.nontrivial(h.0); }
    if ctx.case % 501 == 7 { let l = ctx.log.join(" | "); ctx.sample(|| l.chars().take(900).collect()); }
    Ok(())
}
