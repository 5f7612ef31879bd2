//! Scene descriptions, construction through the public API, read-back.
use crate::geo::*;
use crate::m::*;
use crate::rng::Rng;
use fluffy_tribble::*;

#[derive(Clone, Debug)]
pub enum Shape {
    Null { pos: V, inertia: M },
    Sphere { c: V, r: f64 },
    /// n may have any length
    Plane { pos: V, n: V },
    Mesh { pos: V, faces: Vec<Vec<V>> },
    Box { pos: V, min: V, max: V },
}
#[derive(Clone, Debug)]
pub struct Col { pub shape: Shape, pub mass: f64, pub e: f64, pub mus: f64, pub mud: f64, pub thr: f64 }
impl Col {
    pub fn new(shape: Shape, mass: f64) -> Col { Col { shape, mass, e: 1.0, mus: 0.0, mud: 0.0, thr: 0.25 } }
    pub fn e(mut self, e: f64) -> Col { self.e = e; self }
    pub fn fric(mut self, mus: f64, mud: f64) -> Col { self.mus = mus; self.mud = mud; self }
    pub fn sphere(c: V, r: f64, mass: f64) -> Col { Col::new(Shape::Sphere { c, r }, mass) }
    pub fn plane(pos: V, n: V, mass: f64) -> Col { Col::new(Shape::Plane { pos, n }, mass) }
    pub fn point(pos: V, mass: f64, i: f64) -> Col { Col::new(Shape::Null { pos, inertia: M::diag(i, i, i) }, mass) }
    pub fn bx(pos: V, min: V, max: V, mass: f64) -> Col { Col::new(Shape::Box { pos, min, max }, mass) }
    pub fn mesh(pos: V, faces: Vec<Vec<V>>) -> Col { Col::new(Shape::Mesh { pos, faces }, 0.0) }
    /// mass centre in the entity's local space
    pub fn com(&self) -> V {
        match &self.shape {
            Shape::Null { pos, .. } => *pos, Shape::Sphere { c, .. } => *c, Shape::Plane { pos, .. } => *pos,
            Shape::Mesh { pos, .. } => *pos, Shape::Box { pos, min, max } => *pos + (*min + *max) * 0.5,
        }
    }
    /// mass as the library counts it: meshes carry none
    pub fn m(&self) -> f64 { if let Shape::Mesh { .. } = self.shape { 0.0 } else { self.mass } }
    /// can collide at all
    pub fn geo_like(&self) -> bool { if let Shape::Null { .. } = self.shape { false } else { true } }
    pub fn tensor(&self) -> M {
        match &self.shape {
            Shape::Null { inertia, .. } => *inertia,
            Shape::Sphere { r, .. } => { let i = 0.4 * self.mass * r * r; M::diag(i, i, i) }
            Shape::Box { min, max, .. } => {
                let s = *max - *min;
                let (x, y, z) = (s.0 * s.0, s.1 * s.1, s.2 * s.2);
                let c = self.mass / 12.0;
                M::diag(c * (y + z), c * (x + z), c * (x + y))
            }
            _ => M::zero(),
        }
    }
    /// another collider of the same kind (and with as many faces)
    pub fn decoy(&self, r: &mut Rng) -> Col {
        let mut c = self.clone();
        c.mass = if r.p(0.3) { f64::INFINITY } else { r.lr(0.1, 9.0) };
        c.e = r.f(); c.mus = r.f(); c.mud = r.f(); c.thr = r.f();
        let d = r.cube(4.0);
        match &mut c.shape {
            Shape::Null { pos, inertia } => { *pos = d; *inertia = M::diag(1.0, 2.0, 1.5); }
            Shape::Sphere { c, r: rad } => { *c = d; *rad = r.lr(0.1, 6.0); }
            Shape::Plane { pos, n } => { *pos = d; *n = r.dir().r32(); }
            Shape::Mesh { pos, faces } => { *pos = d; let k: f64 = *r.pick(&[2.0, 4.0, -2.0]); for f in faces.iter_mut() { for v in f.iter_mut() { *v = *v * k; } } }
            Shape::Box { pos, min, max } => { *pos = d; *min = r.cube(2.0) - V(3.0, 3.0, 3.0); *max = r.cube(2.0) + V(3.0, 3.0, 3.0); }
        }
        c
    }
    /// The same as `wrapper`, but made by editing a copy of a stored collider. A mesh keeps the faces of the
    /// copy (they can't be taken away) and only gets its other faces added, so `self` must start with those.
    pub fn wrapper_over(&self, copy: ColliderWrapper) -> ColliderWrapper {
        match (copy, self.wrapper()) {
            (ColliderWrapper::Null(mut c), ColliderWrapper::Null(w)) => { c.position = w.position; c.mass = w.mass; c.moment_of_inertia = w.moment_of_inertia; ColliderWrapper::Null(c) }
            (ColliderWrapper::Sphere(mut c), ColliderWrapper::Sphere(w)) => {
                c.center = w.center; c.radius = w.radius; c.mass = w.mass; c.restitution_coefficient = w.restitution_coefficient;
                c.static_friction_coefficient = w.static_friction_coefficient; c.dynamic_friction_coefficient = w.dynamic_friction_coefficient; c.friction_threshold = w.friction_threshold;
                ColliderWrapper::Sphere(c)
            }
            (ColliderWrapper::Plane(mut c), ColliderWrapper::Plane(w)) => {
                c.position = w.position; c.normal = w.normal; c.mass = w.mass; c.restitution_coefficient = w.restitution_coefficient;
                c.static_friction_coefficient = w.static_friction_coefficient; c.dynamic_friction_coefficient = w.dynamic_friction_coefficient; c.friction_threshold = w.friction_threshold;
                ColliderWrapper::Plane(c)
            }
            (ColliderWrapper::AlignedBox(mut c), ColliderWrapper::AlignedBox(w)) => {
                c.position = w.position; c.min_corner = w.min_corner; c.max_corner = w.max_corner; c.mass = w.mass; c.restitution_coefficient = w.restitution_coefficient;
                c.static_friction_coefficient = w.static_friction_coefficient; c.dynamic_friction_coefficient = w.dynamic_friction_coefficient; c.friction_threshold = w.friction_threshold;
                ColliderWrapper::AlignedBox(c)
            }
            (ColliderWrapper::Mesh(mut c), ColliderWrapper::Mesh(w)) => {
                c.position = w.position; c.restitution_coefficient = w.restitution_coefficient;
                c.static_friction_coefficient = w.static_friction_coefficient; c.dynamic_friction_coefficient = w.dynamic_friction_coefficient; c.friction_threshold = w.friction_threshold;
                if let Shape::Mesh { faces, .. } = &self.shape { for f in faces.iter().skip(c.face_count()) { c.add_face(&f.iter().map(|v| v.to32()).collect()); } }
                ColliderWrapper::Mesh(c)
            }
            (_, w) => w,
        }
    }
    pub fn wrapper(&self) -> ColliderWrapper {
        match &self.shape {
            Shape::Null { pos, inertia } => {
                let mut c = NullCollider::new();
                c.position = pos.to32(); c.mass = self.mass as f32; c.moment_of_inertia = inertia.to32();
                ColliderWrapper::Null(c)
            }
            Shape::Sphere { c: p, r } => {
                let mut c = SphereCollider::new(*r as f32);
                c.center = p.to32(); c.mass = self.mass as f32; c.restitution_coefficient = self.e as f32;
                c.static_friction_coefficient = self.mus as f32; c.dynamic_friction_coefficient = self.mud as f32; c.friction_threshold = self.thr as f32;
                ColliderWrapper::Sphere(c)
            }
            Shape::Plane { pos, n } => {
                let mut c = PlaneCollider::new();
                c.position = pos.to32(); c.normal = n.to32(); c.mass = self.mass as f32; c.restitution_coefficient = self.e as f32;
                c.static_friction_coefficient = self.mus as f32; c.dynamic_friction_coefficient = self.mud as f32; c.friction_threshold = self.thr as f32;
                ColliderWrapper::Plane(c)
            }
            Shape::Mesh { pos, faces } => {
                let mut c = MeshCollider::new();
                c.position = pos.to32(); c.restitution_coefficient = self.e as f32;
                c.static_friction_coefficient = self.mus as f32; c.dynamic_friction_coefficient = self.mud as f32; c.friction_threshold = self.thr as f32;
                for f in faces { c.add_face(&f.iter().map(|v| v.to32()).collect()); }
                ColliderWrapper::Mesh(c)
            }
            Shape::Box { pos, min, max } => {
                let mut c = AlignedBoxCollider::new();
                c.position = pos.to32(); c.min_corner = min.to32(); c.max_corner = max.to32(); c.mass = self.mass as f32; c.restitution_coefficient = self.e as f32;
                c.static_friction_coefficient = self.mus as f32; c.dynamic_friction_coefficient = self.mud as f32; c.friction_threshold = self.thr as f32;
                ColliderWrapper::AlignedBox(c)
            }
        }
    }
}
/// units of length, mass and time (powers of two, so that nothing is rounded)
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Unit { pub l: f64, pub m: f64, pub t: f64 }
pub const ONE: Unit = Unit { l: 1.0, m: 1.0, t: 1.0 };
impl Unit {
    pub fn force(&self) -> f64 { self.l * self.m / (self.t * self.t) }
    pub fn energy(&self) -> f64 { self.force() * self.l }
}
#[derive(Clone, Debug)]
pub struct Body { pub pos: V, pub rot: V, pub vel: V, pub ang: V, pub own_mass: f64, pub cols: Vec<Col> }
impl Body {
    pub fn new(pos: V) -> Body { Body { pos, rot: Z, vel: Z, ang: Z, own_mass: 0.0, cols: Vec::new() } }
    pub fn vel(mut self, v: V) -> Body { self.vel = v; self }
    pub fn ang(mut self, v: V) -> Body { self.ang = v; self }
    pub fn rot(mut self, v: V) -> Body { self.rot = v; self }
    pub fn mass(mut self, m: f64) -> Body { self.own_mass = m; self }
    pub fn with(mut self, c: Col) -> Body { self.cols.push(c); self }
    pub fn q(&self) -> Q { Q::from_axis(self.rot) }
    /// the same body in other units
    pub fn converted(&self, u: Unit) -> Body {
        let mut b = self.clone();
        let (l, m) = (u.l, u.m);
        b.pos = b.pos * l; b.vel = b.vel * (l / u.t); b.ang = b.ang * (1.0 / u.t); b.own_mass *= m;
        for c in b.cols.iter_mut() {
            c.mass *= m;
            match &mut c.shape {
                Shape::Null { pos, inertia } => { *pos = *pos * l; *inertia = inertia.scale(l * l * m); }
                Shape::Sphere { c, r } => { *c = *c * l; *r *= l; }
                Shape::Plane { pos, .. } => *pos = *pos * l,
                Shape::Mesh { pos, faces } => { *pos = *pos * l; for f in faces.iter_mut() { for v in f.iter_mut() { *v = *v * l; } } }
                Shape::Box { pos, min, max } => { *pos = *pos * l; *min = *min * l; *max = *max * l; }
            }
        }
        b
    }
    pub fn total_mass(&self) -> f64 { self.own_mass + self.cols.iter().map(|c| c.m()).sum::<f64>() }
    /// COM in local space
    pub fn local_com(&self) -> V {
        let m: f64 = self.cols.iter().map(|c| c.m()).sum();
        if m <= 0.0 || !m.is_finite() { return Z; }
        let mut s = Z;
        for c in &self.cols { s += c.com() * c.m(); }
        s * (1.0 / m)
    }
    /// tensor about the COM in local axes
    pub fn local_inertia(&self) -> M {
        let com = self.local_com();
        let mut t = M::zero();
        for c in &self.cols {
            if !c.m().is_finite() { return M::zero(); }
            let d = c.com() - com;
            t = t.add(c.tensor()).add(M::diag(1.0, 1.0, 1.0).scale(d.dot(d)).sub(M::outer(d, d)).scale(c.m()));
        }
        t
    }
    /// geometry of collider i in world space when the local origin is at `origin` and the rotation is q
    pub fn geo(&self, i: usize, origin: V, q: Q) -> Option<G> {
        let w = |p: V| origin + q.rot(p);
        Some(match &self.cols[i].shape {
            Shape::Null { .. } => return None,
            Shape::Sphere { c, r } => G::Sphere(w(*c), *r),
            Shape::Plane { pos, n } => G::Plane(w(*pos), n.unit()),
            Shape::Mesh { pos, faces } => G::Poly(faces.iter().map(|f| f.iter().map(|v| w(*pos + *v)).collect()).collect()),
            Shape::Box { pos, min, max } => {
                let h = (*max - *min) * 0.5;
                G::Obb(w(*pos + (*min + *max) * 0.5), [q.rot(V(1.0, 0.0, 0.0)), q.rot(V(0.0, 1.0, 0.0)), q.rot(V(0.0, 0.0, 1.0))], [h.0.abs(), h.1.abs(), h.2.abs()])
            }
        })
    }
    pub fn geo0(&self, i: usize) -> Option<G> { self.geo(i, self.pos, self.q()) }
}
#[derive(Clone, Debug)]
pub struct World {
    pub bodies: Vec<Body>, pub gravity: Option<V>, pub iter_max: u8, pub sleep: Option<(f64, f64)>, pub gust: Option<(V, V, f64)>,
    /// Units of length and mass (powers of two, so that converting is exact): the library gets everything converted,
    /// and what is read back is converted again, so the oracles needn't know.
    pub unit: Unit,
}
/// pushes and twists everything on one side of a place
#[derive(Debug)]
struct Gust { force: V, arm: V, limit: f64 }
impl UnaryForceGenerator for Gust {
    fn make_force(&mut self, _dt: f32, ps: &PhysicsSystem, h: EntityHandle) -> Force {
        let e = ps.get_entity(h).expect("asked about an entity that is not there");
        let p = V::of(&e.position);
        if p.0 < self.limit { Force::new(self.force.to32(), (p + self.arm).to32()) } else { Force::new(Z.to32(), e.position) }
    }
}
impl World {
    pub fn new(bodies: Vec<Body>) -> World { World { bodies, gravity: None, iter_max: 1, sleep: None, gust: None, unit: ONE } }
    pub fn iters(mut self, n: u8) -> World { self.iter_max = n; self }
    pub fn gravity(mut self, g: V) -> World { self.gravity = Some(g); self }
    pub fn sleep(mut self, thr: f64, time: f64) -> World { self.sleep = Some((thr, time)); self }
    pub fn build(&self) -> Sys {
        let mut ps = PhysicsSystem::new();
        ps.iteration_max = self.iter_max;
        match self.sleep {
            None => ps.energy_sleep_threshold = -1.0,
            Some((e, t)) => { ps.energy_sleep_threshold = (e * self.unit.energy()) as f32; ps.sleep_time_threshold = (t * self.unit.t) as f32; }
        }
        let mut s = Sys { ps, ents: Vec::new(), cols: Vec::new(), junk: Vec::new(), unit: self.unit };
        for b in &self.bodies { s.add_by(b, true); }
        // (only now, so that the bodies are stored in the same order whichever way they came about)
        for (e, c) in std::mem::take(&mut s.junk) { if let Some(c) = c { s.ps.remove_collider(c); } if let Some(e) = e { s.ps.remove_entity(e); } }
        if let Some(g) = self.gravity { s.ps.add_unary_force_generator(Box::new(GravityGenerator::new((g * (self.unit.force() / self.unit.m)).to32()))).unwrap(); }
        if let Some((force, arm, limit)) = self.gust { s.ps.add_unary_force_generator(Box::new(Gust { force: force * self.unit.force(), arm: arm * self.unit.l, limit: limit * self.unit.l })).unwrap(); }
        s
    }
}
pub struct Sys { pub ps: PhysicsSystem, pub ents: Vec<EntityHandle>, pub cols: Vec<Vec<ColliderHandle>>, pub junk: Vec<(Option<EntityHandle>, Option<ColliderHandle>)>, pub unit: Unit }
pub fn entity_of(b: &Body) -> Entity {
    let mut e = Entity::new();
    e.position = b.pos.to32(); e.rotation = b.rot.to32(); e.velocity = b.vel.to32(); e.angular_velocity = b.ang.to32(); e.own_mass = b.own_mass as f32;
    e
}
#[derive(Clone, Debug)]
pub struct Snap {
    pub pos: V, pub rot: V, pub q: Q, pub vel: V, pub ang: V, pub mass: f64, pub own_mass: f64, pub asleep: bool,
    pub inertia: M, pub energy: f64, pub origin: V, pub bits: Vec<u32>,
}
pub fn snap(e: &Entity) -> Snap {
    let o = e.get_last_orientation();
    let mut b = Vec::new();
    for v in &[e.position, e.rotation, e.velocity, e.angular_velocity] { for x in bits(v).iter() { b.push(*x); } }
    b.push(e.own_mass.to_bits()); b.push(e.get_last_total_mass().to_bits()); b.push(e.was_asleep() as u32);
    let iner = e.get_last_moment_of_inertia();
    Snap {
        pos: V::of(&e.position), rot: V::of(&e.rotation), q: Q(o.rotation.w as f64, V(o.rotation.i as f64, o.rotation.j as f64, o.rotation.k as f64)),
        vel: V::of(&e.velocity), ang: V::of(&e.angular_velocity), mass: e.get_last_total_mass() as f64, own_mass: e.own_mass as f64, asleep: e.was_asleep(),
        inertia: M::of(&iner), energy: e.get_total_energy() as f64, origin: V::of(&o.local_origin_in_world()), bits: b,
    }
}
impl Sys {
    /// Makes the body. Some bodies (a function of the body, so that twins are made alike) come about in a roundabout
    /// way that ends in exactly the same state: as something else that is edited, with parts that pass through others.
    pub fn add(&mut self, b: &Body) -> EntityHandle { self.add_by(b, false) }
    fn add_by(&mut self, b: &Body, building: bool) -> EntityHandle {
        if self.unit == ONE { self.add_converted(b, building) } else { let b = b.converted(self.unit); self.add_converted(&b, building) }
    }
    fn add_converted(&mut self, b: &Body, building: bool) -> EntityHandle {
        let mut z = crate::ctx::H::new();
        z.v(b.pos).v(b.vel).v(b.rot).u(b.cols.len() as u64);
        for c in &b.cols { z.v(c.com()).f(c.mass).f(c.e); }
        let mut r = Rng::new(z.0);
        if !r.p(0.3) {
            let h = self.ps.add_entity(entity_of(b)).expect("valid entity refused");
            let mut hs = Vec::new();
            for c in &b.cols {
                let ch = self.ps.add_collider(c.wrapper()).ok().expect("valid collider refused");
                self.ps.link_collider(ch, Some(h)).expect("valid link refused");
                hs.push(ch);
            }
            self.ents.push(h);
            self.cols.push(hs);
            return h;
        }
        let ps = &mut self.ps;
        let mut start = Entity::new();
        start.position = r.cube(9.0).to32(); start.rotation = r.cube(2.0).to32(); start.velocity = r.cube(2.0).to32(); start.angular_velocity = r.cube(2.0).to32(); start.own_mass = r.lr(0.1, 9.0) as f32;
        let h = ps.add_entity(start).expect("valid entity refused");
        // something off-centre that goes away again
        if building && r.p(0.5) {
            let junk = ps.add_collider(Col::sphere(r.cube(3.0), r.r(0.1, 2.0), r.lr(0.1, 9.0)).wrapper()).ok().expect("valid collider refused");
            ps.link_collider(junk, Some(h)).expect("valid link refused");
            ps.link_collider(junk, None).expect("unlinking refused");
            self.junk.push((None, Some(junk)));
        }
        let other = if building && r.p(0.4) { Some(ps.add_entity(Entity::new()).expect("valid entity refused")) } else { None };
        let mut e = ps.get_entity(h).expect("live entity not found");
        let to = entity_of(b);
        e.position = to.position; e.rotation = to.rotation; e.velocity = to.velocity; e.angular_velocity = to.angular_velocity; e.own_mass = to.own_mass;
        ps.update_entity(h, e).expect("valid update refused");
        let mut hs = Vec::new();
        for c in &b.cols {
            let ch = if r.p(0.6) {
                let ch = ps.add_collider(c.decoy(&mut r).wrapper()).ok().expect("valid collider refused");
                if let Some(o) = other { if r.p(0.5) { ps.link_collider(ch, Some(o)).expect("valid link refused"); } }
                ps.update_collider(ch, c.wrapper()).expect("valid update refused");
                ch
            } else { ps.add_collider(c.wrapper()).ok().expect("valid collider refused") };
            ps.link_collider(ch, Some(h)).expect("valid link refused");
            hs.push(ch);
        }
        if other.is_some() { self.junk.push((other, None)); }
        self.ents.push(h);
        self.cols.push(hs);
        h
    }
    pub fn snap(&self, i: usize) -> Snap {
        let mut s = snap(&self.ps.get_entity(self.ents[i]).expect("live entity not found"));
        if self.unit != ONE {
            let (l, m, t) = (1.0 / self.unit.l, 1.0 / self.unit.m, self.unit.t);
            s.pos = s.pos * l; s.vel = s.vel * (l * t); s.ang = s.ang * t; s.origin = s.origin * l; s.mass *= m; s.own_mass *= m; s.energy /= self.unit.energy();
            s.inertia = s.inertia.scale(l * l * m);
        }
        s
    }
    pub fn snaps(&self) -> Vec<Snap> { (0..self.ents.len()).map(|i| self.snap(i)).collect() }
    pub fn index(&self, h: EntityHandle) -> Option<usize> { self.ents.iter().position(|e| *e == h) }
    pub fn step(&mut self, dt: f64) { self.ps.step((dt * self.unit.t) as f32); }
    pub fn recs(&self) -> Vec<Rec> {
        self.ps.collision_records.iter().map(|r| Rec {
            a: self.index(r.first_entity), b: self.index(r.second_entity), p: V::of(&r.position) * (1.0 / self.unit.l), n: V::of(&r.normal),
            t: r.time as f64 / self.unit.t, e: r.restitution_coefficient as f64, j: r.impulse_magnitude as f64 * self.unit.t / (self.unit.l * self.unit.m),
        }).collect()
    }
    pub fn set<F: FnOnce(&mut Entity)>(&mut self, i: usize, f: F) {
        let mut e = self.ps.get_entity(self.ents[i]).expect("live entity not found");
        f(&mut e);
        self.ps.update_entity(self.ents[i], e).expect("valid update refused");
    }
}
#[derive(Clone, Debug)]
pub struct Rec { pub a: Option<usize>, pub b: Option<usize>, pub p: V, pub n: V, pub t: f64, pub e: f64, pub j: f64 }
impl Rec { pub fn pair(&self) -> (usize, usize) { (self.a.unwrap_or(usize::MAX), self.b.unwrap_or(usize::MAX)) } }

// ---------- generators ----------

/// Units to give a world in: usually the common ones, otherwise powers of two between the given bounds. Speeds do not become smaller
/// numbers than lengths do (the library takes speeds below 1e-6 as none), and units of time stay the same for the smallest lengths.
pub fn gen_unit(r: &mut Rng, length: (i32, i32), mass: (i32, i32)) -> Unit {
    if r.p(0.65) { return ONE; }
    let mut k = |b: (i32, i32)| b.0 + r.below((b.1 - b.0 + 1) as usize) as i32;
    let (l, m) = (k(length), k(mass));
    let t = if l < -4 { 0 } else { k((-6, l.min(4))) };
    Unit { l: 2f64.powi(l), m: 2f64.powi(m), t: 2f64.powi(t) }
}

/// A convex mesh (faces in mesh space), about `size` across, containing the origin; f32-exact vertices.
pub fn gen_mesh(r: &mut Rng, size: f64) -> (&'static str, Vec<Vec<V>>) {
    loop {
        let (k, f) = match r.below(6) {
            0 => ("polygon", { let mut f = gen_polygon(r, size); if r.p(0.5) { f.reverse(); } vec![f] }),
            1 | 2 => ("cuboid", {
                let h = V(size * (0.3 + 0.7 * r.f()) * 0.5, size * (0.3 + 0.7 * r.f()) * 0.5, size * (0.3 + 0.7 * r.f()) * 0.5);
                box_faces(h)
            }),
            3 => ("prism", {
                let f = gen_polygon(r, size);
                let n = poly_normal(&f);
                let h = n * (size * (0.2 + 0.4 * r.f()));
                let top: Vec<V> = f.iter().map(|v| *v + h).collect();
                let bot: Vec<V> = f.iter().map(|v| *v - h).collect();
                let mut fs = Vec::new();
                for i in 0..f.len() { let j = (i + 1) % f.len(); fs.push(vec![bot[i], bot[j], top[j], top[i]]); }
                let mut b2 = bot.clone();
                b2.reverse();
                fs.push(top); fs.push(b2);
                fs
            }),
            _ => ("hull", {
                let n = 4 + r.below(7);
                let pts: Vec<V> = (0..n).map(|_| (r.dir() * (size * (0.35 + 0.2 * r.f()))).r32()).collect();
                match hull(&pts) { Some(f) => f, None => continue }
            }),
        };
        let f: Vec<Vec<V>> = f.into_iter().map(|f| f.into_iter().map(|v| v.r32()).collect()).collect();
        if f.iter().all(|x| face_ok(x)) { return (k, f); }
    }
}
pub fn box_faces(h: V) -> Vec<Vec<V>> {
    let c = |i: usize| V(if i & 1 == 0 { -h.0 } else { h.0 }, if i & 2 == 0 { -h.1 } else { h.1 }, if i & 4 == 0 { -h.2 } else { h.2 });
    vec![
        vec![c(0), c(2), c(3), c(1)], vec![c(4), c(5), c(7), c(6)], vec![c(0), c(1), c(5), c(4)],
        vec![c(2), c(6), c(7), c(3)], vec![c(0), c(4), c(6), c(2)], vec![c(1), c(3), c(7), c(5)],
    ]
}
/// the documented acceptance rule for a face, with slack for the library's rounding
pub fn face_ok(f: &[V]) -> bool {
    if f.len() < 3 { return false; }
    let n0 = (f[1] - f[0]).cross(f[2] - f[0]);
    if n0.len() < 1e-3 { return false; }
    for i in 0..f.len() {
        let (a, b, c) = (f[i], f[(i + 1) % f.len()], f[(i + 2) % f.len()]);
        let n = (b - a).cross(c - a);
        if n.len() < 1e-3 || (n.unit().dot(n0.unit()) - 1.0).abs() > 1e-9 { return false; }
        if (b - a).len() < 0.05 { return false; }
    }
    true
}
/// a convex polygon in a random plane through the origin
pub fn gen_polygon(r: &mut Rng, size: f64) -> Vec<V> {
    let n = 3 + r.below(5);
    let axis = r.dirx();
    let u = axis.ortho();
    let w = axis.unit().cross(u);
    // ellipse points at sorted, well separated angles
    let (ra, rb) = (size * (0.3 + 0.3 * r.f()), size * (0.3 + 0.3 * r.f()));
    let off = r.f() * 6.283;
    (0..n).map(|i| {
        let a = off + (i as f64 + 0.5 * (r.f() - 0.5)) * 6.283185307 / n as f64;
        u * (ra * a.cos()) + w * (rb * a.sin())
    }).collect()
}
pub fn gen_rot(r: &mut Rng) -> V {
    match r.below(5) { 0 => Z, 1 => (r.dirx() * (std::f64::consts::FRAC_PI_2 * r.below(4) as f64)).r32(), _ => (r.dir() * r.r(0.0, 6.2)).r32() }
}

/// the entity a collider says it belongs to
pub fn owner(c: &ColliderWrapper) -> Option<EntityHandle> {
    match c { ColliderWrapper::Null(c) => c.get_entity(), ColliderWrapper::Sphere(c) => c.get_entity(), ColliderWrapper::Plane(c) => c.get_entity(), ColliderWrapper::Mesh(c) => c.get_entity(), ColliderWrapper::AlignedBox(c) => c.get_entity() }
}
