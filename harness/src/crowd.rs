//! Worlds of several bodies, and gaps between any two of them, in f64.
use crate::geo::*;
use crate::m::*;
use crate::rng::Rng;
use crate::world::*;

/// Gap between two shapes when the first is shifted by `d`; None if the pair is not one that can collide
/// (or has no oracle here). Meshes count as surfaces.
pub fn gap(a: &G, b: &G, d: V) -> Option<f64> {
    match (a, b) {
        (G::Sphere(c, r), g) => Some(g.dist(*c + d).0 - r),
        (g, G::Sphere(c, r)) => Some(g.dist(*c - d).0 - r),
        (G::Poly(fs), G::Plane(p, n)) => Some(fs.iter().flat_map(|f| f.iter()).map(|v| (*v + d - *p).dot(*n)).fold(f64::INFINITY, f64::min)),
        (G::Plane(p, n), G::Poly(fs)) => Some(fs.iter().flat_map(|f| f.iter()).map(|v| (*v - d - *p).dot(*n)).fold(f64::INFINITY, f64::min)),
        _ => None,
    }
}
/// Relative motion of a against b by d over [0,1]
pub fn sweep2(a: &G, b: &G, d: V) -> Option<Sweep> {
    Some(match (a, b) {
        (G::Sphere(c, r), g) => sweep(g, *c, d, *r),
        (g, G::Sphere(c, r)) => sweep(g, *c, -d, *r),
        (G::Poly(_), G::Plane(..)) | (G::Plane(..), G::Poly(_)) => {
            let (g0, g1) = (gap(a, b, Z).unwrap(), gap(a, b, d).unwrap());
            Sweep { gap0: g0, gap1: g1, first: if g0 <= 0.0 { Some(0.0) } else if g1 < 0.0 { Some(g0 / (g0 - g1)) } else { None }, min_gap: g0.min(g1) }
        }
        _ => return None,
    })
}
/// the gap between bodies i and j (over all their collider pairs) at the given poses
pub fn body_gap(bi: &Body, oi: V, qi: Q, bj: &Body, oj: V, qj: Q) -> f64 {
    let mut best = f64::INFINITY;
    for a in 0..bi.cols.len() { for b in 0..bj.cols.len() {
        if let (Some(x), Some(y)) = (bi.geo(a, oi, qi), bj.geo(b, oj, qj)) { if let Some(g) = gap(&x, &y, Z) { best = best.min(g); } }
    } }
    best
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub n: (usize, usize),
    /// bodies of several spheres and point masses
    pub composite: bool,
    pub spin: bool,
    /// infinite planes, boxes and meshes
    pub statics: bool,
    /// infinitely heavy spheres and solids that move
    pub heavy: bool,
    /// finite mesh bodies
    pub meshes: bool,
    pub friction: bool,
    pub e: Option<f64>,
    pub size: f64,
}
impl Opts { pub fn new() -> Opts { Opts { n: (2, 7), composite: false, spin: false, statics: false, heavy: false, meshes: false, friction: false, e: None, size: 3.0 } } }

pub fn coef(r: &mut Rng, c: &mut Col, o: &Opts) {
    c.e = match o.e { Some(e) => e, None => *r.pick(&[0.0, 1.0, 0.5, 0.9f32 as f64, -1.0]) };
    if c.e < 0.0 { c.e = r.r(0.0, 1.0); }
    if o.friction { c.mus = r.r(0.0, 1.0); c.mud = if r.p(0.2) { 0.0 } else { r.r(0.0, 1.0) }; c.thr = r.r(0.0, 1.0); if r.p(0.2) { c.mus = 0.0; c.mud = 0.0; } }
    else if r.p(0.3) { c.thr = r.r(0.0, 1.0); }
}
/// a body about 2 across at the most
pub fn one(r: &mut Rng, o: &Opts) -> Body {
    let mut b = Body::new(Z);
    if o.composite && o.spin && r.p(0.15) {
        // all its mass on one line (or in one point), its surface around: nothing makes it spin about that line
        let (at, d) = (r.cube(0.3), r.dirx());
        for _ in 0..1 + r.below(3) { let mut c = Col::sphere(r.cube(0.6), r.lr(0.1, 0.7), 0.0); coef(r, &mut c, o); b.cols.push(c); }
        let len = r.r(0.2, 0.8);
        for k in 0..(if r.p(0.2) { 1 } else { 2 + r.below(2) }) { b.cols.push(Col::point((at + d * (if k == 0 { -len } else { r.r(0.0, len) })).r32(), r.lr(0.3, 5.0), 0.0)); }
        if r.p(0.3) { b.own_mass = r.lr(0.1, 2.0); }
        b.rot = gen_rot(r);
        return b;
    }
    if o.composite && r.p(0.5) {
        for _ in 0..1 + r.below(3) { let mut c = Col::sphere(r.cube(0.6), r.lr(0.1, 0.7), r.lr(0.1, 10.0)); coef(r, &mut c, o); b.cols.push(c); }
        for _ in 0..r.below(3) { b.cols.push(Col::point(r.cube(0.8), r.lr(0.1, 5.0), r.r(0.1, 1.0))); }
        if r.p(0.5) { b.own_mass = r.lr(0.1, 5.0); }
        b.rot = gen_rot(r);
    } else if o.meshes && r.p(0.4) {
        let mut c = Col::mesh(r.cube(0.3), gen_mesh(r, 1.2).1);
        coef(r, &mut c, o);
        b.cols.push(c);
        b.cols.push(Col::point(r.cube(0.4), r.lr(0.1, 10.0), r.r(0.1, 1.0)));
        b.rot = gen_rot(r);
    } else {
        let mut c = Col::sphere(if r.p(0.7) { Z } else { r.cube(0.5) }, r.lr(0.1, 1.0), r.lr(0.1, 10.0));
        coef(r, &mut c, o);
        b.cols.push(c);
        if r.p(0.3) { b.own_mass = r.lr(0.1, 5.0); }
        if r.p(0.5) { b.rot = gen_rot(r); }
    }
    b
}
pub fn heavy(r: &mut Rng, o: &Opts) -> Body {
    let mut b = Body::new(Z).rot(gen_rot(r));
    let mut c = match r.below(3) {
        0 => Col::sphere(r.cube(0.5), r.lr(0.1, 1.0), f64::INFINITY),
        1 => Col::bx(r.cube(0.3), V(-r.r(0.1, 0.8), -r.r(0.1, 0.8), -r.r(0.1, 0.8)), V(r.r(0.1, 0.8), r.r(0.1, 0.8), r.r(0.1, 0.8)), f64::INFINITY),
        _ => Col::mesh(r.cube(0.3), gen_mesh(r, 1.2).1),
    };
    coef(r, &mut c, o);
    if c.m() == 0.0 { b.cols.push(Col::point(Z, f64::INFINITY, 1.0)); }
    b.cols.insert(0, c);
    inherent(r, &mut b);
    b
}
/// the infinite mass may also be the entity's own, around (or without) colliders of finite mass
pub fn inherent(r: &mut Rng, b: &mut Body) {
    if !r.p(0.3) { return; }
    b.own_mass = f64::INFINITY;
    for c in b.cols.iter_mut() { if c.mass.is_infinite() { c.mass = if r.p(0.7) { r.lr(0.1, 20.0) } else { 0.0 }; } }
}
/// Bodies placed apart (at least `clear`), flying at each other. Planes come as bodies of infinite mass around the rest.
pub fn crowd(r: &mut Rng, o: &Opts, clear: f64) -> World {
    loop {
        let n = o.n.0 + r.below(o.n.1 - o.n.0 + 1);
        let mut bodies: Vec<Body> = Vec::new();
        let np = if o.statics { r.below(4) } else { 0 };
        for _ in 0..np {
            let nn = r.dirx();
            let off = if r.p(0.5) { Z } else { r.cube(1.0) };
            let mut c = Col::plane(off, (nn * if r.p(0.5) { 1.0 } else { r.lr(0.01, 100.0) }).r32(), f64::INFINITY);
            coef(r, &mut c, o);
            let mut b = Body::new((nn * -(o.size * 1.2 + r.f()) - off).r32()).with(c);
            inherent(r, &mut b);
            bodies.push(b);
        }
        let nh = if o.heavy || o.statics { r.below(3) } else { 0 };
        for _ in 0..nh { let mut b = heavy(r, o); b.pos = r.cube(o.size); bodies.push(b); }
        let first = bodies.len();
        for _ in 0..n { let mut b = one(r, o); b.pos = r.cube(o.size); bodies.push(b); }
        // apart?
        let mut ok = true;
        let mut i = 0;
        let mut tries = 0;
        while i < bodies.len() {
            let mut clash = false;
            for j in 0..i {
                let (a, b) = (&bodies[i], &bodies[j]);
                if a.total_mass().is_infinite() && b.total_mass().is_infinite() { continue; }
                if body_gap(a, a.pos, a.q(), b, b.pos, b.q()) < clear { clash = true; break; }
                // a sphere inside a closed mesh has a positive distance to its surface: keep bodies' centres apart too
                if a.cols.iter().chain(b.cols.iter()).any(|c| if let Shape::Mesh { .. } = c.shape { true } else { false }) && !is_plane(a) && !is_plane(b) && (a.pos - b.pos).len() < 2.2 { clash = true; break; }
            }
            if clash { tries += 1; if tries > 200 || i < np { ok = false; break; } bodies[i].pos = r.cube(o.size); } else { i += 1; }
        }
        if !ok { continue; }
        for k in 0..bodies.len() {
            let is_heavy = k >= np && k < first;
            if k < np || (is_heavy && !(o.heavy && r.p(0.6))) { continue; }
            let target = if r.p(0.75) { let j = np + r.below(bodies.len() - np); bodies[j].pos + r.cube(0.5) } else { r.cube(o.size) };
            let d = target - bodies[k].pos;
            if d.len() > 0.1 && !r.p(0.15) { bodies[k].vel = (d.unit() * r.lr(0.2, 10.0)).r32(); }
            if o.spin && r.p(0.6) { bodies[k].ang = r.cube(4.0); }
        }
        r.shuffle(&mut bodies);
        return World::new(bodies);
    }
}
pub fn is_plane(b: &Body) -> bool { b.cols.iter().any(|c| if let Shape::Plane { .. } = c.shape { true } else { false }) }
/// kinetic energy and total momentum of what is finite
pub fn momentum(s: &[Snap]) -> V { let mut p = Z; for x in s { if x.mass.is_finite() { p += x.vel * x.mass; } } p }
pub fn kinetic(s: &[Snap]) -> f64 { s.iter().filter(|x| x.mass.is_finite()).map(|x| 0.5 * x.mass * x.vel.dot(x.vel) + 0.5 * x.inertia.app(x.ang).dot(x.ang)).sum() }
/// Inverse inertia where it is well determined: zero about axes that have none (for a body in one point or on one line).
pub fn inv_inertia(s: &Snap) -> Option<M> {
    if s.mass.is_infinite() { return Some(M::zero()); }
    let n = s.inertia.norm();
    if n == 0.0 || n < 1e-12 * s.mass { return Some(M::zero()); }
    if n < 1e-8 * s.mass { return None; }
    let (l, v) = s.inertia.eigen();
    let mut d = [0.0; 3];
    for i in 0..3 { if l[i] > 1e-4 * n { d[i] = 1.0 / l[i]; } else if l[i].abs() > 1e-6 * n { return None; } }
    Some(v.mul(M::diag(d[0], d[1], d[2])).mul(v.t()))
}
/// what a body cannot take up: the projection on axes without inertia
pub fn no_inertia(s: &Snap, inv: &M) -> M { M::diag(1.0, 1.0, 1.0).sub(if s.inertia.norm() < 1e-12 * s.mass { M::zero() } else { s.inertia.mul(*inv) }) }
/// a body with a line it has no inertia about
pub fn is_rod(s: &Snap, inv: &M) -> bool { s.mass.is_finite() && inv.norm() > 0.0 && no_inertia(s, inv).norm() > 0.5 }
