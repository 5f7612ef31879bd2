//! C06, C07: frames of reference against f64 rigid motions.
use crate::ctx::*;
use crate::m::*;
use crate::rng::Rng;
use crate::world::*;
use fluffy_tribble::types::Vec3;
use fluffy_tribble::*;

pub fn props() -> Vec<Prop> {
    let assume: &'static [&'static str] = &["coordinates up to 1000 (tolerance grows with them), rotation vectors up to 30 rad long", "for interpolation: both orientations of one body (same local offset); between poses half a turn apart either direction counts as shortest"];
    vec![
        Prop { id: "C06", quick: 3_000_000, thorough: 120_000_000, rule: "Each case makes one orientation (given directly, read from an entity with massive colliders in a system, moved 1-3000 times, or interpolated) and converts random points and directions both ways against an f64 rigid motion. Non-trivial: rotated by more than 0.01 - distinct by pose.", assume, min: &[("fresh", 100), ("from an entity", 100), ("moved", 100), ("moved 1000 times or more", 1), ("interpolated", 50), ("offset local space", 300)], hang_violates: false, run: c06 },
        Prop { id: "C07", quick: 3_000_000, thorough: 120_000_000, rule: "Each case moves an orientation by random linear and angular movements (1-30 in a row, sometimes thousands) and interpolates between two orientations at several times, against f64 rigid motions. Non-trivial: turned by more than 0.01 - distinct by pose and movement.", assume, min: &[("moved", 350), ("long chain", 1), ("long slow chain", 1), ("interpolated", 500), ("interpolated across a wrap of the rotation vector", 50), ("moved entity", 50)], hang_violates: false, run: c07 },
    ]
}
pub fn qof(o: &Orientation) -> Q { let q = o.rotation; Q(q.w as f64, V(q.i as f64, q.j as f64, q.k as f64)) }
fn rot_vec(r: &mut Rng) -> V {
    match r.below(7) {
        0 => Z,
        1 => (r.dirx() * (std::f64::consts::FRAC_PI_2 * r.below(9) as f64)).r32(),
        2 => (r.dir() * r.lr(1e-7, 1e-2)).r32(),
        3 => (r.dir() * r.r(3.0, 3.3)).r32(),
        4 => (r.dir() * r.r(6.0, 30.0)).r32(),
        _ => (r.dirx() * r.r(0.0, 3.2)).r32(),
    }
}
fn point(r: &mut Rng) -> V { match r.below(5) { 0 => Z, 1 => { let s = r.lr(1.0, 1000.0); r.cube(s) }, _ => r.cube(5.0) } }
fn fresh(r: &mut Rng) -> (Orientation, V, V, V) {
    let (p, a, o) = (point(r), rot_vec(r), if r.p(0.3) { Z } else { point(r) });
    (Orientation::new(&p.to32(), &a.to32(), &o.to32()), p, a, o)
}
fn bits_of(o: &Orientation) -> [u32; 10] {
    let (p, f, q) = (bits(&o.position), bits(&o.internal_origin_offset), o.rotation);
    [p[0], p[1], p[2], f[0], f[1], f[2], q.w.to_bits(), q.i.to_bits(), q.j.to_bits(), q.k.to_bits()]
}

fn c06(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let k = r.below(8);
    let o: Orientation = match k {
        0 | 1 => {
            // an entity with massive colliders: its space is turned about its centre of mass
            let mut b = Body::new(r.cube(10.0)).rot(rot_vec(r)).mass(r.r(0.0, 3.0));
            for _ in 0..1 + r.below(3) { b.cols.push(match r.below(3) { 0 => Col::sphere(r.cube(4.0), r.r(0.1, 2.0), r.lr(0.1, 10.0)), 1 => Col::point(r.cube(4.0), r.lr(0.1, 10.0), 1.0), _ => Col::bx(r.cube(3.0), r.cube(1.0) - V(2.0, 2.0, 2.0), r.cube(1.0) + V(2.0, 2.0, 2.0), r.lr(0.1, 10.0)) }); }
            let mut s = World::new(vec![b.clone()]).build();
            if r.p(0.3) { let (p, q) = (r.cube(10.0), rot_vec(r)); s.set(0, |e| { e.position = p.to32(); e.rotation = q.to32(); }); }
            else {
                let e = s.ps.get_entity(s.ents[0]).unwrap();
                let lo = V::of(&e.get_last_orientation().local_origin_in_world());
                ensure!((lo - b.pos).len() < 1e-4, "local origin of {:?} is at {:?}", b, lo);
            }
            let e = s.ps.get_entity(s.ents[0]).unwrap();
            let o = *e.get_last_orientation();
            ensure!(bits(&o.position) == bits(&e.position), "an entity's orientation is at {:?}, the entity at {:?}", o.position, e.position);
            ensure!(Q::from_axis(V::of(&e.rotation)).angle_to(qof(&o)) < 1e-5, "an entity's orientation differs from its rotation");
            ensure!(Q::from_axis(V::of(&o.rotation_vec())).angle_to(qof(&o)) < 1e-5, "rotation vector {:?} is not the rotation {:?}", o.rotation_vec(), o.rotation);
            ctx.count("from an entity");
            o
        }
        2 | 3 | 4 => {
            let (mut o, ..) = fresh(r);
            let n = if r.p(0.02) { 1000 + r.below(2000) } else { 1 + r.below(20) };
            let (step, turn) = (r.cube(0.1), r.dir() * r.lr(1e-3, 2.0));
            for i in 0..n {
                let (l, a) = if n > 100 || i % 2 == 0 { (step, turn) } else { (r.cube(1.0), rot_vec(r)) };
                o.affect_with(&l.to32(), &a.to32());
            }
            ctx.count("moved");
            if n >= 1000 { ctx.count("moved 1000 times or more"); }
            o
        }
        5 => {
            let (a, _, _, off) = fresh(r);
            let b = Orientation::new(&point(r).to32(), &rot_vec(r).to32(), &off.to32());
            ctx.count("interpolated");
            Orientation::lerp(r.r(0.0, 1.0) as f32, &a, &b)
        }
        _ => {
            let (o, p, a, off) = fresh(r);
            ctx.count("fresh");
            ensure!(V::of(&o.position) == p && V::of(&o.internal_origin_offset) == off, "a new orientation is not where it was put");
            let d = qof(&o).angle_to(Q::from_axis(a));
            ensure!(d < 2e-6 * (4.0 + a.len()), "a new orientation with rotation vector {:?} is turned by {} away from it", a, d);
            o
        }
    };
    let (p, q, off) = (V::of(&o.position), qof(&o), V::of(&o.internal_origin_offset));
    let norm = (q.0 * q.0 + q.1.dot(q.1)).sqrt();
    ctx.maxi("|rotation quaternion| - 1", (norm - 1.0).abs());
    ensure!((norm - 1.0).abs() < 5e-6, "the rotation is not a rotation: length {}", norm);
    ctx.log(|| format!("{:?}", o));
    if off.len() > 0.0 { ctx.count("offset local space"); }
    let qn = Q(q.0 / norm, q.1 * (1.0 / norm));
    let mut prev: Option<(V, V)> = None;
    for _ in 0..3 {
        let x = point(r);
        let sc = 1.0 + p.len() + off.len() + x.len();
        let tol = 5e-6 * sc;
        let w = V::of(&o.position_into_world(&x.to32()));
        let want = p + qn.rot(off + x);
        ctx.maxi("position error / tolerance", (w - want).len() / tol);
        ensure!((w - want).len() < tol, "local {:?} is at world {:?}, should be {:?} ({:?})", x, w, want, o);
        let back = V::of(&o.position_into_local(&w.to32()));
        ensure!((back - x).len() < 2.0 * tol, "local {:?} went to world and back to {:?} ({:?})", x, back, o);
        let l = V::of(&o.position_into_local(&x.to32()));
        let wl = qn.inv_rot(x - p) - off;
        ensure!((l - wl).len() < tol, "world {:?} is at local {:?}, should be {:?} ({:?})", x, l, wl, o);
        let back = V::of(&o.position_into_world(&l.to32()));
        ensure!((back - x).len() < 2.0 * tol, "world {:?} went to local and back to {:?} ({:?})", x, back, o);
        let dw = V::of(&o.direction_into_world(&x.to32()));
        let dt = 2e-6 * x.len() + 1e-30;
        ensure!((dw - qn.rot(x)).len() <= dt, "direction {:?} becomes {:?}, should be {:?} ({:?})", x, dw, qn.rot(x), o);
        let dl = V::of(&o.direction_into_local(&x.to32()));
        ensure!((dl - qn.inv_rot(x)).len() <= dt, "direction {:?} becomes local {:?}, should be {:?} ({:?})", x, dl, qn.inv_rot(x), o);
        let db = V::of(&o.direction_into_local(&dw.to32()));
        ensure!((db - x).len() <= 2.0 * dt, "direction {:?} went to world and back to {:?} ({:?})", x, db, o);
        let db = V::of(&o.direction_into_world(&dl.to32()));
        ensure!((db - x).len() <= 2.0 * dt, "direction {:?} went to local and back to {:?} ({:?})", x, db, o);
        let iso = V::of(&o.into_world().transform_vector(&x.to32()));
        ensure!((iso - dw).len() <= dt, "into_world and direction_into_world disagree");
        let iso = V::of(&o.into_local().transform_vector(&x.to32()));
        ensure!((iso - dl).len() <= dt, "into_local and direction_into_local disagree");
        if let Some((a, b)) = prev {
            let (d0, d1) = ((a - x).len(), (b - w).len());
            ensure!((d0 - d1).abs() < 2.0 * tol + 2e-6 * a.len(), "distance {} becomes {} ({:?})", d0, d1, o);
        }
        prev = Some((x, w));
    }
    let lo = V::of(&o.local_origin_in_world());
    let w0 = V::of(&o.position_into_world(&Vec3::zeros()));
    ensure!((lo - w0).len() < 1e-6 * (1.0 + p.len() + off.len()), "the local origin is at {:?} but zero converts to {:?}", lo, w0);
    let ax: Vec<V> = (0..3).map(|i| { let mut e = [0.0; 3]; e[i] = 1.0; V::of(&o.direction_into_world(&V::from(e).to32())) }).collect();
    let det = ax[0].dot(ax[1].cross(ax[2]));
    ensure!((det - 1.0).abs() < 1e-5, "the images of the axes have determinant {} ({:?})", det, o);
    if qn.axis().len() > 0.01 { let mut h = H::new(); h.v(p).v(q.1).v(off); ctx.nontrivial(h.0); }
    if ctx.case % 5003 == 3 { ctx.sample(|| format!("{:?}", o)); }
    Ok(())
}

fn c07(ctx: &mut Ctx, r: &mut Rng) -> Res {
    let (mut o, p, _, off) = fresh(r);
    let mut h = H::new();
    if r.p(0.5) {
        let long = r.p(0.006);
        let n = if long { 3000 + r.below(5000) } else { 1 + r.below(30) };
        // slowly moving and turning things add up too
        let slow = long && r.p(0.5);
        let (sl, sa) = if slow { (r.cube(0.01) * r.lr(1e-4, 1.0), r.dirx() * r.lr(5e-7, 1e-4)) } else { (r.cube(0.01), r.dir() * r.lr(1e-3, 1.0)) };
        let mut q = qof(&o);
        let mut pp = p;
        let mut size = p.len();
        for _ in 0..n {
            let (l, a) = if long { (sl.r32(), sa.r32()) } else { (point(r), rot_vec(r)) };
            let before = o;
            let copy = o.after_affected(&l.to32(), &a.to32());
            ensure!(bits_of(&o) == bits_of(&before), "moving a copy changed the original");
            o.affect_with(&l.to32(), &a.to32());
            ensure!(bits_of(&o) == bits_of(&copy), "a moved copy {:?} differs from the moved original {:?}", copy, o);
            ensure!(V::of(&o.internal_origin_offset) == off, "moving changed the local offset to {:?}", o.internal_origin_offset);
            let got = V::of(&o.position) - V::of(&before.position);
            let sc = V::of(&before.position).len() + l.len();
            ensure!((got - l).len() <= 2.5e-7 * sc, "moving by {:?} displaced by {:?}", l, got);
            let want = Q::from_axis(a).mul(qof(&before));
            let d = qof(&o).angle_to(want);
            ensure!(d < 1.5e-6 * (2.0 + a.len()), "turning {:?} by {:?} ends {} away from {:?}", before.rotation, a, d, want);
            q = Q::from_axis(a).mul(q);
            let qn = (q.0 * q.0 + q.1.dot(q.1)).sqrt();
            q = Q(q.0 / qn, q.1 * (1.0 / qn));
            pp += l;
            size = size.max(pp.len());
            h.v(l).v(a);
        }
        let nf = n as f64;
        let da = qof(&o).angle_to(q);
        ctx.maxi("drift of the angle after n movements / (n * 1e-5)", da / (nf * 1e-5));
        if slow {
            ctx.maxi("drift of the angle after n slow movements / (n * 2e-7)", da / (nf * 2e-7));
            ensure!(da < nf * 2.5e-7, "after {} movements by {:?} the rotation is {} away from their composition", n, sa, da);
            ctx.count("long slow chain");
        }
        ensure!(da < nf * 2e-5, "after {} movements the rotation is {} away from their composition", n, da);
        let qq = qof(&o);
        let norm = (qq.0 * qq.0 + qq.1.dot(qq.1)).sqrt();
        ensure!((norm - 1.0).abs() < 5e-6, "after {} movements the rotation has length {}", n, norm);
        ensure!((V::of(&o.position) - pp).len() < nf * 3e-7 * (1.0 + size), "after {} movements the position is {:?}, their sum leads to {:?}", n, o.position, pp);
        ctx.count("moved");
        if long { ctx.count("long chain"); }
    }
    if r.p(0.1) {
        // the same through a system: one step turns an entity about its centre of mass
        let w = r.dirx() * r.lr(0.01, 6.0);
        let v = r.cube(5.0);
        let b = Body::new(r.cube(5.0)).rot(rot_vec(r)).vel(v).ang(w.r32()).with(Col::sphere(r.cube(3.0), 0.5, r.lr(0.1, 5.0))).with(Col::point(r.cube(3.0), r.lr(0.1, 5.0), 0.5));
        let mut s = World::new(vec![b.clone()]).build();
        let a = s.snap(0);
        let oa = *s.ps.get_entity(s.ents[0]).unwrap().get_last_orientation();
        let dt = r.lr(1e-3, 1.0);
        s.step(dt);
        let z = s.snap(0);
        let oz = *s.ps.get_entity(s.ents[0]).unwrap().get_last_orientation();
        ensure!(bits(&oa.internal_origin_offset) == bits(&oz.internal_origin_offset), "a step changed the local offset");
        ensure!((z.pos - a.pos - v * dt).len() < 1e-5, "a step displaced by {:?}, velocity {:?} times {}", z.pos - a.pos, v, dt);
        let d = z.q.angle_to(Q::from_axis(w * dt).mul(a.q));
        ensure!(d < 1e-5, "a step of {} turning by {:?} ends {} away", dt, w, d);
        ctx.count("moved entity");
    }
    // interpolation
    let b = {
        let kind = r.below(3);
        let rv = match kind {
            0 => { // near the same rotation, beyond the wrap of the rotation vector
                let a = r.dirx();
                let x = r.r(2.0, 3.1);
                o = Orientation::new(&o.position, &(a * x).to32(), &o.internal_origin_offset);
                (a * (x + r.r(0.1, 2.0))).r32()
            }
            _ => rot_vec(r),
        };
        let b = Orientation::new(&point(r).to32(), &rv.to32(), &o.internal_origin_offset);
        // either sign of the quaternion is the same rotation
        if r.p(0.3) { b.after_affected(&Vec3::zeros(), &(r.dirx() * std::f64::consts::PI * 2.0).to32()) } else { b }
    };
    let (qa, qb) = (qof(&o), qof(&b));
    let (pa, pb) = (V::of(&o.position), V::of(&b.position));
    let turn = qb.mul(qa.conj()).axis();
    let ambiguous = turn.len() > std::f64::consts::PI - 2e-3;
    let (va, vb) = (V::of(&o.rotation_vec()), V::of(&b.rotation_vec()));
    if ((vb - va).len() - turn.len()).abs() > 1.0 { ctx.count("interpolated across a wrap of the rotation vector"); }
    for i in 0..4 {
        let t = match i { 0 => 0.0, 1 => 1.0, _ => r.r(0.0, 1.0) };
        let (ba, bb) = (bits_of(&o), bits_of(&b));
        let m = Orientation::lerp(t as f32, &o, &b);
        ensure!(bits_of(&o) == ba && bits_of(&b) == bb, "interpolating changed its inputs");
        let want = pa * (1.0 - t) + pb * t;
        let tol = 4e-7 * (pa.len() + pb.len());
        ensure!((V::of(&m.position) - want).len() <= tol, "at {} the position is {:?}, should be {:?}", t, m.position, want);
        ensure!(bits(&m.internal_origin_offset) == bits(&o.internal_origin_offset), "interpolating changed the local offset");
        let q = qof(&m);
        let nn = (q.0 * q.0 + q.1.dot(q.1)).sqrt();
        ensure!((nn - 1.0).abs() < 5e-6, "interpolated rotation has length {}", nn);
        let (da, db) = (qa.angle_to(q), q.angle_to(qb));
        // the angle between f32 quaternions half a turn apart is known to about 1e-3
        let at = if ambiguous { 3e-3 } else { 5e-6 + 2e-6 / (std::f64::consts::PI - turn.len()) };
        if i == 0 { ensure!(da < 5e-6, "at 0 the rotation is {} away from the first", da); }
        if i == 1 { ensure!(db < 5e-6 + at, "at 1 the rotation is {} away from the second", db); }
        ensure!((da - t * turn.len()).abs() < at && (db - (1.0 - t) * turn.len()).abs() < at, "at {} of a turn by {} the rotation is {} from the first and {} from the second: {:?} {:?}", t, turn.len(), da, db, o, b);
        if !ambiguous {
            let w = Q::from_axis(turn * t).mul(qa);
            let d = q.angle_to(w);
            ctx.maxi("interpolated rotation error / tolerance", d / at);
            ensure!(d < at, "at {} the rotation is {} away from the shortest turn between {:?} and {:?}", t, d, o, b);
        }
    }
    ctx.count("interpolated");
    h.v(pa).v(qa.1).v(qb.1);
    if turn.len() > 0.01 { ctx.nontrivial(h.0); }
    if ctx.case % 5003 == 3 { ctx.sample(|| format!("between {:?} and {:?}", o, b)); }
    Ok(())
}
