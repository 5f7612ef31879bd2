//! Closest points and sweeps in f64, written from geometry (not from the library).
use crate::m::*;

#[derive(Clone, Debug)]
pub enum G {
    Sphere(V, f64),
    /// point, unit normal (towards the free side)
    Plane(V, V),
    /// convex faces in world space
    Poly(Vec<Vec<V>>),
    /// centre, axes, half sizes
    Obb(V, [V; 3], [f64; 3]),
}

pub fn seg_closest(p: V, a: V, b: V) -> V {
    let d = b - a;
    let l = d.dot(d);
    if l == 0.0 { return a; }
    let t = ((p - a).dot(d) / l).max(0.0).min(1.0);
    a + d * t
}
pub fn poly_normal(f: &[V]) -> V {
    let mut n = Z;
    for i in 0..f.len() { n += (f[i] - f[0]).cross(f[(i + 1) % f.len()] - f[0]); }
    n.unit()
}
/// closest point of a flat convex polygon
pub fn poly_closest(p: V, f: &[V]) -> V {
    let n = poly_normal(f);
    let q = p - n * (p - f[0]).dot(n);
    let mut inside = true;
    for i in 0..f.len() {
        let (a, b) = (f[i], f[(i + 1) % f.len()]);
        if (b - a).cross(q - a).dot(n) < 0.0 { inside = false; break; }
    }
    if inside { return q; }
    let mut best = (f64::INFINITY, q);
    for i in 0..f.len() {
        let c = seg_closest(p, f[i], f[(i + 1) % f.len()]);
        let d = (c - p).len();
        if d < best.0 { best = (d, c); }
    }
    best.1
}
impl G {
    /// distance from p to the shape (signed for spheres and planes, 0 inside a box, distance to the surface
    /// for a mesh) and the closest point
    pub fn dist(&self, p: V) -> (f64, V) {
        match self {
            G::Sphere(c, r) => { let d = p - *c; let l = d.len(); (l - r, if l > 0.0 { *c + d * (r / l) } else { *c }) }
            G::Plane(q, n) => { let d = (p - *q).dot(*n); (d, p - *n * d) }
            G::Poly(fs) => {
                let mut best = (f64::INFINITY, p);
                for f in fs { let c = poly_closest(p, f); let d = (c - p).len(); if d < best.0 { best = (d, c); } }
                best
            }
            G::Obb(c, ax, h) => {
                let d = p - *c;
                let mut q = *c;
                for i in 0..3 { let x = d.dot(ax[i]).max(-h[i]).min(h[i]); q += ax[i] * x; }
                ((p - q).len(), q)
            }
        }
    }
    pub fn shift(&self, d: V) -> G {
        match self {
            G::Sphere(c, r) => G::Sphere(*c + d, *r),
            G::Plane(p, n) => G::Plane(*p + d, *n),
            G::Poly(fs) => G::Poly(fs.iter().map(|f| f.iter().map(|v| *v + d).collect()).collect()),
            G::Obb(c, a, h) => G::Obb(*c + d, *a, *h),
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Sweep {
    /// gap at the start
    pub gap0: f64,
    /// gap at the end
    pub gap1: f64,
    /// first time in [0,1] at which the gap is zero (0 if it starts closed)
    pub first: Option<f64>,
    /// smallest gap over [0,1] (a sampled upper bound of it once touched)
    pub min_gap: f64,
}

/// A ball of radius r whose centre moves from p0 by d over t in [0,1], against a shape at rest.
pub fn sweep(g: &G, p0: V, d: V, r: f64) -> Sweep {
    let gap = |t: f64| g.dist(p0 + d * t).0 - r;
    let (gap0, gap1) = (gap(0.0), gap(1.0));
    let speed = d.len();
    if gap0 <= 0.0 {
        let mut mn = gap0;
        for i in 1..65 { mn = mn.min(gap(i as f64 / 64.0)); }
        return Sweep { gap0, gap1, first: Some(0.0), min_gap: mn };
    }
    if speed == 0.0 { return Sweep { gap0, gap1, first: None, min_gap: gap0 }; }
    let mut t = 0.0;
    let mut first = None;
    for _ in 0..3000 {
        let x = gap(t);
        if x < 1e-11 { first = Some(t); break; }
        t += x / speed;
        if t > 1.0 { break; }
    }
    let mut mn = gap0.min(gap1);
    if first.is_none() {
        let (mut a, mut b) = (0.0, 1.0);
        for _ in 0..200 {
            let (x, y) = (a + (b - a) * 0.381966, a + (b - a) * 0.618034);
            if gap(x) < gap(y) { b = y } else { a = x }
        }
        let low = if gap1 < gap((a + b) / 2.0) { 1.0 } else { (a + b) / 2.0 };
        mn = mn.min(gap(low));
        // grazing so flat that the advancement above did not get there
        if mn < 0.0 {
            let (mut a, mut b) = (t.min(low), low);
            for _ in 0..60 { let m = (a + b) / 2.0; if gap(m) > 0.0 { a = m } else { b = m } }
            first = Some(b);
        }
    }
    if let Some(t1) = first { for i in 0..129 { mn = mn.min(gap(t1 + (1.0 - t1) * i as f64 / 128.0)); } }
    Sweep { gap0, gap1, first, min_gap: mn }
}

/// Convex hull faces (triangles, outward) of points in general position; brute force.
pub fn hull(pts: &[V]) -> Option<Vec<Vec<V>>> {
    let n = pts.len();
    let mut faces = Vec::new();
    let mut used = vec![false; n];
    for i in 0..n { for j in i + 1..n { for k in j + 1..n {
        let nn = (pts[j] - pts[i]).cross(pts[k] - pts[i]);
        if nn.len() < 1e-3 { return None; }
        let u = nn.unit();
        let (mut pos, mut neg) = (0, 0);
        for (m, p) in pts.iter().enumerate() {
            if m == i || m == j || m == k { continue; }
            let d = (*p - pts[i]).dot(u);
            if d.abs() < 0.02 { return None; }
            if d > 0.0 { pos += 1 } else { neg += 1 }
        }
        if pos == 0 { faces.push(vec![pts[i], pts[j], pts[k]]); }
        else if neg == 0 { faces.push(vec![pts[i], pts[k], pts[j]]); }
        else { continue; }
        used[i] = true; used[j] = true; used[k] = true;
    } } }
    if used.iter().all(|u| *u) { Some(faces) } else { None }
}
