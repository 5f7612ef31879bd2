//! Independent f64 vector math for the oracles.
use fluffy_tribble::types::{Mat3, Vec3};
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct V(pub f64, pub f64, pub f64);
pub const Z: V = V(0.0, 0.0, 0.0);
impl Add for V { type Output = V; fn add(self, o: V) -> V { V(self.0 + o.0, self.1 + o.1, self.2 + o.2) } }
impl Sub for V { type Output = V; fn sub(self, o: V) -> V { V(self.0 - o.0, self.1 - o.1, self.2 - o.2) } }
impl Mul<f64> for V { type Output = V; fn mul(self, s: f64) -> V { V(self.0 * s, self.1 * s, self.2 * s) } }
impl Neg for V { type Output = V; fn neg(self) -> V { V(-self.0, -self.1, -self.2) } }
impl AddAssign for V { fn add_assign(&mut self, o: V) { *self = *self + o; } }
impl V {
    pub fn dot(self, o: V) -> f64 { self.0 * o.0 + self.1 * o.1 + self.2 * o.2 }
    pub fn cross(self, o: V) -> V { V(self.1 * o.2 - self.2 * o.1, self.2 * o.0 - self.0 * o.2, self.0 * o.1 - self.1 * o.0) }
    pub fn len(self) -> f64 { self.dot(self).sqrt() }
    pub fn unit(self) -> V { self * (1.0 / self.len()) }
    pub fn arr(self) -> [f64; 3] { [self.0, self.1, self.2] }
    pub fn from(a: [f64; 3]) -> V { V(a[0], a[1], a[2]) }
    /// rounded to the nearest f32 values
    pub fn r32(self) -> V { V(self.0 as f32 as f64, self.1 as f32 as f64, self.2 as f32 as f64) }
    pub fn to32(self) -> Vec3 { Vec3::new(self.0 as f32, self.1 as f32, self.2 as f32) }
    pub fn of(v: &Vec3) -> V { V(v.x as f64, v.y as f64, v.z as f64) }
    pub fn finite(self) -> bool { self.0.is_finite() && self.1.is_finite() && self.2.is_finite() }
    /// any unit vector orthogonal to self
    pub fn ortho(self) -> V {
        let a = if self.0.abs() < 0.6 * self.len() { V(1.0, 0.0, 0.0) } else { V(0.0, 1.0, 0.0) };
        self.cross(a).unit()
    }
}
pub fn bits(v: &Vec3) -> [u32; 3] { [v.x.to_bits(), v.y.to_bits(), v.z.to_bits()] }

/// quaternion (w, v)
#[derive(Clone, Copy, Debug)]
pub struct Q(pub f64, pub V);
impl Q {
    pub fn from_axis(s: V) -> Q {
        let a = s.len();
        if a < 1e-14 { return Q(1.0, s * 0.5); }
        Q((a / 2.0).cos(), s * ((a / 2.0).sin() / a))
    }
    pub fn mul(self, o: Q) -> Q { Q(self.0 * o.0 - self.1.dot(o.1), o.1 * self.0 + self.1 * o.0 + self.1.cross(o.1)) }
    pub fn conj(self) -> Q { Q(self.0, -self.1) }
    pub fn rot(self, v: V) -> V {
        let t = self.1.cross(v) * 2.0;
        v + t * self.0 + self.1.cross(t)
    }
    pub fn inv_rot(self, v: V) -> V { self.conj().rot(v) }
    /// scaled axis with angle in [0, pi]
    pub fn axis(self) -> V {
        let (w, v) = if self.0 < 0.0 { (-self.0, -self.1) } else { (self.0, self.1) };
        let s = v.len();
        if s < 1e-14 { return v * 2.0; }
        v * (2.0 * s.atan2(w) / s)
    }
    /// angle of the rotation from self to o, in [0, pi]
    pub fn angle_to(self, o: Q) -> f64 { o.mul(self.conj()).axis().len() }
}

#[derive(Clone, Copy, Debug)]
pub struct M(pub [[f64; 3]; 3]);
impl M {
    pub fn zero() -> M { M([[0.0; 3]; 3]) }
    pub fn diag(a: f64, b: f64, c: f64) -> M { M([[a, 0.0, 0.0], [0.0, b, 0.0], [0.0, 0.0, c]]) }
    pub fn outer(a: V, b: V) -> M {
        let (a, b) = (a.arr(), b.arr());
        let mut m = M::zero();
        for i in 0..3 { for j in 0..3 { m.0[i][j] = a[i] * b[j]; } }
        m
    }
    pub fn of(m: &Mat3) -> M {
        let mut r = M::zero();
        for i in 0..3 { for j in 0..3 { r.0[i][j] = m[(i, j)] as f64; } }
        r
    }
    pub fn to32(self) -> Mat3 {
        let a = self.0;
        Mat3::new(
            a[0][0] as f32, a[0][1] as f32, a[0][2] as f32,
            a[1][0] as f32, a[1][1] as f32, a[1][2] as f32,
            a[2][0] as f32, a[2][1] as f32, a[2][2] as f32,
        )
    }
    pub fn r32(self) -> M { M::of(&self.to32()) }
    pub fn add(self, o: M) -> M { let mut r = self; for i in 0..3 { for j in 0..3 { r.0[i][j] += o.0[i][j]; } } r }
    pub fn sub(self, o: M) -> M { self.add(o.scale(-1.0)) }
    pub fn scale(self, s: f64) -> M { let mut r = self; for i in 0..3 { for j in 0..3 { r.0[i][j] *= s; } } r }
    pub fn mul(self, o: M) -> M {
        let mut r = M::zero();
        for i in 0..3 { for j in 0..3 { for k in 0..3 { r.0[i][j] += self.0[i][k] * o.0[k][j]; } } }
        r
    }
    pub fn t(self) -> M { let mut r = M::zero(); for i in 0..3 { for j in 0..3 { r.0[i][j] = self.0[j][i]; } } r }
    pub fn app(self, v: V) -> V {
        let a = v.arr();
        let mut r = [0.0; 3];
        for i in 0..3 { for j in 0..3 { r[i] += self.0[i][j] * a[j]; } }
        V::from(r)
    }
    pub fn rot(q: Q) -> M {
        let (a, b, c) = (q.rot(V(1.0, 0.0, 0.0)), q.rot(V(0.0, 1.0, 0.0)), q.rot(V(0.0, 0.0, 1.0)));
        M([[a.0, b.0, c.0], [a.1, b.1, c.1], [a.2, b.2, c.2]])
    }
    pub fn norm(self) -> f64 { let mut s = 0.0; for i in 0..3 { for j in 0..3 { s += self.0[i][j] * self.0[i][j]; } } s.sqrt() }
    pub fn det(self) -> f64 { let a = self.0; V(a[0][0], a[0][1], a[0][2]).dot(V(a[1][0], a[1][1], a[1][2]).cross(V(a[2][0], a[2][1], a[2][2]))) }
    pub fn inv(self) -> Option<M> {
        let a = self.0;
        let r0 = V(a[0][0], a[0][1], a[0][2]);
        let r1 = V(a[1][0], a[1][1], a[1][2]);
        let r2 = V(a[2][0], a[2][1], a[2][2]);
        let d = r0.dot(r1.cross(r2));
        if d == 0.0 || !d.is_finite() { return None; }
        let (c0, c1, c2) = (r1.cross(r2) * (1.0 / d), r2.cross(r0) * (1.0 / d), r0.cross(r1) * (1.0 / d));
        Some(M([[c0.0, c1.0, c2.0], [c0.1, c1.1, c2.1], [c0.2, c1.2, c2.2]]))
    }
    /// eigenvalues and eigenvectors (columns) of a symmetric matrix, by Jacobi rotations
    pub fn eigen(self) -> ([f64; 3], M) {
        let mut a = self;
        let mut v = M::diag(1.0, 1.0, 1.0);
        for _ in 0..60 {
            let (mut p, mut q, mut m) = (0, 1, 0.0);
            for i in 0..3 { for j in i + 1..3 { if a.0[i][j].abs() > m { m = a.0[i][j].abs(); p = i; q = j; } } }
            if m <= 1e-18 * self.norm() { break; }
            let th = 0.5 * (2.0 * a.0[p][q]).atan2(a.0[q][q] - a.0[p][p]);
            let (s, c) = th.sin_cos();
            let mut g = M::diag(1.0, 1.0, 1.0);
            g.0[p][p] = c; g.0[q][q] = c; g.0[p][q] = s; g.0[q][p] = -s;
            a = g.t().mul(a).mul(g);
            v = v.mul(g);
        }
        ([a.0[0][0], a.0[1][1], a.0[2][2]], v)
    }
}
