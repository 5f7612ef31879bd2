use crate::m::*;
/// xoshiro256** seeded by splitmix64
pub struct Rng { s: [u64; 4] }
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0; 4];
        for i in 0..4 { x = x.wrapping_add(0x9e3779b97f4a7c15); s[i] = mix(x); }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    pub fn p(&mut self, prob: f64) -> bool { self.f() < prob }
    /// uniform, rounded to f32
    pub fn r(&mut self, a: f64, b: f64) -> f64 { (a + (b - a) * self.f()) as f32 as f64 }
    /// log-uniform, rounded to f32
    pub fn lr(&mut self, a: f64, b: f64) -> f64 { (a.ln() + (b.ln() - a.ln()) * self.f()).exp() as f32 as f64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    /// uniform direction
    pub fn dir(&mut self) -> V {
        loop {
            let v = V(self.f() * 2.0 - 1.0, self.f() * 2.0 - 1.0, self.f() * 2.0 - 1.0);
            let l = v.len();
            if l > 0.1 && l < 1.0 { return v * (1.0 / l); }
        }
    }
    /// uniform direction, sometimes an axis or a face diagonal
    pub fn dirx(&mut self) -> V {
        match self.below(6) {
            0 => { let mut a = [0.0; 3]; a[self.below(3)] = if self.p(0.5) { 1.0 } else { -1.0 }; V::from(a) }
            1 => loop {
                let v = V(self.below(3) as f64 - 1.0, self.below(3) as f64 - 1.0, self.below(3) as f64 - 1.0);
                if v.len() > 0.5 { return v.unit(); }
            },
            _ => self.dir(),
        }
    }
    pub fn cube(&mut self, h: f64) -> V { V(self.r(-h, h), self.r(-h, h), self.r(-h, h)) }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}
