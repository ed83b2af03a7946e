/// xoshiro256** seeded through splitmix64
pub struct Rng { s: [u64; 4] }
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut z = seed;
        let mut n = || { z = z.wrapping_add(0x9E37_79B9_7F4A_7C15); crate::mix(z) };
        Rng { s: [n(), n(), n(), n()] }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in [lo, hi]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + (self.u64() as u128 % span) as i128) as i64
    }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n.max(1) as u64) as usize }
    pub fn f64(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.f64() }
    pub fn chance(&mut self, p: f64) -> bool { self.f64() < p }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u64() as u8).collect() }
}
