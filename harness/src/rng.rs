//! Deterministic PRNG: every case is a pure function of (seed, property, index).
#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h ^= *x as u64; h = h.wrapping_mul(0x100000001b3); }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64, prop: &str, idx: u64) -> Rng {
        Rng(mix(mix(seed) ^ hash_bytes(prop.as_bytes()) ^ mix(idx.wrapping_mul(0xD1342543DE82EF95))))
    }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); mix(self.0) }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn bool(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() { let j = self.below(i + 1); xs.swap(i, j); }
    }
    /// Mostly small, sometimes large: sizes that cross typical thresholds.
    pub fn size(&mut self, small: usize, large: usize) -> usize {
        match self.below(40) {
            0 => self.range(small, large),
            1 => *self.pick(&[8usize, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]).min(&large),
            _ => self.below(small + 1),
        }
    }
    pub fn fork(&mut self) -> Rng { Rng(self.next()) }
}
