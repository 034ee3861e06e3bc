//! The only source of randomness: everything is derived from one seed.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0xD6E8FEB86659FD93))
}
pub fn hash_bytes(seed: u64, b: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x) ^ ((c.len() as u64) << 56));
    }
    h
}
pub fn hash_str(seed: u64, s: &str) -> u64 {
    hash_bytes(seed, s.as_bytes())
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn derive(seed: u64, name: &str) -> Rng {
        Rng(hash_str(seed, name))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// Uniform in [0, n).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn p(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|&x| x as u64).sum();
        let mut r = self.below(t.max(1));
        for (i, &x) in w.iter().enumerate() {
            if r < x as u64 {
                return i;
            }
            r -= x as u64;
        }
        w.len() - 1
    }
    /// Log-uniform in [a, b].
    pub fn logu(&mut self, a: u64, b: u64) -> u64 {
        let (x, y) = ((a.max(1) as f64).ln(), (b.max(1) as f64).ln());
        (x + (y - x) * self.f()).exp() as u64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}
