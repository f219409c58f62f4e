//! One integer decides everything: every choice in a simulated run is drawn from one of these,
//! seeded from the scenario.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(a.wrapping_mul(0x9e3779b97f4a7c15) ^ mix(b.wrapping_add(0x632be59bd9b4e019)))
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5851f42d4c957f2d))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 40) as u8
    }
    /// small numbers likely, large ones possible
    pub fn skewed(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.range(0, bits.max(1));
        let v = if b == 0 { 0 } else { self.below(1 << b.min(63)) };
        v.min(max)
    }
}

/// Small 128-bit content hash (two independent multiply-mix lanes).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Hasher {
    a: u64,
    b: u64,
    n: u64,
}
impl Default for Hasher {
    fn default() -> Self {
        Hasher { a: 0x243f6a8885a308d3, b: 0x13198a2e03707344, n: 0 }
    }
}
impl Hasher {
    pub fn write(&mut self, d: &[u8]) {
        let mut it = d.chunks_exact(8);
        for c in &mut it {
            let v = u64::from_le_bytes(c.try_into().unwrap());
            self.word(v);
        }
        let r = it.remainder();
        if !r.is_empty() {
            let mut t = [0u8; 8];
            t[..r.len()].copy_from_slice(r);
            self.word(u64::from_le_bytes(t));
        }
        self.n = self.n.wrapping_add(d.len() as u64);
        self.word(d.len() as u64);
    }
    #[inline]
    pub fn word(&mut self, v: u64) {
        self.a = (self.a ^ v).wrapping_mul(0x9fb21c651e98df25).rotate_left(29);
        self.b = self.b.rotate_left(17).wrapping_add(v).wrapping_mul(0xd6e8feb86659fd93);
    }
    pub fn finish(&self) -> u64 {
        mix(self.a ^ mix(self.b) ^ self.n)
    }
}
pub fn hash(d: &[u8]) -> u64 {
    let mut h = Hasher::default();
    h.write(d);
    h.finish()
}
