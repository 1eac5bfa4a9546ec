//! Small deterministic generator (splitmix64 seeding, xoshiro256**), so that a case depends only on
//! (seed, property, index).
#[derive(Clone)]
pub struct Rng {
    s: std::cell::Cell<[u64; 4]>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = mix(x);
            *v = x;
        }
        Rng { s: std::cell::Cell::new(s) }
    }
    pub fn u64(&self) -> u64 {
        let mut s = self.s.get();
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        self.s.set(s);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&self, n: usize) -> usize {
        (self.u64() % n as u64) as usize
    }
    /// Uniform in lo..=hi.
    pub fn int(&self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as i64
    }
    /// Uniform in [0, 1).
    pub fn unit(&self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// Log-uniform magnitude in [lo, hi] with random sign.
    pub fn signed_log(&self, lo: f64, hi: f64) -> f64 {
        let m = (lo.ln() + (hi.ln() - lo.ln()) * self.unit()).exp();
        if self.chance(0.5) {
            m
        } else {
            -m
        }
    }
}
