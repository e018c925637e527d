//! Deterministic pseudo-random generator (xoshiro256**), seeded per case.
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    splitmix(&mut h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    }
    pub fn for_case(seed: u64, prop: &str, case: u64) -> Self {
        let mut s = seed ^ hash64(prop.as_bytes()).rotate_left(17);
        let a = splitmix(&mut s);
        Rng::new(a ^ case.wrapping_mul(0xD6E8FEB86659FD93))
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if a == 0 && b == u64::MAX {
            return self.u64();
        }
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
    pub fn coin(&mut self) -> bool {
        self.u64() & (1 << 40) != 0
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.us(s.len())]
    }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            let j = self.us(i + 1);
            s.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    /// Biased to small and boundary numbers
    pub fn biased(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(4),
            1 => self.below(256),
            2 => {
                let k = self.below(65);
                let v = if k == 64 { 0 } else { 1u64 << k };
                v.wrapping_add(self.below(3)).wrapping_sub(1)
            }
            3 => u64::MAX - self.below(3),
            4 => self.u64() >> self.below(64),
            _ => self.u64(),
        }
    }
}
