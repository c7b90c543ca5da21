//! Deterministic random numbers; every choice of a run derives from VERIF_SEED.

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn hash_bytes(seed: u64, s: &[u8]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325u64;
    for c in s.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(x));
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed), mix(seed ^ 0x5851F42D4C957F2D) | 1)
    }
    pub fn u64(&mut self) -> u64 {
        let mut s1 = self.0;
        let s0 = self.1;
        let r = s0.wrapping_add(s1);
        self.0 = s0;
        s1 ^= s1 << 23;
        self.1 = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
        r
    }
    pub fn u128(&mut self) -> u128 {
        (self.u64() as u128) << 64 | self.u64() as u128
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        if hi <= lo {
            return lo;
        }
        lo.wrapping_add(self.below((hi as i128 - lo as i128 + 1) as u64) as i64)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let x = self.u64().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
    pub fn pubkey(&mut self) -> solana_program::pubkey::Pubkey {
        let mut b = [0u8; 32];
        self.fill(&mut b);
        solana_program::pubkey::Pubkey::new_from_array(b)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
    /// a value with interesting magnitudes
    pub fn wild_i64(&mut self) -> i64 {
        match self.below(10) {
            0 => *self.pick(&[0, 1, -1, 2, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1]),
            1 => {
                let s = self.below(63);
                1i64 << s
            }
            2 => {
                let s = self.below(63);
                (1i64 << s) - 1
            }
            3 => self.u64() as i64,
            4 => -(self.below(1000) as i64),
            5 => {
                let s = self.below(64);
                (self.u64() >> s) as i64
            }
            6 => i64::MAX - self.below(1000) as i64,
            _ => self.below(1000) as i64,
        }
    }
    pub fn wild_u64(&mut self) -> u64 {
        match self.below(6) {
            0 => *self.pick(&[0, 1, 2, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1]),
            1 => {
                let s = self.below(64);
                1u64 << s
            }
            2 => {
                let s = self.below(64);
                self.u64() >> s
            }
            3 => u64::MAX - self.below(1000),
            _ => self.below(1000),
        }
    }
}
