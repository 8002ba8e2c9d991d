//! One PRNG for everything. splitmix64-seeded xoshiro256**.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}
pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(seed ^ 0x5eed) ^ hash_str(prop) ^ mix(index.wrapping_mul(0x2545_F491_4F6C_DD1D)))
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut s = [0u64; 4];
        for x in s.iter_mut() {
            z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
            *x = mix(z);
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
}

/// A recorded sequence of choices. In record mode every choice comes from the PRNG and is written
/// down; in replay mode choices are read back and run out into zeroes, the simplest choice.
#[derive(Clone, Debug)]
pub struct Tape {
    pub vals: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
}
impl Tape {
    pub fn record(seed: u64) -> Self {
        Tape { vals: vec![], pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(vals: &[u32]) -> Self {
        Tape { vals: vals.to_vec(), pos: 0, rng: None }
    }
    /// a number in 0..n; 0 is the simplest
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        match self.rng {
            Some(ref mut r) => {
                let v = r.below(n as u64) as u32;
                self.vals.push(v);
                v as usize
            }
            None => {
                let v = self.vals.get(self.pos).cloned().unwrap_or(0) as usize;
                self.pos += 1;
                if v < n {
                    v
                } else {
                    v % n
                }
            }
        }
    }
    /// true with probability num/256
    pub fn chance(&mut self, num: usize) -> bool {
        self.choose(256) >= 256 - num
    }
}
