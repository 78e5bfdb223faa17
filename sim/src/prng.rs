//! The only generator the simulator uses; everything is derived from VERIF_SEED.

#[derive(Clone, Debug)]
pub struct Prng {
    s: u64,
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a.wrapping_add(0x9e3779b97f4a7c15)) ^ b.wrapping_mul(0xd6e8feb86659fd93))
}

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng {
            s: mix(seed ^ 0x5bf0_3635_dcd1_b2a7),
        }
    }
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.s)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// uniform in [0, 1) with 24 bits
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 40) as f64 / (1u64 << 24) as f64
    }
    /// uniform in [-1, 1) with 24 bits, hence exact in f32
    pub fn sym(&mut self) -> f64 {
        self.unit() * 2.0 - 1.0
    }
}

pub fn hash_words(h: u64, words: &[u64]) -> u64 {
    words.iter().fold(h, |h, w| mix2(h, *w))
}
