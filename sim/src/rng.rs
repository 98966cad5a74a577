//! The only source of randomness: splitmix64. Everything is derived from (VERIF_SEED, property, run).

#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix64(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix64(seed ^ 0x5bd1_e995_a5a5_0001))
    }
    pub fn derive(seed: u64, name: &str, index: u64) -> Rng {
        let mut h = Fnv::new();
        h.bytes(name.as_bytes());
        Rng::new(mix64(seed).wrapping_add(mix64(h.0)).wrapping_add(mix64(index.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x77)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix64(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

/// FNV-1a, used for event hashes and state signatures (never for anything random).
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Fnv {
    pub fn new() -> Fnv {
        Fnv(0xcbf29ce484222325)
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
        }
    }
    pub fn u64(&mut self, v: u64) {
        self.0 = mix64(self.0 ^ v).wrapping_mul(0x100000001b3);
    }
}

/// Deterministic bytes: `kind` 0 zeros, 1 ones, 2 counter, else pseudo-random from `seed`.
pub fn fill(kind: u64, seed: u64, out: &mut [u8]) {
    match kind {
        0 => out.iter_mut().for_each(|b| *b = 0),
        1 => out.iter_mut().for_each(|b| *b = 0xff),
        2 => out.iter_mut().enumerate().for_each(|(i, b)| *b = (i as u8).wrapping_add(seed as u8)),
        _ => {
            for (i, c) in out.chunks_mut(8).enumerate() {
                let w = mix64(seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i as u64 + 1)).to_le_bytes();
                let n = c.len();
                c.copy_from_slice(&w[..n]);
            }
        }
    }
}
