//! Deterministic stand-in for `ahash`. Real ahash seeds its tables from memory
//! addresses (and the OS), which would make table iteration order differ
//! between two executions of one seed. Here the seed is the simulated run's.
use std::hash::{BuildHasher, Hasher};

#[derive(Clone, Debug)]
pub struct RandomState {
    k: u64,
}
impl Default for RandomState {
    fn default() -> Self {
        Self::new()
    }
}
impl RandomState {
    pub fn new() -> Self {
        RandomState { k: simrt::hash_seed() }
    }
    pub fn with_seed(k: usize) -> Self {
        RandomState { k: k as u64 }
    }
    pub const fn with_seeds(k0: u64, k1: u64, k2: u64, k3: u64) -> Self {
        RandomState { k: k0 ^ k1.rotate_left(13) ^ k2.rotate_left(29) ^ k3.rotate_left(47) }
    }
    pub fn hash_one<T: std::hash::Hash>(&self, t: T) -> u64 {
        let mut h = self.build_hasher();
        t.hash(&mut h);
        h.finish()
    }
}
impl BuildHasher for RandomState {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher {
        AHasher { h: 0xcbf29ce484222325 ^ self.k }
    }
}
#[derive(Clone, Debug)]
pub struct AHasher {
    h: u64,
}
/// hashbrown's default tables hash through this constructor.
impl Default for AHasher {
    fn default() -> Self {
        AHasher { h: 0xcbf29ce484222325 ^ simrt::hash_seed() }
    }
}
impl Hasher for AHasher {
    fn finish(&self) -> u64 {
        let mut z = self.h;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.h = (self.h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
}
