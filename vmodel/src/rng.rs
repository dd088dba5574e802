//! Small deterministic generator (xoshiro256**), seeded from any bytes.
#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: &[u8]) -> Rng {
        use sha2::{Digest, Sha256};
        let h: [u8; 32] = Sha256::digest(seed).into();
        let mut s = [0u64; 4];
        for i in 0..4 {
            s[i] = u64::from_le_bytes(h[i * 8..i * 8 + 8].try_into().unwrap());
        }
        s[0] |= 1;
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 { self.u64() as u32 }
    pub fn u8(&mut self) -> u8 { self.u64() as u8 }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.u64() % n } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn bool(&mut self) -> bool { self.u64() & 1 == 1 }
    pub fn one_in(&mut self, n: u64) -> bool { self.below(n) == 0 }
    pub fn h32(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_le_bytes());
        }
        b
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.u8()).collect() }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len() as u64) as usize] }
    pub fn shuffle<T>(&mut self, s: &mut [T]) {
        for i in (1..s.len()).rev() {
            s.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
    /// Random subset; keeps each element with a probability itself random.
    pub fn subset<T: Clone>(&mut self, s: &[T]) -> Vec<T> {
        let p = self.below(11);
        s.iter().filter(|_| self.below(10) < p).cloned().collect::<Vec<_>>()
    }
    /// Value with boundary bias.
    pub fn edge64(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1 << self.below(64),
            4 => (1u64 << self.below(64)).wrapping_sub(1),
            5 => self.u32() as u64,
            _ => self.u64(),
        }
    }
}
