//! Small deterministic PRNG, so that each case is a function of (property, seed, index).
//! Under the fuzzer, decisions come from its input as long as there is some.
use std::sync::Arc;

#[derive(Clone)]
pub struct Rng {
    state: u64,
    input: Option<(Arc<[u8]>, usize)>,
    /// small and many cases, with decisions a fuzzer can see through
    pub fuzzing: bool,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h ^ u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
    }
    for &c in it.remainder() {
        h = mix(h ^ u64::from(c) ^ 0x100);
    }
    mix(h ^ b.len() as u64)
}

pub fn hash_i16(h: u64, b: &[i16]) -> u64 {
    let mut h = mix(h ^ b.len() as u64);
    for &x in b {
        h = mix(h ^ u64::from(x as u16));
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng { state: mix(seed), input: None, fuzzing: false }
    }
    #[cfg(feature = "fuzz")]
    pub fn from_input(data: &[u8]) -> Rng {
        let k = data.len().min(2);
        let mut r = Rng::new(hash_bytes(77, &data[..k]));
        r.input = Some((data[k..].into(), 0));
        r.fuzzing = true;
        r
    }
    /// the next value of the input, which a fuzzer can recognise in a comparison
    fn take(&mut self, bytes: usize) -> Option<u64> {
        let (d, at) = self.input.as_mut()?;
        if d.len() - *at < bytes {
            self.input = None;
            return None;
        }
        let mut v = [0u8; 8];
        v[..bytes].copy_from_slice(&d[*at..*at + bytes]);
        *at += bytes;
        Some(u64::from_le_bytes(v))
    }
    fn bytes_for(n: u128) -> usize {
        match n {
            0..=0x100 => 1,
            0x101..=0x1_0000 => 2,
            0x1_0001..=0x1_0000_0000 => 4,
            _ => 8,
        }
    }
    fn take_below(&mut self, n: u128) -> Option<u64> {
        self.input.as_ref()?;
        self.take(Rng::bytes_for(n)).map(|v| (u128::from(v) % n) as u64)
    }
    pub fn u64(&mut self) -> u64 {
        if self.input.is_some() {
            if let Some(v) = self.take(8) {
                return v;
            }
        }
        self.state = self.state.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        if self.input.is_some() {
            if let Some(v) = self.take(4) {
                return v as u32;
            }
        }
        (self.u64() >> 32) as u32
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        if let Some(v) = self.take_below(n as u128) {
            return v as usize;
        }
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    /// a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        let n = (b - a) as u128 + 1;
        if self.input.is_some() {
            let bytes = Rng::bytes_for(n.max(a.unsigned_abs().max(b.unsigned_abs()).into()));
            if let Some(v) = self.take(bytes) {
                // as it stands, if it can be
                let x = (v << (64 - 8 * bytes)) as i64 >> (64 - 8 * bytes);
                for y in [v as i64, x] {
                    if a <= y && y <= b {
                        return y;
                    }
                }
                return a + (u128::from(v) % n) as i64;
            }
        }
        a + ((u128::from(self.u64()) * n) >> 64) as i64
    }
    pub fn usize(&mut self, a: usize, b: usize) -> usize {
        self.range(a as i64, b as i64) as usize
    }
    /// true in p of 100 cases
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}
