//! Seeded generator and the recorded choice list.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5851_F42D_4C95_7F2D))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (0 if n == 0).
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            lo
        } else {
            lo + self.below(hi - lo + 1)
        }
    }
    /// True in `num` of `den` cases.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
    /// Pick with weights.
    pub fn weighted<T: Copy>(&mut self, xs: &[(u32, T)]) -> T {
        let total: u64 = xs.iter().map(|x| x.0 as u64).sum();
        let mut k = self.below(total);
        for (w, v) in xs {
            if k < *w as u64 {
                return *v;
            }
            k -= *w as u64;
        }
        xs[xs.len() - 1].1
    }
}

/// All decisions of a run beyond its plan. Drawn from the seed, or replayed from a list; past the
/// end of a replayed list every decision is 0, the least disruptive one.
pub struct Chooser {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pub log: Vec<u32>,
}

impl Chooser {
    pub fn random(seed: u64) -> Self {
        Chooser { rng: Rng::new(seed), replay: None, log: Vec::new() }
    }
    pub fn replay(list: Vec<u32>) -> Self {
        Chooser { rng: Rng::new(0), replay: Some(list), log: Vec::new() }
    }
    /// A decision in 0..n.
    pub fn choose(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let v = match &self.replay {
            Some(l) => l.get(self.log.len()).copied().unwrap_or(0),
            None => f(&mut self.rng),
        };
        let v = if n == 0 { 0 } else { v % n };
        self.log.push(v);
        v
    }
}
