//! The one source of choices: a splitmix/xoshiro generator seeded from one integer.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn seed_of(base: u64, prop: &str, index: u64) -> u64 {
    let mut h = mix(base ^ 0x5151_7700);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(index))
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9e3779b97f4a7c15);
            *v = mix(x);
        }
        Rng { s }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn u32(&mut self) -> u32 { (self.u64() >> 32) as u32 }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n.max(1) as u64) as usize }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }

    /// True with probability p percent.
    pub fn pct(&mut self, p: usize) -> bool { self.below(100) < p }

    pub fn unit(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }

    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.unit() }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }

    /// An activation-, weight- or error-like number: mostly moderate, now and
    /// then zero, tiny, large, or a round value.
    pub fn value(&mut self) -> f64 {
        match self.below(20) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 => 0.5,
            4 => self.uniform(-1.0, 1.0) * 1e-6,
            5 => self.uniform(-1.0, 1.0) * 1e-3,
            6 => self.uniform(-1.0, 1.0) * 1e3,
            7 => self.below(7) as f64 - 3.0,
            _ => self.uniform(-2.0, 2.0),
        }
    }

    /// As `value`, never zero.
    pub fn nonzero(&mut self) -> f64 {
        loop {
            let v = self.value();
            if v != 0.0 {
                return v;
            }
        }
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
