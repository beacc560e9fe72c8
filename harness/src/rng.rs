//! xoshiro256++ seeded through splitmix64. Every random choice of a check comes from
//! `Rng::case(seed, stream, index)`, so one (VERIF_SEED, case) pair replays one case.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn case(seed: u64, stream: u64, idx: u64) -> Self {
        let mut x = seed ^ 0xA5A5_5A5A_1234_5678;
        let a = splitmix(&mut x);
        let mut y = a ^ stream.wrapping_mul(0xD1342543DE82EF95);
        let b = splitmix(&mut y);
        let mut z = b ^ idx.wrapping_mul(0x2545F4914F6CDD1D);
        Rng::new(splitmix(&mut z))
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[0].wrapping_add(s[3]).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in [0, 1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    /// log-uniform in [lo, hi]
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        (self.range(lo.ln(), hi.ln())).exp()
    }
    /// integer in [lo, hi]
    pub fn int(&mut self, lo: usize, hi: usize) -> usize {
        lo + (self.u64() % ((hi - lo + 1) as u64)) as usize
    }
    pub fn bool(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.int(0, v.len() - 1)]
    }
    pub fn gauss(&mut self) -> f64 {
        let u = 1.0 - self.f();
        let v = self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn sign(&mut self) -> f64 {
        if self.bool(0.5) {
            1.0
        } else {
            -1.0
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.int(0, i);
            v.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v
    }
}
