//! Workload generation: datasets from several hostile families.
use crate::rng::Rng;

/// A dataset, in plain vectors (row-major X: n*p, row-major Y: n*t).
#[derive(Clone, Debug, PartialEq)]
pub struct Prob {
    pub n: usize,
    pub p: usize,
    pub t: usize,
    pub x: Vec<f64>,
    pub y: Vec<f64>,
    pub fam: &'static str,
}

impl Prob {
    pub fn xij(&self, i: usize, j: usize) -> f64 {
        self.x[i * self.p + j]
    }
    pub fn yit(&self, i: usize, t: usize) -> f64 {
        self.y[i * self.t + t]
    }
    pub fn col(&self, j: usize) -> Vec<f64> {
        (0..self.n).map(|i| self.xij(i, j)).collect()
    }
    pub fn task(&self, t: usize) -> Vec<f64> {
        (0..self.n).map(|i| self.yit(i, t)).collect()
    }
    /// The same data with every number representable in f32.
    pub fn to_f32(mut self) -> Prob {
        for v in self.x.iter_mut().chain(self.y.iter_mut()) {
            *v = *v as f32 as f64;
        }
        self
    }
    pub fn nnz(&self) -> usize {
        self.x.iter().filter(|v| **v != 0.0).count()
    }
    pub fn short(&self) -> String {
        format!("{} n={} p={} t={} nnz={}", self.fam, self.n, self.p, self.t, self.nnz())
    }
    /// Full dump for replay files (exact, via {:?} of f64).
    pub fn dump(&self) -> String {
        format!(
            "n={} p={} t={} family={}\nX(row-major)={:?}\nY(row-major)={:?}\n",
            self.n, self.p, self.t, self.fam, self.x, self.y
        )
    }
    pub fn single(&self) -> Prob {
        Prob { t: 1, y: self.task(0), ..self.clone() }
    }
}

pub const FAMS: &[&str] = &[
    "gauss", "corr", "int", "sparse", "scaled", "dup", "onehot", "wide", "tall", "tiny", "offset", "vsparse",
];

#[derive(Clone, Copy, Debug)]
pub struct Size {
    pub nmax: usize,
    pub pmax: usize,
    pub tmax: usize,
}

/// A dataset of a randomly chosen family.
pub fn any(r: &mut Rng, s: Size) -> Prob {
    let f = *r.pick(FAMS);
    family(r, f, s)
}

pub fn dims(r: &mut Rng, fam: &str, s: Size) -> (usize, usize) {
    match fam {
        "wide" => (r.int(2, (s.nmax / 2).max(3)), r.int((s.pmax / 2).max(2), s.pmax)),
        "tall" => (r.int((s.nmax / 2).max(2), s.nmax), r.int(1, (s.pmax / 3).max(2))),
        "tiny" => (r.int(1, 6), r.int(1, 7)),
        _ => (r.int(2, s.nmax), r.int(1, s.pmax)),
    }
}

thread_local!(static GIANT: std::cell::Cell<bool> = std::cell::Cell::new(false));

/// Run a case with every generated dataset having more than 65536 samples or features.
pub fn with_giants<T>(f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            GIANT.with(|g| g.set(false));
        }
    }
    GIANT.with(|g| g.set(true));
    let _r = Reset;
    f()
}

/// More than 65536 samples or features, few of them used: positions around multiples of 32768,
/// many of them equal modulo 65536 or 32768.
pub fn giant(r: &mut Rng, tmax: usize) -> Prob {
    let long = 65536 + r.int(2, 4000);
    let (n, p) = if r.bool(0.5) { (long, r.int(1, 4)) } else { (r.int(2, 6), long) };
    let t = if tmax <= 1 { 1 } else { r.int(1, tmax.min(3)) };
    let mut used = vec![];
    for _ in 0..r.int(3, 12) {
        let i = r.int(0, long - 65536 - 1);
        used.push(i);
        used.push(i + *r.pick(&[32768, 65536, 65536, 65536]));
    }
    used.extend([0, 32767, 32768, 65535, 65536, long - 1]);
    let mut x = vec![0.0; n * p];
    let mut y: Vec<f64> = (0..n * t).map(|_| r.gauss()).collect();
    for i in used {
        if n > p {
            for j in 0..p {
                if r.bool(0.6) {
                    x[i * p + j] = r.gauss() * 30.0;
                }
            }
            for k in 0..t {
                y[i * t + k] *= 30.0;
            }
        } else {
            for q in 0..n {
                x[q * p + i] = r.gauss();
            }
        }
    }
    Prob { n, p, t, x, y, fam: "giant" }
}

pub fn family(r: &mut Rng, fam: &'static str, s: Size) -> Prob {
    if GIANT.with(|g| g.get()) {
        return giant(r, s.tmax);
    }
    let (mut n, mut p) = dims(r, fam, s);
    let mut t = if s.tmax <= 1 { 1 } else { r.int(1, s.tmax) };
    // now and then a size beyond the usual ones: one long dimension with short others, or twice
    // the usual lengths. (A size the caller limits on purpose, as by tmax = 1, stays.)
    if s.nmax >= 12 && fam != "tiny" {
        match r.int(0, 99) {
            0 | 1 => {
                n = r.logu(s.nmax as f64, 2100.0) as usize;
                p = r.int(1, 6);
                t = t.min(3);
            }
            2 | 3 => {
                p = r.logu(s.pmax as f64, 2100.0) as usize;
                n = r.int(2, 8);
                t = t.min(3);
            }
            4 if s.tmax > 1 => {
                t = r.logu(s.tmax as f64, 300.0) as usize;
                n = n.min(8);
                p = p.min(8);
            }
            5 => {
                n = r.int(s.nmax, 2 * s.nmax);
                p = r.int(s.pmax, 2 * s.pmax);
            }
            _ => {}
        }
    }
    fixed(r, fam, n, p, t)
}

pub fn fixed(r: &mut Rng, fam: &'static str, n: usize, p: usize, t: usize) -> Prob {
    let mut pr = plain(r, fam, n, p, t);
    // now and then in other units: powers of two change no mantissa, and expose absolute thresholds
    if r.bool(0.1) {
        let (a, b) = (2f64.powi(r.int(0, 24) as i32 - 12), 2f64.powi(r.int(0, 40) as i32 - 20));
        pr.x.iter_mut().for_each(|v| *v *= a);
        pr.y.iter_mut().for_each(|v| *v *= b);
    }
    pr
}

fn plain(r: &mut Rng, fam: &'static str, n: usize, p: usize, t: usize) -> Prob {
    let mut x = vec![0.0; n * p];
    match fam {
        "corr" => {
            let rho: f64 = *r.pick(&[0.3, 0.6, 0.9, 0.97]);
            for i in 0..n {
                let mut prev = r.gauss();
                x[i * p] = prev;
                for j in 1..p {
                    prev = rho * prev + (1.0 - rho * rho).sqrt() * r.gauss();
                    x[i * p + j] = prev;
                }
            }
        }
        "int" => {
            for v in x.iter_mut() {
                *v = r.int(0, 6) as f64 - 3.0;
            }
        }
        "sparse" | "vsparse" => {
            let d = if fam == "sparse" { r.range(0.1, 0.5) } else { r.range(0.01, 0.12) };
            for v in x.iter_mut() {
                if r.bool(d) {
                    *v = r.gauss();
                }
            }
        }
        "onehot" => {
            for i in 0..n {
                let j = r.int(0, p - 1);
                x[i * p + j] = 1.0;
                if r.bool(0.3) {
                    let j = r.int(0, p - 1);
                    x[i * p + j] = 1.0;
                }
            }
        }
        _ => {
            for v in x.iter_mut() {
                *v = r.gauss();
            }
        }
    }
    match fam {
        "scaled" => {
            for j in 0..p {
                let c = r.logu(0.03, 30.0);
                for i in 0..n {
                    x[i * p + j] *= c;
                }
            }
        }
        "dup" => {
            for j in 1..p {
                let k = r.int(0, j - 1);
                match r.int(0, 5) {
                    0 => {
                        for i in 0..n {
                            x[i * p + j] = x[i * p + k];
                        }
                    }
                    1 => {
                        for i in 0..n {
                            x[i * p + j] = -2.0 * x[i * p + k];
                        }
                    }
                    2 => {
                        for i in 0..n {
                            x[i * p + j] = 0.0;
                        }
                    }
                    3 => {
                        for i in 0..n {
                            x[i * p + j] = 1.0;
                        }
                    }
                    _ => {}
                }
            }
        }
        "offset" => {
            let c = r.range(-3.0, 3.0);
            for v in x.iter_mut() {
                *v += c;
            }
        }
        _ => {}
    }
    // targets
    let dens = *r.pick(&[0.05, 0.2, 0.5, 1.0]);
    let mut w = vec![0.0; p * t];
    for j in 0..p {
        if r.bool(dens) || (j == 0 && p > 0) {
            for k in 0..t {
                w[j * t + k] = r.gauss();
            }
        }
    }
    let noise = *r.pick(&[0.0, 0.1, 1.0]);
    let yscale = *r.pick(&[1.0, 1.0, 1.0, 0.05, 20.0]);
    let mut y = vec![0.0; n * t];
    let style = r.int(0, 19);
    for i in 0..n {
        for k in 0..t {
            let mut v = 0.0;
            for j in 0..p {
                v += x[i * p + j] * w[j * t + k];
            }
            v += noise * r.gauss();
            y[i * t + k] = match style {
                0 => 1.0,
                1 => (i % 2) as f64,
                2 => {
                    if k == 0 {
                        0.0
                    } else {
                        v
                    }
                }
                3 => v.round(),
                _ => v * yscale,
            };
        }
    }
    Prob { n, p, t, x, y, fam }
}

/// Replace targets by labels in {-1, +1}.
pub fn labels(r: &mut Rng, pr: &mut Prob) {
    let noise = r.range(0.0, 0.3);
    let skew = if r.bool(0.1) { 3.0 } else { 0.0 };
    let sc = {
        let m = pr.y.iter().map(|v| v.abs()).sum::<f64>() / pr.y.len().max(1) as f64;
        if m > 0.0 {
            m
        } else {
            1.0
        }
    };
    for v in pr.y.iter_mut() {
        let s = if *v / sc + skew + 0.3 * r.gauss() >= 0.0 { 1.0 } else { -1.0 };
        *v = if r.bool(noise) { -s } else { s };
    }
}

/// A well-conditioned problem: n >= 4 p Gaussian design, columns of comparable scale.
pub fn well(r: &mut Rng, pmax: usize, tmax: usize) -> Prob {
    let mut p = r.int(1, pmax);
    let mut n = 4 * p + r.int(10, 30);
    let mut t = if tmax <= 1 { 1 } else { r.int(1, tmax) };
    match r.int(0, 99) {
        0 | 1 => {
            p = p.min(6);
            n = r.logu(n as f64, 2100.0) as usize;
        }
        2 => {
            p = r.int(pmax, 3 * pmax);
            n = 4 * p + r.int(10, 30);
        }
        3 if tmax > 1 => {
            t = r.logu(tmax as f64, 100.0) as usize;
            p = p.min(6);
            n = n.min(40);
        }
        _ => {}
    }
    let mut pr = plain(r, "gauss", n, p, t);
    pr.fam = "well";
    for j in 0..p {
        let c = r.range(0.6, 1.6);
        for i in 0..n {
            pr.x[i * p + j] *= c;
        }
    }
    if r.bool(0.3) {
        // sparsify while keeping every column populated
        for i in 0..n {
            for j in 0..p {
                if i % 3 != j % 3 && r.bool(0.5) {
                    pr.x[i * p + j] = 0.0;
                }
            }
        }
    }
    pr
}

/// Hostile but valid data: degenerate shapes and columns, extreme (square-safe) scales.
pub fn hostile(r: &mut Rng, tmax: usize, f32_range: bool) -> Prob {
    if GIANT.with(|g| g.get()) {
        let mut pr = giant(r, tmax);
        if f32_range {
            pr = pr.to_f32();
        }
        return pr;
    }
    let mut n = *r.pick(&[1, 1, 2, 3, 5, 12, 30]);
    let mut p = *r.pick(&[1, 1, 2, 3, 4, 7, 15, 40]);
    match r.int(0, 59) {
        0 => {
            n = r.logu(30.0, 1100.0) as usize;
            p = p.min(7);
        }
        1 => {
            p = r.logu(40.0, 1100.0) as usize;
            n = n.min(5);
        }
        _ => {}
    }
    let t = if tmax <= 1 { 1 } else { *r.pick(&[1, 1, 2, 3, tmax]) };
    let fam = *r.pick(&["gauss", "corr", "int", "sparse", "vsparse", "dup", "onehot", "offset", "scaled"]);
    let mut pr = fixed(r, fam, n, p, t);
    let lim = if f32_range { 1e6 } else { 1e50 };
    for _ in 0..r.int(0, 3) {
        match r.int(0, 11) {
            0 => pr.x.iter_mut().for_each(|v| *v = 0.0),
            1 => pr.y.iter_mut().for_each(|v| *v = 0.0),
            2 => {
                let j = r.int(0, p - 1);
                for i in 0..n {
                    pr.x[i * p + j] = 0.0;
                }
            }
            3 => {
                let (j, k) = (r.int(0, p - 1), r.int(0, p - 1));
                for i in 0..n {
                    pr.x[i * p + j] = pr.x[i * p + k];
                }
            }
            4 => {
                let i = r.int(0, n - 1);
                for j in 0..p {
                    pr.x[i * p + j] = 0.0;
                }
            }
            5 => {
                let s = r.logu(1.0 / lim, lim);
                pr.x.iter_mut().for_each(|v| *v *= s);
            }
            6 => {
                let s = r.logu(1.0 / lim, lim);
                pr.y.iter_mut().for_each(|v| *v *= s);
            }
            7 => {
                // one huge or tiny column
                let (j, s) = (r.int(0, p - 1), r.logu(1.0 / lim.sqrt(), lim.sqrt()));
                for i in 0..n {
                    pr.x[i * p + j] *= s;
                }
            }
            8 => {
                // one outlying entry
                let q = r.int(0, pr.x.len() - 1);
                pr.x[q] = r.sign() * r.logu(1.0, lim.sqrt());
            }
            9 => pr.x.iter_mut().for_each(|v| *v = 1.0),
            10 => {
                // target equal to a column
                let j = r.int(0, p - 1);
                for i in 0..n {
                    for k in 0..t {
                        pr.y[i * t + k] = pr.x[i * p + j];
                    }
                }
            }
            _ => pr.y.iter_mut().for_each(|v| *v = v.signum()),
        }
    }
    // repeated scalings may leave the range; negative zeros stay in
    let clampv = |v: f64| {
        let v = v.clamp(-lim * 10.0, lim * 10.0);
        if v.abs() < 0.1 / lim {
            0.0 * v
        } else {
            v
        }
    };
    pr.x.iter_mut().for_each(|v| *v = clampv(*v));
    pr.y.iter_mut().for_each(|v| *v = clampv(*v));
    pr.fam = "hostile";
    pr
}

/// An l1 ratio: round values, anywhere, near either end
pub fn ratio(r: &mut Rng) -> f64 {
    match r.int(0, 9) {
        0..=5 => *r.pick(&[0.0, 0.1, 0.25, 0.5, 0.5, 0.9, 1.0]),
        6 | 7 => r.range(0.0, 1.0),
        8 => r.logu(1e-9, 1e-1),
        _ => 1.0 - r.logu(1e-9, 1e-1),
    }
}
/// An MCP shape: round values, near one, anywhere
pub fn gamma(r: &mut Rng) -> f64 {
    match r.int(0, 9) {
        0..=5 => *r.pick(&[1.0, 1.5, 3.0, 3.0, 10.0, 100.0, f64::INFINITY]),
        6 => 1.0 + r.logu(1e-9, 1.0),
        _ => r.logu(1.0, 1e6),
    }
}
