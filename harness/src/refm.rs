//! Independent reference mathematics, in f64 with compensated sums. Nothing here calls
//! into the code under test.
use crate::gen::Prob;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Df {
    Quad,
    Logit,
}

/// Penalties; for multi-task problems the block version of the same name.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pen {
    L1 { a: f64 },
    L1L2 { a: f64, r: f64 },
    Mcp { a: f64, g: f64 },
    L05 { a: f64 },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Model {
    pub df: Df,
    pub pen: Pen,
    pub multi: bool,
}

impl Model {
    pub fn alpha(&self) -> f64 {
        match self.pen {
            Pen::L1 { a } | Pen::L1L2 { a, .. } | Pen::Mcp { a, .. } | Pen::L05 { a } => a,
        }
    }
    pub fn name(&self) -> String {
        let s = match (self.df, self.pen, self.multi) {
            (Df::Quad, Pen::L1 { .. }, false) => "lasso",
            (Df::Quad, Pen::L1L2 { .. }, false) => "enet",
            (Df::Quad, Pen::Mcp { .. }, false) => "mcp",
            (Df::Quad, Pen::L05 { .. }, false) => "l05",
            (Df::Logit, Pen::L1 { .. }, _) => "logit-l1",
            (Df::Logit, Pen::L1L2 { .. }, _) => "logit-enet",
            (Df::Logit, Pen::Mcp { .. }, _) => "logit-mcp",
            (Df::Logit, Pen::L05 { .. }, _) => "logit-l05",
            (Df::Quad, Pen::L1 { .. }, true) => "mt-lasso",
            (Df::Quad, Pen::L1L2 { .. }, true) => "mt-enet",
            (Df::Quad, Pen::Mcp { .. }, true) => "block-mcp",
            (Df::Quad, Pen::L05 { .. }, true) => "block-l05",
        };
        s.to_string()
    }
}

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}

/// Compensated accumulator (Ogita-Rump-Oishi Sum2/Dot2).
#[derive(Clone, Copy, Default)]
pub struct Acc {
    s: f64,
    c: f64,
}
impl Acc {
    pub fn add(&mut self, v: f64) {
        let (s, e) = two_sum(self.s, v);
        self.s = s;
        self.c += e;
    }
    pub fn mul(&mut self, a: f64, b: f64) {
        let p = a * b;
        let e = a.mul_add(b, -p);
        self.add(p);
        self.c += e;
    }
    pub fn get(&self) -> f64 {
        self.s + self.c
    }
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    let mut s = Acc::default();
    for (x, y) in a.iter().zip(b) {
        s.mul(*x, *y);
    }
    s.get()
}
pub fn sum<I: IntoIterator<Item = f64>>(it: I) -> f64 {
    let mut s = Acc::default();
    for v in it {
        s.add(v);
    }
    s.get()
}
pub fn norm(v: &[f64]) -> f64 {
    // scaled against overflow and underflow
    let m = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    let u: Vec<f64> = v.iter().map(|x| x / m).collect();
    m * dot(&u, &u).sqrt()
}

/// X w, row-major n x t.
pub fn xw(pr: &Prob, w: &[f64]) -> Vec<f64> {
    let t = pr.t;
    let mut out = vec![0.0; pr.n * t];
    for i in 0..pr.n {
        for k in 0..t {
            let mut s = Acc::default();
            for j in 0..pr.p {
                s.mul(pr.x[i * pr.p + j], w[j * t + k]);
            }
            out[i * t + k] = s.get();
        }
    }
    out
}

/// log(1 + exp(z)) without overflow or cancellation.
pub fn log1pexp(z: f64) -> f64 {
    if z > 0.0 {
        z + (-z).exp().ln_1p()
    } else {
        z.exp().ln_1p()
    }
}
pub fn sigmoid(z: f64) -> f64 {
    if z >= 0.0 {
        1.0 / (1.0 + (-z).exp())
    } else {
        let e = z.exp();
        e / (1.0 + e)
    }
}

pub fn loss(df: Df, pr: &Prob, xw: &[f64]) -> f64 {
    let n = pr.n as f64;
    match df {
        Df::Quad => {
            let mut s = Acc::default();
            for i in 0..pr.n * pr.t {
                let r = pr.y[i] - xw[i];
                s.mul(r, r);
            }
            s.get() / (2.0 * n)
        }
        Df::Logit => sum((0..pr.n).map(|i| log1pexp(-pr.y[i] * xw[i]))) / n,
    }
}

/// Gradient of the loss, row-major p x t.
pub fn grad(df: Df, pr: &Prob, xw: &[f64]) -> Vec<f64> {
    let n = pr.n as f64;
    let t = pr.t;
    let mut g = vec![0.0; pr.p * t];
    match df {
        Df::Quad => {
            for j in 0..pr.p {
                for k in 0..t {
                    let mut s = Acc::default();
                    for i in 0..pr.n {
                        s.mul(pr.x[i * pr.p + j], xw[i * t + k]);
                        s.mul(-pr.x[i * pr.p + j], pr.y[i * t + k]);
                    }
                    g[j * t + k] = s.get() / n;
                }
            }
        }
        Df::Logit => {
            let d: Vec<f64> = (0..pr.n).map(|i| -pr.y[i] * sigmoid(-pr.y[i] * xw[i])).collect();
            for j in 0..pr.p {
                let mut s = Acc::default();
                for i in 0..pr.n {
                    s.mul(pr.x[i * pr.p + j], d[i]);
                }
                g[j] = s.get() / n;
            }
        }
    }
    g
}

/// Documented step constants: coordinate-wise curvature bounds.
pub fn lips(df: Df, pr: &Prob) -> Vec<f64> {
    let c = match df {
        Df::Quad => 1.0,
        Df::Logit => 0.25,
    };
    (0..pr.p)
        .map(|j| {
            let col = pr.col(j);
            c * dot(&col, &col) / pr.n as f64
        })
        .collect()
}

/// Magnitude of the numbers that enter gradient coordinate j: rounding errors of a
/// computed gradient are a small multiple of eps times this.
pub fn grad_scale(df: Df, pr: &Prob, w: &[f64]) -> Vec<f64> {
    let t = pr.t;
    let mut aw = vec![0.0; pr.n];
    for i in 0..pr.n {
        for j in 0..pr.p {
            let mx = (0..t).fold(0.0f64, |m, k| m.max(w[j * t + k].abs()));
            aw[i] += pr.x[i * pr.p + j].abs() * mx;
        }
    }
    (0..pr.p)
        .map(|j| {
            let mut s = 0.0;
            for i in 0..pr.n {
                let my = (0..t).fold(0.0f64, |m, k| m.max(pr.y[i * t + k].abs()));
                let f = match df {
                    Df::Quad => my + aw[i],
                    // sigmoid is 1/4-Lipschitz in the fit
                    Df::Logit => 1.0 + 0.25 * aw[i],
                };
                s += pr.x[i * pr.p + j].abs() * f;
            }
            s * (t as f64).sqrt() / pr.n as f64
        })
        .collect()
}

/// Penalty of one row (scalar for single-task problems).
pub fn pen_row(pen: Pen, row: &[f64]) -> f64 {
    let v = norm(row);
    pen_scalar(pen, v)
}
pub fn pen_scalar(pen: Pen, v: f64) -> f64 {
    let v = v.abs();
    match pen {
        Pen::L1 { a } => a * v,
        Pen::L1L2 { a, r } => a * (r * v + 0.5 * (1.0 - r) * v * v),
        Pen::Mcp { a, g } => {
            if g.is_infinite() {
                a * v
            } else if v <= g * a {
                a * v - v * v / (2.0 * g)
            } else {
                0.5 * g * a * a
            }
        }
        Pen::L05 { a } => a * v.sqrt(),
    }
}
pub fn pen_value(pen: Pen, w: &[f64], t: usize) -> f64 {
    sum(w.chunks(t).map(|r| pen_row(pen, r)))
}
pub fn objective(m: &Model, pr: &Prob, w: &[f64]) -> f64 {
    loss(m.df, pr, &xw(pr, w)) + pen_value(m.pen, w, pr.t)
}

/// Distance of -g to the subdifferential of the (block) penalty at w. Not for L0.5.
pub fn subdiff_dist(pen: Pen, w: &[f64], g: &[f64]) -> f64 {
    let nw = norm(w);
    let ng = norm(g);
    if nw == 0.0 {
        let thr = match pen {
            Pen::L1 { a } => a,
            Pen::L1L2 { a, r } => a * r,
            Pen::Mcp { a, .. } => a,
            Pen::L05 { .. } => return 0.0,
        };
        return (ng - thr).max(0.0);
    }
    // derivative of the penalty along w is c * w/|w|
    let c = match pen {
        Pen::L1 { a } => a,
        Pen::L1L2 { a, r } => a * (r + (1.0 - r) * nw),
        Pen::Mcp { a, g } => {
            if nw < a * g {
                a - nw / g
            } else {
                0.0
            }
        }
        Pen::L05 { a } => 0.5 * a / nw.sqrt(),
    };
    let v: Vec<f64> = w.iter().zip(g).map(|(wi, gi)| gi + c * (wi / nw)).collect();
    norm(&v)
}

/// Largest stationary point of (x - v)^2 / 2 + c sqrt(x), if there is one.
pub fn l05_root(v: f64, c: f64) -> Option<f64> {
    if v <= 0.0 {
        return None;
    }
    if c == 0.0 {
        return Some(v);
    }
    let f = |x: f64| x - v + c / (2.0 * x.sqrt());
    let (mut lo, mut hi) = (v / 3.0, v);
    if f(lo) >= 0.0 {
        return None;
    }
    for _ in 0..200 {
        let m = 0.5 * (lo + hi);
        if f(m) < 0.0 {
            lo = m
        } else {
            hi = m
        }
    }
    Some(0.5 * (lo + hi))
}

/// Proximal operator of `step * pen` at a non-negative radius, by closed forms that are
/// derived from first-order conditions and compared by value. Returns all minimisers up to
/// a relative tie tolerance.
pub fn prox_radius(pen: Pen, v: f64, step: f64) -> Vec<f64> {
    let mut cand = vec![0.0];
    match pen {
        Pen::L1 { a } => cand.push((v - step * a).max(0.0)),
        Pen::L1L2 { a, r } => cand.push((v - step * a * r).max(0.0) / (1.0 + step * a * (1.0 - r))),
        Pen::Mcp { a, g } => {
            if g.is_infinite() {
                cand.push((v - step * a).max(0.0));
            } else {
                if v >= g * a {
                    cand.push(v);
                }
                cand.push(g * a);
                if step < g {
                    let z = (v - step * a) / (1.0 - step / g);
                    if z > 0.0 && z < g * a {
                        cand.push(z);
                    }
                }
            }
        }
        Pen::L05 { a } => cand.extend(l05_root(v, step * a)),
    }
    let val = |x: f64| 0.5 * (x - v) * (x - v) + step * pen_scalar(pen, x);
    let best = cand.iter().map(|x| val(*x)).fold(f64::INFINITY, f64::min);
    let tol = 1e-12 * (0.5 * v * v).max(best.abs());
    cand.retain(|x| val(*x) <= best + tol);
    cand
}

/// Optimality violation of row j: subdifferential distance, except fixed-point violation
/// for L0.5.
pub fn violation(pen: Pen, w: &[f64], g: &[f64], lip: f64) -> f64 {
    match pen {
        Pen::L05 { .. } => {
            if lip == 0.0 {
                return 0.0;
            }
            let z: Vec<f64> = w.iter().zip(g).map(|(a, b)| a - b / lip).collect();
            let nz = norm(&z);
            prox_radius(pen, nz, 1.0 / lip)
                .into_iter()
                .map(|rad| {
                    let d: Vec<f64> =
                        w.iter().zip(&z).map(|(a, b)| a - if nz > 0.0 { b * rad / nz } else { 0.0 }).collect();
                    norm(&d)
                })
                .fold(f64::INFINITY, f64::min)
        }
        _ => subdiff_dist(pen, w, g),
    }
}

/// (largest violation in excess of its own rounding slack, largest violation, feature).
pub struct Kkt {
    pub max: f64,
    pub excess: f64,
    pub feature: usize,
    pub slack: f64,
}
/// `c_eps`: rounding unit times a constant, multiplied by the gradient scale.
pub fn kkt(m: &Model, pr: &Prob, w: &[f64], c_eps: f64) -> Kkt {
    let f = xw(pr, w);
    let g = grad(m.df, pr, &f);
    let l = lips(m.df, pr);
    let sc = grad_scale(m.df, pr, w);
    let t = pr.t;
    let mut k = Kkt { max: 0.0, excess: f64::NEG_INFINITY, feature: 0, slack: 0.0 };
    for j in 0..pr.p {
        let v = violation(m.pen, &w[j * t..(j + 1) * t], &g[j * t..(j + 1) * t], l[j]);
        let mut slack = c_eps * (sc[j] + m.alpha());
        if let Pen::L05 { .. } = m.pen {
            slack = if l[j] > 0.0 { slack / l[j] } else { 0.0 } + c_eps * norm(&w[j * t..(j + 1) * t]);
        }
        k.max = k.max.max(v);
        if v.is_nan() || v - slack > k.excess {
            k.excess = v - slack;
            k.feature = j;
            k.slack = slack;
            if v.is_nan() {
                k.max = f64::NAN;
                k.excess = f64::NAN;
                return k;
            }
        }
    }
    k
}

/// The smallest alpha for which zero is a solution (for the L1 part).
pub fn alpha_max(df: Df, pr: &Prob) -> f64 {
    let g = grad(df, pr, &vec![0.0; pr.n * pr.t]);
    g.chunks(pr.t).map(norm).fold(0.0, f64::max)
}

/// Cholesky solve of a small SPD system (None if not numerically SPD).
pub fn chol_solve(a: &[f64], b: &[f64], n: usize, nrhs: usize) -> Option<Vec<f64>> {
    let mut l = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..=i {
            let mut s = Acc::default();
            s.add(a[i * n + j]);
            for k in 0..j {
                s.mul(-l[i * n + k], l[j * n + k]);
            }
            let s = s.get();
            if i == j {
                if !(s > 1e-13 * a[i * n + i]) {
                    return None;
                }
                l[i * n + i] = s.sqrt();
            } else {
                l[i * n + j] = s / l[j * n + j];
            }
        }
    }
    let mut x = b.to_vec();
    for r in 0..nrhs {
        for i in 0..n {
            let mut s = x[i * nrhs + r];
            for k in 0..i {
                s -= l[i * n + k] * x[k * nrhs + r];
            }
            x[i * nrhs + r] = s / l[i * n + i];
        }
        for i in (0..n).rev() {
            let mut s = x[i * nrhs + r];
            for k in i + 1..n {
                s -= l[k * n + i] * x[k * nrhs + r];
            }
            x[i * nrhs + r] = s / l[i * n + i];
        }
    }
    Some(x)
}

/// Gram matrix X'X/n and its smallest eigenvalue (inverse power iteration); None if singular.
pub fn gram(pr: &Prob) -> Vec<f64> {
    let p = pr.p;
    let cols: Vec<Vec<f64>> = (0..p).map(|j| pr.col(j)).collect();
    let mut g = vec![0.0; p * p];
    for i in 0..p {
        for j in 0..=i {
            let v = dot(&cols[i], &cols[j]) / pr.n as f64;
            g[i * p + j] = v;
            g[j * p + i] = v;
        }
    }
    g
}
pub fn lambda_min(pr: &Prob) -> Option<f64> {
    let p = pr.p;
    if p > pr.n {
        return None;
    }
    let g = gram(pr);
    let mut v: Vec<f64> = (0..p).map(|i| 1.0 + 0.37 * ((i * 7919) % 13) as f64).collect();
    let mut lam = 0.0;
    for _ in 0..60 {
        let nv = norm(&v);
        v.iter_mut().for_each(|x| *x /= nv);
        let s = chol_solve(&g, &v, p, 1)?;
        lam = 1.0 / norm(&s);
        v = s;
    }
    Some(lam)
}
