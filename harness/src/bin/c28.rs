//! C28: models reduce to each other in their limiting cases.
use vh::fit::*;
use vh::gen::{self, Prob};
use vh::optim::*;
use vh::refm::{self, Df, Model, Pen};
use vh::rep::{viol, Case, Report, Viol};
use vh::rng::Rng;

fn knobs(r: &mut Rng, p: usize, scale: f64) -> Knobs {
    Knobs { tol: scale.max(1e-9) * *r.pick(&[1e-6, 1e-8, 1e-9]), iters: 100, ..well_knobs(r, p) }
}
/// Fit; must stop by itself (the data are well conditioned).
fn conv(r: &mut Rng, pr: &Prob, m: &Model, k: &Knobs) -> Result<(Vec<f64>, String), Viol> {
    let (st, rt) = (any_storage(r), any_route(r));
    match fit_stopped::<f64>(pr, m, k, st, rt) {
        Ok((w, true)) if finite(&w) => Ok((w, describe(pr, m, k, st, rt))),
        Ok((w, stopped)) => viol(format!("{}:not-converged", m.name()), format!("stopped={stopped} {w:?}; {}", full(pr, m, k, st, rt))),
        Err(e) => viol(format!("{}:fit-failed", m.name()), format!("{} in {}", e.0, full(pr, m, k, st, rt))),
    }
}
fn scale(m: &Model, pr: &Prob, w: &[f64]) -> f64 {
    refm::grad_scale(m.df, pr, w).into_iter().fold(0.0, f64::max) + m.alpha()
}
fn check(c: &Case, what: &str, got: &[f64], want: &[f64], bound: f64, tell: impl Fn() -> String) -> Result<(), Viol> {
    let d = dist(got, want);
    if got.len() != want.len() || !(d <= bound) {
        return viol(what.to_string(), format!("distance {d:e} above the bound {bound:e}: {got:?} against {want:?}; {}", tell()));
    }
    c.count(what, 1);
    c.sample(|| format!("{what}: distance {d:e}, bound {bound:e}, {:?}", &got[..got.len().min(4)]));
    if bound < 0.02 * refm::norm(want) {
        c.count(&format!("{what}, informative (bound below 2% of the solution)"), 1);
        c.nontrivial((what.to_string(), bits(got)));
    }
    Ok(())
}

/// Two models with the same minimiser.
fn pair(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let kind = r.int(0, 5);
    let multi = kind != 3 && r.bool(0.4);
    let logit = !multi && kind < 2 && r.bool(0.4);
    let df = if logit { Df::Logit } else { Df::Quad };
    let mut pr = gen::well(r, 12, if multi { 4 } else { 1 });
    if logit {
        gen::labels(r, &mut pr);
        for (i, v) in pr.y.iter_mut().enumerate() {
            if i % 7 == 0 {
                *v = -*v;
            }
        }
    }
    let amax = refm::alpha_max(df, &pr).max(1e-6);
    let a = amax * r.logu(if logit { 0.02 } else { 0.003 }, 0.9);
    let (k1, k2) = (knobs(r, pr.p, amax), knobs(r, pr.p, amax));
    let lasso = Model { df, pen: Pen::L1 { a }, multi };
    let (what, p1, m1, p2, m2, map): (_, Prob, Model, Prob, Model, Box<dyn Fn(Vec<f64>) -> Vec<f64>>) = match kind {
        0 => ("elastic net with ratio 1 = lasso", pr.clone(), Model { pen: Pen::L1L2 { a, r: 1.0 }, ..lasso }, pr.clone(), lasso, Box::new(|w| w)),
        1 => {
            let g = *r.pick(&[1e9, 1e12, 1e30, f64::INFINITY]) * (1.0 + 1.0 / a);
            ("MCP with a huge gamma = lasso", pr.clone(), Model { pen: Pen::Mcp { a, g }, ..lasso }, pr.clone(), lasso, Box::new(|w| w))
        }
        2 | 3 => {
            // one task, any of the three penalties
            let pr = pr.single();
            let lam = refm::lambda_min(&pr).unwrap_or(1e-3);
            let pen = match r.int(0, 2) {
                0 => Pen::L1 { a },
                1 => Pen::L1L2 { a, r: gen::ratio(r) },
                _ => Pen::Mcp { a, g: (r.range(1.3, 6.0) / lam).max(1.0) },
            };
            let (one, mt) = (Model { df, pen, multi: false }, Model { df, pen, multi: true });
            if kind == 2 {
                ("one-task multi-task model = single-task model", pr.clone(), mt, pr, one, Box::new(|w| w))
            } else {
                // a further task without signal changes nothing
                let mut q = pr.clone();
                let (t, at) = (3usize, r.int(0, 2));
                q.t = t;
                q.y = pr.y.iter().flat_map(|v| (0..t).map(move |k| if k == at { *v } else { 0.0 })).collect();
                ("multi-task model with a single active task = single-task model", q, mt, pr, one, Box::new(move |w| {
                    if w.chunks(t).any(|row| row.iter().enumerate().any(|(k, v)| k != at && *v != 0.0)) {
                        return vec![];
                    }
                    w.chunks(t).map(|row| row[at]).collect()
                }))
            }
        }
        4 => {
            // equal tasks: a lasso whose strength is divided by sqrt(t)
            let one = pr.single();
            let t = r.int(2, 4);
            let mut q = one.clone();
            q.t = t;
            q.y = one.y.iter().flat_map(|v| vec![*v; t]).collect();
            let m2 = Model { pen: Pen::L1 { a: a / (t as f64).sqrt() }, multi: false, ..lasso };
            ("multi-task lasso on equal tasks = lasso", q, Model { multi: true, ..lasso }, one, m2, Box::new(move |w| w.chunks(t).map(|row| row[0]).collect()))
        }
        _ => {
            // an elastic net is a lasso on augmented data
            let ratio = gen::ratio(r).max(0.02);
            let (n, p, t) = (pr.n, pr.p, pr.t);
            let n2 = n + p;
            let f = (n2 as f64 / n as f64).sqrt();
            let e = f * (n as f64 * a * (1.0 - ratio)).sqrt();
            let mut q = Prob { n: n2, p, t, x: pr.x.iter().map(|v| v * f).collect(), y: pr.y.iter().map(|v| v * f).collect(), fam: "augmented" };
            for j in 0..p {
                q.x.extend((0..p).map(|k| if k == j { e } else { 0.0 }));
                q.y.extend(vec![0.0; t]);
            }
            let m2 = Model { pen: Pen::L1 { a: a * ratio }, ..lasso };
            ("elastic net = lasso on augmented data", pr.clone(), Model { pen: Pen::L1L2 { a, r: ratio }, ..lasso }, q, m2, Box::new(|w| w))
        }
    };
    let (w1, s1) = conv(r, &p1, &m1, &k1)?;
    let (w2, s2) = conv(r, &p2, &m2, &k2)?;
    let w1 = map(w1);
    let tell = || format!("first: {s1}; second: {s2}\n{}", p1.dump());
    if w1.len() != w2.len() {
        return viol(what.to_string(), format!("coefficients of inactive tasks are not zero: {w1:?}; {}", tell()));
    }
    // the strong convexity modulus of the second problem, perturbed by the gamma term
    let Some(mu) = modulus(&p2, &m2, &w1, &w2) else {
        c.count("not strongly convex", 1);
        return Ok(());
    };
    let extra = match m1.pen {
        Pen::Mcp { g, .. } if kind == 1 => refm::norm(&w1) / g,
        _ => 0.0,
    };
    let sc = scale(&m2, &p2, &w2) + scale(&m2, &p2, &w1);
    let bound = ((k1.tol + k2.tol + C_EPS64 * sc * 4.0) * (pr.p as f64 * p2.t as f64).sqrt() + extra) / mu * 1.001;
    check(c, what, &w1, &w2, bound, tell)
}

/// Ridge and least squares in closed form.
fn linear(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let pr = gen::well(r, 12, if multi { 4 } else { 1 });
    let amax = refm::alpha_max(Df::Quad, &pr).max(1e-6);
    let ridge = r.bool(0.5);
    let (what, a, pen) = if ridge {
        let a = *r.pick(&[1.0, amax]) * r.logu(1e-3, 10.0);
        ("elastic net with ratio 0 = ridge", a, Pen::L1L2 { a, r: 0.0 })
    } else {
        let pen = match r.int(0, if multi { 2 } else { 3 }) {
            0 => Pen::L1 { a: 0.0 },
            1 => Pen::L1L2 { a: 0.0, r: *r.pick(&[0.0, 0.5, 1.0]) },
            2 => Pen::Mcp { a: 0.0, g: *r.pick(&[1.0, 3.0, 100.0]) },
            _ => Pen::L05 { a: 0.0 },
        };
        ("zero regularisation = least squares", 0.0, pen)
    };
    let m = Model { df: Df::Quad, pen, multi };
    let k = knobs(r, pr.p, amax);
    let (w, s) = conv(r, &pr, &m, &k)?;
    let (p, t) = (pr.p, pr.t);
    let mut g = refm::gram(&pr);
    let mut b = vec![0.0; p * t];
    for j in 0..p {
        g[j * p + j] += a;
        for q in 0..t {
            b[j * t + q] = refm::dot(&pr.col(j), &pr.task(q)) / pr.n as f64;
        }
    }
    let Some(want) = refm::chol_solve(&g, &b, p, t) else { return Ok(()) };
    let Some(lam) = refm::lambda_min(&pr) else { return Ok(()) };
    // for L0.5 the tolerance bounds the coordinate step, not the gradient
    let lmax = if matches!(pen, Pen::L05 { .. }) { refm::lips(Df::Quad, &pr).into_iter().fold(1.0, f64::max) } else { 1.0 };
    let bound = (k.tol * lmax + 4.0 * C_EPS64 * scale(&m, &pr, &want)) * (p as f64).sqrt() / (0.999 * lam + a) * 1.001;
    check(c, what, &w, &want, bound, || format!("{s}\n{}", pr.dump()))
}

/// Columns orthogonal to each other, squared norm / n given.
fn orthogonal(r: &mut Rng, p: usize, t: usize) -> Prob {
    let n = p + r.int(0, 12);
    let mut pr = gen::fixed(r, "gauss", n, p, t);
    let exact = r.bool(0.3);
    for j in 0..p {
        if exact {
            for i in 0..n {
                pr.x[i * p + j] = if i == j { 1.0 } else { 0.0 };
            }
            continue;
        }
        // Gram-Schmidt, twice
        for _ in 0..2 {
            for q in 0..j {
                let (cq, cj) = (pr.col(q), pr.col(j));
                let f = refm::dot(&cq, &cj) / refm::dot(&cq, &cq);
                for i in 0..n {
                    pr.x[i * p + j] -= f * cq[i];
                }
            }
        }
    }
    let same = r.bool(0.5);
    for j in 0..p {
        let l = if same { 1.0 } else { r.range(0.5, 2.0) };
        let nn = refm::norm(&pr.col(j)) / (n as f64 * l).sqrt();
        for i in 0..n {
            pr.x[i * p + j] /= nn;
        }
    }
    pr.fam = "orthogonal";
    // targets on the span plus noise
    for v in pr.y.iter_mut() {
        *v += 0.1 * r.gauss();
    }
    pr
}
fn ortho(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let p = r.int(1, 15);
    let t = if multi { r.int(1, 4) } else { 1 };
    let pr = orthogonal(r, p, t);
    let amax = refm::alpha_max(Df::Quad, &pr).max(1e-6);
    let a = amax * r.logu(0.01, 1.1);
    let pen = match r.int(0, if multi { 2 } else { 3 }) {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: gen::ratio(r) },
        // convex regime: gamma above every step
        2 => Pen::Mcp { a, g: *r.pick(&[2.5, 3.0, 10.0]) },
        _ => Pen::L05 { a },
    };
    let m = Model { df: Df::Quad, pen, multi };
    let k = knobs(r, p, amax);
    let lips = refm::lips(Df::Quad, &pr);
    let mut want = vec![0.0; p * t];
    for j in 0..p {
        let z: Vec<f64> = (0..t).map(|q| refm::dot(&pr.col(j), &pr.task(q)) / pr.n as f64 / lips[j]).collect();
        let nz = refm::norm(&z);
        let step = 1.0 / lips[j];
        if let Pen::L05 { a } = pen {
            // too close to the jump: both sides are right
            let thr = 1.5 * (a * step).powf(2.0 / 3.0);
            if (nz - thr).abs() < 1e-5 * thr {
                return Ok(());
            }
        }
        let rad = refm::prox_radius(pen, nz, step)[0];
        for q in 0..t {
            want[j * t + q] = if nz > 0.0 { z[q] / nz * rad } else { 0.0 };
        }
    }
    let (w, s) = conv(r, &pr, &m, &k)?;
    let amp = match pen {
        // curvature L - 1/gamma, at least a fifth of L
        Pen::Mcp { .. } => 5.0,
        Pen::L05 { .. } => 8.0,
        _ => 1.0,
    };
    let bound = (k.tol * 4.0 + 4.0 * C_EPS64 * scale(&m, &pr, &want)) * (p as f64).sqrt() * 2.0 * amp;
    check(c, "orthogonal design = closed-form thresholding", &w, &want, bound, || format!("{s}\n{}", pr.dump()))
}

fn main() {
    let rep = Report::new("C28", "distinct solutions compared with the limiting model at a bound below 2% of the solution");
    rep.cases(1, rep.n(5000, 400_000), pair);
    rep.cases(2, rep.n(2000, 200_000), linear);
    rep.cases(3, rep.n(2500, 250_000), ortho);
    let info = ", informative (bound below 2% of the solution)";
    let need: Vec<(String, u64)> = [
        ("elastic net with ratio 1 = lasso", 250),
        ("MCP with a huge gamma = lasso", 250),
        ("one-task multi-task model = single-task model", 250),
        ("multi-task model with a single active task = single-task model", 250),
        ("multi-task lasso on equal tasks = lasso", 250),
        ("elastic net = lasso on augmented data", 250),
        ("elastic net with ratio 0 = ridge", 400),
        ("zero regularisation = least squares", 400),
        ("orthogonal design = closed-form thresholding", 800),
    ]
    .iter()
    .map(|(a, b)| (format!("{a}{info}"), *b))
    .collect();
    let need: Vec<(&str, u64)> = need.iter().map(|(a, b)| (a.as_str(), *b)).collect();
    rep.finish(&need, &["error bounds from the strong convexity modulus (smallest Gram eigenvalue)"]);
}
