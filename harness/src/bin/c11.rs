//! C11: value, gradient and step size of the datafits are coherent.
use vh::dfx::{quantities, Q};
use vh::fit::*;
use vh::gen::{self, Prob, Size};
use vh::refm::{self, Df};
use vh::rep::{viol, Case, Report, Viol};
use vh::rng::Rng;

fn problem(r: &mut Rng, multi: bool, df: Df) -> Prob {
    let mut pr = gen::any(r, Size { nmax: 40, pmax: 20, tmax: if multi { 5 } else { 1 } });
    if df == Df::Logit {
        gen::labels(r, &mut pr);
    }
    if r.bool(0.2) {
        let j = r.int(0, pr.p - 1);
        for i in 0..pr.n {
            pr.x[i * pr.p + j] = 0.0;
        }
    }
    pr
}

/// Allowances for rounding errors in each quantity at a fit.
struct Allow {
    value: f64,
    grad: Vec<f64>,
}
fn allow(df: Df, pr: &Prob, f: &[f64], u: f64) -> Allow {
    let n = pr.n as f64;
    let t = pr.t;
    let c = 4.0 * (n * t as f64 + 16.0) * u;
    let value = match df {
        // the residual is one rounding away from exact, however small it is
        Df::Quad => {
            16.0 * c * refm::loss(df, pr, f)
                + c * c * pr.y.iter().zip(f).map(|(a, b)| (a.abs() + b.abs()).powi(2)).sum::<f64>() / (2.0 * n)
        }
        Df::Logit => c * (refm::loss(df, pr, f) + 1.0),
    };
    let grad = (0..pr.p * t)
        .map(|q| {
            let (j, k) = (q / t, q % t);
            c * (0..pr.n)
                .map(|i| {
                    pr.xij(i, j).abs()
                        * match df {
                            Df::Quad => pr.yit(i, k).abs() + f[i * t + k].abs(),
                            Df::Logit => 1.0,
                        }
                })
                .sum::<f64>()
                / n
        })
        .collect();
    Allow { value, grad }
}

fn against(df: Df, pr: &Prob, f: &[f64], q: &Q, u: f64, what: &dyn Fn() -> String) -> Result<(), Viol> {
    let a = allow(df, pr, f, u);
    let v = refm::loss(df, pr, f);
    if !((q.value - v).abs() <= a.value) {
        return viol(format!("{df:?}:value"), format!("value {:e}, documented loss {v:e} (allowance {:e}); {}", q.value, a.value, what()));
    }
    let g = refm::grad(df, pr, f);
    for (name, got) in [("full gradient", &q.full), ("coordinate gradient", &q.coord)] {
        if got.len() != pr.p * pr.t {
            return viol(format!("{df:?}:gradient-shape"), format!("{name} has {} entries; {}", got.len(), what()));
        }
        for i in 0..g.len() {
            if !((got[i] - g[i]).abs() <= a.grad[i]) {
                return viol(
                    format!("{df:?}:gradient"),
                    format!("{name} of feature {} task {}: {:e}, derivative {:e} (allowance {:e}); {}", i / pr.t, i % pr.t, got[i], g[i], a.grad[i], what()),
                );
            }
        }
    }
    let l = refm::lips(df, pr);
    if q.lips.len() != pr.p {
        return viol(format!("{df:?}:step-shape"), what());
    }
    for j in 0..pr.p {
        let tol = 4.0 * (pr.n as f64 + 16.0) * u * l[j];
        if !((q.lips[j] - l[j]).abs() <= tol) {
            return viol(format!("{df:?}:step-constant"), format!("feature {j}: {:e}, documented constant {:e}; {}", q.lips[j], l[j], what()));
        }
    }
    if !q.xty.is_empty() {
        for j in 0..pr.p {
            for k in 0..pr.t {
                let e = refm::dot(&pr.col(j), &pr.task(k));
                let s: f64 = pr.col(j).iter().zip(pr.task(k)).map(|(a, b)| (a * b).abs()).sum();
                if !((q.xty[j * pr.t + k] - e).abs() <= 4.0 * (pr.n as f64 + 16.0) * u * s) {
                    return viol("xty", format!("XtY[{j},{k}] = {:e}, expected {e:e}; {}", q.xty[j * pr.t + k], what()));
                }
            }
        }
    }
    Ok(())
}

fn run<F: Fl>(r: &mut Rng, c: &Case, u: f64) -> Result<(), Viol> {
    let multi = r.bool(0.33);
    let df = if !multi && r.bool(0.5) { Df::Logit } else { Df::Quad };
    let mut pr = problem(r, multi, df);
    if u > 1e-10 {
        pr = pr.to_f32();
    }
    let st = *r.pick(ALL_STORAGE);
    let (n, p, t) = (pr.n, pr.p, pr.t);
    let sc = *r.pick(&[0.0, 1.0, 1.0, 10.0, 50.0, 1e3, 1e6]);
    // fits that (nearly) interpolate the targets leave a small residual of large numbers
    let near = df == Df::Quad && r.bool(0.25);
    let base: Vec<f64> = if near {
        let e = r.logu(1e-7, 1e-1);
        pr.y.iter().map(|y| y * (1.0 + e * r.gauss())).map(|v| if u > 1e-10 { v as f32 as f64 } else { v }).collect()
    } else {
        (0..n * t).map(|_| (sc * r.gauss()) as f32 as f64).collect()
    };
    // a second fit one coordinate step away
    let (j, k) = (r.int(0, p - 1), r.int(0, t - 1));
    let d = (r.sign() * r.logu(1e-2, 1e2)) as f32 as f64;
    let mut next = base.clone();
    for i in 0..n {
        next[i * t + k] += d * pr.xij(i, j);
    }
    if u > 1e-10 {
        next.iter_mut().for_each(|v| *v = *v as f32 as f64);
    }
    // every third case on a datafit that was initialised on another dataset before
    let other = r.bool(0.33).then(|| {
        let q = problem(r, multi, df);
        if u > 1e-10 {
            q.to_f32()
        } else {
            q
        }
    });
    let fits = [base, next];
    let what = || format!("{df:?} multi={multi} {st:?} f{} fits={fits:?}\n{}", if u > 1e-10 { 32 } else { 64 }, pr.dump());
    let q = match quantities::<F>(&pr, df, multi, st, &fits, other.as_ref()) {
        Ok(q) => q,
        Err(e) => return viol(format!("{df:?}:panic"), format!("PANIC: {e}; {}", what())),
    };
    for i in 0..2 {
        against(df, &pr, &fits[i], &q[i], u, &what)?;
    }
    if let Some(o) = &other {
        let fresh = quantities::<F>(&pr, df, multi, st, &fits, None).unwrap();
        let same = fresh.iter().zip(&q).all(|(a, b)| {
            bits(&a.lips) == bits(&b.lips) && bits(&a.full) == bits(&b.full) && bits(&a.coord) == bits(&b.coord) && a.value.to_bits() == b.value.to_bits() && bits(&a.xty) == bits(&b.xty)
        });
        if !same {
            return viol(
                format!("{df:?}:stale-state"),
                format!("a datafit first initialised on {} differs from a fresh one: {q:?} vs {fresh:?}; {}", o.short(), what()),
            );
        }
        c.count("re-initialised datafits", 1);
    }
    // the same relations seen through the code's own numbers
    let (a0, a1) = (allow(df, &pr, &fits[0], u), allow(df, &pr, &fits[1], u));
    let (g0, g1, l) = (q[0].coord[j * t + k], q[1].coord[j * t + k], q[0].lips[j]);
    let ge = a0.grad[j * t + k] + a1.grad[j * t + k];
    // the second fit was rounded: allow for it in the curvature
    let fm = fits[1].iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let round = u * fm * (0..n).map(|i| pr.xij(i, j).abs()).sum::<f64>() / n as f64 * 2.0;
    if (g1 - g0).abs() > l * d.abs() * (1.0 + 64.0 * u) + ge + round {
        return viol(
            format!("{df:?}:curvature"),
            format!("gradient of feature {j} moves by {:e} over a step {d:e}, bound {:e}; {}", g1 - g0, l * d.abs(), what()),
        );
    }
    let (lo, hi) = if d * g0 < d * g1 { (d * g0, d * g1) } else { (d * g1, d * g0) };
    let dv = q[1].value - q[0].value;
    let slack = a0.value + a1.value + d.abs() * (ge + 4.0 * round) + 8.0 * u * fm * (fm + 1.0) * u.sqrt();
    let slack = slack + if df == Df::Quad { 2.0 * u * fm * (fm + fits[0].iter().chain(&pr.y).fold(0.0f64, |m, v| m.max(v.abs()))) } else { 2.0 * u * fm };
    if !(dv >= lo - slack && dv <= hi + slack) {
        return viol(
            format!("{df:?}:value-vs-gradient"),
            format!("value changes by {dv:e} along feature {j}, derivative times step between {lo:e} and {hi:e}; {}", what()),
        );
    }
    c.count(&format!("{df:?}{} {}", if multi { " multi-task" } else { "" }, if st.sparse() { "csc" } else { "dense" }), 1);
    c.count(if u > 1e-10 { "f32" } else { "f64" }, 1);
    if near {
        c.count("small residuals", 1);
        if q[0].value < 0.0 {
            return viol(format!("{df:?}:negative"), format!("value {:e}; {}", q[0].value, what()));
        }
    } else if sc >= 1e3 {
        c.count("large margins", 1);
    }
    if (g1 - g0).abs() > 100.0 * ge {
        c.count("informative curvature observations", 1);
        c.nontrivial((bits(&q[0].full), st as u8));
    }
    c.sample(|| format!("{} {df:?} {st:?}: value {:e}, step constant {l:e}, dv {dv:e} in [{lo:e},{hi:e}]", pr.short(), q[0].value));
    Ok(())
}

/// Small integers and a power-of-two number of samples: every operation is exact, so is the
/// second-order expansion of the quadratic loss.
fn exact<F: Fl>(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.5);
    let n = 1usize << r.int(0, 5);
    let (p, t) = (r.int(1, 8), if multi { r.int(1, 4) } else { 1 });
    let mut iv = |k: usize| -> Vec<f64> { (0..k).map(|_| r.int(0, 8) as f64 - 4.0).collect() };
    let pr = Prob { n, p, t, x: iv(n * p), y: iv(n * t), fam: "exact" };
    let base = iv(n * t);
    let st = *r.pick(ALL_STORAGE);
    let (j, k) = (r.int(0, p - 1), r.int(0, t - 1));
    let d = r.int(1, 4) as f64 * r.sign();
    let mut next = base.clone();
    for i in 0..n {
        next[i * t + k] += d * pr.xij(i, j);
    }
    let fits = [base, next];
    let what = || format!("multi={multi} {st:?} feature {j} task {k} step {d} fits={fits:?}\n{}", pr.dump());
    let q = match quantities::<F>(&pr, Df::Quad, multi, st, &fits, None) {
        Ok(q) => q,
        Err(e) => return viol("Quad:panic", format!("PANIC: {e}; {}", what())),
    };
    let e = d * q[0].coord[j * t + k] + 0.5 * d * d * q[0].lips[j];
    if q[1].value - q[0].value != e || q[0].full != q[0].coord {
        return viol("Quad:expansion", format!("{:e} - {:e} differs from the exact expansion {e:e}; {}", q[1].value, q[0].value, what()));
    }
    if q[0].value != refm::loss(Df::Quad, &pr, &fits[0]) || q[0].coord != refm::grad(Df::Quad, &pr, &fits[0]) || q[0].lips != refm::lips(Df::Quad, &pr) {
        return viol("Quad:exact-arithmetic", format!("{:?} on exactly representable data; {}", q[0], what()));
    }
    c.count("exact expansions", 1);
    if e != 0.0 {
        c.nontrivial((e.to_bits(), bits(&q[0].full)));
    }
    Ok(())
}

fn main() {
    let rep = Report::new(
        "C11",
        "datafits evaluated at pairs of fits one coordinate step apart on random dense and CSC datasets (margins up to 1e6, and residuals down to 1e-7 of the targets), \
         fresh and re-initialised; value, gradients, step constants against the documented formulas, and convexity / curvature \
         relations between the code's own numbers; exact expansion on integer data. Non-trivial: the gradient moved by more \
         than 100 times its rounding allowance",
    );
    rep.cases(1, rep.n(60_000, 1_200_000), |r, c| run::<f64>(r, c, 1.2e-16));
    rep.cases(2, rep.n(30_000, 600_000), |r, c| run::<f32>(r, c, 6.0e-8));
    rep.cases(3, rep.n(15_000, 300_000), |r, c| if r.bool(0.5) { exact::<f64>(r, c) } else { exact::<f32>(r, c) });
    // more than 65536 samples or features
    rep.cases(4, rep.n(24, 800), |r, c| gen::with_giants(|| run::<f64>(r, c, 1.2e-16)).map(|_| c.count("giant problems", 1)));
    rep.finish(
        &[
            ("informative curvature observations", 10_000),
            ("exact expansions", 10_000),
            ("re-initialised datafits", 10_000),
            ("large margins", 5_000),
            ("giant problems", 20),
            ("small residuals", 5_000),
            ("Logit csc", 2_000),
            ("Logit dense", 2_000),
            ("Quad multi-task csc", 2_000),
        ],
        &["no underflow: data magnitudes between 1e-3 and 1e7"],
    );
}
