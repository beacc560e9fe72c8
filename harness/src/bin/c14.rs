//! C14: the public numerical helpers are correct.
use ndarray::{Array1, Array2};
use sparseglm::utils::helpers::{argsort_by, sigmoid, solve_lin_sys};
use std::cmp::Ordering;
use vh::fit::*;
use vh::refm::{self, Acc};
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

fn rounded<F: Fl>(v: f64) -> f64 {
    up::<F>(F::cast(v))
}
fn solve<F: Fl>(a: &[f64], b: &[f64], n: usize) -> Result<Result<Vec<f64>, String>, String> {
    guard(|| {
        let m = Array2::from_shape_vec((n, n), a.iter().map(|v| F::cast(*v)).collect::<Vec<F>>()).unwrap();
        let v = Array1::from(b.iter().map(|v| F::cast(*v)).collect::<Vec<F>>());
        match solve_lin_sys(m.view(), v.view()) {
            Ok(x) => Ok(x.iter().map(|v| up(*v)).collect()),
            Err(e) => Err(e.to_string()),
        }
    })
}

/// product of random Householder reflections and permutations
fn orthogonal(r: &mut Rng, n: usize) -> Vec<f64> {
    let mut q = vec![0.0; n * n];
    for i in 0..n {
        q[i * n + i] = 1.0;
    }
    for _ in 0..r.int(0, 4) {
        let v: Vec<f64> = (0..n).map(|_| r.gauss()).collect();
        let nn = refm::dot(&v, &v);
        if nn == 0.0 {
            continue;
        }
        for c in 0..n {
            let s: f64 = (0..n).map(|i| v[i] * q[i * n + c]).sum::<f64>() * 2.0 / nn;
            for i in 0..n {
                q[i * n + c] -= s * v[i];
            }
        }
    }
    let p = r.perm(n);
    let mut o = vec![0.0; n * n];
    for i in 0..n {
        o[i * n..(i + 1) * n].copy_from_slice(&q[p[i] * n..(p[i] + 1) * n]);
    }
    o
}

fn regular<F: Fl>(r: &mut Rng, c: &Case, u: f64) -> Result<(), Viol> {
    let n = if r.int(0, 399) == 0 { r.int(31, 130) } else { *r.pick(&[1, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 30]) };
    let fam = r.int(0, 6);
    let cond = if u > 1e-10 { 1e2 } else { *r.pick(&[1.0, 1e2, 1e4, 1e6]) };
    let mut a = vec![0.0; n * n];
    let mut cnd = cond;
    match fam {
        // U diag V: known condition number
        0 | 1 => {
            let (q, v) = (orthogonal(r, n), orthogonal(r, n));
            let s: Vec<f64> = (0..n).map(|i| if i == 0 { 1.0 } else if i == n - 1 { 1.0 / cond } else { r.logu(1.0 / cond, 1.0) }).collect();
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = (0..n).map(|k| q[i * n + k] * s[k] * v[k * n + j]).sum();
                }
            }
        }
        // permutation matrices with scaled entries
        2 => {
            let p = r.perm(n);
            for i in 0..n {
                a[i * n + p[i]] = r.sign() * r.range(0.5, 2.0);
            }
            cnd = 4.0;
        }
        // zero diagonal block: elimination needs a row exchange at some step
        3 => {
            let p = r.perm(n);
            for i in 0..n {
                for j in 0..n {
                    if r.bool(0.3) {
                        a[i * n + j] = r.int(0, 4) as f64 - 2.0;
                    }
                }
                a[i * n + p[i]] += r.sign() * 8.0 * n as f64;
            }
            cnd = 10.0;
        }
        // tiny but non-zero pivot in front
        4 => {
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = if i + j + 1 == n { r.sign() * r.range(1.0, 2.0) } else { r.range(-0.1, 0.1) / n as f64 };
                }
            }
            a[0] = if n > 1 { *r.pick(&[1e-20, 1e-12, 0.0]) } else { 1.0 };
            cnd = 20.0;
        }
        // symmetric positive definite (what the solver builds)
        5 => {
            let g: Vec<f64> = (0..n * (n + 3)).map(|_| r.gauss()).collect();
            let w = n + 3;
            for i in 0..n {
                for j in 0..n {
                    a[i * n + j] = refm::dot(&g[i * w..(i + 1) * w], &g[j * w..(j + 1) * w]) / w as f64 + if i == j { 0.3 } else { 0.0 };
                }
            }
            cnd = 100.0;
        }
        // triangular, rows shuffled
        _ => {
            let p = r.perm(n);
            let low = r.bool(0.5);
            for i in 0..n {
                for j in 0..n {
                    if i == j {
                        a[p[i] * n + j] = r.sign() * r.range(1.0, 2.0);
                    } else if (j < i) == low {
                        a[p[i] * n + j] = r.range(-1.0, 1.0) / n as f64;
                    }
                }
            }
            cnd = 30.0;
        }
    }
    let e = if u > 1e-10 { 85 } else { 900 };
    let scale = match r.int(0, 4) {
        0..=2 => *r.pick(&[1.0, 1.0, 1e-6, 1e6]),
        _ => 2f64.powi(r.int(0, 2 * e) as i32 - e as i32),
    };
    a.iter_mut().for_each(|v| *v = rounded::<F>(*v * scale));
    let b: Vec<f64> = match r.int(0, 2) {
        0 => vec![1.0; n],
        1 => (0..n).map(|_| rounded::<F>(r.gauss())).collect(),
        _ => (0..n).map(|i| if i == n / 2 { 1.0 } else { 0.0 }).collect(),
    };
    let what = || format!("n={n} family={fam} f{} A={a:?} b={b:?}", 8 * std::mem::size_of::<F>());
    let x = match solve::<F>(&a, &b, n) {
        Err(e) => return viol("lin-sys:panic", format!("PANIC: {e}; {}", what())),
        Ok(Err(e)) => return viol("lin-sys:error-on-regular", format!("error {e:?}; {}", what())),
        Ok(Ok(x)) => x,
    };
    if x.len() != n || x.iter().any(|v| !v.is_finite()) {
        return viol("lin-sys:not-finite", format!("{x:?}; {}", what()));
    }
    let an = a.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let xn = x.iter().map(|v| v.abs()).sum::<f64>();
    let bn = b.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    for i in 0..n {
        let mut s = Acc::default();
        for j in 0..n {
            s.mul(a[i * n + j], x[j]);
        }
        s.add(-b[i]);
        let res = s.get().abs();
        // a stable elimination has a residual of rounding size; Gauss-Jordan loses at most
        // a factor of the condition number
        let tol = u * 64.0 * (n * n) as f64 * (an * xn + bn) * cnd.max(1.0).sqrt();
        if !(res <= tol) {
            return viol("lin-sys:residual", format!("x={x:?} leaves residual {res:e} in row {i} (allowance {tol:e}); {}", what()));
        }
    }
    c.count("regular systems solved", 1);
    c.count(&format!("family {fam}"), 1);
    c.nontrivial((n, bits(&x)));
    c.sample(|| format!("{} -> {x:?}", what()));
    Ok(())
}

/// Singular in a way that survives floating-point elimination exactly.
fn singular<F: Fl>(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let n = if r.int(0, 49) == 0 { r.int(11, 60) } else { r.int(1, 10) };
    let mut a: Vec<f64> = (0..n * n).map(|_| rounded::<F>(if r.bool(0.3) { 0.0 } else { r.gauss() })).collect();
    let fam = r.int(0, 3);
    match fam {
        0 => {
            let i = r.int(0, n - 1);
            (0..n).for_each(|j| a[i * n + j] = 0.0);
        }
        1 => {
            let j = r.int(0, n - 1);
            (0..n).for_each(|i| a[i * n + j] = 0.0);
        }
        2 if n > 1 => {
            // a row is an exact power-of-two multiple of another
            let p = r.perm(n);
            let f = *r.pick(&[1.0, -1.0, 2.0, -0.5, 4.0]);
            for j in 0..n {
                a[p[1] * n + j] = f * a[p[0] * n + j];
            }
        }
        _ => a.iter_mut().for_each(|v| *v = 0.0),
    }
    let b: Vec<f64> = (0..n).map(|_| if r.bool(0.2) { 0.0 } else { rounded::<F>(r.gauss()) }).collect();
    let b = if r.bool(0.3) { vec![1.0; n] } else { b };
    let what = || format!("n={n} family={fam} f{} A={a:?} b={b:?}", 8 * std::mem::size_of::<F>());
    match solve::<F>(&a, &b, n) {
        Err(e) => viol("lin-sys:panic", format!("PANIC: {e}; {}", what())),
        Ok(Ok(x)) => viol("lin-sys:answer-on-singular", format!("returned {x:?}; {}", what())),
        Ok(Err(_)) => {
            c.count("singular systems rejected", 1);
            c.nontrivial((n, fam, bits(&a)));
            Ok(())
        }
    }
}

fn sorting(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let n = *r.pick(&[0, 1, 2, 3, 5, 10, 20, 21, 33, 50, 64, 100, 257, 1000, 3000]);
    let ties = r.int(0, 3);
    let v: Vec<f64> = (0..n)
        .map(|_| match ties {
            0 => r.gauss(),
            1 => r.int(0, 3) as f64,
            2 => 1.0,
            _ => *r.pick(&[f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e-300, f64::MAX, -3.0, 3.0]),
        })
        .collect();
    let which = r.int(0, 3);
    let cmp = |a: &f64, b: &f64| -> Ordering {
        match which {
            0 => a.partial_cmp(b).unwrap(),
            1 => b.partial_cmp(a).unwrap(),
            2 => a.abs().partial_cmp(&b.abs()).unwrap(),
            _ => (*a as i64 % 3).cmp(&(*b as i64 % 3)),
        }
    };
    let layout = r.int(0, 2);
    let got = guard(|| match layout {
        0 => argsort_by(&Array1::from(v.clone()), cmp),
        1 => {
            // strided view over poisoned gaps
            let mut big = Array1::from_elem(3 * n + 1, f64::NAN);
            for i in 0..n {
                big[3 * i] = v[i];
            }
            argsort_by(&big.slice(ndarray::s![..3 * n;3]), cmp)
        }
        _ => {
            let rev: Vec<f64> = v.iter().rev().copied().collect();
            let a = Array1::from(rev);
            argsort_by(&a.slice(ndarray::s![..;-1]), cmp)
        }
    });
    let what = || format!("order {which} layout {layout} of {v:?}");
    let idx = match got {
        Ok(i) => i,
        Err(e) => return viol("argsort:panic", format!("PANIC: {e}; {}", what())),
    };
    let mut seen = idx.clone();
    seen.sort();
    if seen != (0..n).collect::<Vec<_>>() {
        return viol("argsort:not-a-permutation", format!("{idx:?}; {}", what()));
    }
    if idx.windows(2).any(|w| cmp(&v[w[0]], &v[w[1]]) == Ordering::Greater) {
        return viol("argsort:not-sorted", format!("{idx:?}; {}", what()));
    }
    // integers and strings too
    if n > 0 && n < 60 {
        let s: Vec<String> = v.iter().map(|x| format!("{x}")).collect();
        let a = Array1::from(s.clone());
        let idx = guard(|| argsort_by(&a, |x, y| x.cmp(y)));
        match idx {
            Ok(i) if i.windows(2).all(|w| s[w[0]] <= s[w[1]]) && i.len() == n => {}
            i => return viol("argsort:strings", format!("{i:?}; {s:?}")),
        }
    }
    c.count("arrays sorted", 1);
    if n > 1 {
        c.nontrivial((bits(&v), which));
    }
    Ok(())
}

fn sig<F: Fl>(r: &mut Rng, c: &Case, u: f64) -> Result<(), Viol> {
    let mut v: Vec<f64> = (0..64)
        .map(|_| match r.int(0, 7) {
            0 => r.sign() * r.logu(1e-30, 1e-3),
            1 => r.sign() * r.logu(1e2, 1e30),
            2 => r.range(-745.2, 745.2),
            3 => *r.pick(&[0.0, -0.0, 709.78, -709.79, 88.72, -88.73, 36.7, -36.7, 17.3, -17.3, 1e308, -1e308, 745.13, -745.14]),
            _ => r.range(-40.0, 40.0),
        })
        .map(rounded::<F>)
        .filter(|x| x.is_finite())
        .collect();
    // neighbours in the float grid: monotone between them too
    for i in 0..v.len() {
        let x = v[i];
        v.push(rounded::<F>(x + 4.0 * u * x.abs() + if u > 1e-10 { 1e-38 } else { 1e-300 }));
    }
    v.retain(|x| x.is_finite());
    v.extend([f64::INFINITY, f64::NEG_INFINITY]);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut prev: Option<(f64, f64)> = None;
    for x in v {
        let s = match guard(|| up(sigmoid(c_::<F>(x)))) {
            Ok(s) => s,
            Err(e) => return viol("sigmoid:panic", format!("PANIC: {e} at {x:e}")),
        };
        let e = refm::sigmoid(x);
        if !(s >= 0.0 && s <= 1.0) {
            return viol("sigmoid:range", format!("sigmoid({x:e}) = {s:e}"));
        }
        // relative accuracy, absolute where the value leaves the normal range
        let floor = if u > 1e-10 { 1.2e-38 } else { 2.3e-308 };
        let tol = 16.0 * u * e * (1.0 + if x < 0.0 { 0.0 } else { 0.0 }) + floor * 1.01;
        if !((s - e).abs() <= tol) {
            return viol("sigmoid:accuracy", format!("sigmoid({x:e}) = {s:e}, expected {e:e}"));
        }
        if let Some((px, ps)) = prev {
            // exp is accurate to an ulp, not exactly monotone
            if s < ps * (1.0 - 4.0 * u) {
                return viol("sigmoid:monotone", format!("sigmoid({px:e}) = {ps:e} but sigmoid({x:e}) = {s:e}"));
            }
        }
        prev = Some((x, s));
        c.count("sigmoid evaluations", 1);
    }
    c.nontrivial(prev.map(|p| p.0.to_bits()));
    Ok(())
}
fn c_<F: Fl>(v: f64) -> F {
    F::cast(v)
}

fn main() {
    let rep = Report::new(
        "C14",
        "linear systems with known conditioning (rotated diagonals, permutations, vanishing pivots, shuffled triangular, SPD) and \
         exactly singular ones, sizes 1 to 30; argsort over ties, infinities, layouts and comparators; sigmoid over the float range. \
         Non-trivial: distinct systems / arrays / grids judged",
    );
    rep.cases(1, rep.n(60_000, 2_000_000), |r, c| regular::<f64>(r, c, 1.2e-16));
    rep.cases(2, rep.n(30_000, 1_000_000), |r, c| regular::<f32>(r, c, 6.0e-8));
    rep.cases(3, rep.n(30_000, 600_000), |r, c| if r.bool(0.7) { singular::<f64>(r, c) } else { singular::<f32>(r, c) });
    rep.cases(4, rep.n(30_000, 600_000), sorting);
    rep.cases(5, rep.n(6_000, 200_000), |r, c| if r.bool(0.6) { sig::<f64>(r, c, 1.2e-16) } else { sig::<f32>(r, c, 6.0e-8) });
    rep.finish(
        &[
            ("regular systems solved", 60_000),
            ("singular systems rejected", 20_000),
            ("arrays sorted", 20_000),
            ("sigmoid evaluations", 300_000),
            ("family 2", 5_000),
            ("family 3", 5_000),
            ("family 4", 5_000),
        ],
        &["singular systems are zero rows, zero columns, exact multiples of rows by powers of two, and zero matrices"],
    );
}
