//! C10: penalty values.
use ndarray::{Array1, Array2};
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use vh::fit::*;
use vh::gen;
use vh::refm::{self, Pen};
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

fn value<F: Fl>(pen: Pen, w: &[f64], t: usize, block: bool, fortran: bool) -> f64 {
    let f = |x: f64| F::cast(x);
    let v: Vec<F> = w.iter().map(|x| f(*x)).collect();
    up(if block {
        let a = Array2::from_shape_vec((w.len() / t, t), v).unwrap();
        let a = if fortran { a.t().to_owned().reversed_axes() } else { a };
        match pen {
            Pen::L1 { a: q } => L21::new(f(q)).value(a.view()),
            Pen::L1L2 { a: q, r } => BlockL1PlusL2::new(f(q), f(r)).value(a.view()),
            Pen::Mcp { a: q, g } => BlockMCP::new(f(q), f(g)).value(a.view()),
            _ => unreachable!(),
        }
    } else {
        let a = Array1::from(v);
        match pen {
            Pen::L1 { a: q } => Penalty::value(&L1::new(f(q)), a.view()),
            Pen::L1L2 { a: q, r } => Penalty::value(&L1PlusL2::new(f(q), f(r)), a.view()),
            Pen::Mcp { a: q, g } => Penalty::value(&MCP::new(f(q), f(g)), a.view()),
            Pen::L05 { a: q } => Penalty::value(&L05::new(f(q)), a.view()),
        }
    })
}

fn one<F: Fl>(r: &mut Rng, c: &Case, u: f64) -> Result<(), Viol> {
    let rnd = |x: f64| if u > 1e-10 { x as f32 as f64 } else { x };
    let block = r.bool(0.5);
    let p = if r.bool(0.1) { r.int(20, 60) } else { r.int(1, 10) };
    let t = if block { r.int(1, 5) } else { 1 };
    let a = rnd(*r.pick(&[0.0, 1.0, 0.5, 2.0, 0.3]) * if r.bool(0.5) { 1.0 } else { r.logu(1e-3, 1e3) });
    let pen = match r.int(0, if block { 2 } else { 3 }) {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: rnd(gen::ratio(r)) },
        2 => Pen::Mcp { a, g: rnd(gen::gamma(r).min(1e5)) },
        _ => Pen::L05 { a },
    };
    let mut w = vec![0.0; p * t];
    let big = r.bool(0.1);
    let unit = if r.bool(0.15) { r.logu(1e-14, 1e-2) } else { 1.0 };
    for j in 0..p {
        if r.bool(0.3) {
            continue;
        }
        let rad = match (pen, r.int(0, 4)) {
            (Pen::Mcp { a, g }, 0) => a * g,
            (Pen::Mcp { a, g }, 1) => a * g * (1.0 + r.range(-1e-6, 1e-6)),
            (Pen::Mcp { a, g }, 2) => a * g * r.range(0.0, 3.0),
            _ => {
                if unit < 1.0 {
                    unit * r.logu(0.1, 10.0)
                } else if big {
                    r.logu(1e-8, 1e8)
                } else {
                    r.logu(1e-3, 1e2)
                }
            }
        };
        if t == 1 || r.bool(0.3) {
            w[j * t + r.int(0, t - 1)] = rnd(rad * r.sign());
        } else {
            let d: Vec<f64> = (0..t).map(|_| r.gauss()).collect();
            let n = refm::norm(&d);
            for k in 0..t {
                w[j * t + k] = rnd(d[k] / n * rad);
            }
        }
    }
    let name = format!("{}{}", if block { "block " } else { "" }, match pen {
        Pen::L1 { .. } => "L1",
        Pen::L1L2 { .. } => "L1+L2",
        Pen::Mcp { .. } => "MCP",
        Pen::L05 { .. } => "L0.5",
    });
    let fo = r.bool(0.5);
    let call = |w: &[f64]| match guard(|| value::<F>(pen, w, t, block, fo)) {
        Ok(v) => Ok(v),
        Err(e) => viol(format!("{name}:panic"), format!("PANIC {e}: {pen:?} w={w:?} t={t}")),
    };
    let v = call(&w)?;
    let e = refm::pen_value(pen, &w, t);
    // terms of magnitude a |w| cancel in MCP
    let mag: f64 = match pen {
        Pen::Mcp { a, g } => w.chunks(t).map(|q| refm::norm(q)).map(|x| if x < 1.01 * a * g { a * x } else { g * a * a }).sum(),
        _ => e,
    };
    let tol = 8.0 * u * (p * t) as f64 * mag + 1e-300;
    let what = |v: f64| format!("{name} {pen:?} w={w:?} tasks={t} -> {v:e}, definition {e:e}");
    if !((v - e).abs() <= tol) {
        return viol(format!("{name}:value"), what(v));
    }
    if !(v >= -tol) {
        return viol(format!("{name}:negative"), what(v));
    }
    let z = call(&vec![0.0; p * t])?;
    if z != 0.0 {
        return viol(format!("{name}:not-zero-at-zero"), format!("{z:e} {}", what(v)));
    }
    // metamorphic: signs, feature permutations, rotations of the tasks
    let s: Vec<f64> = w.iter().map(|x| x * r.sign()).collect();
    let perm = r.perm(p);
    let q: Vec<f64> = perm.iter().flat_map(|j| w[j * t..(j + 1) * t].to_vec()).collect();
    for (n2, w2) in [("signs", s), ("permutation", q)] {
        let v2 = call(&w2)?;
        if !((v2 - v).abs() <= 2.0 * tol) {
            return viol(format!("{name}:{n2}"), format!("{v2:e} after changing the {n2}: {w2:?}; {}", what(v)));
        }
    }
    if t > 1 {
        let (k1, k2) = (0, r.int(1, t - 1));
        let (sn, cs) = r.range(0.0, 6.28).sin_cos();
        let mut w2 = w.clone();
        for j in 0..p {
            let (x, y) = (w[j * t + k1], w[j * t + k2]);
            w2[j * t + k1] = rnd(cs * x - sn * y);
            w2[j * t + k2] = rnd(sn * x + cs * y);
        }
        let v2 = call(&w2)?;
        if !((v2 - v).abs() <= 6.0 * tol + 8.0 * u * mag) {
            return viol(format!("{name}:rotation"), format!("{v2:e} after rotating tasks; {}", what(v)));
        }
    }
    // continuity across the knot
    if let Pen::Mcp { a, g } = pen {
        if a > 0.0 {
            let k = a * g;
            let mut lo = vec![0.0; t];
            let mut hi = vec![0.0; t];
            lo[0] = rnd(k * (1.0 - 16.0 * u));
            hi[0] = rnd(k * (1.0 + 16.0 * u));
            let (x, y) = (call(&lo)?, call(&hi)?);
            if !((x - y).abs() <= 64.0 * u * g * a * a) {
                return viol(format!("{name}:discontinuous"), format!("{x:e} below the knot {k:e}, {y:e} above; {pen:?}"));
            }
            c.count("knots crossed", 1);
        }
    }
    c.count(&name, 1);
    if v > 0.0 {
        c.nontrivial((name.clone(), v.to_bits()));
    }
    c.sample(|| what(v));
    Ok(())
}

fn main() {
    let rep = Report::new(
        "C10",
        "values of the 7 penalties in f32 and f64 against independent formulas, under sign flips, permutations, task rotations and \
         across MCP's knot. Non-trivial: positive values (distinct by value)",
    );
    rep.cases(1, rep.n(400000, 10_000_000), |r, c| one::<f64>(r, c, f64::EPSILON));
    rep.cases(2, rep.n(200000, 5_000_000), |r, c| one::<f32>(r, c, f32::EPSILON as f64));
    rep.finish(
        &[("L1", 1000), ("L1+L2", 1000), ("MCP", 1000), ("L0.5", 1000), ("block L1", 1000), ("block L1+L2", 1000), ("block MCP", 1000)],
        &["infinite gamma is only combined with fits, not with raw penalty values (0 x inf)"],
    );
}
