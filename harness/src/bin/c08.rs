//! C08: proximal operators.
use ndarray::Array1;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::utils::prox_funcs::{block_soft_thresholding, prox_05, soft_thresholding};
use vh::fit::*;
use vh::gen;
use vh::refm::{self, Pen};
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

/// hostile magnitudes
fn mag(r: &mut Rng, lo: f64, hi: f64) -> f64 {
    match r.int(0, 9) {
        0 => 0.0,
        1 => 1.0,
        2 => r.logu(lo, hi),
        3 => r.int(0, 8) as f64 * 0.25,
        _ => r.logu(1e-4, 1e4),
    }
}
fn any_pen(r: &mut Rng, step: f64, lo: f64, hi: f64, block: bool) -> Pen {
    let a = mag(r, lo, hi);
    match r.int(0, if block { 2 } else { 3 }) {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: gen::ratio(r) },
        2 => {
            // gamma on either side of the step, and at it
            let g = match r.int(0, 7) {
                0 => step,
                1 => step * 0.5,
                2 => step * 2.0,
                3 => step * (1.0 + r.logu(1e-6, 1.0)),
                4 => step * (1.0 - r.logu(1e-6, 0.9)),
                5 => 1.0,
                6 => r.logu(1.0, 1e4),
                _ => r.logu(0.1, 10.0),
            };
            Pen::Mcp { a, g: g.max(lo) }
        }
        _ => Pen::L05 { a },
    }
}
/// inputs around the decision points of the operator
fn value(r: &mut Rng, pen: Pen, step: f64, lo: f64, hi: f64) -> f64 {
    let edge = match pen {
        Pen::L1 { a } => a * step,
        Pen::L1L2 { a, r: q } => a * q * step,
        Pen::Mcp { a, g } => *r.pick(&[a * step, a * g, a * (g * step).sqrt()]),
        Pen::L05 { a } => 1.5 * (a * step).powf(2.0 / 3.0),
    };
    let v = match r.int(0, 9) {
        0 => edge,
        1 => edge * (1.0 + f64::EPSILON * r.int(1, 3) as f64),
        2 => edge * (1.0 - f64::EPSILON * r.int(1, 3) as f64),
        3 => edge * (1.0 + r.range(-1e-6, 1e-6)),
        4 => edge * r.range(0.5, 1.0),
        5 | 6 => edge * r.range(1.0, 4.0),
        7 => edge * r.logu(4.0, 1e6),
        _ => mag(r, lo, hi),
    };
    v * r.sign()
}

fn call<F: Fl>(pen: Pen, v: &[f64], step: f64, block: bool) -> Vec<f64> {
    let cst = |x: f64| -> F { F::cast(x) };
    if block {
        let x = Array1::from_iter(v.iter().map(|z| cst(*z)));
        let o = match pen {
            Pen::L1 { a } => L21::new(cst(a)).prox(x.view(), cst(step)),
            Pen::L1L2 { a, r } => BlockL1PlusL2::new(cst(a), cst(r)).prox(x.view(), cst(step)),
            Pen::Mcp { a, g } => BlockMCP::new(cst(a), cst(g)).prox(x.view(), cst(step)),
            Pen::L05 { .. } => unreachable!(),
        };
        o.iter().map(|z| up(*z)).collect()
    } else {
        let x: F = cst(v[0]);
        let s: F = cst(step);
        vec![up(match pen {
            Pen::L1 { a } => Penalty::prox(&L1::new(cst(a)), x, s),
            Pen::L1L2 { a, r } => Penalty::prox(&L1PlusL2::new(cst(a), cst(r)), x, s),
            Pen::Mcp { a, g } => Penalty::prox(&MCP::new(cst(a), cst(g)), x, s),
            Pen::L05 { a } => Penalty::prox(&L05::new(cst(a)), x, s),
        })]
    }
}

/// `u`: unit roundoff of the float type. The output is judged in value (is it a minimiser?) and,
/// away from ties, in position.
fn judge(c: &Case, name: &str, pen: Pen, v: &[f64], step: f64, out: &[f64], u: f64) -> Result<(), Viol> {
    let what = || format!("{name}: {pen:?} input {v:?} step {step:e} -> {out:?}");
    if out.len() != v.len() {
        return viol(format!("{name}:length"), what());
    }
    if out.iter().any(|x| !x.is_finite()) {
        return viol(format!("{name}:non-finite"), what());
    }
    let nv = refm::norm(v);
    let no = refm::norm(out);
    // collinear with the input, same orientation
    for (o, x) in out.iter().zip(v) {
        let e = if nv > 0.0 { x / nv * no } else { 0.0 };
        if (o - e).abs() > 64.0 * u * no.max(nv * u) {
            return viol(format!("{name}:direction"), format!("component {o:e}, expected {e:e}; {}", what()));
        }
    }
    let obj = |x: f64| 0.5 * (x - nv) * (x - nv) + step * refm::pen_scalar(pen, x);
    let cand = refm::prox_radius(pen, nv, step);
    let best = cand.iter().map(|x| obj(*x)).fold(f64::INFINITY, f64::min);
    let scale = 0.5 * nv * nv;
    // just below gamma the operator divides by 1 - step/gamma
    let cond = match pen {
        Pen::Mcp { g, .. } if step < g => 1.0 / (1.0 - step / g),
        Pen::L05 { .. } => 8.0,
        _ => 1.0,
    };
    let tol = scale * (64.0 * u + (64.0 * u * cond).powi(2));
    if !(obj(no) <= best + tol) {
        return viol(
            format!("{name}:not-a-minimiser"),
            format!("proximal objective {:e} at the result, {best:e} at {cand:?}; {}", obj(no), what()),
        );
    }
    // position, unless two different points are (nearly) tied
    let jumpy = matches!(pen, Pen::Mcp { g, .. } if step >= g * (1.0 - 1e-9)) || matches!(pen, Pen::L05 { .. });
    let pts = if jumpy {
        // global comparison with a looser tie band
        let band = 1e4 * u * scale;
        let mut p = cand.clone();
        if obj(0.0) <= best + band {
            p.push(0.0);
        }
        if obj(nv) <= best + band {
            p.push(nv);
        }
        if let Pen::L05 { a } = pen {
            for q in refm::l05_root(nv, step * a) {
                if obj(q) <= best + band {
                    p.push(q);
                }
            }
        }
        p
    } else {
        cand.clone()
    };
    let loc = 64.0 * u * cond * (nv + no);
    if !pts.iter().any(|x| (x - no).abs() <= loc) {
        return viol(format!("{name}:position"), format!("result radius {no:e}, minimisers {pts:?} (allowance {loc:e}); {}", what()));
    }
    c.count(name, 1);
    c.count(if no == 0.0 { "mapped to zero" } else if no == nv { "unchanged" } else { "shrunk" }, 1);
    if nv > 0.0 {
        c.nontrivial((name.to_string(), nv.to_bits(), no.to_bits()));
    }
    Ok(())
}

fn one<F: Fl>(r: &mut Rng, c: &Case, u: f64, lo: f64, hi: f64) -> Result<(), Viol> {
    let rnd = |x: f64| if u > 1e-10 { x as f32 as f64 } else { x };
    let block = r.bool(0.5);
    let step = rnd(match r.int(0, 4) {
        0 => 1.0,
        1 => r.logu(lo, hi),
        _ => r.logu(1e-4, 1e4),
    });
    let pen = match any_pen(r, step, lo, hi, block) {
        Pen::L1 { a } => Pen::L1 { a: rnd(a) },
        Pen::L1L2 { a, r } => Pen::L1L2 { a: rnd(a), r: rnd(r) },
        Pen::Mcp { a, g } => Pen::Mcp { a: rnd(a), g: rnd(g) },
        Pen::L05 { a } => Pen::L05 { a: rnd(a) },
    };
    // products that leave the representable range are outside the checked domain
    let (a, g) = match pen {
        Pen::L1 { a } | Pen::L1L2 { a, .. } | Pen::L05 { a } => (a, 1.0),
        Pen::Mcp { a, g } => (a, g),
    };
    let inside = |x: f64| x == 0.0 || (x > lo * lo && x < hi * hi);
    if !(inside(a * step) && inside(a * g) && inside(g * step) && inside(g / step)) {
        return Ok(());
    }
    let t = if block { r.int(1, 6) } else { 1 };
    let rad = rnd(value(r, pen, step, lo, hi));
    if !(rad == 0.0 || (rad.abs() > lo && rad.abs() < hi)) {
        return Ok(());
    }
    let mut v = vec![rad; t];
    if t > 1 {
        match r.int(0, 2) {
            0 => {
                // exact radius on one task
                v = vec![0.0; t];
                v[r.int(0, t - 1)] = rad;
            }
            _ => {
                let d: Vec<f64> = (0..t).map(|_| r.gauss()).collect();
                let nd = refm::norm(&d);
                v = d.iter().map(|x| rnd(x / nd * rad)).collect();
                if v.iter().any(|x| *x != 0.0 && x.abs() < lo) {
                    return Ok(());
                }
            }
        }
    }
    let name = format!("{}{}", if block { "block " } else { "" }, match pen {
        Pen::L1 { .. } => "L1",
        Pen::L1L2 { .. } => "L1+L2",
        Pen::Mcp { .. } => "MCP",
        Pen::L05 { .. } => "L0.5",
    });
    let out = match guard(|| call::<F>(pen, &v, step, block)) {
        Ok(o) => o,
        Err(e) => return viol(format!("{name}:panic"), format!("PANIC {e}: {pen:?} {v:?} {step:e}")),
    };
    judge(c, &name, pen, &v, step, &out, u)?;
    c.sample(|| format!("{name} {pen:?} input {v:?} step {step:e} -> {out:?}"));
    // the public helper functions (threshold = alpha * step)
    let thr = rnd(a * step);
    let hv: Vec<F> = v.iter().map(|x| F::cast(*x)).collect();
    let h = guard(|| match (pen, block) {
        (Pen::L1 { .. }, false) => Some(vec![up(soft_thresholding(hv[0], F::cast(thr)))]),
        (Pen::L1 { .. }, true) => {
            Some(block_soft_thresholding(Array1::from(hv.clone()).view(), F::cast(thr)).iter().map(|x| up(*x)).collect())
        }
        (Pen::L05 { .. }, _) => Some(vec![up(prox_05(hv[0], F::cast(thr)))]),
        _ => None,
    });
    match h {
        Ok(None) => {}
        Ok(Some(o)) => {
            let p1 = if let Pen::L05 { .. } = pen { Pen::L05 { a: thr } } else { Pen::L1 { a: thr } };
            judge(c, &format!("helper of {name}"), p1, &v, 1.0, &o, u)?;
        }
        Err(e) => return viol(format!("helper of {name}:panic"), format!("PANIC {e}: {v:?} threshold {thr:e}")),
    }
    Ok(())
}

fn main() {
    let rep = Report::new(
        "C08",
        "proximal steps of all 7 penalties and the helper operators in f32 and f64, at inputs on, one ulp from, and far from every \
         threshold, zero inputs, zero strengths, gamma below / at / above the step, 1-6 tasks. Non-trivial: non-zero inputs \
         (distinct by input and output)",
    );
    rep.cases(1, rep.n(2000000, 20_000_000), |r, c| one::<f64>(r, c, f64::EPSILON, 1e-60, 1e60));
    rep.cases(2, rep.n(1000000, 10_000_000), |r, c| one::<f32>(r, c, f32::EPSILON as f64, 1e-6, 1e6));
    rep.finish(
        &[("L1", 1000), ("L1+L2", 1000), ("MCP", 1000), ("L0.5", 1000), ("block L1", 1000), ("block L1+L2", 1000), ("block MCP", 1000)],
        &["magnitudes whose squares are representable"],
    );
}
