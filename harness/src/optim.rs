//! The optimality oracle shared by several checks.
use crate::fit::*;
use crate::gen::{self, Prob, Size};
use crate::refm::{self, Df, Model, Pen};
use crate::rep::{viol, Case, Viol};
use crate::rng::Rng;

pub const C_EPS64: f64 = 4e-12;

pub fn describe(pr: &Prob, m: &Model, k: &Knobs, st: Storage, route: Route) -> String {
    format!("{} | {:?} | {:?} | {:?} {:?}", pr.short(), m, k, st, route)
}
pub fn full(pr: &Prob, m: &Model, k: &Knobs, st: Storage, route: Route) -> String {
    let mut s = describe(pr, m, k, st, route);
    s.push('\n');
    if pr.x.len() < 4000 {
        s.push_str(&pr.dump());
    }
    s
}

pub fn finite(w: &[f64]) -> bool {
    w.iter().all(|v| v.is_finite())
}

/// Fit and judge. Returns the coefficients and whether the solver stopped by itself.
pub fn judge(
    case: &Case,
    pr: &Prob,
    m: &Model,
    k: &Knobs,
    st: Storage,
    route: Route,
    must_converge: bool,
) -> Result<(Vec<f64>, bool), Viol> {
    let name = m.name();
    let k = &if must_converge { k.clone() } else { k.capped(pr) };
    let (w, stopped) = match fit_stopped::<f64>(pr, m, k, st, route) {
        Ok(x) => x,
        Err(e) => return viol(format!("{name}:fit-failed"), format!("{} in {}", e.0, full(pr, m, k, st, route))),
    };
    if !finite(&w) {
        return viol(format!("{name}:non-finite"), format!("coefficients {w:?} in {}", full(pr, m, k, st, route)));
    }
    let kk = refm::kkt(m, pr, &w, C_EPS64);
    let ok = kk.excess <= k.tol * (1.0 + 1e-6);
    if stopped && !ok {
        return viol(
            format!("{name}:stopped-not-optimal"),
            format!(
                "stopped with violation {:e} (slack {:e}, feature {}) > tolerance {:e}; w={:?}; {}",
                kk.max, kk.slack, kk.feature, k.tol, w, full(pr, m, k, st, route)
            ),
        );
    }
    if must_converge && !ok {
        return viol(
            format!("{name}:not-converged"),
            format!(
                "well-conditioned problem not solved within the budget: violation {:e} (feature {}) > tolerance {:e}; w={:?}; {}",
                kk.max, kk.feature, k.tol, w, full(pr, m, k, st, route)
            ),
        );
    }
    // descent from the starting point
    let (f, f0) = (refm::objective(m, pr, &w), refm::objective(m, pr, &vec![0.0; w.len()]));
    if f > f0 * (1.0 + 1e-10) + 1e-300 {
        return viol(
            format!("{name}:worse-than-zero"),
            format!("objective {f:e} at the result, {f0:e} at zero; w={w:?}; {}", full(pr, m, k, st, route)),
        );
    }
    case.count("fits", 2);
    case.count(if stopped { "stopped-by-itself" } else { "budget-exhausted" }, 1);
    case.count(&format!("model {name}"), 1);
    if stopped && w.iter().any(|v| *v != 0.0) {
        case.count("stopped-nonzero", 1);
        case.nontrivial((bits(&w), format!("{k:?}{st:?}")));
        if w.iter().any(|v| *v == 0.0) {
            case.count("stopped-partly-sparse", 1);
        }
        let nz = w.chunks(pr.t).filter(|r| r.iter().any(|v| *v != 0.0)).count();
        if nz > k.ws {
            case.count("support-outgrew-first-working-set", 1);
        }
    }
    case.sample(|| format!("{} stopped={stopped} violation={:.3e}", describe(pr, m, k, st, route), kk.max));
    Ok((w, stopped))
}

pub fn any_storage(r: &mut Rng) -> Storage {
    *r.pick(ALL_STORAGE)
}
pub fn any_route(r: &mut Rng) -> Route {
    *r.pick(&[Route::Est, Route::EstChecked, Route::Solver, Route::Solver])
}

/// Which models a check draws from.
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Convex1,
    ConvexM,
    NonConvex,
    Any,
}
pub fn any_model(r: &mut Rng, kind: Kind, multi: bool) -> (Df, u8) {
    // (datafit, penalty tag): 0 L1, 1 L1L2, 2 MCP, 3 L05
    match kind {
        Kind::Convex1 => *r.pick(&[(Df::Quad, 0), (Df::Quad, 1), (Df::Logit, 0), (Df::Logit, 1)]),
        Kind::ConvexM => *r.pick(&[(Df::Quad, 0), (Df::Quad, 1)]),
        Kind::NonConvex => {
            if multi {
                (Df::Quad, 2)
            } else {
                *r.pick(&[(Df::Quad, 2), (Df::Quad, 3), (Df::Quad, 2), (Df::Logit, 2), (Df::Quad, 3)])
            }
        }
        Kind::Any => {
            if multi {
                *r.pick(&[(Df::Quad, 0), (Df::Quad, 1), (Df::Quad, 2)])
            } else {
                *r.pick(&[
                    (Df::Quad, 0),
                    (Df::Quad, 1),
                    (Df::Quad, 2),
                    (Df::Quad, 3),
                    (Df::Logit, 0),
                    (Df::Logit, 1),
                    (Df::Logit, 2),
                ])
            }
        }
    }
}
/// A problem with its model: random data, random strength.
pub fn any_problem(r: &mut Rng, kind: Kind, multi: bool, s: Size) -> (Prob, Model) {
    let (df, tag) = any_model(r, kind, multi);
    let mut pr = gen::any(r, Size { tmax: if multi { s.tmax } else { 1 }, ..s });
    if df == Df::Logit {
        gen::labels(r, &mut pr);
    } else if r.bool(0.1) {
        // targets, hence coefficients and strengths, in another unit
        let u = 2f64.powi(r.int(0, 50) as i32 - 25);
        pr.y.iter_mut().for_each(|v| *v *= u);
    }
    let m = with_pen(r, &pr, df, tag, multi);
    (pr, m)
}
pub fn with_pen(r: &mut Rng, pr: &Prob, df: Df, tag: u8, multi: bool) -> Model {
    let amax = refm::alpha_max(df, pr);
    let mut a = any_alpha(r, amax);
    if df == Df::Logit && a < 1e-3 * amax {
        a = 1e-3 * amax;
    }
    let pen = match tag {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: gen::ratio(r) },
        2 => Pen::Mcp { a, g: gen::gamma(r) },
        _ => Pen::L05 { a: a * r.logu(0.3, 1.5) },
    };
    Model { df, pen, multi }
}
/// A well-conditioned problem for which convergence within default budgets is required.
pub fn well_problem(r: &mut Rng, kind: Kind, multi: bool, pmax: usize, tmax: usize) -> (Prob, Model) {
    let (df, tag) = any_model(r, kind, multi);
    let mut pr = gen::well(r, pmax, if multi { tmax } else { 1 });
    if df == Df::Logit {
        gen::labels(r, &mut pr);
        for (i, v) in pr.y.iter_mut().enumerate() {
            if i % 9 == 0 {
                *v = -*v;
            }
        }
    }
    let amax = refm::alpha_max(df, &pr).max(1e-6);
    let lo = if df == Df::Logit { 0.02 } else { 0.005 };
    let a = amax * r.logu(lo, 0.95);
    let pen = match tag {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: gen::ratio(r) },
        2 => {
            let lam = refm::lambda_min(&pr).unwrap_or(1e-3) * if df == Df::Logit { 0.05 } else { 1.0 };
            Pen::Mcp { a, g: (r.range(1.3, 6.0) / lam).max(1.0) }
        }
        _ => Pen::L05 { a: a * r.range(0.2, 1.0) },
    };
    (pr, Model { df, pen, multi })
}
pub fn well_knobs(r: &mut Rng, p: usize) -> Knobs {
    Knobs {
        ws: *r.pick(&[10, 10, 1, 2, 5, p, p + 7]),
        tol: *r.pick(&[1e-4, 1e-6, 1e-8, 1e-9]),
        k: *r.pick(&[5, 5, 2, 3, 8]),
        accel: r.bool(0.7),
        ..Knobs::default()
    }
}

/// Nearly collinear features and a weak penalty, so that plain passes make slow progress, with
/// budgets of many short outer iterations or of one long one.
pub fn slow_problem(r: &mut Rng, kind: Kind, multi: bool) -> (Prob, Model, Knobs) {
    let (df, tag) = any_model(r, kind, multi);
    let mut pr = gen::fixed(r, "gauss", 12, 3, if multi { 2 } else { 1 });
    pr.p = r.int(2, 6);
    let eps = 10f64.powf(r.range(-2.2, -0.7));
    let mut x = vec![];
    for _ in 0..pr.n {
        let g = r.gauss();
        x.extend((0..pr.p).map(|_| g + eps * r.gauss()));
    }
    let w: Vec<f64> = (0..pr.p * pr.t).map(|_| r.gauss()).collect();
    pr.x = x;
    pr.fam = "slow";
    for i in 0..pr.n {
        for k in 0..pr.t {
            pr.y[i * pr.t + k] = (0..pr.p).map(|j| pr.x[i * pr.p + j] * w[j * pr.t + k]).sum::<f64>() + 0.1 * r.gauss();
        }
    }
    if df == Df::Logit {
        gen::labels(r, &mut pr);
    }
    let amax = refm::alpha_max(df, &pr);
    let a = amax * r.logu(if df == Df::Logit { 1e-3 } else { 1e-5 }, 1e-2);
    let pen = match tag {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: 1.0 - r.logu(1e-3, 0.5) },
        2 => Pen::Mcp { a, g: gen::gamma(r) },
        _ => Pen::L05 { a },
    };
    let (iters, epochs) = if r.bool(0.7) { (r.logu(50.0, 2000.0) as usize, r.int(1, 3)) } else { (r.int(1, 3), r.logu(500.0, 6000.0) as usize) };
    let k = Knobs { ws: r.int(1, 8), iters, epochs, tol: amax * r.logu(1e-14, 1e-9), k: *r.pick(&[5, 3, 12, 20]), accel: r.bool(0.2), verbose: false };
    (pr, Model { df, pen, multi }, k)
}

/// The same well-conditioned problem in other units (exact powers of two).
pub fn rescale(r: &mut Rng, pr: &mut Prob, m: &mut Model, k: &mut Knobs) {
    let (a, b) = (r.int(0, 120) as i32 - 60, r.int(0, 120) as i32 - 60);
    let p2 = |e: i32| 2f64.powi(e);
    let a = if matches!(m.pen, Pen::Mcp { .. }) { 0 } else { a };
    let b = if m.df == Df::Logit { 0 } else { b };
    pr.x.iter_mut().for_each(|v| *v *= p2(a));
    if b != 0 {
        pr.y.iter_mut().for_each(|v| *v *= p2(b));
    }
    match &mut m.pen {
        Pen::L1 { a: s } | Pen::L1L2 { a: s, .. } | Pen::Mcp { a: s, .. } => {
            *s *= p2(a + b);
            k.tol *= p2(a + b);
        }
        Pen::L05 { a: s } => {
            *s *= 2f64.powf(1.5 * b as f64 + 0.5 * a as f64);
            k.tol *= p2(b - a);
        }
    }
}

/// Strong-convexity modulus of the objective on the segment between two points, if positive
/// (relative to the curvature scale).
pub fn modulus(pr: &Prob, m: &Model, w1: &[f64], w2: &[f64]) -> Option<f64> {
    let lam = refm::lambda_min(pr)? * 0.999;
    let c = match m.df {
        Df::Quad => 1.0,
        Df::Logit => {
            let (f1, f2) = (refm::xw(pr, w1), refm::xw(pr, w2));
            let s = |z: f64| refm::sigmoid(z) * refm::sigmoid(-z);
            f1.iter().chain(&f2).map(|z| s(*z)).fold(f64::INFINITY, f64::min)
        }
    };
    let extra = match m.pen {
        Pen::L1 { .. } => 0.0,
        Pen::L1L2 { a, r } => a * (1.0 - r),
        Pen::Mcp { g, .. } => -1.0 / g,
        Pen::L05 { .. } => return None,
    };
    let mu = c * lam + extra;
    if mu > 0.02 * c * lam {
        Some(mu)
    } else {
        None
    }
}
/// Bound on the distance between two approximate minimisers with optimality violations up to
/// tol1, tol2 in every row.
pub fn pair_bound(pr: &Prob, m: &Model, w1: &[f64], w2: &[f64], tol1: f64, tol2: f64) -> Option<f64> {
    let mu = modulus(pr, m, w1, w2)?;
    let sc1 = refm::grad_scale(m.df, pr, w1).iter().fold(0.0f64, |a, b| a.max(*b)) + m.alpha();
    let sc2 = refm::grad_scale(m.df, pr, w2).iter().fold(0.0f64, |a, b| a.max(*b)) + m.alpha();
    Some((tol1 + tol2 + C_EPS64 * (sc1 + sc2)) * (pr.p as f64).sqrt() / mu * 1.0001)
}
pub fn dist(a: &[f64], b: &[f64]) -> f64 {
    refm::norm(&a.iter().zip(b).map(|(x, y)| x - y).collect::<Vec<_>>())
}
/// A problem with a unique solution and a strongly convex objective (MCP in its convex regime).
pub fn convex_well(r: &mut Rng, multi: bool, pmax: usize, tmax: usize) -> (Prob, Model) {
    loop {
        let (pr, m) = well_problem(r, Kind::Any, multi, pmax, tmax);
        if !matches!(m.pen, Pen::L05 { .. }) && !(m.df == Df::Logit && matches!(m.pen, Pen::Mcp { .. })) {
            return (pr, m);
        }
    }
}
