//! C33: an extrapolation step lands on the Anderson combination of the last iterates, or changes
//! nothing; it is taken exactly when it lowers the objective.
use vh::fit::*;
use vh::gen::{Prob, Size};
use vh::mon::muted_fit;
use vh::optim::{self, Kind};
use vh::refm::{self, Acc, Model};
use vh::rep::{viol, Case, Report, Viol};
use vh::rng::Rng;

struct Comb {
    /// the extrapolated point
    w: Vec<f64>,
    /// how far rounding of the weights may move each of its entries
    slack: Vec<f64>,
    /// sum of the weights' magnitudes
    mass: f64,
}
/// Affine combination of its[0..K] with weights minimising the combined last differences.
fn anderson(its: &[Vec<f64>], u: f64) -> Option<Comb> {
    let k = its.len() - 1;
    let d: Vec<Vec<f64>> = (0..k).map(|i| its[i + 1].iter().zip(&its[i]).map(|(a, b)| a - b).collect()).collect();
    let mut g = vec![0.0; k * k];
    for a in 0..k {
        for b in 0..k {
            g[a * k + b] = refm::dot(&d[a], &d[b]);
        }
    }
    let tr: f64 = (0..k).map(|i| g[i * k + i]).sum();
    if !(tr > 1e-200 && tr < 1e200) {
        return None;
    }
    let unit: Vec<f64> = (0..k * k).map(|i| if i % (k + 1) == 0 { 1.0 } else { 0.0 }).collect();
    let gi = refm::chol_solve(&g, &unit, k, k)?;
    let itr: f64 = (0..k).map(|i| gi[i * k + i]).sum();
    let cond = tr * itr;
    if !(cond * u < 1e-5) {
        return None;
    }
    let z = refm::chol_solve(&g, &vec![1.0; k], k, 1)?;
    let s: f64 = z.iter().sum();
    let c: Vec<f64> = z.iter().map(|v| v / s).collect();
    let cn = refm::norm(&c);
    let m = its[0].len();
    let dc = 64.0 * (m + 16 * k) as f64 * u * cond * cn * (1.0 + (k as f64).sqrt() * cn);
    let mut w = vec![];
    let mut slack = vec![];
    for j in 0..m {
        let mut a = Acc::default();
        let mut spread: f64 = 0.0;
        let mut mag = 0.0;
        for i in 0..k {
            a.mul(c[i], its[i][j]);
            spread = spread.max((its[i][j] - its[0][j]).abs());
            mag += (c[i] * its[i][j]).abs();
        }
        w.push(a.get());
        // the computed weights sum to one within rounding, whatever their error
        slack.push(dc * spread * k as f64 + 64.0 * u * k as f64 * (mag + its[0][j].abs() * (1.0 + c.iter().map(|v| v.abs()).sum::<f64>())));
    }
    Some(Comb { w, slack, mass: c.iter().map(|v| v.abs()).sum() })
}

/// Objective with the error that moving each coefficient by `slack` and rounding may cause.
fn objective(m: &Model, pr: &Prob, w: &[f64], slack: &[f64], u: f64) -> (f64, f64) {
    let f = refm::xw(pr, w);
    let g = refm::grad(m.df, pr, &f);
    let lp = refm::lips(m.df, pr);
    let o = refm::objective(m, pr, w);
    let t = pr.t;
    let mut e = 0.0;
    let sc = refm::grad_scale(m.df, pr, w);
    for (j, s) in slack.iter().enumerate() {
        e += s * (g[j].abs() + m.alpha() * 2.0 + lp[j / t] * s * (pr.p * t) as f64) + 64.0 * u * sc[j / t] * w[j].abs();
        // a square-root penalty is steep near zero
        e += (refm::pen_row(m.pen, &[w[j].abs() + s]) - refm::pen_row(m.pen, &[(w[j].abs() - s).max(0.0)])).abs();
    }
    let f0 = refm::loss(m.df, pr, &vec![0.0; pr.n * t]);
    (o, 4.0 * e + 1e3 * u * (o.abs() + f0.abs()))
}

fn case<F: Fl>(r: &mut Rng, c: &Case, s: Size, single: bool) -> Result<(), Viol> {
    let u = if single { 6e-8 } else { 1.2e-16 };
    let multi = r.bool(0.4);
    let kind = if r.bool(0.75) { if multi { Kind::ConvexM } else { Kind::Convex1 } } else { Kind::NonConvex };
    let (mut pr, m) = if r.bool(0.5) { optim::any_problem(r, kind, multi, s) } else { optim::well_problem(r, kind, multi, s.pmax.min(20), s.tmax) };
    if single {
        pr = pr.to_f32();
    }
    let kk = *r.pick(&[2, 2, 3, 3, 4, 5, 5, 5, 6, 8, 1, 2, 2, 3, 3, 4, 5, 5, 5, 6, 8, 11, 16]);
    let mut k = Knobs { ws: pr.p, iters: 1, epochs: 0, tol: 0.0, k: kk, accel: true, verbose: false };
    // iterates live on a part of the features when the first cycle stays below the early exit
    let part = r.bool(0.4);
    if part {
        k.ws = r.int(1, pr.p);
    }
    let st = optim::any_storage(r);
    let at = |epochs: usize, accel: bool| {
        let q = Knobs { epochs, accel, ..k };
        fit::<F>(&pr, &m, &q, st, Route::Solver).or_else(|e| viol("panic", format!("{} {}", e.0, optim::full(&pr, &m, &q, st, Route::Solver))))
    };
    let what = |e: usize| optim::full(&pr, &m, &Knobs { epochs: e, ..k }, st, Route::Solver);
    let kindn = if multi { "multi-task" } else { "single-task" };
    let cycles = if part || r.bool(0.5) { 1 } else { *r.pick(&[2, 2, 3]) };
    for cyc in 0..cycles {
        let base = cyc * (kk + 1);
        // iterates of this cycle: no extrapolation between them, so the first cycle is plain descent
        let mut its = vec![];
        for e in 1..=kk {
            its.push(at(base + e, true)?);
        }
        if cyc == 0 {
            for (e, w) in its.iter().enumerate() {
                if r.bool(0.3) && bits(w) != bits(&at(e + 1, false)?) {
                    return viol(format!("{kindn}:early"), format!("the iterate after epoch {} already differs with acceleration; {}", e + 1, what(e + 1)));
                }
            }
        }
        let got = at(base + kk + 1, true)?;
        // the last iterate before extrapolation: a run in which nothing counts as an improvement
        // once the epochs before are done
        let plain = if cyc == 0 && r.bool(0.5) {
            at(kk + 1, false)?
        } else {
            let moves = refm::lips(m.df, &pr).iter().filter(|l| **l > 0.0).count().min(if part { 0 } else { pr.p });
            let mute = if part { 1 } else { ((base + kk) * moves) as u64 + 1 };
            let q = Knobs { epochs: base + kk + 1, ..k };
            match muted_fit::<F>(&pr, &m, &q, st, mute) {
                // with another number of moves the threshold was in the wrong place
                Ok((_, work)) if !part && work.prox.get() != ((base + kk + 1) * moves) as u64 => {
                    c.count("runs of unexpected length (not judged)", 1);
                    break;
                }
                Ok((w, _)) => w,
                Err(e) => return viol("panic", format!("{} {}", e.0, what(base + kk + 1))),
            }
        };
        if !optim::finite(&plain) || !its.iter().all(|w| optim::finite(w)) {
            c.count("overflowing iterates (not judged)", 1);
            break;
        }
        if cyc > 0 {
            c.count("later cycles", 1);
        }
        let moved = bits(&got) != bits(&plain);
        c.count(if moved { "extrapolations taken" } else { "extrapolations turned down" }, 1);
        let (o0, e0) = objective(&m, &pr, &plain, &vec![0.0; plain.len()], u);
        if moved {
            if !optim::finite(&got) {
                return viol(format!("{kindn}:finite"), format!("extrapolated to {got:?}; {}", what(base + kk + 1)));
            }
            let (o1, e1) = objective(&m, &pr, &got, &vec![0.0; got.len()], u);
            if o1 > o0 + e0 + e1 {
                return viol(format!("{kindn}:worse"), format!("objective {o0:e} before, {o1:e} after extrapolation; {}", what(base + kk + 1)));
            }
        }
        let mut all = its.clone();
        all.push(plain.clone());
        let Some(x) = anderson(&all, u) else {
            c.count("ill-conditioned combinations (place not judged)", 1);
            continue;
        };
        let (o2, e2) = objective(&m, &pr, &x.w, &x.slack, u);
        let tell = |s: &str| format!("{s}: iterates {all:?}, combination {:?} (objective {o2:e} +- {e2:e}, before {o0:e} +- {e0:e}), got {got:?}; {}", x.w, what(base + kk + 1));
        if moved {
            let far = (0..got.len()).find(|j| !((got[*j] - x.w[*j]).abs() <= x.slack[*j]));
            if let Some(j) = far {
                return viol(format!("{kindn}:place"), tell(&format!("entry {j} is off by {:e}, allowance {:e}", (got[j] - x.w[j]).abs(), x.slack[j])));
            }
            c.count(&format!("combinations confirmed ({kindn}, K={kk})"), 1);
            c.count(&format!("combinations confirmed ({kindn})"), 1);
        } else if o2 + e2 < o0 - e0 {
            return viol(format!("{kindn}:refused"), tell("a lower extrapolated point was not taken"));
        } else if o2 - e2 > o0 + e0 {
            c.count("higher points turned down", 1);
        }
        c.nontrivial((kk, got.iter().map(|v| v.to_bits()).collect::<Vec<_>>()));
        c.sample(|| format!("{}: {} (weights' mass {:.3})", optim::describe(&pr, &m, &Knobs { epochs: kk + 1, ..k }, st, Route::Solver), if moved { "taken" } else { "turned down" }, x.mass));
    }
    Ok(())
}

fn main() {
    let rep = Report::new(
        "C33",
        "with acceleration the iterate after K+1 epochs is the unaccelerated one or the affine combination of the first K iterates minimising the combined differences, the latter exactly when its objective is lower",
    );
    rep.cases(1, rep.n(8000, 200000), |r: &mut Rng, c: &Case| case::<f64>(r, c, Size { nmax: 30, pmax: 30, tmax: 4 }, false));
    rep.cases(2, rep.n(300, 8000), |r: &mut Rng, c: &Case| case::<f64>(r, c, Size { nmax: 60, pmax: 200, tmax: 3 }, false));
    rep.cases(3, rep.n(1500, 40000), |r: &mut Rng, c: &Case| case::<f32>(r, c, Size { nmax: 20, pmax: 20, tmax: 3 }, true));
    rep.finish(
        &[
            ("combinations confirmed (single-task)", 300),
            ("combinations confirmed (multi-task)", 200),
            ("higher points turned down", 200),
            ("later cycles", 500),
        ],
        &["iterates are read by cutting the epoch budget; runs with the same prefix are identical (C06)"],
    )
}
