//! C25: budgets and tolerance are honoured. Work is counted in transparent wrappers around the
//! library's datafits and penalties.
use vh::fit::*;
use vh::gen::{Prob, Size};
use vh::mon::{work_fit, Work};
use vh::optim::*;
use vh::refm::*;
use vh::rep::{viol, Case, Report, Viol};
use vh::rng::Rng;

fn wf(pr: &Prob, m: &Model, k: &Knobs, st: Storage, single: bool) -> Result<(Vec<f64>, Work), Viol> {
    let r = if single { work_fit::<f32>(pr, m, k, st, 0) } else { work_fit::<f64>(pr, m, k, st, 0) };
    match r {
        Ok(x) => Ok(x),
        Err(e) => viol(format!("{}:fit-failed", m.name()), format!("{} in {}", e.0, full(pr, m, k, st, Route::Solver))),
    }
}

fn budgets(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let (pr, m) = any_problem(r, Kind::Any, multi, Size { nmax: 20, pmax: 20, tmax: 3 });
    let mut k = Knobs::random(r, pr.p).capped(&pr);
    k.iters = *r.pick(&[0, 1, 1, 2, 3, 7]);
    k.epochs = *r.pick(&[0, 1, 2, 5, 6, 10, 11, 12, 21, 40]);
    k.tol = *r.pick(&[0.0, 0.0, 1e-14, 1e-6]);
    let st = any_storage(r);
    let single = r.bool(0.3);
    let (w, work) = wf(&pr, &m, &k, st, single)?;
    let passes = (k.iters * k.epochs) as u64;
    let most = work.per_feature.borrow().iter().copied().max().unwrap_or(0);
    let tell = |s: &str| viol(format!("{}:{s}", m.name()), format!("{} coordinate updates, {most} of one feature, allowed {passes} passes over {} features; {}", work.prox.get(), pr.p, full(&pr, &m, &k, st, Route::Solver)));
    if most > passes {
        return tell("feature-visited-too-often");
    }
    if work.prox.get() > passes * pr.p as u64 {
        return tell("too-much-work");
    }
    if passes == 0 && w.iter().any(|v| *v != 0.0) {
        return tell("zero-budget-moved");
    }
    c.count("budgets observed", 1);
    if passes > 0 && work.prox.get() == passes * (0..pr.p).filter(|j| pr.col(*j).iter().any(|v| *v != 0.0)).count().max(1) as u64 {
        c.count("budget used up to the last update", 1);
    }
    c.sample(|| format!("{} {:?} prox calls {} passes {passes}", pr.short(), k, work.prox.get()));
    if work.prox.get() > 0 {
        c.nontrivial((work.prox.get(), pr.p, k.iters, k.epochs, m.name()));
    }
    if passes == 0 {
        c.count("zero budget", 1);
        // the estimators honour it too
        let route = *r.pick(&[Route::Est, Route::EstChecked]);
        match fit64(&pr, &m, &k, st, route) {
            Ok(w) if w.iter().all(|v| *v == 0.0) => {}
            x => return viol(format!("{}:zero-budget-estimator", m.name()), format!("{x:?} in {}", full(&pr, &m, &k, st, route))),
        }
    }
    Ok(())
}

fn satisfied_at_zero(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let (pr, mut m) = any_problem(r, Kind::Any, multi, Size { nmax: 20, pmax: 20, tmax: 3 });
    if matches!(m.pen, Pen::L05 { .. }) {
        m.pen = Pen::L1 { a: m.alpha() };
    }
    let mut k = Knobs::random(r, pr.p).capped(&pr);
    let amax = alpha_max(m.df, &pr);
    let scale = grad_scale(m.df, &pr, &vec![0.0; pr.p * pr.t]).into_iter().fold(0.0, f64::max);
    let thr = match m.pen {
        Pen::L1L2 { a, r } => a * r,
        _ => m.alpha(),
    };
    let viol0 = (amax - thr).max(0.0);
    // clearly above or clearly below the violation at zero
    let above = viol0 < 1e-9 * thr || r.bool(0.7);
    k.tol = if above {
        viol0 * (1.0 + *r.pick(&[1e-9, 1e-3, 1.0])) + 1e-13 * scale
    } else {
        viol0 * (1.0 - *r.pick(&[1e-9, 1e-3, 0.5])) - 1e-13 * (scale + thr)
    };
    if k.tol < 0.0 || !k.tol.is_finite() || (!above && viol0 <= k.tol) {
        return Ok(());
    }
    let st = any_storage(r);
    let (w, work) = wf(&pr, &m, &k, st, false)?;
    if above {
        if work.prox.get() > 0 || w.iter().any(|v| *v != 0.0) {
            return viol(
                format!("{}:work-though-zero-satisfies", m.name()),
                format!("violation {viol0:e} at zero within tolerance {:e}, yet {} coordinate updates, w={w:?}; {}", k.tol, work.prox.get(), full(&pr, &m, &k, st, Route::Solver)),
            );
        }
        c.count("no work when zero satisfies the tolerance", 1);
    } else {
        if work.prox.get() == 0 {
            return viol(
                format!("{}:gave-up-at-zero", m.name()),
                format!("violation {viol0:e} at zero exceeds the tolerance {:e}, yet no work was done; {}", k.tol, full(&pr, &m, &k, st, Route::Solver)),
            );
        }
        c.count("work when zero misses the tolerance", 1);
    }
    c.nontrivial((bits(&[viol0, k.tol]), m.name()));
    Ok(())
}

/// The violation of w is clearly within tol, whatever the rounding.
fn clearly(m: &Model, pr: &Prob, w: &[f64], tol: f64) -> bool {
    let kk = kkt(m, pr, w, 0.0);
    let sc = grad_scale(m.df, pr, w).into_iter().fold(0.0, f64::max) + m.alpha();
    finite(w) && kk.max + C_EPS64 * sc < tol * (1.0 - 1e-6)
}

fn stops(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let (pr, m) = if r.bool(0.5) {
        any_problem(r, Kind::Any, multi, Size { nmax: 25, pmax: 20, tmax: 3 })
    } else {
        well_problem(r, Kind::Any, multi, 14, 3)
    };
    if matches!(m.pen, Pen::L05 { .. }) {
        return Ok(());
    }
    let mut k = Knobs::random(r, pr.p).capped(&pr);
    k.tol = alpha_max(m.df, &pr).max(1e-6) * r.logu(1e-8, 1e-2);
    k.epochs = *r.pick(&[30, 100, 400]);
    let st = any_storage(r);
    // once an outer iteration ends within tolerance, further iterations are free
    let mut hit = None;
    for t in [1usize, 2, 3, 5, 8, 13, 25] {
        let kt = Knobs { iters: t, ..k };
        let (w, work) = wf(&pr, &m, &kt, st, false)?;
        if clearly(&m, &pr, &w, k.tol) {
            hit = Some((kt, w, work));
            break;
        }
    }
    if let Some((kt, w, work)) = hit {
        let more = Knobs { iters: kt.iters + *r.pick(&[1, 2, 10, 100]), ..kt };
        let (w2, work2) = wf(&pr, &m, &more, st, false)?;
        if work2.prox.get() != work.prox.get() || bits(&w) != bits(&w2) {
            return viol(
                format!("{}:works-past-tolerance", m.name()),
                format!("within tolerance after {} iterations and {} updates, but {} updates with {} iterations; {}", kt.iters, work.prox.get(), work2.prox.get(), more.iters, full(&pr, &m, &kt, st, Route::Solver)),
            );
        }
        c.count("no work past the tolerance", 1);
        if work.prox.get() > 0 {
            c.nontrivial((bits(&w), k.ws));
        }
    }
    // inside one iteration over all features: the descent stops soon after the tolerance is met
    if r.bool(0.4) {
        let k1 = Knobs { iters: 1, ws: pr.p, ..k };
        const W: usize = 30;
        for e in [10usize, 25, 60, 150] {
            let inside = |x: usize| -> Result<bool, Viol> { Ok(clearly(&m, &pr, &wf(&pr, &m, &Knobs { epochs: x, ..k1 }, st, false)?.0, k.tol)) };
            if !inside(e)? {
                continue;
            }
            let mut all = true;
            for x in e..=e + W {
                if !inside(x)? {
                    all = false;
                    break;
                }
            }
            if all {
                let (_, work) = wf(&pr, &m, &Knobs { epochs: 5000, ..k1 }, st, false)?;
                if work.prox.get() > ((e + W) * pr.p) as u64 {
                    return viol(
                        format!("{}:descends-past-tolerance", m.name()),
                        format!("within tolerance from epoch {e} to {}, yet {} updates of {} features with 5000 epochs; {}", e + W, work.prox.get(), pr.p, full(&pr, &m, &k1, st, Route::Solver)),
                    );
                }
                c.count("descent stopped after reaching the tolerance", 1);
            }
            break;
        }
    }
    Ok(())
}

fn looser(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let (pr, m) = any_problem(r, Kind::Any, multi, Size { nmax: 25, pmax: 25, tmax: 3 });
    let mut k = Knobs::random(r, pr.p).capped(&pr);
    k.epochs = *r.pick(&[20, 100, 500]);
    k.iters = *r.pick(&[1, 5, 20]);
    let st = any_storage(r);
    let base = alpha_max(m.df, &pr).max(1e-6);
    let mut last: Option<(f64, u64)> = None;
    let mut tols: Vec<f64> = (0..5).map(|_| base * r.logu(1e-12, 1.0)).collect();
    tols.push(0.0);
    tols.sort_by(|a, b| b.partial_cmp(a).unwrap());
    for tol in tols {
        let (_, work) = wf(&pr, &m, &Knobs { tol, ..k }, st, false)?;
        let n = work.prox.get();
        if let Some((lt, ln)) = last {
            if ln > n {
                return viol(
                    format!("{}:looser-costs-more", m.name()),
                    format!("{ln} updates with tolerance {lt:e}, {n} with {tol:e}; {}", full(&pr, &m, &Knobs { tol, ..k }, st, Route::Solver)),
                );
            }
            c.count("tolerance pairs", 1);
            if ln < n {
                c.count("tolerance pairs with different work", 1);
                c.nontrivial((ln, n, bits(&[lt, tol])));
            }
        }
        last = Some((tol, n));
    }
    Ok(())
}

fn main() {
    let rep = Report::new("C25", "distinct fits whose coordinate updates were counted");
    rep.cases(1, rep.n(8000, 500_000), budgets);
    rep.cases(2, rep.n(4000, 300_000), satisfied_at_zero);
    rep.cases(3, rep.n(1500, 80_000), stops);
    rep.cases(4, rep.n(1000, 60_000), looser);
    rep.finish(
        &[("budgets observed", 2000), ("budget used up to the last update", 100), ("zero budget", 200),
          ("no work when zero satisfies the tolerance", 500), ("work when zero misses the tolerance", 200),
          ("no work past the tolerance", 300), ("descent stopped after reaching the tolerance", 30),
          ("tolerance pairs with different work", 500)],
        &["One coordinate update is one call of the penalty's proximal operator by the solver",
          "Inside one iteration over all features, stopping within 30 epochs of meeting the tolerance counts as stopping"],
    );
}
