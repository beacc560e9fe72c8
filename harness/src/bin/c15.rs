//! C15: acceleration never needs materially more work, and pays off.
use std::collections::BTreeMap;
use std::sync::Mutex;
use vh::fit::*;
use vh::gen::{self, Prob};
use vh::mon::work_fit;
use vh::optim::{finite, full};
use vh::refm::*;
use vh::rep::{viol, Report, Viol};
use vh::rng::Rng;

fn problem(r: &mut Rng) -> (Prob, Model, f64) {
    let multi = r.bool(0.35);
    let p = r.int(5, 30);
    let n = 3 * p + r.int(0, 30);
    let t = if multi { r.int(2, 4) } else { 1 };
    let mut pr = gen::fixed(r, "corr", n, p, t);
    // a common factor on top of the neighbouring correlations
    let rho: f64 = *r.pick(&[0.0, 0.5, 0.9]);
    for i in 0..n {
        let z = r.gauss();
        for j in 0..p {
            pr.x[i * p + j] = rho * z + (1.0 - rho * rho).sqrt() * pr.x[i * p + j];
        }
    }
    let df = if !multi && r.bool(0.3) {
        gen::labels(r, &mut pr);
        Df::Logit
    } else {
        Df::Quad
    };
    let amax = alpha_max(df, &pr);
    let a = amax * r.logu(1e-4, 1e-1);
    let pen = if r.bool(0.5) { Pen::L1 { a } } else { Pen::L1L2 { a, r: r.range(0.1, 1.0) } };
    (pr, Model { df, pen, multi }, amax)
}

fn main() {
    let rep = Report::new("C15", "pairs of fits (accelerated, plain) with a distinct problem in which the plain fit made at least 50 coordinate passes");
    let ratios: Mutex<BTreeMap<String, Vec<f64>>> = Mutex::new(BTreeMap::new());
    for (stream, small_ws) in [(1u64, false), (2, true)] {
        rep.cases(stream, rep.n(if small_ws { 300 } else { 1000 }, if small_ws { 5000 } else { 20000 }), |r, c| {
            let (pr, m, amax) = problem(r);
            if amax == 0.0 {
                return Ok(());
            }
            let k = Knobs {
                ws: if small_ws { *r.pick(&[3, 5, 10]) } else { pr.p + r.int(0, 2) },
                iters: 50,
                epochs: 20000,
                tol: 1e-8 * amax * *r.pick(&[1.0, 100.0]),
                k: *r.pick(&[5, 5, 4, 6, 7]),
                accel: true,
                verbose: false,
            };
            let st = *r.pick(&[Storage::F, Storage::C, Storage::Csc]);
            let mut passes = [0.0; 2];
            for (i, accel) in [(1, false), (0, true)] {
                let kk = Knobs { accel, ..k };
                let (w, work) = match work_fit::<f64>(&pr, &m, &kk, st, 15000 * pr.p as u64) {
                    Ok(x) => x,
                    Err(e) if e.0.contains("work limit") && !accel => {
                        c.count("plain-too-long", 1);
                        return Ok(());
                    }
                    Err(e) => return viol(format!("{}:fit-failed", m.name()), format!("{} {}", e.0, full(&pr, &m, &kk, st, Route::Solver))),
                };
                let kkt = kkt(&m, &pr, &w, 4e-12);
                // only compare fits that reached the tolerance
                if !finite(&w) || kkt.excess > k.tol * (1.0 + 1e-6) {
                    c.count(if accel { "accelerated-unfinished" } else { "plain-unfinished" }, 1);
                    if accel {
                        // judged below: unfinished with acceleration while plain finishes is a violation
                        passes[i] = f64::INFINITY;
                        continue;
                    }
                    return Ok(());
                }
                passes[i] = work.prox.get() as f64 / pr.p as f64;
            }
            let (a, pl) = (passes[0], passes[1]);
            // one extrapolation period and a few checks are free; the working sets grown may differ
            let allow = if small_ws { 2.0 * pl + 100.0 } else { 1.25 * pl + 25.0 };
            if a > allow {
                return viol(
                    format!("{}:more-work", m.name()),
                    format!("accelerated fit needed {a:.1} passes, plain fit {pl:.1}: {}", full(&pr, &m, &k, st, Route::Solver)),
                );
            }
            c.count("pairs", 1);
            c.count(&format!("model {}", m.name()), 1);
            if pl >= 50.0 {
                c.nontrivial((bits(&pr.x), k.k));
            }
            if pl >= 300.0 && !small_ws {
                let key = format!("{}", if m.multi { "multi-task" } else if m.df == Df::Logit { "logistic" } else { "quadratic" });
                ratios.lock().unwrap().entry(format!("{key} K={}", k.k)).or_default().push(a / pl);
            }
            c.sample(|| format!("{} {k:?}: accelerated {a:.1} passes, plain {pl:.1}", pr.short()));
            Ok(())
        });
    }
    for (key, v) in ratios.into_inner().unwrap() {
        if v.len() < 10 {
            continue;
        }
        let g = (v.iter().map(|x| x.ln()).sum::<f64>() / v.len() as f64).exp();
        rep.note(format!("{key}: {} problems of at least 300 plain passes, geometric mean of passes accelerated/plain = {g:.3}", v.len()));
        rep.count("aggregates", 1);
        if g > 0.6 {
            rep.violation(
                9,
                0,
                Viol {
                    sig: format!("{key}:no-speedup"),
                    detail: format!("{key}: over {} ill-conditioned problems acceleration uses {g:.3} of the plain passes in geometric mean", v.len()),
                },
            );
        }
    }
    rep.finish(
        &[("pairs", 500), ("aggregates", 6)],
        &["'Slightly more' is read as at most 25 % plus 25 passes when the working set holds every feature (100 % plus 100 otherwise); 'clearly fewer' as a geometric mean of at most 0.6 over problems needing at least 300 plain passes",
          "A pass is p coordinate updates counted in transparent wrappers of datafit and penalty"],
    );
}
