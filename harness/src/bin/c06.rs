//! C06: performance knobs never change the answer.
use vh::fit::*;
use vh::gen::{self, Size};
use vh::optim::*;
use vh::refm;
use vh::rep::{viol, Report};

fn main() {
    let rep = Report::new(
        "C06",
        "strongly convex problems solved under several settings of working-set size, K, acceleration, tolerance and budgets; \
         all settings that stop by themselves must agree within the bound that strong convexity gives for their tolerances. \
         Non-trivial: pairs of different settings that agree on a non-zero solution (distinct by coefficients)",
    );
    let s = Size { nmax: 60, pmax: 20, tmax: 4 };
    for (stream, n, well) in [(1u64, rep.n(1500, 60000), true), (2, rep.n(1500, 60000), false)] {
        rep.cases(stream, n, |r, c| {
            let multi = r.bool(0.35);
            let (pr, m) = if well {
                convex_well(r, multi, 14, 4)
            } else {
                let kind = if multi { Kind::ConvexM } else { Kind::Convex1 };
                let (df, tag) = any_model(r, kind, multi);
                let fam = *r.pick(&["gauss", "corr", "scaled", "tall", "offset", "sparse"]);
                let mut pr = gen::family(r, fam, Size { tmax: if multi { 4 } else { 1 }, ..s });
                if df == refm::Df::Logit {
                    gen::labels(r, &mut pr);
                }
                let m = with_pen(r, &pr, df, tag, multi);
                (pr, m)
            };
            let st = any_storage(r);
            let rt = any_route(r);
            let base = if well { Knobs { tol: 1e-9, ..Knobs::default() } } else { Knobs { tol: 1e-8, iters: 100, ..Knobs::default() }.capped(&pr) };
            let mut refs: Option<(Vec<f64>, Knobs)> = None;
            for i in 0..5 {
                let k = if i == 0 {
                    base
                } else {
                    Knobs {
                        ws: *r.pick(&[1, 2, 3, 5, 10, pr.p, pr.p + 1, 2 * pr.p + 7]),
                        k: r.int(1, 12),
                        accel: r.bool(0.6),
                        tol: *r.pick(&[1e-9, 1e-8, 1e-6, 1e-4]),
                        ..base
                    }
                };
                let (w, stopped) = match fit_stopped::<f64>(&pr, &m, &k, st, rt) {
                    Ok(x) => x,
                    Err(e) => return viol(format!("{}:fit-failed", m.name()), format!("{} in {}", e.0, full(&pr, &m, &k, st, rt))),
                };
                if !stopped {
                    c.count("did not stop by itself", 1);
                    if well {
                        return viol(
                            format!("{}:setting-does-not-converge", m.name()),
                            format!("well-conditioned problem not solved; {}", full(&pr, &m, &k, st, rt)),
                        );
                    }
                    continue;
                }
                match &refs {
                    None => refs = Some((w, k)),
                    Some((w0, k0)) => {
                        let Some(b) = pair_bound(&pr, &m, w0, &w, k0.tol, k.tol) else {
                            c.count("not strongly convex", 1);
                            return Ok(());
                        };
                        let d = dist(w0, &w);
                        if !(d <= b) {
                            return viol(
                                format!("{}:settings-disagree", m.name()),
                                format!("distance {d:e} > bound {b:e}: {w0:?} with {k0:?}, {w:?} with {k:?}; {}", full(&pr, &m, &k, st, rt)),
                            );
                        }
                        let size = refm::norm(&w).max(refm::norm(w0));
                        c.count("pairs", 1);
                        if b < 1e-2 * size {
                            c.count("informative pairs (bound below 1% of the solution)", 1);
                            c.nontrivial(bits(&w));
                        }
                        if d > 0.0 {
                            c.count("pairs with different bits", 1);
                        }
                        c.sample(|| format!("{} vs {k0:?}: distance {d:.2e} bound {b:.2e}", describe(&pr, &m, &k, st, rt)));
                    }
                }
            }
            Ok(())
        });
    }
    rep.finish(
        &[("informative pairs (bound below 1% of the solution)", 1000), ("pairs with different bits", 500)],
        &["strong convexity modulus from the smallest Gram eigenvalue"],
    );
}
