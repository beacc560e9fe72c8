//! C04: more budget never worsens the objective.
use vh::fit::*;
use vh::gen::{self, Prob, Size};
use vh::optim::*;
use vh::refm::{self, Model};
use vh::rep::{viol, Case, Report, Viol};
use vh::rng::Rng;

/// Rounding slack of the objective at w: the solver decides on computed values.
fn slack(m: &Model, pr: &Prob, w: &[f64], f: f64) -> f64 {
    let xw = refm::xw(pr, w);
    let n = pr.n as f64;
    let mag: f64 = pr.y.iter().zip(&xw).map(|(y, v)| (y.abs() + v.abs()).powi(2)).sum::<f64>() / (2.0 * n);
    let mag = if m.df == refm::Df::Logit { 1.0 + xw.iter().map(|v| v.abs()).sum::<f64>() / n } else { mag };
    1e-12 * (mag + f.abs())
}

fn history(c: &Case, pr: &Prob, m: &Model, k0: &Knobs, st: Storage, rt: Route, over_epochs: bool, top: usize) -> Result<(), Viol> {
    let mut best: Option<(f64, Vec<f64>, usize)> = None;
    let mut drops = 0;
    let mut trace = vec![];
    for b in 0..=top {
        let k = if over_epochs { Knobs { iters: 1, epochs: b, ..*k0 } } else { Knobs { iters: b, ..*k0 } };
        let w = match fit64(pr, m, &k, st, rt) {
            Ok(w) => w,
            Err(e) => return viol(format!("{}:fit-failed", m.name()), format!("{} in {}", e.0, full(pr, m, &k, st, rt))),
        };
        let f = refm::objective(m, pr, &w);
        trace.push(f);
        c.count("points-judged", 1);
        if let Some((fp, wp, bp)) = &best {
            let sl = slack(m, pr, &w, f) + slack(m, pr, wp, *fp);
            if !(f <= fp + sl) {
                return viol(
                    format!("{}:objective-rose", m.name()),
                    format!(
                        "objective {f:e} with budget {b}, {fp:e} with budget {bp} (slack {sl:e}); history over {}: {trace:?}; w={w:?} before={wp:?}; {}",
                        if over_epochs { "epochs" } else { "outer iterations" },
                        full(pr, m, &k, st, rt)
                    ),
                );
            }
            if f < fp - sl {
                drops += 1;
            }
            if w == *wp && b > 30 {
                break;
            }
        }
        best = Some((f, w, b));
    }
    c.count("strict-decreases", drops);
    c.count(if over_epochs { "epoch-histories" } else { "iteration-histories" }, 1);
    if drops >= 2 {
        c.nontrivial((bits(&trace), format!("{k0:?}")));
    }
    c.sample(|| format!("{} drops={drops} trace={:?}", describe(pr, m, k0, st, rt), trace));
    Ok(())
}

/// Strongly correlated design: extrapolation is aggressive here.
fn hard(r: &mut Rng, multi: bool) -> (Prob, Model) {
    let (df, tag) = any_model(r, Kind::Any, multi);
    let p = r.int(2, 20);
    let n = r.int(3, 40);
    let fam = *r.pick(&["corr", "corr", "offset", "scaled", "dup"]);
    let t = if multi { r.int(1, 4) } else { 1 };
    let mut pr = gen::fixed(r, fam, n, p, t);
    if df == refm::Df::Logit {
        gen::labels(r, &mut pr);
    }
    let m = with_pen(r, &pr, df, tag, multi);
    (pr, m)
}

fn main() {
    let rep = Report::new(
        "C04",
        "random problems x models x knobs; the history of a fit is recorded by re-running it with every truncated budget \
         (epochs 0..E of a one-iteration fit, or outer iterations 0..M), and an offline checker requires the reference \
         objective to be non-increasing. Non-trivial: histories with at least two strict decreases (distinct by trace)",
    );
    let s = Size { nmax: 30, pmax: 25, tmax: 4 };
    for (stream, easy) in [(1u64, true), (2, false)] {
        rep.cases(stream, rep.n(4000, 150000), |r, c| {
            let multi = r.bool(0.35);
            let (pr, m) = if easy { any_problem(r, Kind::Any, multi, s) } else { hard(r, multi) };
            let mut k = Knobs::random(r, pr.p).capped(&pr);
            k.accel = r.bool(0.9);
            k.tol = *r.pick(&[0.0, 1e-10, 1e-6]);
            if r.bool(0.5) {
                k.ws = pr.p;
            }
            let top = *r.pick(&[14, 26, 45]);
            history(c, &pr, &m, &k, any_storage(r), any_route(r), true, top)
        });
    }
    for (stream, easy) in [(3u64, true), (4, false)] {
        rep.cases(stream, rep.n(3000, 100000), |r, c| {
            let multi = r.bool(0.35);
            let (pr, m) = if easy { any_problem(r, Kind::Any, multi, s) } else { hard(r, multi) };
            let mut k = Knobs::random(r, pr.p).capped(&pr);
            k.accel = r.bool(0.9);
            k.tol = *r.pick(&[0.0, 1e-10, 1e-6]);
            k.epochs = *r.pick(&[1, 2, 3, 6, 7, 11, 12, 25, 50]);
            let top = r.int(4, 12);
            history(c, &pr, &m, &k, any_storage(r), any_route(r), false, top)
        });
    }
    rep.finish(
        &[("strict-decreases", 2000), ("epoch-histories", 300), ("iteration-histories", 200)],
        &["fits are deterministic (C18), so truncated budgets replay the same history", "objective recomputed in compensated f64; slack 1e-12 x magnitude"],
    );
}
