//! C16: every valid fit completes with finite coefficients of the right shape.
use vh::fit::*;
use vh::gen::{self, Prob};
use vh::mon::work_fit;
use vh::optim::{any_route, any_storage, finite, full, well_knobs, well_problem, Kind};
use vh::refm::*;
use vh::rep::{viol, Case, Report, Viol};
use vh::rng::Rng;

fn model(r: &mut Rng, multi: bool, amax: f64) -> Model {
    let base = if amax > 0.0 { amax } else { 1.0 };
    let a = match r.int(0, 9) {
        0 | 1 => 0.0,
        2 => base,
        3 => base * 1e3,
        4 => base * 1e-9,
        5 => 1.0,
        6 => r.logu(1e-4, 1e4),
        _ => base * r.logu(1e-4, 1.0),
    };
    let df = if !multi && r.bool(0.3) { Df::Logit } else { Df::Quad };
    let pen = match r.int(0, if multi { 2 } else { 3 }) {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: gen::ratio(r) },
        2 => Pen::Mcp { a, g: if r.bool(0.7) { *r.pick(&[1.0, 1.0 + 1e-12, 1.5, 3.0, 30.0, 1e6, 1e15]) } else { gen::gamma(r) } },
        _ => Pen::L05 { a },
    };
    Model { df, pen, multi }
}
fn knobs(r: &mut Rng) -> Knobs {
    Knobs {
        ws: *r.pick(&[1, 1, 2, 3, 10, 10, 100, usize::MAX]),
        iters: *r.pick(&[0, 1, 2, 10, 50, 50, 50]),
        epochs: *r.pick(&[0, 1, 2, 11, 12, 30, 200, 200, 1000]),
        tol: *r.pick(&[0.0, 1e-300, 1e-12, 1e-8, 1e-4, 1.0, 1e30]),
        k: *r.pick(&[1, 1, 2, 3, 5, 5, 9, 20, 64]),
        accel: r.bool(0.85),
        verbose: false,
    }
}

fn one<F: Fl>(r: &mut Rng, c: &Case, single: bool) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let mut pr: Prob = gen::hostile(r, if multi { 6 } else { 1 }, single);
    if single {
        pr = pr.to_f32();
    }
    let m0 = model(r, multi, 1.0);
    if m0.df == Df::Logit {
        gen::labels(r, &mut pr);
    }
    let amax = alpha_max(m0.df, &pr);
    let m1 = model(r, multi, amax);
    let m = Model { df: m0.df, ..m1 };
    let mut k = knobs(r);
    // keep one case short; the budget is not the point here
    while k.iters * k.epochs * pr.p * pr.n * pr.t > 40_000_000 {
        k.iters = (k.iters / 2).max(1);
        k.epochs = (k.epochs / 2).max(1);
    }
    let (st, route) = (any_storage(r), any_route(r));
    let what = std::any::type_name::<F>();
    let w = match fit::<F>(&pr, &m, &k, st, route) {
        Ok(w) => w,
        Err(e) => return viol(format!("{}:{what}:fit-failed", m.name()), format!("{what}: {} in {}", e.0, full(&pr, &m, &k, st, route))),
    };
    if !finite(&w) {
        return viol(format!("{}:{what}:non-finite", m.name()), format!("{what}: coefficients {w:?} in {}", full(&pr, &m, &k, st, route)));
    }
    if w.len() != pr.p * pr.t {
        return viol(format!("{}:{what}:shape", m.name()), format!("{what}: {} coefficients in {}", w.len(), full(&pr, &m, &k, st, route)));
    }
    c.count(&format!("{what} {}", m.name()), 1);
    for (name, cond) in [
        ("one sample", pr.n == 1),
        ("one feature", pr.p == 1),
        ("fewer features than K", pr.p < k.k),
        ("working set larger than p", k.ws > pr.p),
        ("alpha zero", m.alpha() == 0.0),
        ("all-zero y", pr.y.iter().all(|v| *v == 0.0)),
        ("zero column", (0..pr.p).any(|j| pr.col(j).iter().all(|v| *v == 0.0))),
        ("non-zero result", w.iter().any(|v| *v != 0.0)),
        ("tolerance zero", k.tol == 0.0),
    ] {
        if cond {
            c.count(name, 1);
        }
    }
    if w.iter().any(|v| *v != 0.0) {
        c.nontrivial((bits(&w), format!("{k:?}")));
    }
    c.sample(|| format!("{what} {} {m:?} {k:?} {st:?} {route:?} -> {} non-zero", pr.short(), w.iter().filter(|v| **v != 0.0).count()));
    Ok(())
}

fn main() {
    let rep = Report::new("C16", "fits with distinct data, knobs and non-zero coefficients");
    rep.cases(1, rep.n(12000, 1_500_000), |r, c| one::<f64>(r, c, false));
    rep.cases(2, rep.n(12000, 1_500_000), |r, c| one::<f32>(r, c, true));
    // more than 65536 samples or features
    rep.cases(4, rep.n(16, 800), |r, c| gen::with_giants(|| if r.bool(0.5) { one::<f64>(r, c, false) } else { one::<f32>(r, c, true) }).map(|_| c.count("giant problems", 1)));
    // unlimited budgets on easy problems: the fit must stop by itself
    rep.cases(3, rep.n(600, 20000), |r, c| {
        let multi = r.bool(0.4);
        let (pr, m) = well_problem(r, Kind::Any, multi, 12, 4);
        let mut k = well_knobs(r, pr.p);
        k.iters = usize::MAX;
        k.epochs = usize::MAX;
        k.tol = 1e-7 * alpha_max(m.df, &pr).max(1e-3);
        let st = any_storage(r);
        match work_fit::<f64>(&pr, &m, &k, st, 50_000 * pr.p as u64) {
            Ok((w, _)) if finite(&w) => {
                c.count("unlimited budgets", 1);
                Ok(())
            }
            Ok((w, _)) => viol(format!("{}:non-finite", m.name()), format!("{w:?} in {}", full(&pr, &m, &k, st, Route::Solver))),
            Err(e) => viol(format!("{}:unlimited-budget", m.name()), format!("{} in {}", e.0, full(&pr, &m, &k, st, Route::Solver))),
        }
    });
    rep.finish(
        &[("evaluations", 20000), ("unlimited budgets", 100), ("one sample", 200), ("one feature", 200), ("fewer features than K", 1000), ("alpha zero", 500),
          ("working set larger than p", 1000), ("all-zero y", 100), ("zero column", 500), ("non-zero result", 3000)],
        &["Magnitudes are such that squares, and squares of target/column ratios, are representable",
          "Overflow checks and debug assertions of sparseglm and ndarray are on"],
    );
}
