//! C13: the maximal regularisation is the exact threshold of the null model.
use ndarray::{Array1, Array2};
use sparseglm::utils::helpers::{compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse};
use vh::fit::*;
use vh::gen::{self, Prob, Size};
use vh::optim::{full, describe};
use vh::refm::{self, Df, Model, Pen};
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

/// all helper variants that apply: (name, value)
fn helpers<F: Fl>(pr: &Prob, multi: bool, dense: Storage, sparse: Storage) -> Result<Vec<(&'static str, f64)>, String> {
    guard(|| {
        let x = DenseBuf::<F>::new(pr.n, pr.p, &pr.x, dense);
        let ys = DenseBuf::<F>::new(pr.n, pr.t, &pr.y, dense);
        let mut out = vec![];
        if multi {
            out.push(("compute_alpha_max_mtl", up(compute_alpha_max_mtl(x.view(), ys.view()))));
            let y = Array2::from_shape_vec((pr.n, pr.t), pr.y.iter().map(|v| F::cast(*v)).collect()).unwrap();
            out.push(("compute_alpha_max_mtl (row-major)", up(compute_alpha_max_mtl(x.view(), y.view()))));
        } else {
            let csc = CscBuf::<F>::new(pr, sparse);
            let yv = ys.view();
            let y1 = yv.index_axis(ndarray::Axis(1), 0);
            out.push(("compute_alpha_max", up(compute_alpha_max(x.view(), y1))));
            out.push(("compute_alpha_max_sparse", up(compute_alpha_max_sparse(&csc.view(), y1))));
            let y = Array1::from(pr.y.iter().map(|v| F::cast(*v)).collect::<Vec<F>>());
            out.push(("compute_alpha_max_sparse (owned)", up(compute_alpha_max_sparse(&csc.view(), y.view()))));
        }
        out
    })
}

fn run<F: Fl>(r: &mut Rng, c: &Case, u: f64) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let mut pr = gen::any(r, Size { nmax: 40, pmax: 25, tmax: if multi { 5 } else { 1 } });
    if u > 1e-10 {
        pr = pr.to_f32();
    }
    if r.bool(0.25) {
        // other units (exact)
        let e = if u > 1e-10 { 16 } else { 60 };
        let (a, b) = (r.int(0, 2 * e) as i32 - e as i32, r.int(0, 2 * e) as i32 - e as i32);
        pr.x.iter_mut().for_each(|v| *v *= 2f64.powi(a));
        pr.y.iter_mut().for_each(|v| *v *= 2f64.powi(b));
        c.count("problems in other units", 1);
    }
    let (sd, ss) = (*r.pick(DENSE), *r.pick(SPARSE));
    let hs = match helpers::<F>(&pr, multi, sd, ss) {
        Ok(h) => h,
        Err(e) => return viol("helper-panic", format!("PANIC: {e}; {}", pr.dump())),
    };
    let truth = refm::alpha_max(Df::Quad, &pr);
    // size of the numbers entering the correlations
    let scale = (0..pr.p)
        .map(|j| {
            let s: Vec<f64> = (0..pr.t).map(|k| (0..pr.n).map(|i| (pr.xij(i, j) * pr.yit(i, k)).abs()).sum::<f64>()).collect();
            refm::norm(&s) / pr.n as f64
        })
        .fold(0.0f64, f64::max);
    let slack = 8.0 * (pr.n as f64 + pr.t as f64 + 8.0) * u * scale;
    for (name, h) in &hs {
        if !((h - truth).abs() <= slack) {
            return viol("helper-value", format!("{name} = {h:e}, largest correlation norm {truth:e} (allowance {slack:e}); {}", pr.dump()));
        }
        c.count(name, 1);
    }
    let (name, amax) = *r.pick(&hs);
    let tag = r.int(0, 2);
    let ratio = gen::ratio(r).max(1e-4) as f32 as f64;
    let thr = if tag == 1 { amax / ratio } else { amax };
    let slack_a = if tag == 1 { slack / ratio } else { slack };
    let pen = |a: f64| match tag {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: ratio },
        _ => Pen::Mcp { a, g: 3.0 },
    };
    let gamma = *r.pick(&[1.0, 1.5, 3.0, 3.0, 20.0]);
    let pen = |a: f64| match pen(a) {
        Pen::Mcp { a, .. } => Pen::Mcp { a, g: gamma },
        p => p,
    };
    let st = if r.bool(0.5) { sd } else { ss };
    let rt = *r.pick(&[Route::Est, Route::EstChecked, Route::Solver]);
    let k = Knobs {
        ws: *r.pick(&[1, 2, 5, 10, pr.p]),
        iters: r.int(1, 5),
        epochs: *r.pick(&[1, 5, 50]),
        k: r.int(1, 6),
        accel: r.bool(0.7),
        ..Knobs::default()
    };
    // above (any tolerance), exactly at (a tolerance above rounding), below
    let mode = r.int(0, 2);
    let (a, tol) = match mode {
        0 => (thr + slack_a * r.range(1.0, 2.0) + thr * *r.pick(&[0.0, 1e-6, 0.1, 3.0]), *r.pick(&[0.0, 1e-12, 1e-6, 1e-3])),
        1 => (thr, (slack * 2.0).max(*r.pick(&[0.0, 1e-6 * thr]))),
        _ => (thr * *r.pick(&[0.999, 0.99, 0.9, 0.5, 0.1, 0.01]), 0.0),
    };
    let gap = truth - a * if tag == 1 { ratio } else { 1.0 };
    let tol = if mode == 2 { 0.45 * (gap - slack).max(0.0) * *r.pick(&[1.0, 0.1, 0.0]) } else { tol };
    if mode == 2 && !(gap > 20.0 * slack) {
        c.count("skipped: below the threshold by less than rounding", 1);
        return Ok(());
    }
    let m = Model { df: Df::Quad, pen: pen(a), multi };
    let k = Knobs { tol, ..k };
    let w = match fit::<F>(&pr, &m, &k, st, rt) {
        Ok(w) => w,
        Err(e) => return viol("fit-failed", format!("{} in {}", e.0, full(&pr, &m, &k, st, rt))),
    };
    let zero = w.iter().all(|v| *v == 0.0);
    let what = || format!("{name} gives {amax:e}, threshold {thr:e}, alpha {a:e}; coefficients {w:?}; {}", full(&pr, &m, &k, st, rt));
    if mode < 2 && !zero {
        return viol(format!("{}:non-zero-above-threshold", m.name()), what());
    }
    if mode == 2 && zero {
        return viol(format!("{}:zero-below-threshold", m.name()), what());
    }
    c.count(["fits above the threshold", "fits exactly at the threshold", "fits below the threshold"][mode], 1);
    c.count(&format!("{}{}", m.name(), if st.sparse() { " csc" } else { "" }), 1);
    if truth > 0.0 {
        c.nontrivial((truth.to_bits(), mode, tag));
    }
    c.sample(|| format!("{} alpha/threshold={:.6} zero={zero}", describe(&pr, &m, &k, st, rt), a / thr));
    Ok(())
}

fn main() {
    let rep = Report::new(
        "C13",
        "the helpers on random data against the largest correlation norm, and fits above, exactly at and below the threshold \
         they report. Non-trivial: distinct (non-zero threshold, side, penalty)",
    );
    rep.cases(1, rep.n(40_000, 1_500_000), |r, c| run::<f64>(r, c, 1.2e-16));
    rep.cases(2, rep.n(20_000, 700_000), |r, c| run::<f32>(r, c, 6.0e-8));
    // more than 65536 samples or features
    rep.cases(3, rep.n(24, 800), |r, c| gen::with_giants(|| run::<f64>(r, c, 1.2e-16)).map(|_| c.count("giant problems", 1)));
    rep.finish(
        &[
            ("fits above the threshold", 8000),
            ("giant problems", 20),
            ("fits exactly at the threshold", 8000),
            ("fits below the threshold", 8000),
            ("lasso csc", 1000),
            ("mt-lasso csc", 500),
            ("block-mcp", 500),
        ],
        &["exactly at the threshold the tolerance exceeds the rounding error of the correlations"],
    );
}
