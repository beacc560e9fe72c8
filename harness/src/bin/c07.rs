//! C07: CSC and dense storage of the same matrix agree.
use ndarray::{Array1, Array2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::DatasetBase;
use sparseglm::utils::helpers::{compute_alpha_max, compute_alpha_max_mtl, compute_alpha_max_sparse};
use vh::fit::*;
use vh::gen::{self, Prob, Size};
use vh::optim::*;
use vh::refm::{self, Df, Model, Pen};
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

/// sparse-friendly data, with empty columns now and then
fn problem(r: &mut Rng, multi: bool) -> Prob {
    let s = Size { nmax: 30, pmax: 20, tmax: if multi { 4 } else { 1 } };
    let fam = *r.pick(&["sparse", "sparse", "vsparse", "onehot", "gauss", "scaled", "dup", "int", "tiny"]);
    let mut pr = gen::family(r, fam, s);
    if r.bool(0.3) {
        let j = r.int(0, pr.p - 1);
        for i in 0..pr.n {
            pr.x[i * pr.p + j] = 0.0;
        }
    }
    pr
}

fn close(a: f64, b: f64, scale: f64, eps: f64) -> bool {
    a == b || (a - b).abs() <= eps * scale
}

fn quantities<F: Fl>(r: &mut Rng, c: &Case, eps: f64) -> Result<(), Viol> {
    let multi = r.bool(0.35);
    let mut pr = problem(r, multi);
    // roundings: one per term of a sum, and a few more
    let eps = eps * (64.0 + pr.n as f64);
    let df = if !multi && r.bool(0.5) { Df::Logit } else { Df::Quad };
    if df == Df::Logit {
        gen::labels(r, &mut pr);
    }
    if eps > 1e-10 {
        pr = pr.to_f32();
    }
    let st = *r.pick(SPARSE);
    let sc = *r.pick(&[0.0, 1.0, 1.0, 30.0]);
    let xw: Vec<f64> = (0..pr.n * pr.t).map(|_| (sc * r.gauss()) as f32 as f64).collect();
    let x = DenseBuf::<F>::new(pr.n, pr.p, &pr.x, *r.pick(&[Storage::C, Storage::F, Storage::Strided]));
    let csc = CscBuf::<F>::new(&pr, st);
    let cast = |v: &Vec<f64>| -> Vec<F> { v.iter().map(|z| F::cast(*z)).collect() };
    let (p, n, t) = (pr.p, pr.n, pr.t);
    let upv = |v: Vec<F>| -> Vec<f64> { v.into_iter().map(up).collect() };
    let got = guard(|| {
        if multi {
            let y = Array2::from_shape_vec((n, t), cast(&pr.y)).unwrap();
            let f = Array2::from_shape_vec((n, t), cast(&xw)).unwrap();
            let dd = DatasetBase::from((x.view(), y.view()));
            let ds = DatasetBase::from((csc.view(), y.view()));
            let (mut a, mut b) = (QuadraticMultiTask::<F>::new(), QuadraticMultiTask::<F>::new());
            a.initialize(&dd);
            b.initialize(&ds);
            let one = |l: ndarray::ArrayView1<F>, v: F, g: Array2<F>, j: Vec<F>| {
                (upv(l.to_vec()), up(v), upv(g.iter().copied().collect()), upv(j))
            };
            let ra = one(
                MultiTaskDatafit::<F, ndarray::ArrayView2<F>, ndarray::ArrayView2<F>>::step_size(&a),
                a.value(&dd, f.view()),
                a.full_grad(&dd, f.view()),
                (0..p).flat_map(|j| a.gradient_j(&dd, f.view(), j).to_vec()).collect(),
            );
            let rb = one(
                MultiTaskDatafit::<F, ndarray::ArrayView2<F>, ndarray::ArrayView2<F>>::step_size(&b),
                b.value(&ds, f.view()),
                b.full_grad(&ds, f.view()),
                (0..p).flat_map(|j| b.gradient_j(&ds, f.view(), j).to_vec()).collect(),
            );
            let xa: Vec<f64> = upv(a.XtY().iter().copied().collect());
            let xb: Vec<f64> = upv(b.XtY().iter().copied().collect());
            let am = up(compute_alpha_max_mtl(x.view(), y.view()));
            let ax = refm::alpha_max(Df::Quad, &pr);
            (ra, rb, xa, xb, am, ax)
        } else {
            let y = Array1::from(cast(&pr.y));
            let f = Array1::from(cast(&xw));
            let dd = DatasetBase::from((x.view(), y.view()));
            let ds = DatasetBase::from((csc.view(), y.view()));
            macro_rules! q {
                ($df:expr, $ds:expr) => {{
                    let mut d = $df;
                    Datafit::<F, _, _>::initialize(&mut d, &$ds);
                    let v = up(d.value(&$ds, f.view()));
                    let g = upv(d.full_grad(&$ds, f.view()).to_vec());
                    let j = upv((0..p).map(|j| d.gradient_j(&$ds, f.view(), j)).collect());
                    let l = Datafit::<F, ndarray::ArrayView2<F>, ndarray::ArrayView1<F>>::step_size(&d).to_vec();
                    (upv(l), v, g, j)
                }};
            }
            let (ra, rb) = match df {
                Df::Quad => (q!(Quadratic::<F>::new(), dd), q!(Quadratic::<F>::new(), ds)),
                Df::Logit => (q!(Logistic::<F>::new(), dd), q!(Logistic::<F>::new(), ds)),
            };
            let am = up(compute_alpha_max(x.view(), y.view()));
            let ax = up(compute_alpha_max_sparse(&csc.view(), y.view()));
            (ra, rb, vec![], vec![], am, ax)
        }
    });
    let what = || format!("{df:?} multi={multi} {st:?} f{} fit={xw:?}\n{}", if eps > 1e-10 { 32 } else { 64 }, pr.dump());
    let (a, b, xa, xb, am, ax) = match got {
        Ok(g) => g,
        Err(e) => return viol("quantity-panic", format!("PANIC: {e}; {}", what())),
    };
    let big = |v: &[f64]| v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    let col: Vec<f64> = (0..p).map(|j| pr.col(j).iter().map(|v| v.abs()).sum::<f64>()).collect();
    let fm = big(&xw) + big(&pr.y);
    for j in 0..p {
        if !close(a.0[j], b.0[j], a.0[j].abs(), eps) || (b.0[j] == 0.0) != (a.0[j] == 0.0) {
            return viol("step-constants-differ", format!("feature {j}: dense {:e}, sparse {:e}; {}", a.0[j], b.0[j], what()));
        }
    }
    if a.0.len() != p || b.0.len() != p {
        return viol("step-constants-length", what());
    }
    if !close(a.1, b.1, a.1.abs() + if df == Df::Quad { 0.0 } else { 1.0 }, eps) {
        return viol("values-differ", format!("dense {:e}, sparse {:e}; {}", a.1, b.1, what()));
    }
    for (name, ga, gb) in [("full gradients", &a.2, &b.2), ("coordinate gradients", &a.3, &b.3)] {
        for j in 0..p {
            for k in 0..t {
                let sc = col[j] * if df == Df::Quad { fm } else { 1.0 };
                if !close(ga[j * t + k], gb[j * t + k], sc, eps) {
                    let d = format!("{name}, feature {j} task {k}: dense {:e}, sparse {:e}; {}", ga[j * t + k], gb[j * t + k], what());
                    return viol("gradients-differ", d);
                }
            }
        }
    }
    for i in 0..xa.len().max(xb.len()) {
        if xa.len() != xb.len() || !close(xa[i], xb[i], col[i / t] * big(&pr.y), eps) {
            return viol("xty-differs", format!("{xa:?} {xb:?}; {}", what()));
        }
    }
    if !close(am, ax, col.iter().fold(0.0, |m: f64, v| m.max(*v)) * big(&pr.y) * (t as f64), eps) {
        return viol("alpha-max-differs", format!("dense {am:e}, sparse/reference {ax:e}; {}", what()));
    }
    c.count("quantity comparisons", 1);
    if a.2.iter().any(|v| *v != 0.0) && pr.nnz() < n * p {
        c.nontrivial((bits(&a.2), st as u8));
    }
    c.sample(|| format!("{} {df:?} {st:?} value {:e}/{:e} alpha_max {am:e}/{ax:e}", pr.short(), a.1, b.1));
    Ok(())
}

fn trajectory(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    // the first passes of a fit do not amplify rounding: compare iterates directly
    let multi = r.bool(0.35);
    let kind = if multi { Kind::ConvexM } else { Kind::Convex1 };
    let (df, tag) = any_model(r, kind, multi);
    let fam = *r.pick(&["sparse", "vsparse", "gauss", "scaled"]);
    let mut pr = gen::family(r, fam, Size { nmax: 30, pmax: 20, tmax: if multi { 4 } else { 1 } });
    if df == Df::Logit {
        gen::labels(r, &mut pr);
    }
    let m = with_pen(r, &pr, df, tag, multi);
    let k = Knobs { ws: 1000, iters: 1, epochs: r.int(1, 4), tol: 0.0, k: 5, accel: false, verbose: false };
    let (da, sa) = (*r.pick(DENSE), *r.pick(SPARSE));
    let rt = any_route(r);
    let (a, b) = match (fit64(&pr, &m, &k, da, rt), fit64(&pr, &m, &k, sa, rt)) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return viol("fit-failed", format!("{a:?} {b:?} {}", full(&pr, &m, &k, sa, rt))),
    };
    // a tie in the ordering of the features makes the cycles differ legitimately
    let g = refm::grad(df, &pr, &vec![0.0; pr.n * pr.t]);
    let mut v: Vec<f64> = (0..pr.p).map(|j| refm::subdiff_dist(m.pen, &vec![0.0; pr.t], &g[j * pr.t..(j + 1) * pr.t])).collect();
    v.retain(|x| *x > 1e-13);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let zero = pr.p - v.len();
    if v.windows(2).any(|w| w[1] - w[0] < 1e-9 * w[1]) || (zero > 1 && k.epochs > 1) || zero > 1 {
        c.count("skipped: ties in the feature order", 1);
        return Ok(());
    }
    let sc = a.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if a.iter().zip(&b).any(|(x, y)| (x - y).abs() > 1e-9 * sc) {
        return viol(format!("{}:iterates-differ", m.name()), format!("dense {a:?} sparse {b:?}; {}", full(&pr, &m, &k, sa, rt)));
    }
    c.count("trajectory comparisons", 1);
    if sc > 0.0 {
        c.nontrivial((bits(&a), sa as u8));
    }
    Ok(())
}

fn converged(r: &mut Rng, c: &Case, well: bool) -> Result<(), Viol> {
    let multi = r.bool(0.35);
    let (mut pr, mut m);
    if well {
        (pr, m) = convex_well(r, multi, 12, 4);
        if r.bool(0.5) && m.df == Df::Quad && !matches!(m.pen, Pen::Mcp { .. }) {
            // an empty column keeps the solution unique (its coefficient is zero)
            let q = Prob { p: pr.p + 1, ..pr.clone() };
            let at = r.int(0, pr.p);
            let mut x = vec![0.0; q.n * q.p];
            for i in 0..q.n {
                for j in 0..pr.p {
                    x[i * q.p + j + (j >= at) as usize] = pr.x[i * pr.p + j];
                }
            }
            pr = Prob { x, ..q };
        }
    } else {
        pr = problem(r, multi);
        let (df, tag) = any_model(r, if multi { Kind::ConvexM } else { Kind::Convex1 }, multi);
        if df == Df::Logit {
            gen::labels(r, &mut pr);
        }
        m = with_pen(r, &pr, df, tag, multi);
        if m.alpha() == 0.0 {
            m = Model { pen: Pen::L1 { a: 0.1 }, ..m };
        }
    }
    let k = Knobs { tol: 1e-9, ws: *r.pick(&[1, 3, 10, 100]), accel: r.bool(0.7), ..Knobs::default() };
    let k = if well { k } else { k.capped(&pr) };
    let (da, sa) = (*r.pick(DENSE), *r.pick(SPARSE));
    let rt = any_route(r);
    let a = fit_stopped::<f64>(&pr, &m, &k, da, rt);
    let b = fit_stopped::<f64>(&pr, &m, &k, sa, rt);
    let ((a, as_), (b, bs)) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return viol("fit-failed", format!("dense {a:?} sparse {b:?} {}", full(&pr, &m, &k, sa, rt))),
    };
    if !(as_ && bs) {
        c.count("did not stop by itself", 1);
        if well && as_ != bs {
            return viol(format!("{}:only-one-storage-converges", m.name()), full(&pr, &m, &k, sa, rt));
        }
        return Ok(());
    }
    if well {
        // empty columns make the Gram matrix singular: judge on the others
        let keep: Vec<usize> = (0..pr.p).filter(|j| pr.col(*j).iter().any(|v| *v != 0.0)).collect();
        let mut q = Prob { p: keep.len(), x: vec![], ..pr.clone() };
        for i in 0..pr.n {
            for j in &keep {
                q.x.push(pr.xij(i, *j));
            }
        }
        let sub = |w: &Vec<f64>| -> Vec<f64> { keep.iter().flat_map(|j| w[j * pr.t..(j + 1) * pr.t].to_vec()).collect() };
        for w in [&a, &b] {
            for j in 0..pr.p {
                if !keep.contains(&j) && w[j * pr.t..(j + 1) * pr.t].iter().any(|v| *v != 0.0) {
                    return viol("nonzero-on-empty-column", format!("{w:?}; {}", full(&pr, &m, &k, sa, rt)));
                }
            }
        }
        if let Some(bd) = pair_bound(&q, &m, &sub(&a), &sub(&b), k.tol, k.tol) {
            let d = dist(&a, &b);
            if !(d <= bd) {
                return viol(
                    format!("{}:solutions-differ", m.name()),
                    format!("distance {d:e} > {bd:e}: dense {a:?} sparse {b:?}; {}", full(&pr, &m, &k, sa, rt)),
                );
            }
            c.count("unique-solution comparisons", 1);
            c.nontrivial((bits(&a), sa as u8));
        }
    } else {
        // convex, possibly non-unique: the optimal values must agree
        let (fa, fb) = (refm::objective(&m, &pr, &a), refm::objective(&m, &pr, &b));
        let diff: f64 = a.iter().zip(&b).map(|(x, y)| (x - y).abs()).sum();
        let sl = 2.0 * (k.tol + C_EPS64 * (refm::grad_scale(m.df, &pr, &a).iter().fold(0.0f64, |m, v| m.max(*v)) + m.alpha())) * diff
            + 1e-11 * (fa.abs() + fb.abs());
        if !((fa - fb).abs() <= sl) {
            return viol(
                format!("{}:objectives-differ", m.name()),
                format!("dense {fa:e} sparse {fb:e} (slack {sl:e}); {a:?} {b:?}; {}", full(&pr, &m, &k, sa, rt)),
            );
        }
        c.count("optimal-value comparisons", 1);
        if a.iter().any(|v| *v != 0.0) {
            c.nontrivial((bits(&a), sa as u8));
        }
    }
    Ok(())
}

fn main() {
    let rep = Report::new(
        "C07",
        "the same matrix as dense (6 layouts) and CSC (canonical, shuffled, explicit zeros; empty columns): datafit quantities \
         and alpha_max in f32 and f64, first iterates of fits, converged solutions and optimal values. Non-trivial: comparisons \
         with non-zero results (distinct by result and storage)",
    );
    rep.cases(1, rep.n(12000, 400000), |r, c| quantities::<f64>(r, c, f64::EPSILON));
    rep.cases(2, rep.n(6000, 200000), |r, c| quantities::<f32>(r, c, f32::EPSILON as f64));
    rep.cases(3, rep.n(5000, 200000), trajectory);
    rep.cases(4, rep.n(1500, 40000), |r, c| converged(r, c, true));
    rep.cases(5, rep.n(2000, 60000), |r, c| converged(r, c, false));
    // more than 65536 samples or features
    rep.cases(6, rep.n(24, 800), |r, c| gen::with_giants(|| quantities::<f64>(r, c, f64::EPSILON)).map(|_| c.count("giant problems", 1)));
    rep.cases(7, rep.n(12, 300), |r, c| gen::with_giants(|| converged(r, c, false)));
    rep.finish(
        &[("quantity comparisons", 10000), ("trajectory comparisons", 800), ("unique-solution comparisons", 500), ("optimal-value comparisons", 500), ("giant problems", 20)],
        &["rounding allowance 64 eps x magnitude of the summands"],
    );
}
