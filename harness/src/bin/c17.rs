//! C17: fits depend only on the numbers, respecting symmetries.
use ndarray::Axis;
use vh::fit::*;
use vh::gen::{Prob, Size};
use vh::optim::*;
use vh::refm::*;
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

/// A converged fit (by itself, and confirmed by the optimality oracle), or None.
fn conv(pr: &Prob, m: &Model, k: &Knobs, st: Storage, route: Route) -> Result<Option<Vec<f64>>, Viol> {
    match fit64(pr, m, k, st, route) {
        Err(e) => viol(format!("{}:fit-failed", m.name()), format!("{} in {}", e.0, full(pr, m, k, st, route))),
        Ok(w) => Ok(if finite(&w) && kkt(m, pr, &w, C_EPS64).excess <= k.tol * (1.0 + 1e-6) { Some(w) } else { None }),
    }
}

/// A transformation of a problem together with its effect on the coefficients.
struct Trans {
    name: &'static str,
    pr: Prob,
    m: Model,
    tol: f64,
    /// maps coefficients of the transformed problem back
    back: Box<dyn Fn(&[f64]) -> Vec<f64>>,
}
fn transform(r: &mut Rng, pr: &Prob, m: &Model, tol: f64) -> Trans {
    let (n, p, t) = (pr.n, pr.p, pr.t);
    let mut q = pr.clone();
    let mut m2 = *m;
    let mut tol2 = tol;
    let pick = r.int(0, 6);
    match pick {
        0 => {
            let pi = r.perm(n);
            for i in 0..n {
                for j in 0..p {
                    q.x[i * p + j] = pr.x[pi[i] * p + j];
                }
                for s in 0..t {
                    q.y[i * t + s] = pr.y[pi[i] * t + s];
                }
            }
            Trans { name: "permute samples", pr: q, m: m2, tol: tol2, back: Box::new(|w| w.to_vec()) }
        }
        1 => {
            let pi = r.perm(p);
            for i in 0..n {
                for j in 0..p {
                    q.x[i * p + j] = pr.x[i * p + pi[j]];
                }
            }
            Trans {
                name: "permute features",
                pr: q,
                m: m2,
                tol: tol2,
                back: Box::new(move |w| {
                    let mut o = vec![0.0; w.len()];
                    for j in 0..p {
                        for s in 0..t {
                            o[pi[j] * t + s] = w[j * t + s];
                        }
                    }
                    o
                }),
            }
        }
        2 if t > 1 => {
            let pi = r.perm(t);
            for i in 0..n {
                for s in 0..t {
                    q.y[i * t + s] = pr.y[i * t + pi[s]];
                }
            }
            Trans {
                name: "permute tasks",
                pr: q,
                m: m2,
                tol: tol2,
                back: Box::new(move |w| {
                    let mut o = vec![0.0; w.len()];
                    for j in 0..p {
                        for s in 0..t {
                            o[j * t + pi[s]] = w[j * t + s];
                        }
                    }
                    o
                }),
            }
        }
        2 | 3 => {
            let sg: Vec<f64> = (0..p).map(|_| r.sign()).collect();
            for i in 0..n {
                for j in 0..p {
                    q.x[i * p + j] *= sg[j];
                }
            }
            Trans {
                name: "flip features",
                pr: q,
                m: m2,
                tol: tol2,
                back: Box::new(move |w| (0..p * t).map(|i| w[i] * sg[i / t]).collect()),
            }
        }
        4 => {
            let sg: Vec<f64> = if t == 1 { vec![-1.0] } else { (0..t).map(|_| r.sign()).collect() };
            for i in 0..n {
                for s in 0..t {
                    q.y[i * t + s] *= sg[s];
                }
            }
            Trans {
                name: "flip targets",
                pr: q,
                m: m2,
                tol: tol2,
                back: Box::new(move |w| (0..p * t).map(|i| w[i] * sg[i % t]).collect()),
            }
        }
        5 if m.df == Df::Quad => {
            // moderate factors, or another unit altogether
            let near = r.bool(0.5) || matches!(m.pen, Pen::L1L2 { .. }) || !(1e-30..1e10).contains(&tol);
            let c = if near { r.logu(1e-3, 1e3) } else { 2f64.powi(r.int(0, 700) as i32 - 350) * r.range(1.0, 2.0) };
            q.y.iter_mut().for_each(|v| *v *= c);
            tol2 *= c;
            m2.pen = match m.pen {
                Pen::L1 { a } => Pen::L1 { a: a * c },
                Pen::L1L2 { a, r } => {
                    let a2 = a * r * c + a * (1.0 - r);
                    Pen::L1L2 { a: a2, r: if a2 > 0.0 { a * r * c / a2 } else { r } }
                }
                Pen::Mcp { a, g } => Pen::Mcp { a: a * c, g },
                Pen::L05 { a } => Pen::L05 { a: a * c.powf(1.5) },
            };
            Trans {
                name: "scale targets and regularisation",
                pr: q,
                m: m2,
                tol: tol2,
                back: Box::new(move |w| w.iter().map(|v| v / c).collect()),
            }
        }
        _ => {
            let k = r.int(2, 4);
            let (x, y) = (pr.x.clone(), pr.y.clone());
            for _ in 1..k {
                q.x.extend(&x);
                q.y.extend(&y);
            }
            q.n *= k;
            Trans { name: "repeat all samples", pr: q, m: m2, tol: tol2, back: Box::new(|w| w.to_vec()) }
        }
    }
}

fn symmetric(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.5);
    let (pr, m) = convex_well(r, multi, 12, 4);
    let mut k = well_knobs(r, pr.p);
    k.tol = *r.pick(&[1e-7, 1e-9]) * alpha_max(m.df, &pr).max(1e-3);
    let (st, route) = (any_storage(r), any_route(r));
    let w1 = match conv(&pr, &m, &k, st, route)? {
        Some(w) => w,
        None => {
            c.count("not converged", 1);
            return Ok(());
        }
    };
    // one to three transformations in sequence
    let steps = r.int(1, 3);
    let (mut cur, mut mm, mut tol) = (pr.clone(), m, k.tol);
    let mut backs = vec![];
    let mut names = vec![];
    let mut unscale = 1.0;
    for _ in 0..steps {
        let tr = transform(r, &cur, &mm, tol);
        unscale *= tr.tol / tol;
        names.push(tr.name);
        cur = tr.pr;
        mm = tr.m;
        tol = tr.tol;
        backs.push(tr.back);
    }
    let k2 = Knobs { tol, ws: *r.pick(&[k.ws, 1, 4, 10]), ..k };
    let (st2, route2) = (if r.bool(0.5) { st } else { any_storage(r) }, any_route(r));
    let w2 = match conv(&cur, &mm, &k2, st2, route2)? {
        Some(w) => w,
        None => {
            c.count("not converged", 1);
            return Ok(());
        }
    };
    let mut wb = w2.clone();
    for b in backs.iter().rev() {
        wb = b(&wb);
    }
    let bound = match pair_bound(&pr, &m, &w1, &wb, k.tol, k2.tol / unscale) {
        Some(b) => b + 1e-11 * (norm(&w1) + norm(&wb)),
        None => return Ok(()),
    };
    let d = dist(&w1, &wb);
    if !(d <= bound) {
        return viol(
            format!("{}:{}", m.name(), names.join("+")),
            format!("after {names:?} the solution moved by {d:e} > {bound:e}: {w1:?} vs {wb:?}; {}", full(&pr, &m, &k, st, route)),
        );
    }
    if w1.iter().any(|v| *v != 0.0) {
        for n in &names {
            c.count(n, 1);
        }
        c.nontrivial((bits(&w1), names.clone()));
    }
    c.sample(|| format!("{} {names:?} distance {d:.2e} bound {bound:.2e}", describe(&pr, &m, &k, st, route)));
    Ok(())
}

/// Sign flips commute with every rounded operation: the fits agree in every bit, converged or not.
fn sign_exact(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let (pr, m) = any_problem(r, Kind::Any, multi, Size { nmax: 30, pmax: 25, tmax: 4 });
    let mut k = Knobs::random(r, pr.p).capped(&pr);
    k.iters = *r.pick(&[1, 2, 5, 20]);
    k.epochs = k.epochs.min(200);
    let (st, route) = (any_storage(r), any_route(r));
    let f = |p: &Prob| match fit64(p, &m, &k, st, route) {
        Ok(w) => Ok(w),
        Err(e) => viol(format!("{}:fit-failed", m.name()), format!("{} in {}", e.0, full(p, &m, &k, st, route))),
    };
    let w1 = f(&pr)?;
    let sx: Vec<f64> = (0..pr.p).map(|_| r.sign()).collect();
    let sy = r.sign();
    let mut q = pr.clone();
    for i in 0..pr.n {
        for j in 0..pr.p {
            q.x[i * pr.p + j] *= sx[j];
        }
    }
    q.y.iter_mut().for_each(|v| *v *= sy);
    let w2 = f(&q)?;
    let same = (0..w1.len()).all(|i| w2[i] * sx[i / pr.t] * sy == w1[i]);
    if !same {
        return viol(
            format!("{}:sign-flip", m.name()),
            format!("flipping feature signs {sx:?} and target sign {sy} changes magnitudes: {w1:?} vs {w2:?}; {}", full(&pr, &m, &k, st, route)),
        );
    }
    if w1.iter().any(|v| *v != 0.0) {
        c.count("exact sign flips", 1);
        c.nontrivial((bits(&w1), 7u8));
    }
    Ok(())
}

/// Multiplying data and strengths by powers of two commutes with every rounded operation, as long as
/// nothing under- or overflows: the fits agree in every bit, converged or not.
fn units_exact<F: Fl>(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let single = std::mem::size_of::<F>() == 4;
    let multi = r.bool(0.4);
    let (pr, m) = if r.bool(0.5) {
        any_problem(r, Kind::Any, multi, Size { nmax: 30, pmax: 25, tmax: 4 })
    } else {
        well_problem(r, Kind::Any, multi, 12, 4)
    };
    if matches!(m.pen, Pen::L05 { .. }) || pr.x.iter().chain(&pr.y).any(|v| *v != 0.0 && !(1e-4..1e4).contains(&v.abs())) {
        return Ok(());
    }
    let (mut pr, mut m) = (pr, m);
    if single {
        let f = |v: f64| v as f32 as f64;
        pr = pr.to_f32();
        m.pen = match m.pen {
            Pen::L1 { a } => Pen::L1 { a: f(a) },
            Pen::L1L2 { a, r } => Pen::L1L2 { a: f(a), r: f(r) },
            Pen::Mcp { a, g } => Pen::Mcp { a: f(a), g: f(g) },
            p => p,
        };
    }
    let mut k = Knobs::random(r, pr.p).capped(&pr);
    k.iters = *r.pick(&[1, 2, 5, 20]);
    k.epochs = k.epochs.min(200);
    k.tol = (alpha_max(m.df, &pr) * *r.pick(&[1e-3, 1e-5, 1e-7])) as f32 as f64;
    let big = if single { 5 } else { 40 };
    let e = |r: &mut Rng| r.int(0, 2 * big) as i32 - big as i32;
    let (mut a, mut b) = (e(r), e(r));
    if m.df == Df::Logit {
        b = 0;
    }
    let mut route = any_route(r);
    match m.pen {
        // one strength for two penalties: only a common factor keeps their balance
        Pen::L1L2 { .. } if m.df == Df::Logit => a = 0,
        Pen::L1L2 { .. } => a = b,
        // gamma is dimensionful: below one only the solver takes it
        Pen::Mcp { .. } if a != 0 => route = Route::Solver,
        _ => {}
    }
    if a == 0 && b == 0 {
        return Ok(());
    }
    let st = any_storage(r);
    let f = |p: &Prob, m: &Model, k: &Knobs| match fit::<F>(p, m, k, st, route) {
        Ok(w) => Ok(w),
        Err(e) => viol(format!("{}:fit-failed", m.name()), format!("{} in {}", e.0, full(p, m, k, st, route))),
    };
    let w1 = f(&pr, &m, &k)?;
    let p2 = |e: i32| 2f64.powi(e);
    let mut q = pr.clone();
    q.x.iter_mut().for_each(|v| *v *= p2(a));
    if b != 0 {
        q.y.iter_mut().for_each(|v| *v *= p2(b));
    }
    let mut m2 = m;
    m2.pen = match m.pen {
        Pen::L1 { a: s } => Pen::L1 { a: s * p2(a + b) },
        Pen::L1L2 { a: s, r } => Pen::L1L2 { a: s * p2(a + b), r },
        Pen::Mcp { a: s, g } => Pen::Mcp { a: s * p2(a + b), g: g * p2(-2 * a) },
        p => p,
    };
    let k2 = Knobs { tol: k.tol * p2(a + b), ..k };
    let w2 = f(&q, &m2, &k2)?;
    if !(0..w1.len()).all(|i| w2[i] * p2(a - b) == w1[i]) {
        return viol(
            format!("{}:units", m.name()),
            format!(
                "X in units 2^{a}, targets in units 2^{b}: f{} coefficients {w1:?} become {w2:?} instead of 2^{} times the former; {}",
                if single { 32 } else { 64 },
                b - a,
                full(&pr, &m, &k, st, route)
            ),
        );
    }
    if w1.iter().any(|v| *v != 0.0) {
        c.count("exact changes of units", 1);
        c.nontrivial((bits(&w1), 8u8, a, b));
    }
    Ok(())
}

/// Targets and strengths in another unit, single precision: still solved.
fn units_f32(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let (pr, m) = loop {
        let (pr, m) = convex_well(r, multi, 12, 4);
        if m.df == Df::Quad && matches!(m.pen, Pen::L1 { .. } | Pen::Mcp { .. }) {
            break (pr.to_f32(), m);
        }
    };
    let b = p2i(r.int(0, 80) as i32 - 50);
    let at = |s: f64, pr: &Prob| -> (Prob, Model, f64) {
        let mut q = pr.clone();
        q.y.iter_mut().for_each(|v| *v *= s);
        let pen = match m.pen {
            Pen::L1 { a } => Pen::L1 { a: (a as f32) as f64 * s },
            Pen::Mcp { a, g } => Pen::Mcp { a: (a as f32) as f64 * s, g: (g as f32) as f64 },
            p => p,
        };
        (q, Model { pen, ..m }, s)
    };
    let amax = alpha_max(Df::Quad, &pr).max(1e-6);
    let mut k = well_knobs(r, pr.p);
    k.tol = (amax * r.logu(1e-6, 1e-3)) as f32 as f64;
    let (st, rt) = (any_storage(r), any_route(r));
    let (q, m2, s) = at(b, &pr);
    let k2 = Knobs { tol: k.tol * s, ..k };
    let w = match fit::<f32>(&q, &m2, &k2, st, rt) {
        Ok(w) => w,
        Err(e) => return viol(format!("{}:fit-failed", m.name()), format!("{} in {}", e.0, full(&q, &m2, &k2, st, rt))),
    };
    // judged in the original units, in double precision
    let (q1, m1, _) = at(1.0, &pr);
    let back: Vec<f64> = w.iter().map(|v| v / s).collect();
    let kk = kkt(&m1, &q1, &back, 600.0 * 6e-8);
    if !finite(&w) || !(kk.excess <= k.tol * (1.0 + 1e-5)) {
        return viol(
            format!("{}:units-f32", m.name()),
            format!("targets times {s:e}: violation {:e} (in the original units) of f32 coefficients {w:?}; {}", kk.max, full(&q, &m2, &k2, st, rt)),
        );
    }
    if w.iter().any(|v| *v != 0.0) {
        c.count("single precision fits in other units", 1);
        c.nontrivial((bits(&w), 9u8));
    }
    Ok(())
}
fn p2i(e: i32) -> f64 {
    2f64.powi(e)
}

/// Layouts of the same numbers: owned against view bit for bit, others up to convergence.
fn layouts(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.5);
    let hard = r.bool(0.4);
    let (pr, m) = if hard {
        any_problem(r, Kind::Any, multi, Size { nmax: 30, pmax: 25, tmax: 4 })
    } else {
        convex_well(r, multi, 12, 4)
    };
    let mut k = well_knobs(r, pr.p);
    k.tol = 1e-9 * alpha_max(m.df, &pr).max(1e-3);
    if hard {
        k.epochs = 100;
        k.iters = 10;
    }
    let route = any_route(r);
    for (o, v) in [(Storage::OwnC, Storage::C), (Storage::OwnF, Storage::F)] {
        let (a, b) = (fit64(&pr, &m, &k, o, route), fit64(&pr, &m, &k, v, route));
        match (&a, &b) {
            (Ok(a), Ok(b)) if bits(a) == bits(b) => c.count("owned = view", 1),
            _ => return viol(format!("{}:ownership", m.name()), format!("owned {a:?}, view {b:?} in {}", full(&pr, &m, &k, v, route))),
        }
    }
    if hard {
        return Ok(());
    }
    let mut base: Option<Vec<f64>> = None;
    for &st in DENSE {
        if let Some(w) = conv(&pr, &m, &k, st, route)? {
            if let Some(w0) = &base {
                if let Some(b) = pair_bound(&pr, &m, w0, &w, k.tol, k.tol) {
                    let d = dist(w0, &w);
                    if !(d <= b) {
                        return viol(format!("{}:layout", m.name()), format!("{st:?} differs by {d:e} > {b:e}: {w0:?} vs {w:?}; {}", full(&pr, &m, &k, st, route)));
                    }
                    c.count("layout pairs", 1);
                    c.nontrivial((bits(&w), format!("{st:?}")));
                }
            } else {
                base = Some(w);
            }
        }
    }
    Ok(())
}

/// The dataset (including memory around strided views) is bit-identical after fits.
fn untouched(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    use sparseglm::datasets::DatasetBase;
    use sparseglm::estimators::error::EstimatorError;
    use sparseglm::estimators::hyperparams::*;
    use sparseglm::estimators::traits::Fit;
    let pr = vh::gen::any(r, Size { nmax: 20, pmax: 12, tmax: 3 });
    let st = *r.pick(DENSE);
    let x = DenseBuf::<f64>::new(pr.n, pr.p, &pr.x, st);
    let y = DenseBuf::<f64>::new(pr.n, pr.t, &pr.y, st);
    let s = CscBuf::<f64>::new(&pr, *r.pick(SPARSE));
    let snap = |b: &DenseBuf<f64>| -> Vec<u64> { b.buf.iter().map(|v| v.to_bits()).collect() };
    let (bx, by, bs) = (snap(&x), snap(&y), s.clone());
    let a = 0.1 * alpha_max(Df::Quad, &pr).max(1e-3);
    let y2 = y.view();
    let y1 = y2.index_axis(Axis(1), 0);
    let res = guard(|| {
        let d1 = DatasetBase::from((x.view(), y1));
        let d2 = DatasetBase::from((x.view(), y2));
        let d3 = DatasetBase::from((s.view(), y1));
        let d4 = DatasetBase::from((s.view(), y2));
        let mut ok = true;
        macro_rules! go {
            ($p:expr, $d:expr) => {
                let m: Result<_, EstimatorError> = $p.verbose(false).max_iterations(5).fit($d);
                ok &= m.is_ok();
            };
        }
        go!(LassoParams::new().alpha(a), &d1);
        go!(ElasticNetParams::new().alpha(a), &d1);
        go!(MCParams::new().alpha(a), &d1);
        go!(MultiTaskLassoParams::new().alpha(a), &d2);
        go!(MultiTaskElasticNetParams::new().alpha(a), &d2);
        go!(BlockMCParams::new().alpha(a), &d2);
        go!(LassoParams::new().alpha(a), &d3);
        go!(MultiTaskLassoParams::new().alpha(a), &d4);
        ok
    });
    if res != Ok(true) {
        return viol("untouched:fit-failed", format!("{res:?} on {}", pr.dump()));
    }
    if snap(&x) != bx || snap(&y) != by || format!("{:?}", s) != format!("{bs:?}") {
        return viol("dataset-modified", format!("the dataset changed during fits ({st:?}); {}", pr.dump()));
    }
    c.count("datasets unchanged", 1);
    Ok(())
}

fn main() {
    let rep = Report::new("C17", "distinct non-zero solutions compared with their counterpart under a layout or symmetry");
    rep.cases(1, rep.n(14000, 400_000), symmetric);
    rep.cases(2, rep.n(8000, 400_000), sign_exact);
    rep.cases(3, rep.n(700, 60_000), layouts);
    rep.cases(4, rep.n(400, 20_000), untouched);
    rep.cases(5, rep.n(5000, 200_000), units_exact::<f64>);
    rep.cases(6, rep.n(3000, 100_000), units_exact::<f32>);
    rep.cases(7, rep.n(3000, 100_000), units_f32);
    rep.finish(
        &[("permute samples", 100), ("permute features", 100), ("permute tasks", 50), ("flip features", 100), ("flip targets", 100),
          ("scale targets and regularisation", 50), ("repeat all samples", 100), ("exact sign flips", 300), ("layout pairs", 500),
          ("exact changes of units", 1500), ("single precision fits in other units", 1000),
          ("owned = view", 500), ("datasets unchanged", 100)],
        &["Transformed solutions are compared up to the distance that strong convexity and the two tolerances allow"],
    );
}
