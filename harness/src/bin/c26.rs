//! C26: an estimator is exactly its datafit, penalty and solver settings.
use ndarray::{ArrayView1, ArrayView2};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::DatasetBase;
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::traits::Fit;
use vh::est::{defaults, Data, Op, Params, Set};
use vh::fit::*;
use vh::gen::{self, Prob, Size};
use vh::refm::{alpha_max, Df, Model, Pen};
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;
use vh::with_knobs;

fn model(name: &str, s: &Set) -> Model {
    let (a, b) = (s.alpha, s.second.unwrap_or(0.0));
    let (pen, multi) = match name {
        "lasso" => (Pen::L1 { a }, false),
        "enet" => (Pen::L1L2 { a, r: b }, false),
        "mcp" => (Pen::Mcp { a, g: b }, false),
        "mt-lasso" => (Pen::L1 { a }, true),
        "mt-enet" => (Pen::L1L2 { a, r: b }, true),
        "block-mcp" => (Pen::Mcp { a, g: b }, true),
        _ => unreachable!(),
    };
    Model { df: Df::Quad, pen, multi }
}
fn knobs(s: &Set) -> Knobs {
    Knobs { ws: s.ws, iters: s.iters, epochs: s.epochs, tol: s.tol, k: s.k, accel: s.accel, verbose: s.verbose }
}

/// Budgets and tolerances for which every setting leaves its mark on the coefficients.
fn tight(r: &mut Rng, p: usize) -> Knobs {
    let mut k = Knobs::random(r, p);
    if r.bool(0.7) {
        k.iters = *r.pick(&[1, 1, 2, 3, 4]);
        k.epochs = *r.pick(&[1, 2, 6, 7, 11, 13, 30]);
    }
    if r.bool(0.3) {
        k.tol = r.logu(1e-6, 1e-1);
    }
    k
}

fn data(r: &mut Rng, multi: bool, single: bool) -> Prob {
    loop {
        // fits that use up the default budgets of 50 x 1000 epochs keep the long problems short
        let pr = draw(r, multi, single);
        if pr.n * pr.p * pr.t <= if pr.fam == "hostile" { 250 } else { 2300 } {
            return pr;
        }
    }
}
fn draw(r: &mut Rng, multi: bool, single: bool) -> Prob {
    if r.bool(0.15) {
        return gen::hostile(r, if multi { 3 } else { 1 }, single);
    }
    let mut pr = gen::any(r, Size { nmax: 25, pmax: 30, tmax: if multi { 3 } else { 1 } });
    if r.bool(0.2) {
        // targets, hence coefficients, in another unit
        let u = 2f64.powi(r.int(0, 60) as i32 - if single { 30 } else { 45 });
        pr.y.iter_mut().for_each(|v| *v *= u);
    }
    if single && r.bool(0.8) {
        pr.to_f32()
    } else {
        pr
    }
}

/// A random history of settings applied to a parameter set.
fn history<F: Fl, P: Params<F>>(r: &mut Rng, amax: f64, p: usize, cells: usize) -> (P, Set) {
    let mut ps = match r.int(0, 2) {
        0 => P::via_new(),
        1 => P::via_default(),
        _ => P::via_estimator(),
    };
    let mut s = defaults::<F, P>();
    let mut ops = vec![];
    let mut k = tight(r, p);
    if amax > 0.0 && amax < 1e-3 {
        k.tol *= amax;
    }
    let given = [
        Op::Alpha(any_alpha(r, amax)),
        Op::Second(if P::GAMMA { gen::gamma(r) } else { gen::ratio(r) }),
        Op::Iters(k.iters),
        Op::Epochs(k.epochs),
        Op::Ws(k.ws),
        Op::Tol(k.tol),
        Op::K(k.k),
        Op::Accel(k.accel),
    ];
    for op in given {
        if r.bool(0.75) {
            ops.push(op);
        }
    }
    if !ops.iter().any(|o| matches!(o, Op::Alpha(_))) && amax <= 1.0 {
        ops.push(given[0]);
    }
    ops.push(Op::Verbose(false));
    r.shuffle(&mut ops);
    for op in ops {
        ps = ps.op(op);
        s.apply(op);
    }
    // full budgets on the largest problems would take minutes
    if (s.iters * s.epochs * cells) as f64 > 6e7 {
        let op = if r.bool(0.5) { Op::Epochs(*r.pick(&[13, 50, 200])) } else { Op::Iters(*r.pick(&[3, 8])) };
        ps = ps.op(op);
        s.apply(op);
    }
    // what the setters hold, rounded to the float type
    let f = |v: f64| up::<F>(c::<F>(v));
    s.alpha = f(s.alpha);
    s.tol = f(s.tol);
    s.second = s.second.map(f);
    (ps, s)
}

fn estimator<F: Fl, P: Params<F>>(r: &mut Rng, cs: &Case) -> Result<(), Viol> {
    let single = std::mem::size_of::<F>() == 4;
    let pr = data(r, P::MULTI, single);
    let amax = alpha_max(Df::Quad, &pr);
    let (ps, s) = history::<F, P>(r, amax, pr.p, pr.p * (pr.n * pr.t + 20));
    let m = model(P::NAME, &s);
    let k = knobs(&s);
    let st = *r.pick(SPARSE);
    let d = Data::<F>::new(&pr, st);
    type Fits<'a> = Vec<(&'static str, Box<dyn Fn() -> Result<Vec<f64>, EstimatorError> + 'a>)>;
    let groups: [(Storage, Fits); 2] = [
        (Storage::C, vec![("dense", Box::new(|| ps.fit_dense(&d))), ("dense checked", Box::new(|| ps.fit_checked_dense(&d)))]),
        (st, vec![("csc", Box::new(|| ps.fit_csc(&d))), ("csc checked", Box::new(|| ps.fit_checked_csc(&d)))]),
    ];
    for (st, fits) in groups {
        let want = match fit::<F>(&pr, &m, &k, st, Route::Solver) {
            Ok(w) => w,
            Err(e) => return viol(format!("{}:solver-failed", P::NAME), format!("{} in {}", e.0, vh::optim::full(&pr, &m, &k, st, Route::Solver))),
        };
        for (what, f) in fits {
            let got = match guard(&f) {
                Ok(Ok(w)) => w,
                e => return viol(format!("{}:estimator-failed", P::NAME), format!("{what}: {e:?} in {}", vh::optim::full(&pr, &m, &k, st, Route::Est))),
            };
            if bits(&got) != bits(&want) {
                return viol(
                    format!("{}:differs-from-composition", P::NAME),
                    format!("{what}, f{}: estimator {got:?}, solver {want:?}; {}", if single { 32 } else { 64 }, vh::optim::full(&pr, &m, &k, st, Route::Est)),
                );
            }
            cs.count("fits compared with the composition", 1);
            cs.count(&format!("{} f{}", P::NAME, if single { 32 } else { 64 }), 1);
        }
        cs.sample(|| format!("{} {st:?} coefficients {:?}", vh::optim::describe(&pr, &m, &k, st, Route::Est), &want[..want.len().min(4)]));
        if want.iter().any(|v| *v != 0.0) {
            cs.nontrivial((bits(&want), P::NAME));
            // non-vacuity: would a lost setting have been seen?
            if r.bool(0.3) {
                let s0 = defaults::<F, P>();
                let alt = [
                    ("alpha", Set { alpha: s0.alpha, ..s }),
                    ("second", Set { second: s0.second, ..s }),
                    ("iterations", Set { iters: s0.iters, ..s }),
                    ("epochs", Set { epochs: s0.epochs, ..s }),
                    ("working set", Set { ws: s0.ws, ..s }),
                    ("tolerance", Set { tol: s0.tol, ..s }),
                    ("K", Set { k: s0.k, ..s }),
                    ("acceleration", Set { accel: s0.accel, ..s }),
                ];
                for (what, a) in alt {
                    if !a.same(&s) {
                        if let Ok(w) = fit::<F>(&pr, &model(P::NAME, &a), &knobs(&a), st, Route::Solver) {
                            if bits(&w) != bits(&want) {
                                cs.count(&format!("settings whose loss would show: {what}"), 1);
                            }
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Every storage and both routes for owned arrays, strided views and so on.
fn routes(r: &mut Rng, cs: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.5);
    let single = r.bool(0.4);
    let pr = data(r, multi, single);
    let amax = alpha_max(Df::Quad, &pr);
    let a = any_alpha(r, amax);
    let pen = match r.int(0, 2) {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: r.f() },
        _ => Pen::Mcp { a, g: *r.pick(&[1.0, 2.5, 3.0, 40.0]) },
    };
    let m = Model { df: Df::Quad, pen, multi };
    let mut k = tight(r, pr.p);
    if amax > 0.0 && amax < 1e-3 {
        k.tol *= amax;
    }
    let st = vh::optim::any_storage(r);
    let mut seen: Vec<Vec<u64>> = vec![];
    for rt in [Route::Solver, Route::Est, Route::EstChecked] {
        let w = if single { fit::<f32>(&pr, &m, &k, st, rt) } else { fit64(&pr, &m, &k, st, rt) };
        match w {
            Ok(w) => seen.push(bits(&w)),
            Err(e) => return viol(format!("{}:fit-failed", m.name()), format!("{} in {}", e.0, vh::optim::full(&pr, &m, &k, st, rt))),
        }
    }
    if seen[0] != seen[1] || seen[0] != seen[2] {
        let f = |b: &Vec<u64>| b.iter().map(|v| f64::from_bits(*v)).collect::<Vec<_>>();
        return viol(
            format!("{}:routes-differ", m.name()),
            format!("solver {:?} estimator {:?} checked {:?}; {}", f(&seen[0]), f(&seen[1]), f(&seen[2]), vh::optim::full(&pr, &m, &k, st, Route::Est)),
        );
    }
    cs.count("route triples", 1);
    if seen[0].iter().any(|b| f64::from_bits(*b) != 0.0) {
        cs.nontrivial((seen.pop(), format!("{st:?}")));
    }
    Ok(())
}

/// The getter returns the fitted array: every time, and for clones.
macro_rules! getter {
    ($P:ident, $X:ty, $T:ty, $x:expr, $y:expr, $k:expr, $a:expr, $dim:expr) => {{
        let ps = with_knobs!($P::<f64>::new().alpha($a), $k);
        let ds: DatasetBase<$X, $T> = DatasetBase::from(($x, $y));
        let m1 = Fit::<$X, $T, EstimatorError>::fit(&ps, &ds).map_err(|e| e.to_string())?;
        let m2 = Fit::<$X, $T, EstimatorError>::fit(&ps, &ds).map_err(|e| e.to_string())?;
        let m3 = m1.clone();
        let first: Vec<f64> = m1.coefficients().iter().copied().collect();
        let again: Vec<f64> = m1.coefficients().iter().copied().collect();
        let cl: Vec<f64> = m3.coefficients().iter().copied().collect();
        if bits(&first) != bits(&again) || bits(&first) != bits(&cl) {
            return Err("the getter is not stable".into());
        }
        if m1 != m2 || m1 != m3 {
            return Err("equal fits compare different".into());
        }
        if m1.coefficients().raw_dim() != $dim {
            return Err(format!("shape {:?}", m1.coefficients().raw_dim()));
        }
        Ok(first)
    }};
}
fn getters(r: &mut Rng, cs: &Case) -> Result<(), Viol> {
    let pr = gen::any(r, Size { nmax: 15, pmax: 15, tmax: 3 });
    let a = 0.3 * alpha_max(Df::Quad, &pr).max(1e-3);
    let k = tight(r, pr.p);
    let d = Data::<f64>::new(&pr, Storage::Csc);
    let one = Data::<f64>::new(&pr.single(), Storage::Csc);
    let y1 = one.x.y.index_axis(ndarray::Axis(1), 0);
    let (p, t) = (pr.p, pr.t);
    let dim1 = ndarray::Ix1(p);
    let dim2 = ndarray::Ix2(p, t);
    type R = Result<Vec<f64>, String>;
    let single: Vec<(&str, Box<dyn Fn() -> R + '_>)> = vec![
        ("lasso dense", Box::new(|| getter!(LassoParams, ArrayView2<f64>, ArrayView1<f64>, d.x.x.view(), y1, &k, a, dim1))),
        ("lasso csc", Box::new(|| getter!(LassoParams, CSCArray<f64>, ArrayView1<f64>, d.csc.view(), y1, &k, a, dim1))),
        ("enet dense", Box::new(|| getter!(ElasticNetParams, ArrayView2<f64>, ArrayView1<f64>, d.x.x.view(), y1, &k, a, dim1))),
        ("enet csc", Box::new(|| getter!(ElasticNetParams, CSCArray<f64>, ArrayView1<f64>, d.csc.view(), y1, &k, a, dim1))),
        ("mcp dense", Box::new(|| getter!(MCParams, ArrayView2<f64>, ArrayView1<f64>, d.x.x.view(), y1, &k, a, dim1))),
        ("mcp csc", Box::new(|| getter!(MCParams, CSCArray<f64>, ArrayView1<f64>, d.csc.view(), y1, &k, a, dim1))),
        ("mt-lasso dense", Box::new(|| getter!(MultiTaskLassoParams, ArrayView2<f64>, ArrayView2<f64>, d.x.x.view(), d.x.y.view(), &k, a, dim2))),
        ("mt-lasso csc", Box::new(|| getter!(MultiTaskLassoParams, CSCArray<f64>, ArrayView2<f64>, d.csc.view(), d.x.y.view(), &k, a, dim2))),
        ("mt-enet dense", Box::new(|| getter!(MultiTaskElasticNetParams, ArrayView2<f64>, ArrayView2<f64>, d.x.x.view(), d.x.y.view(), &k, a, dim2))),
        ("mt-enet csc", Box::new(|| getter!(MultiTaskElasticNetParams, CSCArray<f64>, ArrayView2<f64>, d.csc.view(), d.x.y.view(), &k, a, dim2))),
        ("block-mcp dense", Box::new(|| getter!(BlockMCParams, ArrayView2<f64>, ArrayView2<f64>, d.x.x.view(), d.x.y.view(), &k, a, dim2))),
        ("block-mcp csc", Box::new(|| getter!(BlockMCParams, CSCArray<f64>, ArrayView2<f64>, d.csc.view(), d.x.y.view(), &k, a, dim2))),
    ];
    for (what, f) in single {
        match guard(&f) {
            Ok(Ok(w)) => {
                cs.count("getters observed", 1);
                // what the getter returns is what the composition returns
                let (name, csc) = what.split_once(' ').unwrap();
                let mut s = defaults::<f64, ElasticNetParams<f64>>();
                s.alpha = a;
                s.second = if name.contains("enet") { Some(0.5) } else { Some(3.0) };
                let m = model(name, &s);
                let q = if m.multi { pr.clone() } else { pr.single() };
                let st = if csc == "csc" { Storage::Csc } else { Storage::C };
                let want = fit64(&q, &m, &k, st, Route::Solver);
                if want.as_ref().map(|v| bits(v)) != Ok(bits(&w)) {
                    return viol(format!("{what}:getter-differs"), format!("{w:?} vs {want:?}; {}", vh::optim::full(&q, &m, &k, st, Route::Est)));
                }
            }
            e => return viol(format!("{what}:getter"), format!("{e:?}; {}", pr.dump())),
        }
    }
    Ok(())
}

fn main() {
    let rep = Report::new("C26", "distinct non-zero coefficient arrays obtained both from an estimator and from its composition");
    rep.cases(1, rep.n(2400, 200_000), |r, cs| match r.int(0, 11) {
        0 => estimator::<f64, LassoParams<f64>>(r, cs),
        1 => estimator::<f64, ElasticNetParams<f64>>(r, cs),
        2 => estimator::<f64, MCParams<f64>>(r, cs),
        3 => estimator::<f64, MultiTaskLassoParams<f64>>(r, cs),
        4 => estimator::<f64, MultiTaskElasticNetParams<f64>>(r, cs),
        5 => estimator::<f64, BlockMCParams<f64>>(r, cs),
        6 => estimator::<f32, LassoParams<f32>>(r, cs),
        7 => estimator::<f32, ElasticNetParams<f32>>(r, cs),
        8 => estimator::<f32, MCParams<f32>>(r, cs),
        9 => estimator::<f32, MultiTaskLassoParams<f32>>(r, cs),
        10 => estimator::<f32, MultiTaskElasticNetParams<f32>>(r, cs),
        _ => estimator::<f32, BlockMCParams<f32>>(r, cs),
    });
    rep.cases(2, rep.n(2000, 150_000), routes);
    rep.cases(3, rep.n(500, 30_000), getters);
    rep.finish(
        &[("fits compared with the composition", 4_000), ("route triples", 1000), ("getters observed", 3000),
          ("settings whose loss would show: alpha", 60), ("settings whose loss would show: second", 20),
          ("settings whose loss would show: iterations", 60), ("settings whose loss would show: epochs", 60),
          ("settings whose loss would show: working set", 20), ("settings whose loss would show: tolerance", 20),
          ("settings whose loss would show: K", 20), ("settings whose loss would show: acceleration", 20)],
        &["Both sides run in the same build, so equal arithmetic gives equal bits"],
    );
}
