//! C19: the library never exhibits undefined behaviour.
//!
//! VH_WORK=start,end,size: run the hostile workload (under whatever instrumentation this binary
//! was built with). Otherwise: judge the logs of those runs (VH_LOGS=stage:rc:file;...).
use ndarray::{Array1, Array2, ArrayView1, ArrayView2, Axis};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};
use sparseglm::utils::helpers::*;
use sparseglm::utils::prox_funcs::*;
use std::collections::BTreeMap;
use vh::fit::{self, DenseBuf, Fl, Knobs, Storage, DENSE, SPARSE};
use vh::gen::{self, Prob};
use vh::refm::{alpha_max, Df, Model, Pen};
use vh::rep::{guard, Report, Viol};
use vh::rng::Rng;

#[derive(Default)]
struct Tally {
    ok: u64,
    panics: u64,
    classes: BTreeMap<&'static str, u64>,
    bad: Vec<String>,
}
impl Tally {
    fn run<R>(&mut self, class: &'static str, f: impl FnOnce() -> R) {
        *self.classes.entry(class).or_insert(0) += 1;
        match guard(f) {
            Ok(_) => self.ok += 1,
            Err(e) => {
                self.panics += 1;
                // debug assertions inside ndarray's unchecked accessors: reached only through an
                // unchecked access that is out of bounds (undefined behaviour without assertions)
                if e.contains("src/arraytraits.rs:37") || e.contains("unsafe precondition") {
                    self.bad.push(format!("{class}: {e}"));
                }
            }
        }
    }
}

fn small(r: &mut Rng, size: usize, t: usize) -> Prob {
    let fam = *r.pick(gen::FAMS);
    let (n, p) = (r.int(1, size), r.int(1, size));
    gen::fixed(r, fam, n, p, t)
}
fn weird(r: &mut Rng) -> f64 {
    *r.pick(&[
        0.0,
        -0.0,
        1.0,
        -1.0,
        f64::NAN,
        f64::INFINITY,
        f64::NEG_INFINITY,
        f64::MAX,
        f64::MIN,
        f64::MIN_POSITIVE,
        5e-324,
        1e300,
        -1e-300,
        0.5,
    ])
}
static SIZE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn knobs(r: &mut Rng) -> Knobs {
    let mut k = knobs_any(r);
    if SIZE.load(std::sync::atomic::Ordering::Relaxed) <= 4 {
        // interpreted: keep it short
        k.k = k.k.min(6);
        k.epochs = k.epochs.min(12);
        k.iters = k.iters.min(2);
        k.accel = r.bool(0.25);
    }
    k
}
fn knobs_any(r: &mut Rng) -> Knobs {
    Knobs {
        ws: *r.pick(&[0, 1, 2, 5, 10, 50, usize::MAX]),
        iters: *r.pick(&[0, 1, 2, 3]),
        epochs: *r.pick(&[0, 1, 7, 13, 25]),
        tol: *r.pick(&[0.0, 1e-9, 1e-4, -1.0, f64::NAN]),
        k: *r.pick(&[0, 1, 2, 5, 5, 17, 40]),
        accel: r.bool(0.85),
        verbose: false,
    }
}

/// Owned CSC arrays, usually broken.
struct Csc<F> {
    data: Vec<F>,
    indices: Vec<i32>,
    indptr: Vec<i32>,
}
impl<F: Fl> Csc<F> {
    fn new(pr: &Prob) -> Self {
        let b = fit::CscBuf::<F>::new(pr, Storage::CscShuf);
        Csc { data: b.data.to_vec(), indices: b.indices.to_vec(), indptr: b.indptr.to_vec() }
    }
    fn mutate(&mut self, r: &mut Rng, n: usize) -> &'static str {
        let odd = |r: &mut Rng, n: usize| -> i32 {
            let n = n as i32;
            *r.pick(&[-1, n, n + 1, n + 7, 2 * n, 1000, i32::MAX, i32::MIN, i32::MAX - 1, -2, n - 1, 0])
        };
        let nnz = self.data.len().min(self.indices.len());
        match r.int(0, 11) {
            0 if nnz > 0 => {
                let q = r.int(0, nnz - 1);
                self.indices[q] = odd(r, n);
                "row index out of range"
            }
            1 if nnz > 0 => {
                let q = r.int(0, nnz - 1);
                self.indices[q] = n as i32;
                "row index one past the end"
            }
            2 => {
                let q = r.int(0, self.indptr.len() - 1);
                self.indptr[q] = odd(r, nnz);
                "column pointer out of range"
            }
            3 => {
                let q = self.indptr.len() - 1;
                self.indptr[q] = self.indptr[q].saturating_add(r.int(1, 5) as i32);
                "last column pointer past the data"
            }
            4 => {
                self.indptr.reverse();
                "decreasing column pointers"
            }
            5 => {
                self.indptr.clear();
                "no column pointers"
            }
            6 => {
                let k = r.int(0, self.indptr.len());
                self.indptr.truncate(k);
                "too few column pointers"
            }
            7 => {
                let k = r.int(0, nnz);
                self.indices.truncate(k);
                "too few indices"
            }
            8 => {
                let k = r.int(0, nnz);
                self.data.truncate(k);
                "too few values"
            }
            9 => {
                self.indptr[0] = *r.pick(&[-1, 1, 3]);
                "first column pointer not zero"
            }
            10 => {
                self.indptr.push(odd(r, nnz));
                "extra column pointer"
            }
            _ => {
                if nnz > 1 {
                    self.indices[0] = self.indices[nnz - 1];
                }
                "repeated row index"
            }
        }
    }
    fn view(&self) -> CSCArray<'_, F> {
        CSCArray::new(ArrayView1::from(&self.data[..]), ArrayView1::from(&self.indices[..]), ArrayView1::from(&self.indptr[..]))
    }
}

fn fits1<DM, T>(r: &mut Rng, t: &mut Tally, class: &'static str, ds: &DatasetBase<DM, T>, a: f64)
where
    DM: DesignMatrix<Elem = f64>,
    T: AsSingleTargets<Elem = f64>,
    Quadratic<f64>: Datafit<f64, DM, T>,
    Logistic<f64>: Datafit<f64, DM, T>,
    LassoParams<f64>: Fit<DM, T, EstimatorError>,
    ElasticNetParams<f64>: Fit<DM, T, EstimatorError>,
    MCParams<f64>: Fit<DM, T, EstimatorError>,
{
    let k = knobs(r);
    let s: Solver<f64> = fit::solver(&k);
    let a2 = if r.bool(0.1) { weird(r) } else { a };
    match r.int(0, 7) {
        0 => t.run(class, || vh::with_knobs!(LassoParams::<f64>::new().alpha(a2), k).fit(ds).is_ok()),
        1 => t.run(class, || vh::with_knobs!(ElasticNetParams::<f64>::new().alpha(a2), k).fit(ds).is_ok()),
        2 => t.run(class, || vh::with_knobs!(MCParams::<f64>::new().alpha(a2), k).fit(ds).is_ok()),
        3 => t.run(class, || s.solve(ds, &mut Quadratic::new(), &L1::new(a2)).is_ok()),
        4 => t.run(class, || s.solve(ds, &mut Quadratic::new(), &L05::new(a2)).is_ok()),
        5 => t.run(class, || s.solve(ds, &mut Logistic::new(), &L1::new(a2)).is_ok()),
        6 => t.run(class, || s.solve(ds, &mut Logistic::new(), &L1PlusL2::new(a2, 0.3)).is_ok()),
        _ => {
            // a datafit that lived through a panic is used again
            let mut d = Quadratic::new();
            t.run(class, || s.solve(ds, &mut d, &MCP::new(a2, 3.0)).is_ok());
            t.run("after a panic", || s.solve(ds, &mut d, &L1::new(a2)).is_ok());
        }
    }
}
fn fitsm<DM, T>(r: &mut Rng, t: &mut Tally, class: &'static str, ds: &DatasetBase<DM, T>, a: f64)
where
    DM: DesignMatrix<Elem = f64>,
    T: AsMultiTargets<Elem = f64>,
    QuadraticMultiTask<f64>: MultiTaskDatafit<f64, DM, T>,
    MultiTaskLassoParams<f64>: Fit<DM, T, EstimatorError>,
    MultiTaskElasticNetParams<f64>: Fit<DM, T, EstimatorError>,
    BlockMCParams<f64>: Fit<DM, T, EstimatorError>,
{
    let k = knobs(r);
    let s: Solver<f64> = fit::solver(&k);
    match r.int(0, 4) {
        0 => t.run(class, || vh::with_knobs!(MultiTaskLassoParams::<f64>::new().alpha(a), k).fit(ds).is_ok()),
        1 => t.run(class, || vh::with_knobs!(MultiTaskElasticNetParams::<f64>::new().alpha(a), k).fit(ds).is_ok()),
        2 => t.run(class, || vh::with_knobs!(BlockMCParams::<f64>::new().alpha(a), k).fit(ds).is_ok()),
        3 => t.run(class, || s.solve_multi_task(ds, &mut QuadraticMultiTask::new(), &BlockL1PlusL2::new(a, 0.3)).is_ok()),
        _ => {
            let mut d = QuadraticMultiTask::new();
            t.run(class, || s.solve_multi_task(ds, &mut d, &L21::new(a)).is_ok());
            t.run("after a panic", || s.solve_multi_task(ds, &mut d, &BlockMCP::new(a, 3.0)).is_ok());
        }
    }
}
/// The matrix operations with in- and out-of-range arguments.
fn matrix_ops<DM: DesignMatrix<Elem = f64>>(r: &mut Rng, t: &mut Tally, x: &DM, n: usize, p: usize, tk: usize) {
    let off = |r: &mut Rng, v: usize| -> usize { *r.pick(&[v, v, v, v + 1, v + 3, v.saturating_sub(1), 0, 2 * v + 9]) };
    for _ in 0..3 {
        let j = off(r, p.saturating_sub(1));
        let (n2, t2, p2) = (off(r, n), off(r, tk), off(r, p));
        let l = r.int(0, 2 * p);
        let ws: Array1<usize> = Array1::from_iter((0..l).map(|_| if r.bool(0.9) { r.int(0, p.saturating_sub(1)) } else { p + r.int(0, 3) }));
        let w = Array1::from_elem(p2, 0.5);
        let wm = Array2::from_elem((p2, t2), 0.5);
        match r.int(0, 3) {
            0 => t.run("matrix: update fit", || x.update_model_fit(&mut Array1::zeros(n2), 1.5, j)),
            1 => t.run("matrix: update multi-task fit", || {
                x.update_model_fit_multi_task(&mut Array2::zeros((n2, t2)), Array1::from_elem(tk, 1.5).view(), j)
            }),
            2 => t.run("matrix: extrapolated fit", || x.compute_extrapolated_fit(ws.view(), &w, n2)),
            _ => t.run("matrix: extrapolated multi-task fit", || x.compute_extrapolated_fit_multi_task(ws.view(), &wm, n2, tk)),
        }
    }
    t.run("matrix: size", || x.n_features());
}
fn datafit_ops<DM, T>(r: &mut Rng, t: &mut Tally, ds: &DatasetBase<DM, T>, n: usize, p: usize)
where
    DM: DesignMatrix<Elem = f64>,
    T: AsSingleTargets<Elem = f64>,
    Quadratic<f64>: Datafit<f64, DM, T>,
    Logistic<f64>: Datafit<f64, DM, T>,
{
    macro_rules! go {
        ($new:expr) => {{
            let mut d = $new;
            if r.bool(0.8) {
                t.run("datafit: initialise", || d.initialize(ds));
            }
            for _ in 0..3 {
                let n2 = *r.pick(&[n, n, n + 1, n.saturating_sub(1), 0, 3 * n + 5]);
                let j = *r.pick(&[0, p / 2, p.saturating_sub(1), p, p + 9]);
                let f = Array1::from_elem(n2, 0.25);
                match r.int(0, 3) {
                    0 => t.run("datafit: value", || d.value(ds, f.view())),
                    1 => t.run("datafit: coordinate gradient", || d.gradient_j(ds, f.view(), j)),
                    2 => t.run("datafit: full gradient", || d.full_grad(ds, f.view())),
                    _ => t.run("datafit: step size", || Datafit::<f64, DM, T>::step_size(&d).to_owned()),
                }
            }
        }};
    }
    if r.bool(0.5) {
        go!(Quadratic::<f64>::new())
    } else {
        go!(Logistic::<f64>::new())
    }
}
fn datafit_ops_m<DM, T>(r: &mut Rng, t: &mut Tally, ds: &DatasetBase<DM, T>, n: usize, p: usize, tk: usize)
where
    DM: DesignMatrix<Elem = f64>,
    T: AsMultiTargets<Elem = f64>,
    QuadraticMultiTask<f64>: MultiTaskDatafit<f64, DM, T>,
{
    let mut d = QuadraticMultiTask::<f64>::new();
    if r.bool(0.8) {
        t.run("datafit: initialise", || d.initialize(ds));
    }
    for _ in 0..3 {
        let n2 = *r.pick(&[n, n, n + 1, n.saturating_sub(1), 0, 3 * n + 5]);
        let t2 = *r.pick(&[tk, tk, tk + 1, tk.saturating_sub(1), 0]);
        let j = *r.pick(&[0, p / 2, p.saturating_sub(1), p, p + 9]);
        let f = Array2::from_elem((n2, t2), 0.25);
        match r.int(0, 3) {
            0 => t.run("datafit: value", || d.value(ds, f.view())),
            1 => t.run("datafit: coordinate gradient", || d.gradient_j(ds, f.view(), j)),
            2 => t.run("datafit: full gradient", || d.full_grad(ds, f.view())),
            _ => t.run("datafit: step size", || MultiTaskDatafit::<f64, DM, T>::step_size(&d).to_owned()),
        }
    }
}

fn case(seed: u64, i: u64, size: usize, t: &mut Tally) {
    let mut rr = Rng::case(seed, 19, i);
    let r = &mut rr;
    let tk = r.int(1, 3);
    match i % 8 {
        0 => {
            // valid but hostile fits of everything, both widths, all storages
            let multi = r.bool(0.5);
            let mut pr = if size > 8 { gen::hostile(r, if multi { 4 } else { 1 }, true) } else { small(r, size, if multi { tk } else { 1 }) };
            let a = alpha_max(Df::Quad, &pr).max(1e-3) * r.logu(1e-3, 1.0);
            let pen = match r.int(0, if multi { 2 } else { 3 }) {
                0 => Pen::L1 { a },
                1 => Pen::L1L2 { a, r: 0.5 },
                2 => Pen::Mcp { a, g: 3.0 },
                _ => Pen::L05 { a },
            };
            let df = if !multi && r.bool(0.3) { Df::Logit } else { Df::Quad };
            if df == Df::Logit {
                gen::labels(r, &mut pr);
            }
            let m = Model { df, pen, multi };
            let mut k = knobs(r);
            k.k = k.k.max(1);
            k.ws = k.ws.max(1);
            let st = *r.pick(fit::ALL_STORAGE);
            let route = vh::optim::any_route(r);
            if r.bool(0.5) {
                t.run("valid fit f64", || fit::fit_raw::<f64>(&pr, &m, &k, st, route));
            } else {
                t.run("valid fit f32", || fit::fit_raw::<f32>(&pr, &m, &k, st, route));
            }
        }
        1 | 2 => {
            // malformed CSC arrays
            let pr = small(r, size, tk);
            let mut c = Csc::<f64>::new(&pr);
            let mut class = "well-formed CSC";
            for _ in 0..r.int(1, 2) {
                class = c.mutate(r, pr.n);
                if c.indptr.is_empty() {
                    break;
                }
            }
            let extra = *r.pick(&[0isize, 0, 0, 1, -1, 5]);
            let n2 = (pr.n as isize + extra).max(0) as usize;
            let a = r.logu(1e-3, 1.0);
            let y = Array2::from_shape_fn((n2, tk), |(i, j)| ((i * 7 + j * 3) % 5) as f64 - 2.0);
            let y1 = y.index_axis(Axis(1), 0).to_owned();
            let p = c.indptr.len().saturating_sub(1);
            match r.int(0, 5) {
                0 => fits1(r, t, class, &DatasetBase::from((c.view(), y1.view())), a),
                1 => fitsm(r, t, class, &DatasetBase::from((c.view(), y.view())), a),
                2 => matrix_ops(r, t, &c.view(), n2, p, tk),
                3 => datafit_ops(r, t, &DatasetBase::from((c.view(), y1.view())), n2, p),
                4 => datafit_ops_m(r, t, &DatasetBase::from((c.view(), y.view())), n2, p, tk),
                _ => {
                    t.run("alpha max, malformed CSC", || compute_alpha_max_sparse(&c.view(), y1.view()));
                    t.run(class, || compute_alpha_max_sparse(&c.view(), y1.view()));
                }
            }
        }
        3 => {
            // dense, inconsistent shapes (including empty ones), every layout
            let pr = small(r, size, tk);
            let n2 = *r.pick(&[pr.n, pr.n, pr.n + 1, pr.n.saturating_sub(1), 0, 3 * pr.n + 2]);
            let y = Array2::from_shape_fn((n2, tk), |(i, j)| ((i * 7 + j * 3) % 5) as f64 - 2.0);
            let y1 = y.index_axis(Axis(1), 0).to_owned();
            let st = *r.pick(DENSE);
            let b = DenseBuf::<f64>::new(pr.n, pr.p, &pr.x, st);
            let a = r.logu(1e-3, 1.0);
            let (ze, zf) = (Array2::<f64>::zeros((0, pr.p)), Array2::<f64>::zeros((pr.n, 0)));
            let x: ArrayView2<f64> = if r.bool(0.8) { b.view() } else if r.bool(0.5) { ze.view() } else { zf.view() };
            let p = x.ncols();
            let no_task = Array2::<f64>::zeros((pr.n, 0));
            match r.int(0, 7) {
                0 => fits1(r, t, "dense shapes", &DatasetBase::from((x, y1.view())), a),
                1 => fitsm(r, t, "dense shapes", &DatasetBase::from((x, y.view())), a),
                2 => matrix_ops(r, t, &x, n2, p, tk),
                3 => datafit_ops(r, t, &DatasetBase::from((x, y1.view())), n2, p),
                4 => datafit_ops_m(r, t, &DatasetBase::from((x, y.view())), n2, p, tk),
                5 => fitsm(r, t, "no tasks", &DatasetBase::from((x, no_task.view())), a),
                6 => t.run("alpha max, shapes", || compute_alpha_max(x, y1.view())),
                _ => t.run("alpha max, shapes", || compute_alpha_max_mtl(x, y.view())),
            }
        }
        4 => {
            // penalties
            let p = r.int(0, size);
            let w = Array1::from_shape_fn(p, |_| if r.bool(0.3) { weird(r) } else { r.gauss() });
            let lg = *r.pick(&[p, p, p + 1, p.saturating_sub(1), 0]);
            let g = Array1::from_shape_fn(lg, |_| r.gauss());
            let l = r.int(0, p + 2);
            let ws = Array1::from_shape_fn(l, |_| if r.bool(0.9) { r.int(0, p) } else { p + r.int(0, 5) });
            let (a, b) = (if r.bool(0.5) { weird(r) } else { 0.7 }, if r.bool(0.5) { weird(r) } else { 3.0 });
            let wm = Array2::from_shape_fn((p, tk), |_| if r.bool(0.3) { weird(r) } else { r.gauss() });
            let gm = Array2::from_shape_fn((lg, *r.pick(&[tk, tk, tk + 1, 0])), |_| r.gauss());
            let v = if r.bool(0.5) { weird(r) } else { r.gauss() };
            let s = if r.bool(0.5) { weird(r) } else { 0.5 };
            macro_rules! p1 {
                ($q:expr) => {{
                    let q = $q;
                    t.run("penalty: value", || q.value(w.view()));
                    t.run("penalty: prox", || q.prox(v, s));
                    t.run("penalty: violation", || q.subdiff_distance(w.view(), g.view(), ws.view()));
                }};
            }
            macro_rules! pm {
                ($q:expr) => {{
                    let q = $q;
                    t.run("penalty: value", || q.value(wm.view()));
                    t.run("penalty: prox", || q.prox(g.view(), s));
                    t.run("penalty: violation", || q.subdiff_distance(wm.view(), gm.view(), ws.view()));
                }};
            }
            match r.int(0, 6) {
                0 => p1!(L1::new(a)),
                1 => p1!(L1PlusL2::new(a, b)),
                2 => p1!(MCP::new(a, b)),
                3 => p1!(L05::new(a)),
                4 => pm!(L21::new(a)),
                5 => pm!(BlockL1PlusL2::new(a, b)),
                _ => pm!(BlockMCP::new(a, b)),
            }
        }
        5 => {
            // helpers
            let k = r.int(0, size);
            let b = *r.pick(&[k, k, k + 1, k.saturating_sub(1), 0]);
            let a = Array2::from_shape_fn((k, *r.pick(&[k, k, k + 1, 0])), |_| if r.bool(0.1) { weird(r) } else { r.int(0, 4) as f64 });
            let rhs = Array1::from_shape_fn(b, |_| r.gauss());
            t.run("linear system", || solve_lin_sys(a.view(), rhs.view()).is_ok());
            let v = Array1::from_shape_fn(r.int(0, 3 * size), |_| r.int(0, 9) as f64);
            t.run("argsort", || argsort_by(&v, |x, y| x.partial_cmp(y).unwrap()));
            let mut z = r.u64();
            t.run("argsort, inconsistent comparison", || {
                argsort_by(&v, |_, _| {
                    z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    match z >> 62 {
                        0 => std::cmp::Ordering::Less,
                        1 => std::cmp::Ordering::Equal,
                        _ => std::cmp::Ordering::Greater,
                    }
                })
            });
            t.run("argsort, panicking comparison", || argsort_by(&v, |x, _| if *x > 5.0 { panic!("compare") } else { std::cmp::Ordering::Less }));
            let q = weird(r);
            t.run("scalar helpers", || (sigmoid(q), soft_thresholding(q, 1.0), prox_05(q, 0.5)));
            t.run("scalar helpers", || block_soft_thresholding(rhs.view(), q));
        }
        6 => {
            // extreme values in the data
            let mut pr = small(r, size, tk);
            for _ in 0..r.int(1, 4) {
                let q = r.int(0, pr.x.len() - 1);
                pr.x[q] = weird(r);
                let q = r.int(0, pr.y.len() - 1);
                pr.y[q] = weird(r);
            }
            let y = Array2::from_shape_fn((pr.n, tk), |(i, j)| pr.yit(i, j));
            let y1 = y.index_axis(Axis(1), 0).to_owned();
            let a = r.logu(1e-3, 1.0);
            let st = *r.pick(DENSE);
            let b = DenseBuf::<f64>::new(pr.n, pr.p, &pr.x, st);
            let c = fit::CscBuf::<f64>::new(&pr, *r.pick(SPARSE));
            match r.int(0, 3) {
                0 => fits1(r, t, "extreme values", &DatasetBase::from((b.view(), y1.view())), a),
                1 => fitsm(r, t, "extreme values", &DatasetBase::from((b.view(), y.view())), a),
                2 => fits1(r, t, "extreme values", &DatasetBase::from((c.view(), y1.view())), a),
                _ => fitsm(r, t, "extreme values", &DatasetBase::from((c.view(), y.view())), a),
            }
        }
        _ => {
            // owned data that outlives, moves and drops around fits
            let pr = small(r, size, tk);
            let x = Array2::from_shape_fn((pr.n, pr.p), |(i, j)| pr.xij(i, j));
            let y = Array2::from_shape_fn((pr.n, tk), |(i, j)| pr.yit(i, j));
            let a = r.logu(1e-3, 1.0);
            let k = Knobs { k: 5, ws: 10, tol: 1e-8, ..knobs(r) };
            t.run("ownership", || {
                let model = {
                    let ds = DatasetBase::from((x, y));
                    let moved = Box::new(ds);
                    let m: Result<_, EstimatorError> = vh::with_knobs!(MultiTaskLassoParams::<f64>::new().alpha(a), k).fit(&*moved);
                    m.unwrap()
                };
                model.coefficients().sum()
            });
            let b = DenseBuf::<f64>::new(pr.n, pr.p, &pr.x, *r.pick(DENSE));
            matrix_ops(r, t, &b.view(), pr.n, pr.p, tk);
            let v = b.view();
            matrix_ops(r, t, &&v, pr.n, pr.p, tk);
            let yt = Array2::from_shape_fn((pr.n, 1), |(i, _)| pr.yit(i, 0));
            t.run("targets", || yt.as_multi_tasks().sum());
            let y1 = Array1::from(pr.task(0));
            t.run("targets", || y1.try_single_target().map(|v| v.sum()).is_ok());
        }
    }
}

fn main() {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if let Ok(v) = std::env::var("VH_WORK") {
        let q: Vec<u64> = v.split(',').map(|s| s.parse().unwrap()).collect();
        let (quiet, size) = (q.len() > 3, q[2] as usize);
        SIZE.store(size, std::sync::atomic::Ordering::Relaxed);
        let mut t = Tally::default();
        for i in q[0]..q[1] {
            if !quiet {
                // the last line before a crash names the case
                println!("CASE {i}");
            }
            case(seed, i, size, &mut t);
        }
        for b in &t.bad {
            println!("BAD {b}");
        }
        for (k, v) in &t.classes {
            println!("CLASS {v} {k}");
        }
        println!("DONE ok={} panics={}", t.ok, t.panics);
        std::process::exit(if t.bad.is_empty() { 0 } else { 77 });
    }
    let rep = Report::new("C19", "calls of the public API under an instrumented build, per stage and input class");
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    for part in std::env::var("VH_LOGS").unwrap_or_default().split(';').filter(|s| !s.is_empty()) {
        let f: Vec<&str> = part.splitn(3, ':').collect();
        let (stage, rc, file) = (f[0], f[1], f[2]);
        let txt = std::fs::read(file).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let mut finished = false;
        for l in txt.lines() {
            if let Some(l) = l.strip_prefix("CLASS ") {
                let (n, k) = l.split_once(' ').unwrap();
                *classes.entry(format!("{stage}/{k}")).or_insert(0) += n.parse::<u64>().unwrap();
            }
            if let Some(l) = l.strip_prefix("DONE ") {
                finished = true;
                let num = |k: &str| l.split(k).nth(1).and_then(|s| s.split_whitespace().next()).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
                rep.count(&format!("{stage}: calls that returned"), num("ok="));
                rep.count(&format!("{stage}: calls that panicked"), num("panics="));
                rep.add_eval(num("ok=") + num("panics="));
            }
        }
        if rc != "0" || !finished {
            let last = txt.lines().filter(|l| l.starts_with("CASE ")).last().unwrap_or("").to_string();
            let keep: Vec<&str> = txt.lines().filter(|l| !l.starts_with("CASE ") && !l.starts_with("CLASS ")).take(60).collect();
            rep.violation(
                19,
                0,
                Viol {
                    sig: format!("{stage}"),
                    detail: format!("stage {stage} ended with status {rc} after {last} (seed {seed}); log {file}:\n{}", keep.join("\n")),
                },
            );
        }
    }
    let case = vh::rep::Case { rep: &rep, stream: 19, idx: 0 };
    for (k, _) in &classes {
        case.nontrivial(k.clone());
    }
    rep.note(classes.iter().map(|(k, v)| format!("{k}: {v}")).collect::<Vec<_>>().join("; "));
    rep.finish(
        &[("asan: calls that returned", 1000), ("asan: calls that panicked", 500), ("debug: calls that returned", 1000),
          ("debug: calls that panicked", 500), ("miri: calls that returned", 50), ("memcheck: calls that returned", 100)],
        &["Only safe functions are called; unwinding panics are ordinary outcomes",
          "AddressSanitizer, valgrind and Miri detect what their documentation says; accesses inside the same allocation but outside a view are detected by the debug assertions of the unchecked accessors of ndarray and std"],
    );
}
