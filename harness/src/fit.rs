//! Drivers of the code under test through its public API.
use crate::gen::Prob;
use crate::refm::{Df, Model, Pen};
use crate::rep::guard;
use crate::rng::Rng;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2, ShapeBuilder};
use sparseglm::datafits::multi_task::QuadraticMultiTask;
use sparseglm::datafits::single_task::{Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::DatasetBase;
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::param_guard::ParamGuard;
use sparseglm::estimators::traits::Fit;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, L21};
use sparseglm::penalties::separable::{L1PlusL2, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};

pub trait Fl: sparseglm::Float + 'static {}
impl Fl for f32 {}
impl Fl for f64 {}

pub fn c<F: Fl>(v: f64) -> F {
    F::cast(v)
}
pub fn up<F: Fl>(v: F) -> f64 {
    num(v)
}
fn num<F: Fl>(v: F) -> f64 {
    v.to_f64().unwrap()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Knobs {
    pub ws: usize,
    pub iters: usize,
    pub epochs: usize,
    pub tol: f64,
    pub k: usize,
    pub accel: bool,
    pub verbose: bool,
}
impl Default for Knobs {
    fn default() -> Self {
        Knobs { ws: 10, iters: 50, epochs: 1000, tol: 1e-8, k: 5, accel: true, verbose: false }
    }
}
impl Knobs {
    /// The same knobs with smaller budgets on problems so large that full ones would take minutes.
    pub fn capped(&self, pr: &Prob) -> Knobs {
        let mut k = self.clone();
        let work = |k: &Knobs| k.iters as f64 * k.epochs as f64 * (pr.p * (pr.n * pr.t + 30)) as f64;
        while work(&k) > 2e8 && k.epochs > 50 {
            k.epochs /= 2;
        }
        while work(&k) > 2e8 && k.iters > 12 {
            k.iters -= k.iters / 4;
        }
        k
    }
    pub fn random(r: &mut Rng, p: usize) -> Knobs {
        Knobs {
            ws: match r.int(0, 5) {
                0 => 1,
                1 => 2,
                2 => r.int(1, p + 3),
                3 => p,
                4 => 10,
                _ => r.int(1, 12),
            },
            iters: *r.pick(&[50, 50, 50, 100, 20]),
            epochs: *r.pick(&[1000, 1000, 200, 50, 13]),
            tol: *r.pick(&[1e-4, 1e-6, 1e-8, 1e-10]),
            k: *r.pick(&[5, 5, 5, 5, 1, 1, 2, 2, 3, 3, 4, 4, 7, 7, 10, 10, 13, 30]),
            accel: r.bool(0.8),
            verbose: false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Storage {
    /// contiguous row-major view
    C,
    /// contiguous column-major view
    F,
    /// view with steps of 2 and 3 into a larger poisoned buffer
    Strided,
    /// view with negative strides
    Rev,
    /// row-major, columns reversed
    FlipCols,
    /// column-major, columns reversed
    FlipColsF,
    /// column-major, rows reversed
    FlipRowsF,
    /// window of a larger poisoned row-major buffer
    Win,
    /// window of a larger poisoned column-major buffer
    WinF,
    /// column-major with steps of -2 and 2 in a larger poisoned buffer
    StepF,
    /// owned row-major array
    OwnC,
    /// owned column-major array
    OwnF,
    /// canonical CSC
    Csc,
    /// CSC with shuffled row indices inside columns
    CscShuf,
    /// CSC with explicit zeros
    CscZero,
    /// CSC with entries stored as several ones for the same row
    CscDup,
    /// CSC held by strided views of larger poisoned buffers
    CscView,
}
pub const DENSE: &[Storage] = &[
    Storage::C,
    Storage::F,
    Storage::Strided,
    Storage::Rev,
    Storage::OwnC,
    Storage::OwnF,
    Storage::FlipCols,
    Storage::FlipColsF,
    Storage::FlipRowsF,
    Storage::Win,
    Storage::WinF,
    Storage::StepF,
];
pub const SPARSE: &[Storage] = &[Storage::Csc, Storage::CscShuf, Storage::CscZero, Storage::CscDup, Storage::CscView];
pub const ALL_STORAGE: &[Storage] = &[
    Storage::C,
    Storage::F,
    Storage::Strided,
    Storage::Rev,
    Storage::OwnC,
    Storage::OwnF,
    Storage::FlipCols,
    Storage::FlipColsF,
    Storage::FlipRowsF,
    Storage::Win,
    Storage::WinF,
    Storage::StepF,
    Storage::Csc,
    Storage::CscShuf,
    Storage::CscZero,
    Storage::CscDup,
    Storage::CscView,
];
impl Storage {
    /// (column-major, row step, column step, margin around the view) of a dense layout
    fn layout(self) -> (bool, isize, isize, usize) {
        match self {
            Storage::F | Storage::OwnF => (true, 1, 1, 0),
            Storage::Strided => (false, 2, 3, 0),
            Storage::Rev => (false, -1, -1, 0),
            Storage::FlipCols => (false, 1, -1, 0),
            Storage::FlipColsF => (true, 1, -1, 0),
            Storage::FlipRowsF => (true, -1, 1, 0),
            Storage::Win => (false, 1, 1, 2),
            Storage::WinF => (true, 1, 1, 2),
            Storage::StepF => (true, -2, 2, 1),
            _ => (false, 1, 1, 0),
        }
    }
    pub fn sparse(self) -> bool {
        SPARSE.contains(&self)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Route {
    /// Estimator parameters, unchecked fit (falls back to the solver without estimator)
    Est,
    /// Estimator parameters, checked first
    EstChecked,
    /// Solver with datafit and penalty
    Solver,
}

/// A dense matrix in one of several memory layouts (a view into `buf`).
pub struct DenseBuf<F> {
    pub buf: Array2<F>,
    st: Storage,
    n: usize,
    p: usize,
}
impl<F: Fl> DenseBuf<F> {
    /// `v` is row-major n x p.
    pub fn new(n: usize, p: usize, v: &[f64], st: Storage) -> Self {
        let (f, rs, cs, m) = st.layout();
        let span = |len: usize, step: isize| if len == 0 { 0 } else { (len - 1) * step.unsigned_abs() + 1 };
        let shape = (span(n, rs) + 2 * m, span(p, cs) + 2 * m);
        let buf = if f { Array2::from_elem(shape.f(), F::nan()) } else { Array2::from_elem(shape, F::nan()) };
        let mut b = DenseBuf { buf, st, n, p };
        let inner = b.slice();
        let mut w = b.buf.slice_mut(inner);
        for i in 0..n {
            for j in 0..p {
                w[[i, j]] = c(v[i * p + j]);
            }
        }
        b
    }
    fn slice(&self) -> ndarray::SliceInfo<[ndarray::SliceInfoElem; 2], ndarray::Ix2, ndarray::Ix2> {
        let (_, rs, cs, m) = self.st.layout();
        let (a, b) = (self.buf.nrows() - m, self.buf.ncols() - m);
        ndarray::s![m..a;rs, m..b;cs]
    }
    pub fn view(&self) -> ArrayView2<'_, F> {
        // slicing changes the strides of axes of length one: a plain layout must be that of the owned array
        let v = match self.st.layout() {
            (_, 1, 1, 0) => self.buf.view(),
            _ => self.buf.slice(self.slice()),
        };
        assert_eq!(v.dim(), (self.n, self.p));
        v
    }
}

/// A CSC matrix in owned vectors.
#[derive(Clone, Debug)]
pub struct CscBuf<F> {
    pub data: Array1<F>,
    pub indices: Array1<i32>,
    pub indptr: Array1<i32>,
    step: isize,
}
impl<F: Fl> CscBuf<F> {
    pub fn new(pr: &Prob, st: Storage) -> Self {
        let mut r = Rng::case(0xC5C, pr.n as u64 * 1000 + pr.p as u64, st as u64);
        let (mut d, mut ix, mut ip) = (vec![], vec![], vec![0i32]);
        for j in 0..pr.p {
            let mut col: Vec<(i32, f64)> = vec![];
            for i in 0..pr.n {
                let v = pr.xij(i, j);
                if v != 0.0 || (st == Storage::CscZero && r.bool(0.3)) {
                    col.push((i as i32, v));
                }
            }
            if st != Storage::Csc && st != Storage::CscView {
                r.shuffle(&mut col);
            }
            for (i, v) in col {
                ix.push(i);
                d.push(c::<F>(v));
            }
            if st == Storage::CscDup {
                // the same entries as sums of several stored ones, exactly
                let from = *ip.last().unwrap() as usize;
                for e in from..d.len() {
                    let v = up(d[e]);
                    if !(1e-25..1e25).contains(&v.abs()) {
                        continue;
                    }
                    let parts: &[f64] = *r.pick(&[&[1.0][..], &[0.5, 0.5], &[2.0, -1.0], &[0.25, 0.5, 0.25], &[1.0, 0.0]]);
                    d[e] = c::<F>(v * parts[0]);
                    for q in &parts[1..] {
                        ix.push(ix[e]);
                        d.push(c::<F>(v * q));
                    }
                }
            }
            ip.push(d.len() as i32);
        }
        if st == Storage::CscView {
            // every second entry, the others poisoned
            fn wide<T: Copy>(v: Vec<T>, poison: T) -> Array1<T> {
                Array1::from_iter(v.into_iter().flat_map(|e| [e, poison]))
            }
            return CscBuf { data: wide(d, F::nan()), indices: wide(ix, i32::MAX), indptr: wide(ip, i32::MAX), step: 2 };
        }
        CscBuf { data: Array1::from(d), indices: Array1::from(ix), indptr: Array1::from(ip), step: 1 }
    }
    pub fn view(&self) -> CSCArray<'_, F> {
        let s = self.step;
        CSCArray::new(self.data.slice(ndarray::s![..;s]), self.indices.slice(ndarray::s![..;s]), self.indptr.slice(ndarray::s![..;s]))
    }
}

pub fn solver<F: Fl>(k: &Knobs) -> Solver<F> {
    Solver::new()
        .ws_start_size(k.ws)
        .max_iterations(k.iters)
        .max_epochs(k.epochs)
        .tolerance(c(k.tol))
        .K(k.k)
        .use_acceleration(k.accel)
        .verbose(k.verbose)
}

#[macro_export]
macro_rules! with_knobs {
    ($p:expr, $k:expr) => {
        $p.max_iterations($k.iters)
            .max_epochs($k.epochs)
            .ws_start_size($k.ws)
            .tolerance($crate::fit::c($k.tol))
            .K($k.k)
            .use_acceleration($k.accel)
            .verbose($k.verbose)
    };
}

macro_rules! est {
    ($params:expr, $ds:expr, $route:expr) => {{
        let params = $params;
        let model = if $route == Route::EstChecked {
            let checked = params.check().map_err(|e| e.to_string())?;
            Fit::<_, _, EstimatorError>::fit(&checked, $ds).map_err(|e| e.to_string())?
        } else {
            Fit::<_, _, EstimatorError>::fit(&params, $ds).map_err(|e| e.to_string())?
        };
        model.coefficients().to_owned()
    }};
}
macro_rules! sol {
    ($k:expr, $df:expr, $pen:expr, $ds:expr) => {{
        let mut df = $df;
        let pen = $pen;
        solver::<F>($k).solve($ds, &mut df, &pen).map_err(|e| format!("{e:?}"))?
    }};
}
macro_rules! mtsol {
    ($k:expr, $df:expr, $pen:expr, $ds:expr) => {{
        let mut df = $df;
        let pen = $pen;
        solver::<F>($k).solve_multi_task($ds, &mut df, &pen).map_err(|e| format!("{e:?}"))?
    }};
}
macro_rules! single {
    ($ds:expr, $m:expr, $k:expr, $route:expr) => {{
        let ds = $ds;
        let (m, k, route) = ($m, $k, $route);
        let w: Array1<F> = match (m.df, m.pen, route) {
            (Df::Quad, Pen::L1 { a }, Route::Solver) => sol!(k, Quadratic::<F>::new(), L1::new(c::<F>(a)), ds),
            (Df::Quad, Pen::L1 { a }, _) => est!(with_knobs!(LassoParams::<F>::new().alpha(c(a)), k), ds, route),
            (Df::Quad, Pen::L1L2 { a, r }, Route::Solver) => {
                sol!(k, Quadratic::<F>::new(), L1PlusL2::new(c::<F>(a), c(r)), ds)
            }
            (Df::Quad, Pen::L1L2 { a, r }, _) => {
                est!(with_knobs!(ElasticNetParams::<F>::new().alpha(c(a)).l1_ratio(c(r)), k), ds, route)
            }
            (Df::Quad, Pen::Mcp { a, g }, Route::Solver) => {
                sol!(k, Quadratic::<F>::new(), MCP::new(c::<F>(a), c(g)), ds)
            }
            (Df::Quad, Pen::Mcp { a, g }, _) => {
                est!(with_knobs!(MCParams::<F>::new().alpha(c(a)).gamma(c(g)), k), ds, route)
            }
            (Df::Quad, Pen::L05 { a }, _) => sol!(k, Quadratic::<F>::new(), L05::new(c::<F>(a)), ds),
            (Df::Logit, Pen::L1 { a }, _) => sol!(k, Logistic::<F>::new(), L1::new(c::<F>(a)), ds),
            (Df::Logit, Pen::L1L2 { a, r }, _) => sol!(k, Logistic::<F>::new(), L1PlusL2::new(c::<F>(a), c(r)), ds),
            (Df::Logit, Pen::Mcp { a, g }, _) => sol!(k, Logistic::<F>::new(), MCP::new(c::<F>(a), c(g)), ds),
            (Df::Logit, Pen::L05 { a }, _) => sol!(k, Logistic::<F>::new(), L05::new(c::<F>(a)), ds),
        };
        Ok(w.iter().map(|v| up(*v)).collect::<Vec<f64>>())
    }};
}
macro_rules! multi {
    ($ds:expr, $m:expr, $k:expr, $route:expr, $pt:expr) => {{
        let ds = $ds;
        let (m, k, route) = ($m, $k, $route);
        let w: Array2<F> = match (m.pen, route) {
            (Pen::L1 { a }, Route::Solver) => mtsol!(k, QuadraticMultiTask::<F>::new(), L21::new(c::<F>(a)), ds),
            (Pen::L1 { a }, _) => est!(with_knobs!(MultiTaskLassoParams::<F>::new().alpha(c(a)), k), ds, route),
            (Pen::L1L2 { a, r }, Route::Solver) => {
                mtsol!(k, QuadraticMultiTask::<F>::new(), BlockL1PlusL2::new(c::<F>(a), c(r)), ds)
            }
            (Pen::L1L2 { a, r }, _) => {
                est!(with_knobs!(MultiTaskElasticNetParams::<F>::new().alpha(c(a)).l1_ratio(c(r)), k), ds, route)
            }
            (Pen::Mcp { a, g }, Route::Solver) => {
                mtsol!(k, QuadraticMultiTask::<F>::new(), BlockMCP::new(c::<F>(a), c(g)), ds)
            }
            (Pen::Mcp { a, g }, _) => {
                est!(with_knobs!(BlockMCParams::<F>::new().alpha(c(a)).gamma(c(g)), k), ds, route)
            }
            (Pen::L05 { .. }, _) => return Err("no block L0.5".into()),
        };
        if w.dim() != $pt {
            return Err(format!("SHAPE: coefficients have shape {:?}, expected {:?}", w.dim(), $pt));
        }
        Ok(w.outer_iter().flat_map(|r| r.iter().map(|v| up(*v)).collect::<Vec<f64>>()).collect::<Vec<f64>>())
    }};
}

fn run1_dense<F: Fl>(x: ArrayView2<F>, y: ArrayView1<F>, m: &Model, k: &Knobs, route: Route) -> Result<Vec<f64>, String> {
    single!(&DatasetBase::from((x, y)), m, k, route)
}
fn run1_own<F: Fl>(x: Array2<F>, y: Array1<F>, m: &Model, k: &Knobs, route: Route) -> Result<Vec<f64>, String> {
    single!(&DatasetBase::from((x, y)), m, k, route)
}
fn run1_csc<F: Fl>(x: CSCArray<'_, F>, y: ArrayView1<F>, m: &Model, k: &Knobs, route: Route) -> Result<Vec<f64>, String> {
    single!(&DatasetBase::from((x, y)), m, k, route)
}
fn runm_dense<F: Fl>(x: ArrayView2<F>, y: ArrayView2<F>, m: &Model, k: &Knobs, route: Route) -> Result<Vec<f64>, String> {
    let pt = (x.ncols(), y.ncols());
    multi!(&DatasetBase::from((x, y)), m, k, route, pt)
}
fn runm_own<F: Fl>(x: Array2<F>, y: Array2<F>, m: &Model, k: &Knobs, route: Route) -> Result<Vec<f64>, String> {
    let pt = (x.ncols(), y.ncols());
    multi!(&DatasetBase::from((x, y)), m, k, route, pt)
}
fn runm_csc<F: Fl>(x: CSCArray<'_, F>, y: ArrayView2<F>, m: &Model, k: &Knobs, route: Route) -> Result<Vec<f64>, String> {
    let pt = (x.indptr.len() - 1, y.ncols());
    multi!(&DatasetBase::from((x, y)), m, k, route, pt)
}

/// A failed fit: a panic, an error, or a wrongly shaped result.
#[derive(Clone, Debug, PartialEq)]
pub struct Fail(pub String);

/// The layout of the targets that go with a design matrix stored as `st`: any, but the same for the
/// same problem and storage, and for an owned array and the plain view of the same order.
pub fn target_layout(st: Storage, n: usize, p: usize, t: usize) -> Storage {
    const VIEWS: &[Storage] = &[
        Storage::C,
        Storage::F,
        Storage::Strided,
        Storage::Rev,
        Storage::FlipCols,
        Storage::FlipRowsF,
        Storage::Win,
        Storage::WinF,
        Storage::StepF,
    ];
    let h = (n * 31 + p * 17 + t * 7 + (n * p) / 3) % 61;
    match st {
        Storage::C | Storage::OwnC => [Storage::C, Storage::F][h % 2],
        Storage::F | Storage::OwnF => [Storage::F, Storage::C][h % 2],
        _ => VIEWS[(h + st as usize * 5) % VIEWS.len()],
    }
}

/// Fit without any protection (panics pass through).
pub fn fit_raw<F: Fl>(pr: &Prob, m: &Model, k: &Knobs, st: Storage, route: Route) -> Result<Vec<f64>, String> {
    let w = if m.multi {
        if st.sparse() {
            let y = DenseBuf::<F>::new(pr.n, pr.t, &pr.y, target_layout(st, pr.n, pr.p, pr.t));
            runm_csc(CscBuf::<F>::new(pr, st).view(), y.view(), m, k, route)
        } else {
            let x = DenseBuf::<F>::new(pr.n, pr.p, &pr.x, st);
            let y = DenseBuf::<F>::new(pr.n, pr.t, &pr.y, target_layout(st, pr.n, pr.p, pr.t));
            match st {
                Storage::OwnC | Storage::OwnF => runm_own(x.buf, y.buf, m, k, route),
                _ => runm_dense(x.view(), y.view(), m, k, route),
            }
        }
    } else {
        assert_eq!(pr.t, 1);
        let y = DenseBuf::<F>::new(pr.n, 1, &pr.y, target_layout(st, pr.n, pr.p, 1));
        let yv = y.view();
        let y1 = yv.index_axis(ndarray::Axis(1), 0);
        if st.sparse() {
            run1_csc(CscBuf::<F>::new(pr, st).view(), y1, m, k, route)
        } else {
            let x = DenseBuf::<F>::new(pr.n, pr.p, &pr.x, st);
            match st {
                Storage::OwnC | Storage::OwnF => run1_own(x.buf, y1.to_owned(), m, k, route),
                _ => run1_dense(x.view(), y1, m, k, route),
            }
        }
    }?;
    if w.len() != pr.p * pr.t {
        return Err(format!("SHAPE: {} coefficients for {} x {}", w.len(), pr.p, pr.t));
    }
    Ok(w)
}

pub fn fit<F: Fl>(pr: &Prob, m: &Model, k: &Knobs, st: Storage, route: Route) -> Result<Vec<f64>, Fail> {
    match guard(|| fit_raw::<F>(pr, m, k, st, route)) {
        Ok(Ok(w)) => Ok(w),
        Ok(Err(e)) => Err(Fail(format!("error: {e}"))),
        Err(p) => Err(Fail(format!("PANIC: {p}"))),
    }
}
pub fn fit64(pr: &Prob, m: &Model, k: &Knobs, st: Storage, route: Route) -> Result<Vec<f64>, Fail> {
    fit::<f64>(pr, m, k, st, route)
}

pub fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

/// Fit, and decide whether the solver stopped before its budget: the same fit with one more
/// outer iteration returns the same bits exactly when nothing was left to do.
pub fn fit_stopped<F: Fl>(pr: &Prob, m: &Model, k: &Knobs, st: Storage, route: Route) -> Result<(Vec<f64>, bool), Fail> {
    let w = fit::<F>(pr, m, k, st, route)?;
    let k2 = Knobs { iters: k.iters + 1, ..*k };
    let w2 = fit::<F>(pr, m, &k2, st, route)?;
    let same = bits(&w) == bits(&w2);
    Ok((w, same))
}

/// Random penalty strength relative to the null-model threshold.
pub fn any_alpha(r: &mut Rng, amax: f64) -> f64 {
    let amax = if amax > 0.0 { amax } else { 1.0 };
    match r.int(0, 9) {
        0 => amax * r.range(0.9, 1.2),
        1 => amax * 0.5,
        2 => amax * r.logu(1e-4, 1e-3),
        3 => r.logu(1e-3, 10.0),
        _ => amax * r.logu(1e-3, 0.9),
    }
}
