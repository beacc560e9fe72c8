//! The six estimator parameter sets behind one interface.
use crate::fit::*;
use ndarray::{ArrayView1, ArrayView2};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::DatasetBase;
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::estimators::{BlockMCPEstimator, ElasticNet, Lasso, MCPEstimator, MultiTaskElasticNet, MultiTaskLasso};
use sparseglm::estimators::hyperparams::*;
use sparseglm::estimators::param_guard::ParamGuard;
use sparseglm::estimators::traits::Fit;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Alpha(f64),
    /// gamma or l1_ratio
    Second(f64),
    Iters(usize),
    Epochs(usize),
    Ws(usize),
    Tol(f64),
    K(usize),
    Accel(bool),
    Verbose(bool),
}
#[derive(Clone, Copy, Debug)]
pub struct Set {
    pub alpha: f64,
    pub second: Option<f64>,
    pub iters: usize,
    pub epochs: usize,
    pub ws: usize,
    pub tol: f64,
    pub k: usize,
    pub accel: bool,
    pub verbose: bool,
}
impl Set {
    pub fn apply(&mut self, op: Op) {
        match op {
            Op::Alpha(v) => self.alpha = v,
            Op::Second(v) => {
                if self.second.is_some() {
                    self.second = Some(v)
                }
            }
            Op::Iters(v) => self.iters = v,
            Op::Epochs(v) => self.epochs = v,
            Op::Ws(v) => self.ws = v,
            Op::Tol(v) => self.tol = v,
            Op::K(v) => self.k = v,
            Op::Accel(v) => self.accel = v,
            Op::Verbose(v) => self.verbose = v,
        }
    }
    /// bitwise comparison, all NaNs alike
    pub fn same(&self, o: &Set) -> bool {
        let b = |v: f64| if v.is_nan() { u64::MAX } else { v.to_bits() };
        b(self.alpha) == b(o.alpha)
            && self.second.map(b) == o.second.map(b)
            && (self.iters, self.epochs, self.ws, self.k, self.accel, self.verbose)
                == (o.iters, o.epochs, o.ws, o.k, o.accel, o.verbose)
            && b(self.tol) == b(o.tol)
    }
}
#[derive(Clone, Debug)]
pub struct Data<F> {
    pub x: DenseBufOf<F>,
    pub csc: CscBuf<F>,
    pub n: usize,
    pub p: usize,
    pub t: usize,
}
#[derive(Clone, Debug)]
pub struct DenseBufOf<F> {
    pub x: ndarray::Array2<F>,
    pub y: ndarray::Array2<F>,
}
impl<F: Fl> Data<F> {
    pub fn new(pr: &crate::gen::Prob, st: Storage) -> Self {
        Data {
            x: DenseBufOf {
                x: ndarray::Array2::from_shape_fn((pr.n, pr.p), |(i, j)| F::cast(pr.xij(i, j))),
                y: ndarray::Array2::from_shape_fn((pr.n, pr.t), |(i, j)| F::cast(pr.yit(i, j))),
            },
            csc: CscBuf::new(pr, st),
            n: pr.n,
            p: pr.p,
            t: pr.t,
        }
    }
}

pub type Coefs = Vec<f64>;

pub trait Params<F: Fl>: Clone + PartialEq + std::fmt::Debug + Sized {
    const NAME: &'static str;
    const MULTI: bool;
    /// default of the second hyperparameter (gamma or l1_ratio)
    const SECOND: Option<f64>;
    const GAMMA: bool;
    fn via_new() -> Self;
    fn via_default() -> Self;
    fn via_estimator() -> Self;
    fn op(self, op: Op) -> Self;
    fn check_by_ref(&self) -> Result<Set, EstimatorError>;
    fn check_by_value(self) -> Result<Set, EstimatorError>;
    fn unwrap_it(self) -> Set;
    fn fit_dense(&self, d: &Data<F>) -> Result<Coefs, EstimatorError>;
    fn fit_csc(&self, d: &Data<F>) -> Result<Coefs, EstimatorError>;
    fn fit_checked_dense(&self, d: &Data<F>) -> Result<Coefs, EstimatorError>;
    fn fit_checked_csc(&self, d: &Data<F>) -> Result<Coefs, EstimatorError>;
}

macro_rules! second {
    (none, $p:expr, $v:expr) => {{
        let _ = $v;
        $p
    }};
    ($f:ident, $p:expr, $v:expr) => {
        $p.$f(c($v))
    };
}
macro_rules! get2 {
    (none, $p:expr) => {
        None
    };
    ($f:ident, $p:expr) => {
        Some(up($p.$f()))
    };
}
macro_rules! read {
    ($v:expr, $s:ident) => {
        Set {
            alpha: up($v.alpha()),
            second: get2!($s, $v),
            iters: $v.max_iterations(),
            epochs: $v.max_epochs(),
            ws: $v.ws_start_size(),
            tol: up($v.tolerance()),
            k: $v.K(),
            accel: $v.use_acceleration(),
            verbose: $v.verbose(),
        }
    };
}
macro_rules! params {
    ($P:ident, $E:ident, $name:expr, $multi:tt, $s:ident, $default:expr, $gamma:expr) => {
        impl<F: Fl> Params<F> for $P<F> {
            const NAME: &'static str = $name;
            const MULTI: bool = $multi;
            const SECOND: Option<f64> = $default;
            const GAMMA: bool = $gamma;
            fn via_new() -> Self {
                $P::new()
            }
            fn via_default() -> Self {
                Default::default()
            }
            fn via_estimator() -> Self {
                $E::params()
            }
            fn op(self, op: Op) -> Self {
                match op {
                    Op::Alpha(v) => self.alpha(c(v)),
                    Op::Second(v) => second!($s, self, v),
                    Op::Iters(v) => self.max_iterations(v),
                    Op::Epochs(v) => self.max_epochs(v),
                    Op::Ws(v) => self.ws_start_size(v),
                    Op::Tol(v) => self.tolerance(c(v)),
                    Op::K(v) => self.K(v),
                    Op::Accel(v) => self.use_acceleration(v),
                    Op::Verbose(v) => self.verbose(v),
                }
            }
            fn check_by_ref(&self) -> Result<Set, EstimatorError> {
                self.check_ref().map(|v| read!(v, $s))
            }
            fn check_by_value(self) -> Result<Set, EstimatorError> {
                self.check().map(|v| read!(v, $s))
            }
            fn unwrap_it(self) -> Set {
                let v = self.check_unwrap();
                read!(v, $s)
            }
            fn fit_dense(&self, d: &Data<F>) -> Result<Coefs, EstimatorError> {
                fitting!($multi, self, d.x.x.view(), ArrayView2<F>, d)
            }
            fn fit_csc(&self, d: &Data<F>) -> Result<Coefs, EstimatorError> {
                fitting!($multi, self, d.csc.view(), CSCArray<F>, d)
            }
            fn fit_checked_dense(&self, d: &Data<F>) -> Result<Coefs, EstimatorError> {
                let v = self.clone().check()?;
                fitting!($multi, &v, d.x.x.view(), ArrayView2<F>, d)
            }
            fn fit_checked_csc(&self, d: &Data<F>) -> Result<Coefs, EstimatorError> {
                let v = self.clone().check()?;
                fitting!($multi, &v, d.csc.view(), CSCArray<F>, d)
            }
        }
    };
}
macro_rules! fitting {
    (true, $p:expr, $x:expr, $X:ty, $d:expr) => {{
        let ds: DatasetBase<$X, ArrayView2<F>> = DatasetBase::from(($x, $d.x.y.view()));
        Fit::<$X, ArrayView2<F>, EstimatorError>::fit($p, &ds).map(|m| m.coefficients().iter().map(|v| up(*v)).collect())
    }};
    (false, $p:expr, $x:expr, $X:ty, $d:expr) => {{
        let y = $d.x.y.index_axis(ndarray::Axis(1), 0);
        let ds: DatasetBase<$X, ArrayView1<F>> = DatasetBase::from(($x, y));
        Fit::<$X, ArrayView1<F>, EstimatorError>::fit($p, &ds).map(|m| m.coefficients().iter().map(|v| up(*v)).collect())
    }};
}
params!(LassoParams, Lasso, "lasso", false, none, None, false);
params!(ElasticNetParams, ElasticNet, "enet", false, l1_ratio, Some(0.5), false);
params!(MCParams, MCPEstimator, "mcp", false, gamma, Some(3.0), true);
params!(MultiTaskLassoParams, MultiTaskLasso, "mt-lasso", true, none, None, false);
params!(MultiTaskElasticNetParams, MultiTaskElasticNet, "mt-enet", true, l1_ratio, Some(0.5), false);
params!(BlockMCParams, BlockMCPEstimator, "block-mcp", true, gamma, Some(3.0), true);

pub fn rounded<F: Fl>(v: f64) -> f64 {
    up::<F>(c::<F>(v))
}
/// Documented defaults of the estimators.
pub fn defaults<F: Fl, P: Params<F>>() -> Set {
    Set {
        alpha: 1.0,
        second: P::SECOND.map(rounded::<F>),
        iters: 50,
        epochs: 1000,
        ws: 10,
        tol: rounded::<F>(1e-6),
        k: 5,
        accel: true,
        verbose: true,
    }
}
