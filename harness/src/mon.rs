//! Fits through the Solver with the library's own datafits and penalties wrapped in work
//! counters (transparent: every call is forwarded).
use crate::fit::*;
use crate::gen::Prob;
use crate::refm::{Df, Model, Pen};
use crate::rep::guard;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix};
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver};
use std::cell::{Cell, RefCell};

#[derive(Default, Debug)]
pub struct Work {
    last: Cell<usize>,
    pub per_feature: RefCell<Vec<u64>>,
    pub prox: Cell<u64>,
    pub grads: Cell<u64>,
    pub inits: Cell<u64>,
    pub values: Cell<u64>,
    /// abort knob: panic once this many prox calls were made (0: never)
    pub limit: Cell<u64>,
    /// number of features when phases are recorded
    pub track: Cell<usize>,
    /// penalty values are NaN from this many coordinate updates on (0: never)
    pub mute: Cell<u64>,
    pub phases: RefCell<Vec<Phase>>,
}
/// What the solver did from one scoring of all features to the next.
#[derive(Debug, Clone)]
pub struct Phase {
    /// coefficients the features were scored at (rows of tasks)
    pub w: Vec<f64>,
    /// coordinate updates per feature
    pub steps: Vec<u32>,
}
impl Work {
    fn pen_value<F: Fl>(&self, v: F) -> F {
        if self.mute.get() > 0 && self.prox.get() >= self.mute.get() {
            return c(f64::NAN);
        }
        v
    }
    fn scored(&self, features: usize, w: impl FnOnce() -> Vec<f64>) {
        let p = self.track.get();
        if p > 0 && features == p {
            self.phases.borrow_mut().push(Phase { w: w(), steps: vec![0; p] });
        }
    }
    fn grad(&self, j: usize) {
        self.grads.set(self.grads.get() + 1);
        self.last.set(j);
    }
    fn step(&self) {
        self.prox.set(self.prox.get() + 1);
        if self.limit.get() > 0 && self.prox.get() > self.limit.get() {
            panic!("work limit of {} coordinate updates exceeded", self.limit.get());
        }
        let mut v = self.per_feature.borrow_mut();
        let j = self.last.get();
        if self.track.get() > 0 {
            if let Some(ph) = self.phases.borrow_mut().last_mut() {
                ph.steps[j] += 1;
            }
        }
        if v.len() <= j {
            v.resize(j + 1, 0);
        }
        v[j] += 1;
    }
}
pub struct CDf<'a, D>(pub D, pub &'a Work);
pub struct CPen<'a, P>(pub P, pub &'a Work);

impl<F: Fl, DM: DesignMatrix<Elem = F>, T: AsSingleTargets<Elem = F>, D: Datafit<F, DM, T>> Datafit<F, DM, T> for CDf<'_, D> {
    fn initialize(&mut self, ds: &DatasetBase<DM, T>) {
        self.1.inits.set(self.1.inits.get() + 1);
        self.0.initialize(ds)
    }
    fn value(&self, ds: &DatasetBase<DM, T>, xw: ArrayView1<F>) -> F {
        self.1.values.set(self.1.values.get() + 1);
        self.0.value(ds, xw)
    }
    fn gradient_j(&self, ds: &DatasetBase<DM, T>, xw: ArrayView1<F>, j: usize) -> F {
        self.1.grad(j);
        self.0.gradient_j(ds, xw, j)
    }
    fn full_grad(&self, ds: &DatasetBase<DM, T>, xw: ArrayView1<F>) -> Array1<F> {
        self.0.full_grad(ds, xw)
    }
    fn step_size(&self) -> ArrayView1<F> {
        self.0.step_size()
    }
}
impl<F: Fl, DM: DesignMatrix<Elem = F>, T: AsMultiTargets<Elem = F>, D: MultiTaskDatafit<F, DM, T>> MultiTaskDatafit<F, DM, T> for CDf<'_, D> {
    fn initialize(&mut self, ds: &DatasetBase<DM, T>) {
        self.1.inits.set(self.1.inits.get() + 1);
        self.0.initialize(ds)
    }
    fn value(&self, ds: &DatasetBase<DM, T>, xw: ArrayView2<F>) -> F {
        self.1.values.set(self.1.values.get() + 1);
        self.0.value(ds, xw)
    }
    fn gradient_j(&self, ds: &DatasetBase<DM, T>, xw: ArrayView2<F>, j: usize) -> Array1<F> {
        self.1.grad(j);
        self.0.gradient_j(ds, xw, j)
    }
    fn full_grad(&self, ds: &DatasetBase<DM, T>, xw: ArrayView2<F>) -> Array2<F> {
        self.0.full_grad(ds, xw)
    }
    fn step_size(&self) -> ArrayView1<F> {
        self.0.step_size()
    }
}
impl<F: Fl, P: Penalty<F>> Penalty<F> for CPen<'_, P> {
    fn value(&self, w: ArrayView1<F>) -> F {
        self.1.pen_value(self.0.value(w))
    }
    fn prox(&self, v: F, s: F) -> F {
        self.1.step();
        self.0.prox(v, s)
    }
    fn subdiff_distance(&self, w: ArrayView1<F>, g: ArrayView1<F>, ws: ArrayView1<usize>) -> (Array1<F>, F) {
        self.1.scored(ws.len(), || w.iter().map(|v| up(*v)).collect());
        self.0.subdiff_distance(w, g, ws)
    }
    fn opt_violation(&self, w: ArrayView1<F>, g: ArrayView1<F>, l: ArrayView1<F>, ws: ArrayView1<usize>) -> (Array1<F>, F) {
        self.1.scored(ws.len(), || w.iter().map(|v| up(*v)).collect());
        self.0.opt_violation(w, g, l, ws)
    }
}
impl<F: Fl, P: MultiTaskPenalty<F>> MultiTaskPenalty<F> for CPen<'_, P> {
    fn value(&self, w: ArrayView2<F>) -> F {
        self.1.pen_value(self.0.value(w))
    }
    fn prox(&self, v: ArrayView1<F>, s: F) -> Array1<F> {
        self.1.step();
        self.0.prox(v, s)
    }
    fn subdiff_distance(&self, w: ArrayView2<F>, g: ArrayView2<F>, ws: ArrayView1<usize>) -> (Array1<F>, F) {
        self.1.scored(ws.len(), || w.iter().map(|v| up(*v)).collect());
        self.0.subdiff_distance(w, g, ws)
    }
}

macro_rules! sol1 {
    ($k:expr, $ds:expr, $df:expr, $pen:expr, $w:expr) => {{
        let mut d = CDf($df, $w);
        let p = CPen($pen, $w);
        let r: Array1<F> = solver::<F>($k).solve($ds, &mut d, &p).unwrap();
        r.iter().map(|v| up(*v)).collect::<Vec<f64>>()
    }};
}
macro_rules! solm {
    ($k:expr, $ds:expr, $pen:expr, $w:expr) => {{
        let mut d = CDf(QuadraticMultiTask::<F>::new(), $w);
        let p = CPen($pen, $w);
        let r: Array2<F> = solver::<F>($k).solve_multi_task($ds, &mut d, &p).unwrap();
        r.iter().map(|v| up(*v)).collect::<Vec<f64>>()
    }};
}
macro_rules! any1 {
    ($m:expr, $k:expr, $ds:expr, $w:expr) => {
        match ($m.df, $m.pen) {
            (Df::Quad, Pen::L1 { a }) => sol1!($k, $ds, Quadratic::<F>::new(), L1::new(c::<F>(a)), $w),
            (Df::Quad, Pen::L1L2 { a, r }) => sol1!($k, $ds, Quadratic::<F>::new(), L1PlusL2::new(c::<F>(a), c(r)), $w),
            (Df::Quad, Pen::Mcp { a, g }) => sol1!($k, $ds, Quadratic::<F>::new(), MCP::new(c::<F>(a), c(g)), $w),
            (Df::Quad, Pen::L05 { a }) => sol1!($k, $ds, Quadratic::<F>::new(), L05::new(c::<F>(a)), $w),
            (Df::Logit, Pen::L1 { a }) => sol1!($k, $ds, Logistic::<F>::new(), L1::new(c::<F>(a)), $w),
            (Df::Logit, Pen::L1L2 { a, r }) => sol1!($k, $ds, Logistic::<F>::new(), L1PlusL2::new(c::<F>(a), c(r)), $w),
            (Df::Logit, Pen::Mcp { a, g }) => sol1!($k, $ds, Logistic::<F>::new(), MCP::new(c::<F>(a), c(g)), $w),
            (Df::Logit, Pen::L05 { a }) => sol1!($k, $ds, Logistic::<F>::new(), L05::new(c::<F>(a)), $w),
        }
    };
}
macro_rules! anym {
    ($m:expr, $k:expr, $ds:expr, $w:expr) => {
        match $m.pen {
            Pen::L1 { a } => solm!($k, $ds, L21::new(c::<F>(a)), $w),
            Pen::L1L2 { a, r } => solm!($k, $ds, BlockL1PlusL2::new(c::<F>(a), c(r)), $w),
            Pen::Mcp { a, g } => solm!($k, $ds, BlockMCP::new(c::<F>(a), c(g)), $w),
            Pen::L05 { .. } => unreachable!(),
        }
    };
}

/// Coefficients and work of one fit.
pub fn work_fit<F: Fl>(pr: &Prob, m: &Model, k: &Knobs, st: Storage, limit: u64) -> Result<(Vec<f64>, Work), Fail> {
    tracked::<F>(pr, m, k, st, limit, 0, 0)
}
/// The same with the phases between full scorings recorded.
pub fn phase_fit<F: Fl>(pr: &Prob, m: &Model, k: &Knobs, st: Storage) -> Result<(Vec<f64>, Work), Fail> {
    tracked::<F>(pr, m, k, st, 0, pr.p, 0)
}
/// A fit whose objective is not a number from the `mute`-th coordinate update on: no
/// extrapolation is an improvement from there.
pub fn muted_fit<F: Fl>(pr: &Prob, m: &Model, k: &Knobs, st: Storage, mute: u64) -> Result<(Vec<f64>, Work), Fail> {
    tracked::<F>(pr, m, k, st, 0, 0, mute)
}
fn tracked<F: Fl>(pr: &Prob, m: &Model, k: &Knobs, st: Storage, limit: u64, track: usize, mute: u64) -> Result<(Vec<f64>, Work), Fail> {
    let work = Work::default();
    work.limit.set(limit);
    work.track.set(track);
    work.mute.set(mute);
    let w = guard(|| {
        let wk = &work;
        let y = DenseBuf::<F>::new(pr.n, pr.t, &pr.y, target_layout(st, pr.n, pr.p, pr.t));
        let y2: ArrayView2<F> = y.view();
        let y1 = y2.index_axis(ndarray::Axis(1), 0);
        if st.sparse() {
            let x = CscBuf::<F>::new(pr, st);
            if m.multi {
                let ds = DatasetBase::from((x.view(), y2));
                anym!(m, k, &ds, wk)
            } else {
                let ds = DatasetBase::from((x.view(), y1));
                any1!(m, k, &ds, wk)
            }
        } else {
            let x = DenseBuf::<F>::new(pr.n, pr.p, &pr.x, st);
            if m.multi {
                let ds = DatasetBase::from((x.view(), y2));
                anym!(m, k, &ds, wk)
            } else {
                let ds = DatasetBase::from((x.view(), y1));
                any1!(m, k, &ds, wk)
            }
        }
    })
    .map_err(|e| Fail(format!("PANIC: {e}")))?;
    Ok((w, work))
}
