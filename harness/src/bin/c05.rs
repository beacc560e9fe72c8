//! C05: the solver drives user-supplied datafits, penalties, matrices and targets correctly.
//! Every trait call is observed by an online monitor with a shadow copy of the iterate.
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use sparseglm::datafits::multi_task::MultiTaskDatafit;
use sparseglm::datafits::single_task::Datafit;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DesignMatrix, DesignMatrixType};
use sparseglm::penalties::block_separable::MultiTaskPenalty;
use sparseglm::penalties::separable::Penalty;
use sparseglm::solvers::{BCDSolver, CDSolver};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vh::fit::{bits, solver, Knobs};
use vh::gen::{self, Prob, Size};
use vh::refm::{self, dot, norm};
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq)]
enum UDf {
    /// weighted least squares
    Wls,
    /// Huber with threshold 1
    Huber,
    /// squared hinge, labels +-1
    SqHinge,
    /// plain least squares, declared constants twice too large
    Loose,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum UPen {
    L1(f64),
    NonNeg(f64),
    Ridge(f64),
    Box(f64, f64),
}

struct Mon {
    pr: Prob,
    df: UDf,
    wts: Vec<f64>,
    lips: Vec<f64>,
    inits: usize,
    errs: Vec<Viol>,
    /// possible current iterates (a pending extrapolated point is a second hypothesis)
    hyps: Vec<Vec<f64>>,
    last_grad: BTreeMap<usize, Vec<f64>>,
    scale: f64,
    /// of the columns of X
    unit: f64,
    counts: BTreeMap<&'static str, u64>,
    vals: Vec<(bool, Vec<f64>)>,
}
type M = Rc<RefCell<Mon>>;

impl Mon {
    fn err(&mut self, sig: &str, d: String) {
        if self.errs.len() < 5 {
            self.errs.push(Viol { sig: sig.into(), detail: d });
        }
    }
    fn hit(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    fn used(&mut self, what: &str) {
        if self.inits != 1 {
            let n = self.inits;
            self.err("use-before-initialize", format!("{what} with {n} initialisations"));
        }
    }
    fn magnitude(&self, w: &[f64]) -> f64 {
        let t = self.pr.t;
        let mut m = 0.0f64;
        for i in 0..self.pr.n {
            for k in 0..t {
                let s: f64 = (0..self.pr.p).map(|j| (self.pr.x[i * self.pr.p + j] * w[j * t + k]).abs()).sum();
                m = m.max(s);
            }
        }
        m
    }
    fn fit_matches(&mut self, w: &[f64], xw: &[f64]) -> bool {
        let f = refm::xw(&self.pr, w);
        let tol = 1e-9 * self.scale.max(self.magnitude(w)) + 1e-300;
        f.iter().zip(xw).all(|(a, b)| (a - b).abs() <= tol)
    }
    fn grow(&mut self, w: &[f64]) {
        let m = self.magnitude(w);
        if m.is_finite() {
            self.scale = self.scale.max(m);
        }
    }
    /// keep hypotheses consistent with an observation
    fn observe(&mut self, sig: &str, what: String, mut keep: impl FnMut(&mut Mon, &[f64]) -> bool) {
        let old = std::mem::take(&mut self.hyps);
        let mut out = vec![];
        for h in &old {
            if keep(self, h) {
                out.push(h.clone());
            }
        }
        if out.is_empty() {
            self.err(sig, format!("{what}; possible iterates {old:?}"));
            out = old;
        }
        self.hyps = out;
    }
    fn value(&self, xw: &[f64]) -> f64 {
        let (n, pr) = (self.pr.n as f64, &self.pr);
        let mut s = 0.0;
        for i in 0..pr.n {
            for k in 0..pr.t {
                let (y, f) = (pr.y[i * pr.t + k], xw[i * pr.t + k]);
                s += match self.df {
                    UDf::Wls => 0.5 * self.wts[i] * (y - f) * (y - f),
                    UDf::Loose => 0.5 * (y - f) * (y - f),
                    UDf::Huber => {
                        let r = (y - f).abs();
                        if r <= 1.0 {
                            0.5 * r * r
                        } else {
                            r - 0.5
                        }
                    }
                    UDf::SqHinge => 0.5 * (1.0 - y * f).max(0.0).powi(2),
                };
            }
        }
        s / n
    }
    fn grad(&self, xw: &[f64], j: usize) -> Vec<f64> {
        let pr = &self.pr;
        (0..pr.t)
            .map(|k| {
                let mut s = 0.0;
                for i in 0..pr.n {
                    let (y, f) = (pr.y[i * pr.t + k], xw[i * pr.t + k]);
                    let d = match self.df {
                        UDf::Wls => self.wts[i] * (f - y),
                        UDf::Loose => f - y,
                        UDf::Huber => (f - y).clamp(-1.0, 1.0),
                        UDf::SqHinge => -y * (1.0 - y * f).max(0.0),
                    };
                    s += pr.x[i * pr.p + j] * d;
                }
                s / pr.n as f64
            })
            .collect()
    }
    fn on_grad(&mut self, xw: &[f64], j: usize) -> Vec<f64> {
        self.hit("gradient calls");
        self.used("gradient_j");
        if j >= self.pr.p {
            self.err("no-such-feature", format!("gradient_j asked for feature {j} of {}", self.pr.p));
            return vec![0.0; self.pr.t];
        }
        if xw.len() != self.pr.n * self.pr.t {
            self.err("fit-shape", format!("gradient_j got a fit of {} entries", xw.len()));
            return vec![0.0; self.pr.t];
        }
        let what = format!("gradient_j({j}) given fit {xw:?} that is not X times the coefficients");
        self.observe("stale-fit", what, |m, h| m.fit_matches(h, xw));
        let g = self.grad(xw, j);
        self.last_grad.insert(j, g.clone());
        g
    }
    fn on_step_size(&mut self) {
        self.used("step_size");
    }
    fn on_prox(&mut self, v: &[f64], step: f64) {
        self.hit("prox calls");
        self.used("prox");
        let cand: Vec<usize> =
            (0..self.pr.p).filter(|j| self.lips[*j] > 0.0 && (step * self.lips[*j] - 1.0).abs() < 1e-12).collect();
        if cand.is_empty() {
            let l = self.lips.clone();
            self.err("wrong-step", format!("prox with step {step:e}, declared constants {l:?}"));
            return;
        }
        let t = self.pr.t;
        let what = format!("prox({v:?}, {step:e}) is not a gradient step on any feature declaring that step");
        self.observe("wrong-step-point", what, |m, h| {
            cand.iter().any(|j| match m.last_grad.get(j) {
                None => false,
                Some(g) => (0..t).all(|k| {
                    let top = h.iter().fold(0.0f64, |m, v| m.max(v.abs()));
                    let e = h[j * t + k] - g[k] * step;
                    (v[k] - e).abs() <= 1e-9 * (h[j * t + k].abs() + (g[k] * step).abs()) + 1e-10 * top + 1e-300
                }),
            })
        });
    }
    fn on_update(&mut self, xw: usize, diff: &[f64], j: usize) {
        self.hit("model-fit updates");
        if j >= self.pr.p || xw != self.pr.n * self.pr.t || diff.len() != self.pr.t {
            let d = format!("update_model_fit of feature {j} with {} differences on {xw} entries", diff.len());
            self.err("bad-update", d);
            return;
        }
        let t = self.pr.t;
        for h in self.hyps.iter_mut() {
            for k in 0..t {
                h[j * t + k] += diff[k];
            }
        }
        for h in self.hyps.clone() {
            self.grow(&h);
        }
    }
    fn indices(&mut self, who: &str, ws: ArrayView1<usize>) -> bool {
        let mut v = ws.to_vec();
        let n = v.len();
        v.sort();
        v.dedup();
        if v.len() != n || v.iter().any(|j| *j >= self.pr.p) {
            let d = format!("{who} given features {ws:?} of {}", self.pr.p);
            self.err("bad-feature-list", d);
            return false;
        }
        true
    }
    fn on_extrapolate(&mut self, ws: ArrayView1<usize>, w: &[f64], n: usize, t: usize) -> Vec<f64> {
        self.hit("extrapolations");
        if n != self.pr.n || t != self.pr.t || w.len() != self.pr.p * t {
            self.err("bad-extrapolation", format!("extrapolated fit asked for {n} x {t}, {} coefficients", w.len()));
            return vec![0.0; n * t];
        }
        if !self.indices("compute_extrapolated_fit", ws) {
            return vec![0.0; n * t];
        }
        let mut out = vec![0.0; n * t];
        for i in 0..n {
            for k in 0..t {
                out[i * t + k] = ws.iter().map(|j| self.pr.x[i * self.pr.p + j] * w[j * t + k]).sum();
            }
        }
        self.grow(w);
        self.hyps.push(w.to_vec());
        if self.hyps.len() > 4 {
            self.hyps.remove(0);
        }
        out
    }
    /// value of the loss (is_fit) or of the penalty: recorded, paired at the end of the run
    fn on_value(&mut self, is_fit: bool, v: Vec<f64>) {
        self.hit(if is_fit { "datafit values" } else { "penalty values" });
        self.used("value");
        self.vals.push((is_fit, v));
        if self.vals.len() > 12 {
            self.pair(false);
        }
    }
    /// Objectives are a loss and a penalty value of the same point: every fit whose loss was
    /// asked must be X times a nearby penalised coefficient vector.
    fn pair(&mut self, all: bool) {
        let upto = if all { self.vals.len() } else { 6 };
        for i in 0..upto {
            if !self.vals[i].0 {
                continue;
            }
            let xw = self.vals[i].1.clone();
            if xw.len() != self.pr.n * self.pr.t {
                self.err("fit-shape", format!("value got a fit of {} entries", xw.len()));
                continue;
            }
            let lo = i.saturating_sub(4);
            let hi = (i + 5).min(self.vals.len());
            let near: Vec<Vec<f64>> = self.vals[lo..hi].iter().filter(|v| !v.0).map(|v| v.1.clone()).collect();
            self.hit("objective pairs");
            if !xw.iter().all(|v| v.is_finite()) {
                continue;
            }
            if !near.iter().any(|w| self.fit_matches(w, &xw)) {
                self.err("objective-of-different-points", format!("loss at fit {xw:?}, penalty only at {near:?}"));
            }
        }
        let keep = if all { self.vals.len() } else { 2 };
        self.vals.drain(..keep);
    }
    fn on_dist(&mut self, w: &[f64], g: &[f64], ws: ArrayView1<usize>) {
        self.hit("violation requests");
        self.used("subdiff_distance");
        let t = self.pr.t;
        if w.len() != self.pr.p * t || g.len() != ws.len() * t {
            let d = format!("subdiff_distance with {} coefficients, {} gradients, {} features", w.len(), g.len(), ws.len());
            self.err("bad-distance-request", d);
            return;
        }
        if !self.indices("subdiff_distance", ws) {
            return;
        }
        self.grow(w);
        let tol = 1e-9 * w.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let what = format!("subdiff_distance at coefficients {w:?} that are not the iterate");
        self.observe("wrong-coefficients", what, |_, h| h.iter().zip(w).all(|(a, b)| (a - b).abs() <= tol + 1e-9 * a.abs()));
        self.hyps = vec![w.to_vec()];
        let f = refm::xw(&self.pr, w);
        for (i, j) in ws.iter().enumerate() {
            let e = self.grad(&f, *j);
            let sc = 1e-8 * (self.scale + 1.0) * (self.lips[*j].sqrt() * 10.0 + self.unit) * self.wts.iter().fold(1.0f64, |a, b| a.max(*b));
            for k in 0..t {
                if !((g[i * t + k] - e[k]).abs() <= sc) {
                    let d = format!("gradient {:e} given for feature {j}, true gradient {:e} at {w:?}", g[i * t + k], e[k]);
                    self.err("wrong-gradient", d);
                    return;
                }
            }
        }
    }
}

struct Mat(M);
impl DesignMatrix for Mat {
    type Elem = f64;
    fn n_features(&self) -> usize {
        self.0.borrow().pr.p
    }
    fn matrix_type(&self) -> DesignMatrixType {
        DesignMatrixType::Dense
    }
    fn compute_extrapolated_fit(&self, ws: ArrayView1<usize>, w: &Array1<f64>, n: usize) -> Array1<f64> {
        Array1::from(self.0.borrow_mut().on_extrapolate(ws, &w.to_vec(), n, 1))
    }
    fn compute_extrapolated_fit_multi_task(&self, ws: ArrayView1<usize>, w: &Array2<f64>, n: usize, t: usize) -> Array2<f64> {
        let v: Vec<f64> = w.iter().copied().collect();
        Array2::from_shape_vec((n, t), self.0.borrow_mut().on_extrapolate(ws, &v, n, t)).unwrap()
    }
    fn update_model_fit(&self, xw: &mut Array1<f64>, diff: f64, j: usize) {
        self.0.borrow_mut().on_update(xw.len(), &[diff], j);
        let m = self.0.borrow();
        if j < m.pr.p {
            for i in 0..m.pr.n {
                xw[i] += diff * m.pr.x[i * m.pr.p + j];
            }
        }
    }
    fn update_model_fit_multi_task(&self, xw: &mut Array2<f64>, diff: ArrayView1<f64>, j: usize) {
        self.0.borrow_mut().on_update(xw.len(), &diff.to_vec(), j);
        let m = self.0.borrow();
        if j < m.pr.p {
            for i in 0..m.pr.n {
                for k in 0..m.pr.t {
                    xw[[i, k]] += diff[k] * m.pr.x[i * m.pr.p + j];
                }
            }
        }
    }
}
struct Tgt(Array2<f64>);
impl AsMultiTargets for Tgt {
    type Elem = f64;
    fn n_samples(&self) -> usize {
        self.0.nrows()
    }
    fn n_tasks(&self) -> usize {
        self.0.ncols()
    }
    fn as_multi_tasks(&self) -> ArrayView2<f64> {
        self.0.view()
    }
}
impl AsSingleTargets for Tgt {}

struct UserDf(M, Array1<f64>);
impl UserDf {
    fn init(&mut self) {
        self.0.borrow_mut().inits += 1;
        self.1 = Array1::from(self.0.borrow().lips.clone());
    }
}
fn flat1(x: ArrayView1<f64>) -> Vec<f64> {
    x.iter().copied().collect()
}
fn flat2(x: ArrayView2<f64>) -> Vec<f64> {
    x.iter().copied().collect()
}
impl Datafit<f64, Mat, Tgt> for UserDf {
    fn initialize(&mut self, _d: &DatasetBase<Mat, Tgt>) {
        self.init()
    }
    fn value(&self, _d: &DatasetBase<Mat, Tgt>, xw: ArrayView1<f64>) -> f64 {
        self.0.borrow_mut().on_value(true, flat1(xw));
        self.0.borrow().value(&flat1(xw))
    }
    fn gradient_j(&self, _d: &DatasetBase<Mat, Tgt>, xw: ArrayView1<f64>, j: usize) -> f64 {
        self.0.borrow_mut().on_grad(&flat1(xw), j)[0]
    }
    fn full_grad(&self, d: &DatasetBase<Mat, Tgt>, xw: ArrayView1<f64>) -> Array1<f64> {
        let p = d.design_matrix().n_features();
        Array1::from_iter((0..p).map(|j| self.0.borrow_mut().on_grad(&flat1(xw), j)[0]))
    }
    fn step_size(&self) -> ArrayView1<f64> {
        self.0.borrow_mut().on_step_size();
        self.1.view()
    }
}
impl MultiTaskDatafit<f64, Mat, Tgt> for UserDf {
    fn initialize(&mut self, _d: &DatasetBase<Mat, Tgt>) {
        self.init()
    }
    fn value(&self, _d: &DatasetBase<Mat, Tgt>, xw: ArrayView2<f64>) -> f64 {
        self.0.borrow_mut().on_value(true, flat2(xw));
        self.0.borrow().value(&flat2(xw))
    }
    fn gradient_j(&self, _d: &DatasetBase<Mat, Tgt>, xw: ArrayView2<f64>, j: usize) -> Array1<f64> {
        Array1::from(self.0.borrow_mut().on_grad(&flat2(xw), j))
    }
    fn full_grad(&self, d: &DatasetBase<Mat, Tgt>, xw: ArrayView2<f64>) -> Array2<f64> {
        let (p, t) = (d.design_matrix().n_features(), d.targets().n_tasks());
        let v: Vec<f64> = (0..p).flat_map(|j| self.0.borrow_mut().on_grad(&flat2(xw), j)).collect();
        Array2::from_shape_vec((p, t), v).unwrap()
    }
    fn step_size(&self) -> ArrayView1<f64> {
        self.0.borrow_mut().on_step_size();
        self.1.view()
    }
}

struct UserPen(M, UPen);
impl UPen {
    fn value(self, w: &[f64], t: usize) -> f64 {
        w.chunks(t)
            .map(|r| {
                let v = norm(r);
                match self {
                    UPen::L1(a) => a * v,
                    UPen::NonNeg(a) => {
                        if r[0] < 0.0 {
                            f64::INFINITY
                        } else {
                            a * v
                        }
                    }
                    UPen::Ridge(a) => 0.5 * a * v * v,
                    UPen::Box(a, b) => {
                        if v > b * (1.0 + 1e-12) {
                            f64::INFINITY
                        } else {
                            a * v
                        }
                    }
                }
            })
            .sum()
    }
    fn prox(self, v: &[f64], s: f64) -> Vec<f64> {
        let n = norm(v);
        let rad = match self {
            UPen::L1(a) => (n - a * s).max(0.0),
            UPen::NonNeg(a) => {
                if v[0] > 0.0 {
                    (n - a * s).max(0.0)
                } else {
                    0.0
                }
            }
            UPen::Ridge(a) => n / (1.0 + a * s),
            UPen::Box(a, b) => (n - a * s).max(0.0).min(b),
        };
        v.iter().map(|x| if n > 0.0 { x * (rad / n) } else { 0.0 }).collect()
    }
    fn dist(self, w: &[f64], g: &[f64]) -> f64 {
        let n = norm(w);
        let ng = norm(g);
        let shifted = |c: f64| norm(&w.iter().zip(g).map(|(x, y)| y + c * x / n).collect::<Vec<_>>());
        match self {
            UPen::L1(a) => {
                if n == 0.0 {
                    (ng - a).max(0.0)
                } else {
                    shifted(a)
                }
            }
            UPen::NonNeg(a) => {
                if n == 0.0 {
                    (-g[0] - a).max(0.0)
                } else {
                    shifted(a)
                }
            }
            UPen::Ridge(a) => norm(&w.iter().zip(g).map(|(x, y)| y + a * x).collect::<Vec<_>>()),
            UPen::Box(a, b) => {
                if n == 0.0 {
                    (ng - a).max(0.0)
                } else if n >= b * (1.0 - 1e-12) {
                    // normal cone: -g - a u = c u with c >= 0
                    let u: Vec<f64> = w.iter().map(|x| x / n).collect();
                    let c = (-dot(&u, g) - a).max(0.0);
                    norm(&u.iter().zip(g).map(|(x, y)| y + (a + c) * x).collect::<Vec<_>>())
                } else {
                    shifted(a)
                }
            }
        }
    }
}
impl UserPen {
    fn dists(&self, w: Vec<f64>, g: Vec<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        self.0.borrow_mut().on_dist(&w, &g, ws);
        let t = self.0.borrow().pr.t;
        let d = Array1::from_iter(
            ws.iter().enumerate().map(|(i, j)| self.1.dist(&w[j * t..(j + 1) * t], &g[i * t..(i + 1) * t])),
        );
        let m = d.fold(f64::NEG_INFINITY, |a, b| a.max(*b));
        (d, m)
    }
}
impl Penalty<f64> for UserPen {
    fn value(&self, w: ArrayView1<f64>) -> f64 {
        self.0.borrow_mut().on_value(false, flat1(w));
        self.1.value(&flat1(w), 1)
    }
    fn prox(&self, v: f64, s: f64) -> f64 {
        self.0.borrow_mut().on_prox(&[v], s);
        self.1.prox(&[v], s)[0]
    }
    fn subdiff_distance(&self, w: ArrayView1<f64>, g: ArrayView1<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        self.dists(flat1(w), flat1(g), ws)
    }
}
impl MultiTaskPenalty<f64> for UserPen {
    fn value(&self, w: ArrayView2<f64>) -> f64 {
        self.0.borrow_mut().on_value(false, flat2(w));
        let t = w.ncols();
        self.1.value(&flat2(w), t)
    }
    fn prox(&self, v: ArrayView1<f64>, s: f64) -> Array1<f64> {
        self.0.borrow_mut().on_prox(&v.to_vec(), s);
        Array1::from(self.1.prox(&v.to_vec(), s))
    }
    fn subdiff_distance(&self, w: ArrayView2<f64>, g: ArrayView2<f64>, ws: ArrayView1<usize>) -> (Array1<f64>, f64) {
        self.dists(flat2(w), flat2(g), ws)
    }
}

struct Setup {
    pr: Prob,
    df: UDf,
    pen: UPen,
    wts: Vec<f64>,
    lips: Vec<f64>,
    multi: bool,
    unit: f64,
}
fn setup(r: &mut Rng) -> Setup {
    let multi = r.bool(0.4);
    let s = Size { nmax: 16, pmax: 14, tmax: if multi { 4 } else { 1 } };
    // the monitor recomputes the model fit at each call: long problems are kept few and not too long
    let mut pr = loop {
        let pr = if r.bool(0.4) { gen::well(r, 8, s.tmax) } else { gen::any(r, s) };
        if pr.n * pr.p * pr.t * pr.p <= 200_000 {
            break pr;
        }
    };
    let df = if multi {
        *r.pick(&[UDf::Wls, UDf::Loose])
    } else {
        *r.pick(&[UDf::Wls, UDf::Huber, UDf::SqHinge, UDf::Loose])
    };
    if df == UDf::SqHinge {
        gen::labels(r, &mut pr);
    }
    // columns in other units: tiny or huge step constants
    let unit = if r.bool(0.15) { 2f64.powi(r.int(0, 80) as i32 - 40) } else { 1.0 };
    pr.x.iter_mut().for_each(|v| *v *= unit);
    let wts: Vec<f64> = (0..pr.n).map(|_| if df == UDf::Wls { r.logu(0.3, 3.0) } else { 1.0 }).collect();
    let c = if df == UDf::Loose { 2.0 } else { 1.0 };
    let lips = (0..pr.p)
        .map(|j| c * (0..pr.n).map(|i| wts[i] * pr.xij(i, j).powi(2)).sum::<f64>() / pr.n as f64)
        .collect();
    let a = refm::alpha_max(refm::Df::Quad, &pr).max(1e-3 * unit) * r.logu(0.01, 0.8);
    let pen = if multi {
        *r.pick(&[UPen::L1(a), UPen::Ridge(a), UPen::Box(a, 0.5 / unit)])
    } else {
        *r.pick(&[UPen::L1(a), UPen::NonNeg(a), UPen::Ridge(a), UPen::Box(a, 0.5 / unit), UPen::L1(a)])
    };
    Setup { pr, df, pen, wts, lips, multi, unit }
}
fn run(s: &Setup, k: &Knobs) -> Result<(Vec<f64>, Rc<RefCell<Mon>>), Viol> {
    let mon = Rc::new(RefCell::new(Mon {
        pr: s.pr.clone(),
        df: s.df,
        wts: s.wts.clone(),
        lips: s.lips.clone(),
        inits: 0,
        errs: vec![],
        hyps: vec![vec![0.0; s.pr.p * s.pr.t]],
        last_grad: BTreeMap::new(),
        unit: s.unit,
        scale: s.pr.y.iter().fold(0.0, |m, v| m.max(v.abs())),
        counts: BTreeMap::new(),
        vals: vec![],
    }));
    let ds = DatasetBase::new(Mat(mon.clone()), Tgt(Array2::from_shape_vec((s.pr.n, s.pr.t), s.pr.y.clone()).unwrap()));
    let mut df = UserDf(mon.clone(), Array1::zeros(0));
    let pen = UserPen(mon.clone(), s.pen);
    let res = guard(|| {
        if s.multi {
            solver::<f64>(k).solve_multi_task(&ds, &mut df, &pen).map(|w| flat2(w.view()))
        } else {
            solver::<f64>(k).solve(&ds, &mut df, &pen).map(|w| w.to_vec())
        }
    });
    let what = || format!("{:?} {:?} multi={} {:?} {}\n{}", s.df, s.pen, s.multi, k, s.pr.short(), s.pr.dump());
    mon.borrow_mut().pair(true);
    if let Some(e) = mon.borrow().errs.first() {
        return viol(e.sig.clone(), format!("{}; {}", e.detail, what()));
    }
    let w = match res {
        Err(p) => return viol("panic", format!("PANIC: {p}; {}", what())),
        Ok(Err(e)) => return viol("solver-error", format!("{e:?}; {}", what())),
        Ok(Ok(w)) => w,
    };
    if mon.borrow().inits != 1 {
        return viol("initialize-count", format!("{} initialisations; {}", mon.borrow().inits, what()));
    }
    if w.len() != s.pr.p * s.pr.t || w.iter().any(|v| !v.is_finite()) {
        return viol("bad-result", format!("{w:?}; {}", what()));
    }
    // the returned coefficients are the monitored iterate
    let m = mon.borrow();
    if !m.hyps.iter().any(|h| h.iter().zip(&w).all(|(a, b)| (a - b).abs() <= 1e-9 * (a.abs() + 1e-3 * m.scale / m.unit))) {
        return viol("returned-other-point", format!("returned {w:?}, iterate {:?}; {}", m.hyps, what()));
    }
    drop(m);
    Ok((w, mon))
}

fn main() {
    let rep = Report::new(
        "C05",
        "user-supplied design matrix, targets, datafits (weighted LS, Huber, squared hinge, loose constants) and penalties \
         (L1, non-negative, ridge, box / ball) driven by the real solver; an online monitor checks every trait call against \
         the call contract and a shadow iterate. Non-trivial: runs with non-zero results (distinct by coefficients)",
    );
    rep.cases(1, rep.n(8000, 200000), |r, c| {
        let s = setup(r);
        let k = Knobs {
            ws: *r.pick(&[1, 2, 3, 10, s.pr.p]),
            iters: *r.pick(&[5, 20, 50]),
            epochs: *r.pick(&[5, 30, 100, 300]),
            tol: s.unit * *r.pick(&[1e-3, 1e-5, 1e-7]),
            k: *r.pick(&[1, 2, 3, 5, 7]),
            accel: r.bool(0.75),
            verbose: false,
        };
        let (w, mon) = run(&s, &k)?;
        let (w2, _) = run(&s, &Knobs { iters: k.iters + 1, ..k })?;
        for (key, n) in &mon.borrow().counts {
            c.count(key, *n);
        }
        c.count(&format!("{:?}", s.df), 1);
        if bits(&w) == bits(&w2) {
            c.count("stopped by itself", 1);
            let m = mon.borrow();
            let f = refm::xw(&s.pr, &w);
            let t = s.pr.t;
            for j in 0..s.pr.p {
                let v = s.pen.dist(&w[j * t..(j + 1) * t], &m.grad(&f, j));
                if !(v <= k.tol * (1.0 + 1e-6) + 1e-10 * (m.scale + 1.0) * (s.lips[j].sqrt() + s.unit)) {
                    return viol(
                        "stopped-not-optimal",
                        format!("violation {v:e} at feature {j}; w={w:?} {:?} {:?} {:?}\n{}", s.df, s.pen, k, s.pr.dump()),
                    );
                }
            }
        }
        if w.iter().any(|v| *v != 0.0) {
            c.nontrivial(bits(&w));
        }
        c.sample(|| format!("{:?} {:?} {} {:?} events={:?}", s.df, s.pen, s.pr.short(), k, mon.borrow().counts));
        Ok(())
    });
    rep.finish(
        &[("gradient calls", 10000), ("prox calls", 10000), ("extrapolations", 500), ("stopped by itself", 300), ("objective pairs", 500)],
        &["the user implementations are correct (they are the monitor's own)", "fit consistency judged at 1e-9 relative"],
    );
}
