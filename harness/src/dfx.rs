//! Evaluate a datafit of the code under test on plain vectors.
use crate::fit::*;
use crate::gen::Prob;
use crate::refm::Df;
use crate::rep::guard;
use ndarray::{Array1, Array2, ArrayView1, ArrayView2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::DatasetBase;

#[derive(Clone, Debug, PartialEq)]
pub struct Q {
    pub lips: Vec<f64>,
    pub value: f64,
    /// full gradient, row-major p x t
    pub full: Vec<f64>,
    /// coordinate gradients, row-major p x t
    pub coord: Vec<f64>,
    pub xty: Vec<f64>,
}

fn cast<F: Fl>(v: &[f64]) -> Vec<F> {
    v.iter().map(|z| F::cast(*z)).collect()
}
fn upv<F: Fl>(v: impl IntoIterator<Item = F>) -> Vec<f64> {
    v.into_iter().map(up).collect()
}

macro_rules! one {
    ($d:expr, $ds:expr, $DM:ty, $T:ty, $p:expr, $f:expr) => {{
        let value = up($d.value(&$ds, $f));
        let full = upv($d.full_grad(&$ds, $f).iter().copied());
        Q {
            lips: upv(Datafit::<F, $DM, $T>::step_size($d).iter().copied()),
            value,
            full,
            coord: upv((0..$p).map(|j| $d.gradient_j(&$ds, $f, j))),
            xty: vec![],
        }
    }};
}
macro_rules! onem {
    ($d:expr, $ds:expr, $DM:ty, $T:ty, $p:expr, $f:expr) => {{
        Q {
            lips: upv(MultiTaskDatafit::<F, $DM, $T>::step_size($d).iter().copied()),
            value: up($d.value(&$ds, $f)),
            full: upv($d.full_grad(&$ds, $f).iter().copied()),
            coord: (0..$p).flat_map(|j| upv($d.gradient_j(&$ds, $f, j).iter().copied())).collect(),
            xty: upv($d.XtY().iter().copied()),
        }
    }};
}

/// A vector in one of several memory layouts.
struct Col<F>(DenseBuf<F>);
impl<F: Fl> Col<F> {
    fn view(&self) -> ArrayView1<'_, F> {
        let v = self.0.view();
        v.index_axis_move(ndarray::Axis(1), 0)
    }
}

/// All quantities at several fits (row-major n x t each). `pre`: a dataset on which the
/// datafit is initialised (and used) first.
pub fn quantities<F: Fl>(pr: &Prob, df: Df, multi: bool, st: Storage, fits: &[Vec<f64>], pre: Option<&Prob>) -> Result<Vec<Q>, String> {
    guard(|| raw::<F>(pr, df, multi, st, fits, pre))
}

fn raw<F: Fl>(pr: &Prob, df: Df, multi: bool, st: Storage, fits: &[Vec<f64>], pre: Option<&Prob>) -> Vec<Q> {
    let (n, p, t) = (pr.n, pr.p, pr.t);
    if multi {
        let lay = target_layout(st, n, p, t);
        let yb = DenseBuf::<F>::new(n, t, &pr.y, lay);
        let fv: Vec<DenseBuf<F>> = fits.iter().map(|f| DenseBuf::new(n, t, f, target_layout(st, n, t, p))).collect();
        let y = yb.view();
        let mut d = QuadraticMultiTask::<F>::new();
        if st.sparse() {
            if let Some(q) = pre {
                let (cb, yb) = (CscBuf::<F>::new(q, st), Array2::from_shape_vec((q.n, q.t), cast::<F>(&q.y)).unwrap());
                let ds = DatasetBase::from((cb.view(), yb.view()));
                d.initialize(&ds);
                let z = Array2::<F>::zeros((q.n, q.t));
                let _ = d.full_grad(&ds, z.view());
            }
            let cb = CscBuf::<F>::new(pr, st);
            let ds = DatasetBase::from((cb.view(), y.view()));
            d.initialize(&ds);
            fv.iter().map(|f| onem!(&d, ds, CSCArray<F>, ArrayView2<F>, p, f.view())).collect()
        } else {
            if let Some(q) = pre {
                let (cb, yb) = (DenseBuf::<F>::new(q.n, q.p, &q.x, st), Array2::from_shape_vec((q.n, q.t), cast::<F>(&q.y)).unwrap());
                let ds = DatasetBase::from((cb.view(), yb.view()));
                d.initialize(&ds);
                let z = Array2::<F>::zeros((q.n, q.t));
                let _ = d.full_grad(&ds, z.view());
            }
            let xb = DenseBuf::<F>::new(n, p, &pr.x, st);
            if matches!(st, Storage::OwnC | Storage::OwnF) {
                let ds = DatasetBase::from((xb.buf, yb.buf));
                d.initialize(&ds);
                fv.iter().map(|f| onem!(&d, ds, Array2<F>, Array2<F>, p, f.view())).collect()
            } else {
                let ds = DatasetBase::from((xb.view(), y.view()));
                d.initialize(&ds);
                fv.iter().map(|f| onem!(&d, ds, ArrayView2<F>, ArrayView2<F>, p, f.view())).collect()
            }
        }
    } else {
        let yb = DenseBuf::<F>::new(n, 1, &pr.y, target_layout(st, n, p, 1));
        let fv: Vec<Col<F>> = fits.iter().map(|f| Col(DenseBuf::new(n, 1, f, target_layout(st, p, n, 1)))).collect();
        let yc = yb.view();
        let y = yc.index_axis(ndarray::Axis(1), 0);
        macro_rules! go {
            ($new:expr) => {{
                let mut d = $new;
                if st.sparse() {
                    if let Some(q) = pre {
                        let (cb, yb) = (CscBuf::<F>::new(q, st), Array1::from(cast::<F>(&q.y)));
                        let ds = DatasetBase::from((cb.view(), yb.view()));
                        d.initialize(&ds);
                        let z = Array1::<F>::zeros(q.n);
                        let _ = d.full_grad(&ds, z.view());
                    }
                    let cb = CscBuf::<F>::new(pr, st);
                    let ds = DatasetBase::from((cb.view(), y.view()));
                    d.initialize(&ds);
                    fv.iter().map(|f| one!(&d, ds, CSCArray<F>, ArrayView1<F>, p, f.view())).collect()
                } else {
                    if let Some(q) = pre {
                        let (cb, yb) = (DenseBuf::<F>::new(q.n, q.p, &q.x, st), Array1::from(cast::<F>(&q.y)));
                        let ds = DatasetBase::from((cb.view(), yb.view()));
                        d.initialize(&ds);
                        let z = Array1::<F>::zeros(q.n);
                        let _ = d.full_grad(&ds, z.view());
                    }
                    let xb = DenseBuf::<F>::new(n, p, &pr.x, st);
                    if matches!(st, Storage::OwnC | Storage::OwnF) {
                        let ds = DatasetBase::from((xb.buf, y.to_owned()));
                        d.initialize(&ds);
                        fv.iter().map(|f| one!(&d, ds, Array2<F>, Array1<F>, p, f.view())).collect()
                    } else {
                        let ds = DatasetBase::from((xb.view(), y.view()));
                        d.initialize(&ds);
                        fv.iter().map(|f| one!(&d, ds, ArrayView2<F>, ArrayView1<F>, p, f.view())).collect()
                    }
                }
            }};
        }
        match df {
            Df::Quad => go!(Quadratic::<F>::new()),
            Df::Logit => go!(Logistic::<F>::new()),
        }
    }
}
