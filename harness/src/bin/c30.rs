//! C30: design matrices, datasets and targets.
use ndarray::{Array1, Array2, ArrayView1, ArrayView2, Axis, ShapeBuilder};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::{AsMultiTargets, AsSingleTargets, DatasetBase, DenseDataset, DesignMatrix, DesignMatrixType, SparseDataset};
use vh::fit::*;
use vh::gen::{self, Prob, Size};
use vh::refm::Acc;
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

/// layouts of auxiliary matrices
fn lay<F: Fl>(r: &mut Rng, n: usize, t: usize, v: &[f64]) -> Array2<F> {
    if r.bool(0.5) {
        Array2::from_shape_fn((n, t), |(i, k)| c(v[i * t + k]))
    } else {
        Array2::from_shape_fn((n, t).f(), |(i, k)| c(v[i * t + k]))
    }
}

/// What one set of operations on a matrix returned.
#[derive(Debug, Clone, PartialEq)]
struct Out {
    p: usize,
    sparse: bool,
    fit: Vec<u64>,
    fitm: Vec<u64>,
    upd: Vec<u64>,
    updm: Vec<u64>,
    dims: (usize, usize),
}
struct Args {
    ws: Vec<usize>,
    strided_ws: bool,
    w: Vec<f64>,
    wm: Vec<f64>,
    t: usize,
    n: usize,
    start: Vec<f64>,
    startm: Vec<f64>,
    diff: f64,
    diffm: Vec<f64>,
    strided_diff: bool,
    j: usize,
    lays: [bool; 2],
}
fn b64<F: Fl>(it: impl IntoIterator<Item = F>) -> Vec<u64> {
    it.into_iter().map(|v| up(v).to_bits()).collect()
}
fn operate<F: Fl, D: DesignMatrix<Elem = F>>(d: D, a: &Args) -> Out {
    let doubled: Vec<usize> = a.ws.iter().flat_map(|j| [*j, usize::MAX]).collect();
    let plain = a.ws.clone();
    let ws = if a.strided_ws {
        let v = ArrayView1::from(&doubled);
        v.slice_move(ndarray::s![..;2])
    } else {
        ArrayView1::from(&plain)
    };
    let mk = |v: &[f64], rows: usize, cols: usize, f: bool| -> Array2<F> {
        if f {
            Array2::from_shape_fn((rows, cols).f(), |(i, k)| c(v[i * cols + k]))
        } else {
            Array2::from_shape_fn((rows, cols), |(i, k)| c(v[i * cols + k]))
        }
    };
    let w = Array1::from(a.w.iter().map(|v| c::<F>(*v)).collect::<Vec<_>>());
    let p = a.w.len();
    let wm = mk(&a.wm, p, a.t, a.lays[0]);
    let fit = d.compute_extrapolated_fit(ws, &w, a.n);
    let fitm = d.compute_extrapolated_fit_multi_task(ws, &wm, a.n, a.t);
    let dims = (fit.len(), if fitm.dim() == (a.n, a.t) { a.n } else { usize::MAX });
    let fitm_v: Vec<F> = fitm.outer_iter().flat_map(|q| q.to_vec()).collect();
    let mut xw = Array1::from(a.start.iter().map(|v| c::<F>(*v)).collect::<Vec<_>>());
    let mut xwm = mk(&a.startm, a.n, a.t, a.lays[1]);
    if p > 0 {
        d.update_model_fit(&mut xw, c(a.diff), a.j);
        let buf: Vec<F> = if a.strided_diff { a.diffm.iter().flat_map(|v| [c::<F>(*v), F::nan()]).collect() } else { a.diffm.iter().map(|v| c(*v)).collect() };
        let dv = ArrayView1::from(&buf);
        let dv = if a.strided_diff { dv.slice_move(ndarray::s![..;2]) } else { dv };
        d.update_model_fit_multi_task(&mut xwm, dv, a.j);
    }
    let xwm_v: Vec<F> = xwm.outer_iter().flat_map(|q| q.to_vec()).collect();
    Out {
        p: d.n_features(),
        sparse: d.matrix_type() == DesignMatrixType::Sparse,
        fit: b64(fit),
        fitm: b64(fitm_v),
        upd: b64(xw),
        updm: b64(xwm_v),
        dims,
    }
}

fn matrices<F: Fl>(r: &mut Rng, cs: &Case, u: f64) -> Result<(), Viol> {
    let ints = r.bool(0.3);
    let mut pr = match r.int(0, 9) {
        0 => gen::hostile(r, 1, u > 1e-10),
        1 => {
            let n = r.int(1, 5);
            Prob { n, p: 0, t: 1, x: vec![], y: vec![0.0; n], fam: "no features" }
        }
        _ => gen::any(r, Size { nmax: 25, pmax: 20, tmax: 1 }),
    };
    let rnd = |v: f64| if u > 1e-10 { v as f32 as f64 } else { v };
    if ints {
        pr.x.iter_mut().for_each(|v| *v = v.clamp(-1e4, 1e4).round());
    }
    pr.x.iter_mut().for_each(|v| *v = rnd(*v));
    let (n, p) = (pr.n, pr.p);
    let t = r.int(1, 4);
    let mut num = |r: &mut Rng| rnd(if ints { (r.int(0, 20) as f64) - 10.0 } else { r.gauss() * *r.pick(&[1.0, 1.0, 0.0, 1e3]) });
    let mut ws = r.perm(p);
    ws.truncate(match r.int(0, 3) {
        0 => p,
        1 => 0,
        _ => r.int(0, p),
    });
    // coefficients of features outside the subset must not matter
    let poison = r.bool(0.5);
    let (mut w, mut wm) = (vec![0.0; p], vec![0.0; p * t]);
    let mut member = vec![false; p];
    ws.iter().for_each(|j| member[*j] = true);
    for j in 0..p {
        let inside = member[j];
        w[j] = if inside || !poison { num(r) } else { f64::NAN };
        for k in 0..t {
            wm[j * t + k] = if inside || !poison { num(r) } else { f64::NAN };
        }
    }
    let a = Args {
        strided_ws: r.bool(0.3),
        w,
        wm,
        t,
        n,
        start: (0..n).map(|_| num(r)).collect(),
        startm: (0..n * t).map(|_| num(r)).collect(),
        diff: num(r),
        diffm: (0..t).map(|_| num(r)).collect(),
        strided_diff: r.bool(0.3),
        j: if p > 0 { r.int(0, p - 1) } else { 0 },
        lays: [r.bool(0.5), r.bool(0.5)],
        ws,
    };
    // plain linear algebra, and the size of the numbers that enter each entry
    let mut e_fit = vec![(0.0, 0.0); n];
    let mut e_fitm = vec![(0.0, 0.0); n * t];
    let mut e_upd = vec![(0.0, 0.0); n];
    let mut e_updm = vec![(0.0, 0.0); n * t];
    for i in 0..n {
        let comb = |f: &dyn Fn(usize) -> f64| {
            let (mut s, mut m) = (Acc::default(), 0.0);
            for &j in &a.ws {
                s.mul(pr.xij(i, j), f(j));
                m += (pr.xij(i, j) * f(j)).abs();
            }
            (s.get(), m)
        };
        e_fit[i] = comb(&|j| a.w[j]);
        let step = |s: f64, d: f64| {
            if p == 0 {
                return (s, 0.0);
            }
            let mut q = Acc::default();
            q.add(s);
            q.mul(d, pr.xij(i, a.j));
            (q.get(), s.abs() + (d * pr.xij(i, a.j)).abs())
        };
        e_upd[i] = step(a.start[i], a.diff);
        for k in 0..t {
            e_fitm[i * t + k] = comb(&|j| a.wm[j * t + k]);
            e_updm[i * t + k] = step(a.startm[i * t + k], a.diffm[k]);
        }
    }
    let st = *r.pick(ALL_STORAGE);
    let what = || {
        format!(
            "{st:?} f{} subset={:?} w={:?} W={:?} start={:?} START={:?} diff={} DIFF={:?} feature={}\n{}",
            if u > 1e-10 { 32 } else { 64 }, a.ws, a.w, a.wm, a.start, a.startm, a.diff, a.diffm, a.j, pr.dump()
        )
    };
    let outs = guard(|| {
        if st.sparse() {
            let b = CscBuf::<F>::new(&pr, st);
            let m = b.view();
            vec![operate(b.view(), &a), operate(&m, &a), operate(&&m, &a)]
        } else {
            let b = DenseBuf::<F>::new(n, p, &pr.x, st);
            let v = b.view();
            let own = v.to_owned();
            let arc = own.to_shared();
            vec![operate(b.view(), &a), operate(&v, &a), operate(&&v, &a), operate(own.clone(), &a), operate(&own, &a), operate(arc, &a)]
        }
    });
    let outs = match outs {
        Ok(o) => o,
        Err(e) => return viol("panic", format!("PANIC {e}: {}", what())),
    };
    for (which, o) in outs.iter().enumerate() {
        if o.p != p || o.sparse != st.sparse() || o.dims != (n, n) {
            return viol("shape", format!("n_features {} of {p}, sparse {}, shapes ok: {:?}; variant {which}; {}", o.p, o.sparse, o.dims, what()));
        }
        for (name, got, want) in [("extrapolated fit", &o.fit, &e_fit), ("multi-task extrapolated fit", &o.fitm, &e_fitm), ("updated fit", &o.upd, &e_upd), ("multi-task updated fit", &o.updm, &e_updm)] {
            for (i, (g, (e, m))) in got.iter().zip(want).enumerate() {
                let g = f64::from_bits(*g);
                // small integers: no rounding at all
                let tol = if ints { 0.0 } else { 2.0 * (p as f64 + 2.0) * u * m + if u > 1e-10 { 1e-40 } else { 0.0 } };
                if !((g - e).abs() <= tol) {
                    return viol(name, format!("entry {i}: {g:e}, linear algebra gives {e:e} (allowance {tol:e}); variant {which}; {}", what()));
                }
            }
        }
        cs.count("operations compared", 4);
        if which > 0 {
            cs.count("through references, owned and shared arrays", 4);
        }
    }
    if outs.iter().any(|o| (o.p, o.sparse, o.dims) != (outs[0].p, outs[0].sparse, outs[0].dims)) || outs[1].fit != outs[0].fit || outs[1].upd != outs[0].upd || outs[1].fitm != outs[0].fitm || outs[1].updm != outs[0].updm {
        return viol("reference-differs", what());
    }
    if ints {
        cs.count("exact cases (small integers)", 1);
    }
    if a.ws.is_empty() {
        cs.count("empty subsets", 1);
    }
    if poison && a.ws.len() < p {
        cs.count("subsets with poisoned coefficients outside", 1);
    }
    cs.sample(|| format!("{p} features, {} kernels agreed, fit {:?}", outs.len(), outs[0].fit.iter().take(4).collect::<Vec<_>>()));
    cs.nontrivial((outs[0].fit.clone(), outs[0].updm.clone()));
    Ok(())
}

/// A user's target type: wraps a matrix, claims to be single-target.
struct Wrapped(Array2<f64>);
impl AsMultiTargets for Wrapped {
    type Elem = f64;
    fn n_samples(&self) -> usize {
        self.0.nrows()
    }
    fn n_tasks(&self) -> usize {
        self.0.ncols()
    }
    fn as_multi_tasks(&self) -> ArrayView2<'_, f64> {
        self.0.view()
    }
}
impl AsSingleTargets for Wrapped {}

fn multi_ok<T: AsMultiTargets<Elem = E>, E: PartialEq + Copy>(y: &T, n: usize, t: usize, at: &dyn Fn(usize, usize) -> E) -> bool {
    let v = y.as_multi_tasks();
    y.n_samples() == n && y.n_tasks() == t && v.dim() == (n, t) && (0..n).all(|i| (0..t).all(|k| v[[i, k]] == at(i, k)))
}

fn targets(r: &mut Rng, cs: &Case) -> Result<(), Viol> {
    let n = *r.pick(&[0, 1, 2, 3, 7, 20]);
    let t = *r.pick(&[0, 1, 1, 2, 3, 5]);
    let v: Vec<f64> = (0..n * t).map(|_| r.gauss()).collect();
    let y: Array2<f64> = lay(r, n, t, &v);
    let at = |i: usize, k: usize| v[i * t + k];
    let yt: Array2<f64> = Array2::from_shape_fn((t, n), |(k, i)| at(i, k));
    let wide: Array2<f64> = Array2::from_shape_fn((2 * n + 1, 3 * t + 1), |(i, k)| if i % 2 == 0 && k % 3 == 0 && i / 2 < n && k / 3 < t { at(i / 2, k / 3) } else { f64::NAN });
    let strided = wide.slice(ndarray::s![..2 * n;2, ..3 * t;3]);
    let whole: Array2<i64> = Array2::from_shape_fn((n, t), |(i, k)| (i * 31 + k) as i64);
    let ok = guard(|| {
        let mut bad = vec![];
        let mut see = |name: &'static str, ok: bool| {
            if !ok {
                bad.push(name)
            }
        };
        see("matrix", multi_ok(&y, n, t, &at));
        see("reference to a matrix", multi_ok(&&y, n, t, &at));
        see("view", multi_ok(&y.view(), n, t, &at));
        see("transposed view", multi_ok(&yt.t(), n, t, &at));
        see("strided view", multi_ok(&strided, n, t, &at));
        see("integers", multi_ok(&whole, n, t, &|i, k| (i * 31 + k) as i64));
        let wr = Wrapped(y.clone());
        see("user type", multi_ok(&wr, n, t, &at) && multi_ok(&&wr, n, t, &at));
        // conversion to a single target exactly when there is one column
        match wr.try_single_target() {
            Ok(s) => see("conversion", t == 1 && s.len() == n && (0..n).all(|i| s[i] == at(i, 0))),
            Err(e) => see("refused conversion", t != 1 && !e.to_string().is_empty()),
        }
        // vectors
        if t > 0 {
            let col = y.index_axis(Axis(1), t - 1);
            let own = col.to_owned();
            let at1 = |i: usize, _: usize| at(i, t - 1);
            see("column view", multi_ok(&col, n, 1, &at1));
            see("vector", multi_ok(&own, n, 1, &at1) && multi_ok(&&own, n, 1, &at1));
            let rev = own.slice(ndarray::s![..;-1]);
            see("reversed vector", multi_ok(&rev, n, 1, &|i, _| at(n - 1 - i, t - 1)));
            for (name, s) in [("single of a vector", own.try_single_target()), ("single of a column", col.try_single_target()), ("single of a reversed vector", rev.try_single_target())] {
                let back = name.contains("reversed");
                see(name, matches!(s, Ok(s) if s.len() == n && (0..n).all(|i| s[i] == if back { at(n - 1 - i, t - 1) } else { at(i, t - 1) })));
            }
            let s = own.try_single_target().unwrap();
            see("a view, not a copy", n == 0 || s.as_ptr() == own.as_ptr());
        }
        bad
    });
    match ok {
        Ok(b) if b.is_empty() => {
            cs.count("target sets", 1);
            cs.count(&format!("{} columns", if t > 1 { "several".into() } else { t.to_string() }), 1);
            cs.nontrivial(bits(&v));
            Ok(())
        }
        e => viol(format!("targets:{}", match &e { Ok(b) => b[0], Err(_) => "panic" }), format!("{e:?} for n={n} t={t} v={v:?}")),
    }
}

fn datasets(r: &mut Rng, cs: &Case) -> Result<(), Viol> {
    let pr = gen::any(r, Size { nmax: 12, pmax: 12, tmax: 3 });
    let st = *r.pick(SPARSE);
    let (dl, y2l) = (*r.pick(DENSE), *r.pick(DENSE));
    let bad = guard(|| {
        let mut bad: Vec<&'static str> = vec![];
        let mut see = |name: &'static str, ok: bool| {
            if !ok {
                bad.push(name)
            }
        };
        let xb = DenseBuf::<f64>::new(pr.n, pr.p, &pr.x, dl);
        let yb = DenseBuf::<f64>::new(pr.n, pr.t, &pr.y, y2l);
        let (x, y) = (xb.view(), yb.view());
        let y1 = y.index_axis(Axis(1), 0);
        // views: the very same memory
        for ds in [DatasetBase::from((x, y)), DatasetBase::new(x, y)] {
            let (dx, dy) = (ds.design_matrix(), ds.targets());
            see("dense views", dx.as_ptr() == x.as_ptr() && dx.strides() == x.strides() && dx.dim() == x.dim());
            see("target views", dy.as_ptr() == y.as_ptr() && dy.strides() == y.strides() && dy.dim() == y.dim());
            see("fields", ds.design_matrix == x && ds.targets == y);
            see("clone and equality", ds.clone() == ds);
        }
        let ds: DatasetBase<ArrayView2<f64>, ArrayView1<f64>> = DatasetBase::from((x, y1));
        see("vector targets", *ds.targets() == y1 && ds.targets().as_ptr() == y1.as_ptr());
        // owned arrays move in unchanged
        let (xo, yo) = (x.to_owned(), y1.to_owned());
        let (px, py) = (xo.as_ptr(), yo.as_ptr());
        let ds: DenseDataset<f64, Array1<f64>> = DatasetBase::from((xo, yo));
        see("owned arrays", ds.design_matrix().as_ptr() == px && ds.targets().as_ptr() == py && *ds.design_matrix() == x && *ds.targets() == y1);
        see("n_features of the dataset's matrix", ds.design_matrix().n_features() == pr.p && ds.targets().n_samples() == pr.n);
        // references
        let (xo, yo) = (x.to_owned(), y.to_owned());
        let ds = DatasetBase::new(&xo, &yo);
        see("references", std::ptr::eq(*ds.design_matrix(), &xo) && std::ptr::eq(*ds.targets(), &yo));
        // sparse
        let cb = CscBuf::<f64>::new(&pr, st);
        let m = cb.view();
        let made = CSCArray::new(m.data, m.indices, m.indptr);
        see("CSC constructor", made.data.as_ptr() == cb.data.as_ptr() && made.indices == m.indices && made.indptr == m.indptr && made == m && made.indices.as_ptr() == cb.indices.as_ptr() && made.indptr.as_ptr() == cb.indptr.as_ptr());
        let ds: SparseDataset<f64, ArrayView2<f64>> = DatasetBase::from((made.clone(), y));
        let ds2 = DatasetBase::new(made, y);
        for ds in [ds, ds2] {
            let d = ds.design_matrix();
            see("sparse matrix", d.data.as_ptr() == cb.data.as_ptr() && d.data == m.data && d.data.strides() == m.data.strides() && d.indices == m.indices && d.indptr == m.indptr && ds.targets().as_ptr() == y.as_ptr());
            see("sparse clone and equality", ds.clone() == ds);
        }
        bad
    });
    match bad {
        Ok(b) if b.is_empty() => {
            cs.count("datasets", 1);
            cs.nontrivial((bits(&pr.x), format!("{dl:?}")));
            Ok(())
        }
        e => viol(format!("dataset:{}", match &e { Ok(b) => b[0], Err(_) => "panic" }), format!("{e:?} for {dl:?} {y2l:?} {st:?} {}", pr.dump())),
    }
}

fn main() {
    let rep = Report::new("C30", "distinct results of matrix operations, datasets and target sets compared with plain linear algebra");
    rep.cases(1, rep.n(120_000, 6_000_000), |r, c| matrices::<f64>(r, c, 1.2e-16));
    rep.cases(2, rep.n(80_000, 4_000_000), |r, c| matrices::<f32>(r, c, 6e-8));
    rep.cases(3, rep.n(20_000, 1_000_000), targets);
    rep.cases(4, rep.n(20_000, 1_000_000), datasets);
    // more than 65536 samples or features
    rep.cases(5, rep.n(24, 1500), |r, c| gen::with_giants(|| if r.bool(0.7) { matrices::<f64>(r, c, 1.2e-16) } else { matrices::<f32>(r, c, 6e-8) }).map(|_| c.count("giant matrices", 1)));
    rep.finish(
        &[("operations compared", 100_000), ("giant matrices", 20), ("through references, owned and shared arrays", 50_000), ("exact cases (small integers)", 3000),
          ("empty subsets", 1000), ("subsets with poisoned coefficients outside", 2000), ("target sets", 2000), ("0 columns", 200), ("1 columns", 500), ("several columns", 500), ("datasets", 2000)],
        &["Feature subsets without repetitions; canonical CSC matrices, with unsorted rows and explicit zeros"],
    );
}
