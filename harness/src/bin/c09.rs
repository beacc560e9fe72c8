//! C09: violation scores are distances to the subdifferential.
use ndarray::{Array1, Array2};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::DatasetBase;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L1, MCP};
use sparseglm::solvers::{anderson_bcd, anderson_cd};
use vh::fit::*;
use vh::gen::{self, Size};
use vh::refm::{self, Df, Pen};
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

fn pen(r: &mut Rng, unit: f64) -> Pen {
    let a = unit * *r.pick(&[0.0, 1.0, 0.5, 2.0, 0.1]) * if r.bool(0.5) { 1.0 } else { r.logu(1e-3, 1e3) };
    match r.int(0, 2) {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: gen::ratio(r) },
        _ => Pen::Mcp { a, g: gen::gamma(r) },
    }
}
/// coefficients with zeros and values on, inside and outside MCP's knot
fn weights(r: &mut Rng, p: usize, t: usize, pen: Pen, single: bool, block: bool) -> Vec<f64> {
    // squares of the rows' entries stay representable in multi-task problems
    let least: f64 = match (block, single) {
        (false, false) => 1e-300,
        (false, true) => 1e-37,
        (true, false) => 1e-140,
        (true, true) => 1e-16,
    };
    let mut w = vec![0.0; p * t];
    for j in 0..p {
        if r.bool(0.35) {
            continue;
        }
        let rad = match (pen, r.int(0, 5)) {
            (_, 5) => r.logu(least, 1e-3),
            (Pen::Mcp { a, g }, 0) if g.is_finite() => a * g,
            (Pen::Mcp { a, g }, 1) if g.is_finite() => a * g * r.range(0.0, 1.0),
            (Pen::Mcp { a, g }, 2) if g.is_finite() => a * g * r.range(1.0, 3.0),
            _ => r.logu(1e-3, 1e2),
        };
        if t == 1 || r.bool(0.3) {
            w[j * t + r.int(0, t - 1)] = rad * r.sign();
        } else {
            let d: Vec<f64> = (0..t).map(|_| if r.bool(0.2) { 0.0 } else { r.gauss() }).collect();
            let n = refm::norm(&d);
            for k in 0..t {
                w[j * t + k] = if n > 0.0 { d[k] / n * rad } else { 0.0 };
            }
        }
    }
    w
}
fn features(r: &mut Rng, p: usize) -> Vec<usize> {
    let mut ws = r.perm(p);
    let keep = if r.bool(0.3) { p } else { r.int(1, p) };
    ws.truncate(keep);
    if r.bool(0.3) {
        ws.sort();
    }
    ws
}

fn single<F: Fl>(pen: Pen, w: &Array1<F>, g: &Array1<F>, ws: &Array1<usize>) -> (Vec<f64>, f64) {
    let f = |x: f64| F::cast(x);
    let (v, m) = match pen {
        Pen::L1 { a } => Penalty::subdiff_distance(&L1::new(f(a)), w.view(), g.view(), ws.view()),
        Pen::L1L2 { a, r } => Penalty::subdiff_distance(&L1PlusL2::new(f(a), f(r)), w.view(), g.view(), ws.view()),
        Pen::Mcp { a, g: q } => Penalty::subdiff_distance(&MCP::new(f(a), f(q)), w.view(), g.view(), ws.view()),
        _ => unreachable!(),
    };
    (v.iter().map(|x| up(*x)).collect(), up(m))
}
fn block<F: Fl>(pen: Pen, w: &Array2<F>, g: &Array2<F>, ws: &Array1<usize>) -> (Vec<f64>, f64) {
    let f = |x: f64| F::cast(x);
    let (v, m) = match pen {
        Pen::L1 { a } => MultiTaskPenalty::subdiff_distance(&L21::new(f(a)), w.view(), g.view(), ws.view()),
        Pen::L1L2 { a, r } => MultiTaskPenalty::subdiff_distance(&BlockL1PlusL2::new(f(a), f(r)), w.view(), g.view(), ws.view()),
        Pen::Mcp { a, g: q } => MultiTaskPenalty::subdiff_distance(&BlockMCP::new(f(a), f(q)), w.view(), g.view(), ws.view()),
        _ => unreachable!(),
    };
    (v.iter().map(|x| up(*x)).collect(), up(m))
}

fn judge(
    c: &Case, name: &str, pen: Pen, w: &[f64], g: &[f64], gerr: &[f64], ws: &[usize], t: usize, got: (Vec<f64>, f64), u: f64,
) -> Result<(), Viol> {
    let what = || format!("{name} {pen:?} w={w:?} gradient={g:?} features={ws:?} tasks={t} -> {got:?}");
    if got.0.len() != ws.len() {
        return viol(format!("{name}:length"), what());
    }
    let mut mx = f64::NEG_INFINITY;
    for (i, j) in ws.iter().enumerate() {
        let wj = &w[j * t..(j + 1) * t];
        let gj = &g[i * t..(i + 1) * t];
        let e = refm::subdiff_dist(pen, wj, gj);
        let a = match pen {
            Pen::L1 { a } => a,
            Pen::L1L2 { a, r } => a * (r + (1.0 - r) * refm::norm(wj)),
            Pen::Mcp { a, .. } => a,
            _ => 0.0,
        };
        let tol = 32.0 * u * (refm::norm(gj) + a) * (t as f64) + gerr[i];
        // squares are summed before a root is taken; products underflow
        let tol = tol
            + match (name.contains("block") || name.contains("multi-task"), u > 1e-10) {
                (true, true) => 1e-17,
                (true, false) => 1e-150,
                (false, true) => 1e-36,
                (false, false) => 1e-300,
            };
        if !((got.0[i] - e).abs() <= tol) {
            return viol(
                format!("{name}:score"),
                format!("feature {j} scored {:e}, distance is {e:e} (allowance {tol:e}); {}", got.0[i], what()),
            );
        }
        c.count(if wj.iter().all(|v| *v == 0.0) { "scores at zero" } else { "scores at non-zero" }, 1);
        mx = mx.max(got.0[i]);
    }
    if got.1 != mx {
        return viol(format!("{name}:maximum"), format!("reported {:e}, maximum of the scores {mx:e}; {}", got.1, what()));
    }
    if mx > 0.0 {
        c.nontrivial((name.to_string(), mx.to_bits()));
    }
    Ok(())
}

fn direct<F: Fl>(r: &mut Rng, c: &Case, u: f64) -> Result<(), Viol> {
    let rnd = |x: f64| if u > 1e-10 { x as f32 as f64 } else { x };
    let multi = r.bool(0.5);
    let p = r.int(1, 12);
    let t = if multi { r.int(1, 5) } else { 1 };
    let unit = match (r.bool(0.2), u > 1e-10) {
        (false, _) => 1.0,
        (true, false) => r.logu(1e-60, 1e60),
        (true, true) => r.logu(1e-7, 1e7),
    };
    let pn = match pen(r, unit) {
        Pen::L1 { a } => Pen::L1 { a: rnd(a) },
        Pen::L1L2 { a, r } => Pen::L1L2 { a: rnd(a), r: rnd(r) },
        Pen::Mcp { a, g } => Pen::Mcp { a: rnd(a), g: rnd(g) },
        x => x,
    };
    let mut w: Vec<f64> = weights(r, p, t, pn, u > 1e-10, multi).into_iter().map(rnd).collect();
    if r.bool(0.05) {
        w[0] = -0.0;
    }
    let ws = features(r, p);
    let a = match pn {
        Pen::L1 { a } | Pen::L1L2 { a, .. } | Pen::Mcp { a, .. } | Pen::L05 { a } => a,
    };
    // gradients near and far from the boundary of the subdifferential
    let mut g = vec![];
    for _ in 0..ws.len() {
        let rad = match r.int(0, 4) {
            0 => a,
            1 => a * r.range(0.9, 1.1),
            2 => 0.0,
            _ => a.max(0.1 * unit) * r.logu(1e-2, 1e2),
        };
        let d: Vec<f64> = (0..t).map(|_| r.gauss()).collect();
        let n = refm::norm(&d);
        for k in 0..t {
            g.push(rnd(d[k] / n * rad));
        }
    }
    let name = format!("{}{}", if multi { "block " } else { "" }, match pn {
        Pen::L1 { .. } => "L1",
        Pen::L1L2 { .. } => "L1+L2",
        _ => "MCP",
    });
    let wsa = Array1::from(ws.clone());
    let cv = |v: &[f64]| v.iter().map(|x| F::cast(*x)).collect::<Vec<F>>();
    let got = guard(|| {
        if multi {
            let wa = Array2::from_shape_vec((p, t), cv(&w)).unwrap();
            let ga = Array2::from_shape_vec((ws.len(), t), cv(&g)).unwrap();
            block::<F>(pn, &wa, &ga, &wsa)
        } else {
            single::<F>(pn, &Array1::from(cv(&w)), &Array1::from(cv(&g)), &wsa)
        }
    });
    let got = match got {
        Ok(g) => g,
        Err(e) => return viol(format!("{name}:panic"), format!("PANIC {e}: {pn:?} w={w:?} g={g:?} ws={ws:?}")),
    };
    c.sample(|| format!("{name} {pn:?} w={w:?} g={g:?} ws={ws:?} -> {got:?}"));
    judge(c, &name, pn, &w, &g, &vec![0.0; ws.len()], &ws, t, got, u)
}

/// the scores the solvers use: gradients computed from the data
fn through_data(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.5);
    let mut pr = gen::any(r, Size { nmax: 20, pmax: 12, tmax: if multi { 4 } else { 1 } });
    let df = if !multi && r.bool(0.4) { Df::Logit } else { Df::Quad };
    if df == Df::Logit {
        gen::labels(r, &mut pr);
    }
    let pn = pen(r, 1.0);
    let w = weights(r, pr.p, pr.t, pn, false, multi);
    let ws = features(r, pr.p);
    let f = refm::xw(&pr, &w);
    let gall = refm::grad(df, &pr, &f);
    let gs = refm::grad_scale(df, &pr, &w);
    let t = pr.t;
    let g: Vec<f64> = ws.iter().flat_map(|j| gall[j * t..(j + 1) * t].to_vec()).collect();
    let gerr: Vec<f64> = ws.iter().map(|j| 2e-13 * gs[*j]).collect();
    let sparse = r.bool(0.5);
    let x = DenseBuf::<f64>::new(pr.n, pr.p, &pr.x, *r.pick(&[Storage::C, Storage::F, Storage::Strided]));
    let csc = CscBuf::<f64>::new(&pr, *r.pick(SPARSE));
    let wsa = Array1::from(ws.clone());
    let name = format!("scores through {} {df:?}{}", if sparse { "CSC" } else { "dense" }, if multi { " multi-task" } else { "" });
    macro_rules! viaM {
        ($x:expr) => {{
            let y = Array2::from_shape_vec((pr.n, t), pr.y.clone()).unwrap();
            let ds = DatasetBase::from(($x, y.view()));
            let wa = Array2::from_shape_vec((pr.p, t), w.clone()).unwrap();
            let fa = Array2::from_shape_vec((pr.n, t), f.clone()).unwrap();
            let mut d = QuadraticMultiTask::<f64>::new();
            d.initialize(&ds);
            let (v, m) = match pn {
                Pen::L1 { a } => anderson_bcd::opt_cond_violation(&ds, wa.view(), fa.view(), wsa.view(), &d, &L21::new(a)),
                Pen::L1L2 { a, r } => {
                    anderson_bcd::opt_cond_violation(&ds, wa.view(), fa.view(), wsa.view(), &d, &BlockL1PlusL2::new(a, r))
                }
                Pen::Mcp { a, g } => anderson_bcd::opt_cond_violation(&ds, wa.view(), fa.view(), wsa.view(), &d, &BlockMCP::new(a, g)),
                _ => unreachable!(),
            };
            (v.to_vec(), m)
        }};
    }
    macro_rules! via1 {
        ($x:expr, $df:expr) => {{
            let y = Array1::from(pr.y.clone());
            let ds = DatasetBase::from(($x, y.view()));
            let wa = Array1::from(w.clone());
            let fa = Array1::from(f.clone());
            let mut d = $df;
            d.initialize(&ds);
            let (v, m) = match pn {
                Pen::L1 { a } => anderson_cd::opt_cond_violation(&ds, wa.view(), fa.view(), wsa.view(), &d, &L1::new(a)),
                Pen::L1L2 { a, r } => anderson_cd::opt_cond_violation(&ds, wa.view(), fa.view(), wsa.view(), &d, &L1PlusL2::new(a, r)),
                Pen::Mcp { a, g } => anderson_cd::opt_cond_violation(&ds, wa.view(), fa.view(), wsa.view(), &d, &MCP::new(a, g)),
                _ => unreachable!(),
            };
            (v.to_vec(), m)
        }};
    }
    let got = guard(|| match (multi, sparse, df) {
        (true, false, _) => viaM!(x.view()),
        (true, true, _) => viaM!(csc.view()),
        (false, false, Df::Quad) => via1!(x.view(), Quadratic::<f64>::new()),
        (false, true, Df::Quad) => via1!(csc.view(), Quadratic::<f64>::new()),
        (false, false, Df::Logit) => via1!(x.view(), Logistic::<f64>::new()),
        (false, true, Df::Logit) => via1!(csc.view(), Logistic::<f64>::new()),
    });
    let got = match got {
        Ok(g) => g,
        Err(e) => return viol(format!("{name}:panic"), format!("PANIC {e}: {pn:?} w={w:?} ws={ws:?} {}", pr.dump())),
    };
    c.count("scores computed through a dataset", 1);
    judge(c, &name, pn, &w, &g, &gerr, &ws, t, got, f64::EPSILON).map_err(|v| Viol { detail: format!("{}\n{}", v.detail, pr.dump()), ..v })
}

fn main() {
    let rep = Report::new(
        "C09",
        "violation scores of L1, L1+L2, MCP and their block versions in f32 and f64 for coefficients with zeros and on / around \
         MCP's knot, gradients on / around the subdifferential's boundary, feature lists in any order; and the same scores computed \
         through datasets. Non-trivial: requests with a positive maximum (distinct by maximum)",
    );
    rep.cases(1, rep.n(400000, 10_000_000), |r, c| direct::<f64>(r, c, f64::EPSILON));
    rep.cases(2, rep.n(150000, 5_000_000), |r, c| direct::<f32>(r, c, f32::EPSILON as f64));
    rep.cases(3, rep.n(60000, 2_000_000), through_data);
    rep.finish(
        &[("scores at zero", 10000), ("scores at non-zero", 10000), ("scores computed through a dataset", 3000)],
        &["ordinary magnitudes (1e-6..1e6)"],
    );
}
