//! C27: single precision agrees with double precision.
use ndarray::{Array1, Array2};
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::utils::helpers::*;
use vh::dfx::quantities;
use vh::fit::*;
use vh::gen::{self, Prob, Size};
use vh::optim::*;
use vh::refm::{self, Df, Model, Pen};
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

const U: f64 = 6e-8;
/// allowance for accumulated rounding in the model fit, in units of the gradient scale
const C_WELL: f64 = 600.0 * U;
/// the same for problems that may take the whole budget of passes
const C_ANY: f64 = 20_000.0 * U;

fn r32(v: f64) -> f64 {
    v as f32 as f64
}
fn pen32(p: Pen) -> Pen {
    match p {
        Pen::L1 { a } => Pen::L1 { a: r32(a) },
        Pen::L1L2 { a, r } => Pen::L1L2 { a: r32(a), r: r32(r) },
        Pen::Mcp { a, g } => Pen::Mcp { a: r32(a), g: r32(g) },
        Pen::L05 { a } => Pen::L05 { a: r32(a) },
    }
}
fn scale(m: &Model, pr: &Prob, w: &[f64]) -> f64 {
    refm::grad_scale(m.df, pr, w).into_iter().fold(0.0, f64::max) + m.alpha()
}

fn fits(r: &mut Rng, c: &Case, well: bool) -> Result<(), Viol> {
    let c_fit = if well { C_WELL } else { C_ANY };
    let multi = r.bool(0.4);
    let (pr, m) = if well {
        well_problem(r, Kind::Any, multi, 14, 3)
    } else {
        any_problem(r, if multi { Kind::ConvexM } else { Kind::Any }, multi, Size { nmax: 30, pmax: 20, tmax: 3 })
    };
    let pr = pr.to_f32();
    let m = Model { pen: pen32(m.pen), ..m };
    let amax = refm::alpha_max(m.df, &pr).max(1e-6);
    let mut k = if well { well_knobs(r, pr.p) } else { Knobs::random(r, pr.p).capped(&pr) };
    k.tol = r32(amax * r.logu(1e-6, 1e-2));
    let (st, rt) = (any_storage(r), any_route(r));
    let (w, stopped) = match fit_stopped::<f32>(&pr, &m, &k, st, rt) {
        Ok(x) => x,
        Err(e) => return viol(format!("{}:f32-fit-failed", m.name()), format!("{} in {}", e.0, full(&pr, &m, &k, st, rt))),
    };
    let what = |w: &[f64]| format!("f32 coefficients {w:?}; {}", full(&pr, &m, &k, st, rt));
    if !finite(&w) {
        return viol(format!("{}:non-finite", m.name()), what(&w));
    }
    // judged in double precision on the same data
    let l05 = matches!(m.pen, Pen::L05 { .. });
    let kk = refm::kkt(&m, &pr, &w, if l05 { 10.0 * c_fit } else { c_fit });
    let sc = scale(&m, &pr, &w);
    if kk.excess > k.tol * (1.0 + 1e-5) && (stopped || well) {
        let noise = (kk.max - k.tol) / (U * sc);
        return viol(
            format!("{}:f32-not-optimal", m.name()),
            format!("violation {:e} (feature {}, {noise:.0} roundings) above the tolerance {:e}; stopped={stopped}; {}", kk.max, kk.feature, k.tol, what(&w)),
        );
    }
    if !l05 && (stopped || well) {
        c.count(match (kk.max - k.tol) / (U * sc) {
            x if x <= 0.0 => "noise below tolerance",
            x if x <= 5.0 => "noise up to 5 roundings",
            x if x <= 50.0 => "noise up to 50 roundings",
            x if x <= 200.0 => "noise up to 200 roundings",
            _ => "noise above 200 roundings",
        }, 1);
    }
    // and against the double precision fit
    let kd = Knobs { tol: 1e-10 * amax, iters: if pr.n * pr.p > 4000 { 60 } else { 200 }, ..k };
    let (wd, sd) = match fit_stopped::<f64>(&pr, &m, &kd, st, rt) {
        Ok(x) => x,
        Err(e) => return viol(format!("{}:f64-fit-failed", m.name()), format!("{} in {}", e.0, full(&pr, &m, &kd, st, rt))),
    };
    if !sd || !(stopped || well) {
        c.count("one precision did not stop by itself", 1);
        return Ok(());
    }
    let (fo, fd) = (refm::objective(&m, &pr, &w), refm::objective(&m, &pr, &wd));
    let f0 = refm::objective(&m, &pr, &vec![0.0; w.len()]);
    if well && !l05 && m.name() != "logit-mcp" {
        let Some(mu) = modulus(&pr, &m, &w, &wd) else { return Ok(()) };
        let b = (k.tol + c_fit * sc + kd.tol + C_EPS64 * sc) * (pr.p as f64).sqrt() / mu * 1.001;
        let d = dist(&w, &wd);
        if !(d <= b) {
            return viol(
                format!("{}:precisions-disagree", m.name()),
                format!("distance {d:e} from the f64 solution {wd:?}, bound {b:e}; {}", what(&w)),
            );
        }
        c.count("coefficient pairs compared", 1);
        c.sample(|| format!("distance {d:e} bound {b:e} {}", what(&w).chars().take(300).collect::<String>()));
        if b < 0.05 * refm::norm(&wd) {
            c.count("informative pairs (bound below 5% of the solution)", 1);
            c.nontrivial(bits(&w));
        }
    } else if matches!(m.pen, Pen::L1 { .. } | Pen::L1L2 { .. }) {
        // objective gap <= violation * distance
        let d: f64 = dist(&w, &wd);
        let b = (k.tol + c_fit * sc + kd.tol) * d * (pr.p as f64).sqrt() + 64.0 * U * f0.abs();
        if !((fo - fd).abs() <= b) {
            return viol(
                format!("{}:objectives-disagree", m.name()),
                format!("objective {fo:e} in f32, {fd:e} in f64, allowance {b:e}; {}", what(&w)),
            );
        }
        c.count("objective pairs compared", 1);
        c.nontrivial(bits(&w));
    }
    Ok(())
}

fn pen_value<F: Fl>(pen: Pen, w: &[f64], t: usize, block: bool) -> f64 {
    let f = |x: f64| F::cast(x);
    let v: Vec<F> = w.iter().map(|x| f(*x)).collect();
    up(if block {
        let a = Array2::from_shape_vec((w.len() / t, t), v).unwrap();
        match pen {
            Pen::L1 { a: q } => MultiTaskPenalty::value(&L21::new(f(q)), a.view()),
            Pen::L1L2 { a: q, r } => MultiTaskPenalty::value(&BlockL1PlusL2::new(f(q), f(r)), a.view()),
            Pen::Mcp { a: q, g } => MultiTaskPenalty::value(&BlockMCP::new(f(q), f(g)), a.view()),
            _ => unreachable!(),
        }
    } else {
        let a = Array1::from(v);
        match pen {
            Pen::L1 { a: q } => Penalty::value(&L1::new(f(q)), a.view()),
            Pen::L1L2 { a: q, r } => Penalty::value(&L1PlusL2::new(f(q), f(r)), a.view()),
            Pen::Mcp { a: q, g } => Penalty::value(&MCP::new(f(q), f(g)), a.view()),
            Pen::L05 { a: q } => Penalty::value(&L05::new(f(q)), a.view()),
        }
    })
}
fn pen_prox<F: Fl>(pen: Pen, v: &[f64], step: f64, block: bool) -> Vec<f64> {
    let f = |x: f64| F::cast(x);
    if block {
        let a = Array1::from(v.iter().map(|x| f(*x)).collect::<Vec<F>>());
        let o = match pen {
            Pen::L1 { a: q } => L21::new(f(q)).prox(a.view(), f(step)),
            Pen::L1L2 { a: q, r } => BlockL1PlusL2::new(f(q), f(r)).prox(a.view(), f(step)),
            Pen::Mcp { a: q, g } => BlockMCP::new(f(q), f(g)).prox(a.view(), f(step)),
            _ => unreachable!(),
        };
        o.iter().map(|x| up(*x)).collect()
    } else {
        vec![up(match pen {
            Pen::L1 { a: q } => L1::new(f(q)).prox(f(v[0]), f(step)),
            Pen::L1L2 { a: q, r } => L1PlusL2::new(f(q), f(r)).prox(f(v[0]), f(step)),
            Pen::Mcp { a: q, g } => MCP::new(f(q), f(g)).prox(f(v[0]), f(step)),
            Pen::L05 { a: q } => L05::new(f(q)).prox(f(v[0]), f(step)),
        })]
    }
}
fn pen_dist<F: Fl>(pen: Pen, w: &[f64], g: &[f64], ws: &[usize], t: usize, block: bool) -> (Vec<f64>, f64) {
    let f = |x: f64| F::cast(x);
    let wsa = Array1::from(ws.to_vec());
    let (wv, gv): (Vec<F>, Vec<F>) = (w.iter().map(|x| f(*x)).collect(), g.iter().map(|x| f(*x)).collect());
    let (v, m) = if block {
        let (w, g) = (Array2::from_shape_vec((w.len() / t, t), wv).unwrap(), Array2::from_shape_vec((ws.len(), t), gv).unwrap());
        match pen {
            Pen::L1 { a } => MultiTaskPenalty::subdiff_distance(&L21::new(f(a)), w.view(), g.view(), wsa.view()),
            Pen::L1L2 { a, r } => MultiTaskPenalty::subdiff_distance(&BlockL1PlusL2::new(f(a), f(r)), w.view(), g.view(), wsa.view()),
            Pen::Mcp { a, g: q } => MultiTaskPenalty::subdiff_distance(&BlockMCP::new(f(a), f(q)), w.view(), g.view(), wsa.view()),
            _ => unreachable!(),
        }
    } else {
        let (w, g) = (Array1::from(wv), Array1::from(gv));
        match pen {
            Pen::L1 { a } => Penalty::subdiff_distance(&L1::new(f(a)), w.view(), g.view(), wsa.view()),
            Pen::L1L2 { a, r } => Penalty::subdiff_distance(&L1PlusL2::new(f(a), f(r)), w.view(), g.view(), wsa.view()),
            Pen::Mcp { a, g: q } => Penalty::subdiff_distance(&MCP::new(f(a), f(q)), w.view(), g.view(), wsa.view()),
            _ => unreachable!(),
        }
    };
    (v.iter().map(|x| up(*x)).collect(), up(m))
}

fn penalties(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let block = r.bool(0.5);
    let t = if block { r.int(1, 4) } else { 1 };
    let p = r.int(1, 10);
    let a = r32(r.logu(1e-3, 1e3));
    let pen = match r.int(0, if block { 2 } else { 3 }) {
        0 => Pen::L1 { a },
        1 => Pen::L1L2 { a, r: r32(gen::ratio(r)) },
        2 => Pen::Mcp { a, g: r32(*r.pick(&[1.0, 1.5, 3.0, 20.0])) },
        _ => Pen::L05 { a },
    };
    let name = format!("{}{:?}", if block { "block " } else { "" }, pen).split('{').next().unwrap().to_string();
    let mut w = vec![0.0; p * t];
    for row in w.chunks_mut(t) {
        if r.bool(0.7) {
            let rad = if let Pen::Mcp { a, g } = pen { a * g * r.range(0.0, 2.0) } else { r.logu(1e-3, 1e3) };
            row.iter_mut().for_each(|v| *v = r32(r.gauss() * rad / (t as f64).sqrt()));
        }
    }
    macro_rules! both {
        ($f:ident($($e:expr),*)) => {
            match (guard(|| $f::<f32>($($e),*)), guard(|| $f::<f64>($($e),*))) {
                (Ok(s), Ok(d)) => (s, d),
                (s, d) => return viol(format!("{name}:panic"), format!("{pen:?} w={w:?} t={t}: f32 {s:?} f64 {d:?}")),
            }
        };
    }
    let (s, d) = both!(pen_value(pen, &w, t, block));
    let mag: f64 = w
        .chunks(t)
        .map(|q| {
            let x = refm::norm(q);
            match pen {
                Pen::Mcp { a, g } => (a * x).min(2.0 * g * a * a),
                _ => refm::pen_scalar(pen, x),
            }
        })
        .sum();
    if !((s - d).abs() <= 16.0 * U * (p * t) as f64 * mag) {
        return viol(format!("{name}:value"), format!("{pen:?} w={w:?} t={t}: f32 {s:e} f64 {d:e}"));
    }
    c.count("penalty values", 1);
    // proximal steps, away from jumps and from unbounded amplification
    let step = r32(match pen {
        Pen::Mcp { g, .. } => g * r.range(0.01, 0.7),
        _ => r.logu(1e-3, 1e2),
    });
    let rad = match pen {
        Pen::L05 { a } => 1.5 * (a * step).powf(2.0 / 3.0) * *r.pick(&[0.5, 0.99, 1.01, 1.5, 4.0, 100.0]),
        _ => a * step * *r.pick(&[0.3, 0.999, 1.0, 1.001, 2.0, 5.0, 50.0]),
    };
    let dir: Vec<f64> = (0..t).map(|_| r.gauss()).collect();
    let nd = refm::norm(&dir).max(1e-9);
    let v: Vec<f64> = dir.iter().map(|x| r32(x / nd * rad)).collect();
    let (s, d) = both!(pen_prox(pen, &v, step, block));
    let amp = match pen {
        Pen::Mcp { .. } => 8.0,
        Pen::L05 { .. } => 64.0,
        _ => 1.0,
    };
    let tol = 32.0 * U * amp * (t as f64) * (refm::norm(&v) + a * step);
    if !(s.iter().zip(&d).all(|(x, y)| (x - y).abs() <= tol)) {
        return viol(format!("{name}:prox"), format!("{pen:?} v={v:?} step={step:e}: f32 {s:?} f64 {d:?} (allowance {tol:e})"));
    }
    c.count("proximal steps", 1);
    c.nontrivial(bits(&s));
    if !matches!(pen, Pen::L05 { .. }) {
        let mut ws = r.perm(p);
        ws.truncate(r.int(1, p));
        let g: Vec<f64> = (0..ws.len() * t).map(|_| r32(r.gauss() * a * *r.pick(&[0.3, 1.0, 3.0]))).collect();
        let ((s, sm), (d, dm)) = both!(pen_dist(pen, &w, &g, &ws, t, block));
        let mut worst = 0.0f64;
        for (i, j) in ws.iter().enumerate() {
            let x = refm::norm(&w[j * t..(j + 1) * t]);
            let sl = match pen {
                Pen::L1L2 { a, r } => a * (r + (1.0 - r) * x),
                Pen::Mcp { a, g } => a + if x < 1.01 * a * g { x / g } else { 0.0 },
                _ => a,
            };
            let tol = 32.0 * U * t as f64 * (refm::norm(&g[i * t..(i + 1) * t]) + sl);
            worst = worst.max(tol);
            if !((s[i] - d[i]).abs() <= tol) {
                return viol(format!("{name}:score"), format!("{pen:?} w={w:?} g={g:?} ws={ws:?}: f32 {s:?} f64 {d:?} (allowance {tol:e} at {i})"));
            }
        }
        if !((sm - dm).abs() <= worst) {
            return viol(format!("{name}:score-maximum"), format!("{pen:?} w={w:?} g={g:?} ws={ws:?}: f32 {sm} f64 {dm}"));
        }
        c.count("scores", ws.len() as u64);
    }
    Ok(())
}

fn datafits(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let multi = r.bool(0.35);
    let df = if !multi && r.bool(0.5) { Df::Logit } else { Df::Quad };
    let mut pr = gen::any(r, Size { nmax: 40, pmax: 20, tmax: if multi { 4 } else { 1 } });
    if df == Df::Logit {
        gen::labels(r, &mut pr);
    }
    let pr = pr.to_f32();
    let (n, t) = (pr.n, pr.t);
    let st = any_storage(r);
    let sc = *r.pick(&[0.0, 1.0, 10.0, 100.0, 1e4]);
    let f: Vec<f64> = (0..n * t).map(|_| r32(sc * r.gauss())).collect();
    let what = || format!("{df:?} {st:?} fit={f:?}\n{}", pr.dump());
    let (s, d) = match (quantities::<f32>(&pr, df, multi, st, &[f.clone()], None), quantities::<f64>(&pr, df, multi, st, &[f.clone()], None)) {
        (Ok(s), Ok(d)) => (s[0].clone(), d[0].clone()),
        (s, d) => return viol(format!("{df:?}:panic"), format!("{:?} {:?} {}", s.err(), d.err(), what())),
    };
    let cc = 4.0 * ((n * t) as f64 + 16.0) * U;
    let vs = match df {
        Df::Quad => pr.y.iter().zip(&f).map(|(a, b)| (a.abs() + b.abs()).powi(2)).sum::<f64>() / n as f64,
        Df::Logit => d.value + 1.0,
    };
    if !((s.value - d.value).abs() <= cc * vs) {
        return viol(format!("{df:?}:value"), format!("f32 {:e} f64 {:e}; {}", s.value, d.value, what()));
    }
    for q in 0..pr.p * t {
        let (j, k) = (q / t, q % t);
        let m: f64 = (0..n)
            .map(|i| pr.xij(i, j).abs() * if df == Df::Quad { pr.yit(i, k).abs() + f[i * t + k].abs() } else { 1.0 })
            .sum::<f64>()
            / n as f64;
        for (a, b) in [(s.full[q], d.full[q]), (s.coord[q], d.coord[q])] {
            if !((a - b).abs() <= cc * m) {
                return viol(format!("{df:?}:gradient"), format!("feature {j} task {k}: f32 {a:e} f64 {b:e}; {}", what()));
            }
        }
    }
    for j in 0..pr.p {
        if !((s.lips[j] - d.lips[j]).abs() <= cc * d.lips[j]) {
            return viol(format!("{df:?}:step"), format!("feature {j}: f32 {:e} f64 {:e}; {}", s.lips[j], d.lips[j], what()));
        }
    }
    c.count("datafit evaluations", 1);
    c.nontrivial(bits(&s.full));
    Ok(())
}

fn helpers(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    // threshold
    let pr = gen::any(r, Size { nmax: 30, pmax: 20, tmax: 3 }).to_f32();
    fn am<F: Fl>(pr: &Prob, st: Storage) -> Result<Vec<f64>, String> {
        guard(|| {
            let x = DenseBuf::<F>::new(pr.n, pr.p, &pr.x, Storage::F);
            let y = DenseBuf::<F>::new(pr.n, pr.t, &pr.y, Storage::F);
            let csc = CscBuf::<F>::new(pr, st);
            let yv = y.view();
            let y1 = yv.index_axis(ndarray::Axis(1), 0);
            vec![
                up(compute_alpha_max(x.view(), y1)),
                up(compute_alpha_max_sparse(&csc.view(), y1)),
                up(compute_alpha_max_mtl(x.view(), yv)),
            ]
        })
    }
    let st = *r.pick(SPARSE);
    let sc = refm::grad_scale(Df::Quad, &pr, &vec![0.0; pr.p * pr.t]).into_iter().fold(0.0, f64::max);
    match (am::<f32>(&pr, st), am::<f64>(&pr, st)) {
        (Ok(s), Ok(d)) if s.iter().zip(&d).all(|(a, b)| (a - b).abs() <= 8.0 * (pr.n + 16) as f64 * U * sc) => c.count("thresholds", 3),
        (s, d) => return viol("alpha-max", format!("f32 {s:?} f64 {d:?}; {}", pr.dump())),
    }
    // sigmoid
    for _ in 0..20 {
        let x = r32(r.sign() * r.logu(1e-6, 200.0));
        let (s, d) = (sigmoid(x as f32) as f64, sigmoid(x));
        if !((s - d).abs() <= 16.0 * U * d + 2e-38) {
            return viol("sigmoid", format!("x={x:e}: f32 {s:e} f64 {d:e}"));
        }
    }
    c.count("sigmoids", 20);
    // linear systems: diagonally dominant, or a product of well-scaled factors
    let n = r.int(1, 12);
    let mut a = vec![0.0; n * n];
    let perm = r.perm(n);
    for i in 0..n {
        for j in 0..n {
            a[i * n + j] = r32(r.range(-1.0, 1.0) / n as f64);
        }
        a[i * n + perm[i]] = r32(r.sign() * r.range(1.5, 3.0));
    }
    let b: Vec<f64> = (0..n).map(|_| r32(r.gauss())).collect();
    fn ls<F: Fl>(a: &[f64], b: &[f64], n: usize) -> Result<Result<Vec<f64>, String>, String> {
        guard(|| {
            let m = Array2::from_shape_vec((n, n), a.iter().map(|v| F::cast(*v)).collect::<Vec<F>>()).unwrap();
            let v = Array1::from(b.iter().map(|v| F::cast(*v)).collect::<Vec<F>>());
            solve_lin_sys(m.view(), v.view()).map(|x| x.iter().map(|v| up(*v)).collect::<Vec<f64>>()).map_err(|e| e.to_string())
        })
    }
    match (ls::<f32>(&a, &b, n), ls::<f64>(&a, &b, n)) {
        (Ok(Ok(s)), Ok(Ok(d))) if dist(&s, &d) <= 200.0 * n as f64 * U * refm::norm(&b) => c.count("linear systems", 1),
        (s, d) => return viol("linear-system", format!("A={a:?} b={b:?}: f32 {s:?} f64 {d:?}")),
    }
    // sorting the same numbers
    let v: Vec<f64> = (0..r.int(0, 20)).map(|_| r32(r.gauss())).collect();
    let (x, y) = (Array1::from(v.iter().map(|z| *z as f32).collect::<Vec<_>>()), Array1::from(v.clone()));
    let (i, j) = (argsort_by(&x, |a, b| a.partial_cmp(b).unwrap()), argsort_by(&y, |a, b| a.partial_cmp(b).unwrap()));
    let vi: Vec<f64> = i.iter().map(|q| v[*q]).collect();
    let vj: Vec<f64> = j.iter().map(|q| v[*q]).collect();
    if bits(&vi) != bits(&vj) {
        return viol("argsort", format!("{v:?}: f32 {i:?} f64 {j:?}"));
    }
    c.count("sorts", 1);
    Ok(())
}

fn main() {
    let rep = Report::new("C27", "distinct f32 results (coefficients, proximal points, gradients) compared with f64");
    rep.cases(1, rep.n(4000, 250_000), |r, c| fits(r, c, true));
    rep.cases(2, rep.n(1500, 100_000), |r, c| fits(r, c, false));
    rep.cases(3, rep.n(20_000, 3_000_000), penalties);
    rep.cases(4, rep.n(4000, 400_000), datafits);
    rep.cases(5, rep.n(4000, 400_000), helpers);
    rep.finish(
        &[("coefficient pairs compared", 1500), ("informative pairs (bound below 5% of the solution)", 800), ("objective pairs compared", 200),
          ("penalty values", 10_000), ("proximal steps", 10_000), ("scores", 10_000), ("datafit evaluations", 2000), ("thresholds", 5000),
          ("sigmoids", 10_000), ("linear systems", 2000), ("sorts", 2000)],
        &["f32 accuracy: rounding errors of up to 600 units in the last place of the numbers entering a gradient (20000 on ill-conditioned problems, where they accumulate over many passes)"],
    );
}
