//! C29: regularisation paths are monotone. Every path is recorded first and judged afterwards.
use vh::fit::*;
use vh::gen::{self, Prob, Size};
use vh::optim::*;
use vh::refm::{self, Df, Model, Pen};
use vh::rep::{viol, Case, Report, Viol};
use vh::rng::Rng;

struct Step {
    a: f64,
    w: Vec<f64>,
    /// bound on the optimality violation of w
    tau: f64,
    loss: f64,
    omega: f64,
}

fn omega(pen: Pen, w: &[f64], t: usize) -> f64 {
    match pen {
        Pen::L1 { .. } => refm::pen_value(Pen::L1 { a: 1.0 }, w, t),
        Pen::L1L2 { r, .. } => refm::pen_value(Pen::L1L2 { a: 1.0, r }, w, t),
        _ => unreachable!(),
    }
}
fn at(pen: Pen, a: f64) -> Pen {
    match pen {
        Pen::L1L2 { r, .. } => Pen::L1L2 { a, r },
        _ => Pen::L1 { a },
    }
}

fn path(r: &mut Rng, c: &Case, well: bool, single: bool) -> Result<(), Viol> {
    let multi = r.bool(0.35);
    let df = if !multi && r.bool(0.4) { Df::Logit } else { Df::Quad };
    let tmax = if multi { 4 } else { 1 };
    let mut pr = if well { gen::well(r, 12, tmax) } else { gen::any(r, Size { nmax: 30, pmax: 25, tmax }) };
    if df == Df::Logit {
        gen::labels(r, &mut pr);
        if well {
            for (i, v) in pr.y.iter_mut().enumerate() {
                if i % 7 == 0 {
                    *v = -*v;
                }
            }
        }
    }
    // other units: powers of two change no mantissa (labels have no unit)
    if r.bool(0.4) {
        let e = if single { 12 } else { 30 };
        let mut unit = |e: usize| 2f64.powi(r.int(0, 2 * e) as i32 - e as i32);
        let (a, b) = (unit(if df == Df::Logit { e / 2 } else { e }), unit(2 * e));
        pr.x.iter_mut().for_each(|v| *v *= a);
        if df == Df::Quad {
            pr.y.iter_mut().for_each(|v| *v *= b);
        }
        c.count("paths in other units", 1);
    }
    if single {
        pr = pr.to_f32();
    }
    let amax = refm::alpha_max(df, &pr);
    if !(amax > 0.0) {
        return Ok(());
    }
    let ratio = gen::ratio(r).max(0.02) as f32 as f64;
    let (pen, end) = if r.bool(0.5) { (Pen::L1 { a: 1.0 }, amax) } else { (Pen::L1L2 { a: 1.0, r: ratio }, amax / ratio) };
    let len = r.int(3, 8);
    let lo = if df == Df::Logit && !well { 1e-2 } else { 1e-4 };
    let mut alphas: Vec<f64> = (0..len).map(|_| end * r.logu(lo, 1.0)).collect();
    if r.bool(0.3) {
        // two close neighbours
        let q = alphas[0];
        alphas.push(q * 1.01);
    }
    if df == Df::Quad || well {
        alphas.push(0.0);
    }
    alphas.push(end * (1.0 + if single { 1e-4 } else { 1e-9 }));
    alphas.push(end * r.range(1.1, 20.0));
    for a in alphas.iter_mut() {
        *a = *a as f32 as f64;
    }
    alphas.sort_by(|a, b| a.partial_cmp(b).unwrap());
    alphas.dedup();
    let (st, rt) = (any_storage(r), any_route(r));
    let u = if single { 2e4 * 6e-8 } else { C_EPS64 };
    let fixed = r.bool(0.5);
    let mut k = Knobs { tol: (amax * r.logu(if single { 1e-5 } else { 1e-9 }, 1e-3)) as f32 as f64, iters: 100, ..well_knobs(r, pr.p) };
    let mut hist: Vec<Step> = vec![];
    for a in alphas {
        if !fixed {
            k = Knobs { tol: k.tol, iters: 100, ..well_knobs(r, pr.p) };
        }
        let m = Model { df, pen: at(pen, a), multi };
        let res = if single { fit_stopped::<f32>(&pr, &m, &k, st, rt) } else { fit_stopped::<f64>(&pr, &m, &k, st, rt) };
        let (w, stopped) = match res {
            Ok(x) => x,
            Err(e) => return viol(format!("{}:fit-failed", m.name()), format!("{} in {}", e.0, full(&pr, &m, &k, st, rt))),
        };
        if !finite(&w) {
            return viol(format!("{}:non-finite", m.name()), format!("{w:?}; {}", full(&pr, &m, &k, st, rt)));
        }
        if !stopped {
            if well && !single {
                return viol(format!("{}:not-converged", m.name()), full(&pr, &m, &k, st, rt));
            }
            c.count("fits that used up their budget (left out)", 1);
            continue;
        }
        let sc = refm::grad_scale(df, &pr, &w).into_iter().fold(0.0, f64::max) + a;
        hist.push(Step { a, tau: k.tol * (1.0 + 1e-5) + u * sc, loss: refm::loss(df, &pr, &refm::xw(&pr, &w)), omega: omega(pen, &w, pr.t), w });
    }
    let m = Model { df, pen, multi };
    let name = m.name();
    judge_path(c, &pr, &name, &hist, &|i, j| {
        let d = |s: &Step| format!("alpha={:e}: w={:?} loss={:e} penalty={:e} violation<={:e}", s.a, s.w, s.loss, s.omega, s.tau);
        format!("{}\n{}\nf{}; {}", d(&hist[i]), d(&hist[j]), if single { 32 } else { 64 }, full(&pr, &m, &k, st, rt))
    })?;
    // ends
    for (i, s) in hist.iter().enumerate() {
        if s.a >= end * (1.0 + if single { 5e-5 } else { 5e-10 }) {
            if s.w.iter().any(|v| *v != 0.0) {
                return viol(format!("{name}:does-not-end-at-zero"), format!("{:?} at alpha={:e}, threshold {end:e}; {}", s.w, s.a, full(&pr, &m, &k, st, rt)));
            }
            c.count("paths ending at zero", 1);
        }
        if i == 0 && s.a == 0.0 && df == Df::Quad && well {
            // the unregularised fit: gradient zero
            let f = refm::xw(&pr, &s.w);
            let g = refm::grad(df, &pr, &f);
            let worst = g.chunks(pr.t).map(refm::norm).fold(0.0, f64::max);
            if !(worst <= s.tau) {
                return viol(format!("{name}:does-not-start-unregularised"), format!("gradient {worst:e} at {:?}; {}", s.w, full(&pr, &m, &k, st, rt)));
            }
            c.count("paths starting at least squares", 1);
        }
    }
    c.count("paths", 1);
    Ok(())
}

/// Approximate minimisers w1 (strength a1) and w2 (a2 > a1) with violations up to t1, t2 satisfy,
/// with D the sum of row distances,
///   F1(w1) <= F1(w2) + t1 D,  F2(w2) <= F2(w1) + t2 D,
/// which bounds how far each of the three monotonicities can fail.
fn judge_path(c: &Case, pr: &Prob, name: &str, h: &[Step], tell: &dyn Fn(usize, usize) -> String) -> Result<(), Viol> {
    for i in 0..h.len() {
        for j in i + 1..h.len() {
            let (s1, s2) = (&h[i], &h[j]);
            let d: f64 = s1.w.chunks(pr.t).zip(s2.w.chunks(pr.t)).map(|(x, y)| dist(x, y)).sum();
            let e = (s1.tau + s2.tau) * d + 1e-13 * (s1.loss.abs() + s2.loss.abs());
            let da = s2.a - s1.a;
            let eo = e / da + 1e-13 * (s1.omega + s2.omega);
            if !(s2.omega <= s1.omega + eo) {
                return viol(format!("{name}:penalty-increases"), format!("penalty {:e} then {:e} (slack {eo:e})\n{}", s1.omega, s2.omega, tell(i, j)));
            }
            let el = e + s1.a * eo;
            if !(s1.loss <= s2.loss + el) {
                return viol(format!("{name}:loss-decreases"), format!("loss {:e} then {:e} (slack {el:e})\n{}", s1.loss, s2.loss, tell(i, j)));
            }
            let (f1, f2) = (s1.loss + s1.a * s1.omega, s2.loss + s2.a * s2.omega);
            if !(f1 <= f2 + e) {
                return viol(format!("{name}:objective-decreases"), format!("objective {f1:e} then {f2:e} (slack {e:e})\n{}", tell(i, j)));
            }
            c.count("pairs along paths", 1);
            if i == 0 {
                c.sample(|| format!("{name}: loss {:e} -> {:e}, penalty {:e} -> {:e}, slack {el:e}", s1.loss, s2.loss, s1.omega, s2.omega));
            }
            if d > 0.0 && eo < 0.05 * s1.omega && el < 0.05 * s2.loss {
                c.count("informative pairs (slack below 5%)", 1);
                c.nontrivial((bits(&s1.w), bits(&s2.w)));
            }
            if s2.omega < s1.omega && s2.loss > s1.loss && f1 < f2 {
                c.count("pairs strictly monotone", 1);
            }
        }
    }
    Ok(())
}

fn main() {
    let rep = Report::new("C29", "distinct pairs of solutions along a path, compared with slack below 5%");
    rep.cases(1, rep.n(800, 80_000), |r, c| path(r, c, true, false));
    rep.cases(2, rep.n(500, 60_000), |r, c| path(r, c, false, false));
    rep.cases(3, rep.n(300, 40_000), |r, c| {
        let well = r.bool(0.6);
        path(r, c, well, true)
    });
    rep.finish(
        &[("paths", 1000), ("paths in other units", 300), ("informative pairs (slack below 5%)", 5000), ("pairs strictly monotone", 5000), ("paths ending at zero", 1000), ("paths starting at least squares", 300)],
        &["slack follows from convexity and the fits' tolerance; fits that used up their budget are left out"],
    );
}
