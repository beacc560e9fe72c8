//! C32: the working set holds the support and the worst violators, and grows with the support.
use vh::fit::*;
use vh::gen::Size;
use vh::mon::{phase_fit, Phase};
use vh::optim::{self, Kind};
use vh::refm::{self, Model, Pen};
use vh::gen::Prob;
use vh::rep::{viol, Case, Report, Viol};
use vh::rng::Rng;

struct Scores {
    v: Vec<f64>,
    slack: Vec<f64>,
}
fn scores(pr: &Prob, m: &Model, w: &[f64], lips: &[f64], eps: f64) -> Scores {
    let t = pr.t;
    let g = refm::grad(m.df, pr, &refm::xw(pr, w));
    let sc = refm::grad_scale(m.df, pr, w);
    let mut s = Scores { v: vec![], slack: vec![] };
    for j in 0..pr.p {
        let wj = &w[j * t..(j + 1) * t];
        let v = refm::violation(m.pen, wj, &g[j * t..(j + 1) * t], lips[j]);
        s.v.push(v);
        let mut e = eps * (sc[j] + m.alpha());
        if let Pen::L05 { .. } = m.pen {
            // the prox jumps at its threshold: a gradient within rounding of it has either score
            let gj = &g[j * t..(j + 1) * t];
            let ng = refm::norm(gj);
            let jump = [-1.0, 1.0].iter().filter(|_| ng > 0.0).fold(0.0f64, |worst, sign| {
                let h: Vec<f64> = gj.iter().map(|q| q * (1.0 + sign * e / ng)).collect();
                worst.max((refm::violation(m.pen, wj, &h, lips[j]) - v).abs())
            });
            e = if lips[j] > 0.0 { e / lips[j] } else { 0.0 } + eps * refm::norm(wj) + jump;
        }
        s.slack.push(e);
    }
    s
}

fn phase(c: &Case, pr: &Prob, m: &Model, k: &Knobs, lips: &[f64], ph: &Phase, before: Option<&Phase>, eps: f64, what: &dyn Fn() -> String) -> Result<(), Viol> {
    let (p, t) = (pr.p, pr.t);
    let visited: Vec<bool> = ph.steps.iter().map(|s| *s > 0).collect();
    let size = visited.iter().filter(|v| **v).count();
    if size == 0 {
        return Ok(());
    }
    let support: Vec<bool> = (0..p).map(|j| ph.w[j * t..(j + 1) * t].iter().any(|v| *v != 0.0)).collect();
    let nnz = support.iter().filter(|v| **v).count();
    let kind = if m.multi { "multi-task" } else { "single-task" };
    let tell = |s: String| {
        let set: Vec<usize> = (0..p).filter(|j| visited[*j]).collect();
        let sup: Vec<usize> = (0..p).filter(|j| support[*j]).collect();
        format!("{s}; working set {set:?}, support {sup:?}, start {}, {} features; {}", k.ws, p, what())
    };
    if let Some(j) = (0..p).find(|j| support[*j] && !visited[*j] && lips[*j] > 0.0) {
        return viol(format!("{kind}:support"), tell(format!("feature {j} of the support was left out of the working set")));
    }
    let wanted = usize::max(k.ws.min(p), usize::min(2 * nnz, p));
    // a set of all features is scored as a whole while it is being worked on
    let everything = |ph: &Phase| (0..p).all(|j| ph.steps[j] > 0 || lips[j] == 0.0);
    let same_set = everything(ph) && before.map_or(false, |b| everything(b));
    if size > wanted && !same_set {
        return viol(format!("{kind}:large"), tell(format!("{size} features were worked on, {wanted} make the working set")));
    }
    let s = scores(pr, m, &ph.w, lips, eps);
    let able = (0..p).filter(|j| support[*j] && lips[*j] > 0.0 || s.v[*j] > s.slack[*j]).count();
    if size < wanted.min(able) {
        return viol(format!("{kind}:small"), tell(format!("{size} features were worked on, {wanted} make the working set ({able} of them can move)")));
    }
    // nobody outside scores clearly more than somebody inside
    let inside = (0..p).filter(|j| visited[*j] && !support[*j]).min_by(|a, b| (s.v[*a] + s.slack[*a]).total_cmp(&(s.v[*b] + s.slack[*b])));
    let outside = (0..p).filter(|j| !visited[*j]).max_by(|a, b| (s.v[*a] - s.slack[*a]).total_cmp(&(s.v[*b] - s.slack[*b])));
    if let (Some(i), Some(o)) = (inside, outside) {
        if s.v[o] - s.slack[o] > s.v[i] + s.slack[i] {
            return viol(
                format!("{kind}:rank"),
                tell(format!("feature {o} with score {:e} was left out for feature {i} with score {:e}", s.v[o], s.v[i])),
            );
        }
        c.count("sets ranked against outsiders", 1);
        if s.v[o] > s.slack[o] {
            c.count("sets leaving violators out", 1);
        }
    }
    // every member is worked on equally often
    let most = ph.steps.iter().max().unwrap();
    if let Some(j) = (0..p).find(|j| visited[*j] && ph.steps[*j] != *most) {
        return viol(format!("{kind}:passes"), tell(format!("feature {j} was updated {} times, others {most} times", ph.steps[j])));
    }
    c.count(&format!("working sets ({kind})"), 1);
    if nnz > 0 {
        c.count("working sets on a support", 1);
    }
    if 2 * nnz > k.ws && 2 * nnz < p {
        c.count("working sets grown with the support", 1);
    }
    c.nontrivial((pr.p, pr.n, visited.iter().map(|v| *v as u8).collect::<Vec<_>>()));
    Ok(())
}

fn case<F: Fl>(r: &mut Rng, c: &Case, s: Size, eps: f64) -> Result<(), Viol> {
    let multi = r.bool(0.4);
    let kind = if r.bool(0.7) { if multi { Kind::ConvexM } else { Kind::Convex1 } } else { Kind::NonConvex };
    let (mut pr, m) = optim::any_problem(r, kind, multi, s);
    if eps > 1e-7 {
        pr = pr.to_f32();
    }
    let mut k = Knobs::random(r, pr.p);
    if r.bool(0.6) {
        k.ws = r.int(1, 1 + pr.p / 4);
    }
    if r.bool(0.5) {
        k.epochs = *r.pick(&[1, 2, 3, 5, 7, 11, 21, 31]);
    }
    let k = k.capped(&pr);
    let st = optim::any_storage(r);
    let (_, work) = match phase_fit::<F>(&pr, &m, &k, st) {
        Ok(x) => x,
        Err(e) => return viol("panic", format!("{} {}", e.0, optim::full(&pr, &m, &k, st, Route::Solver))),
    };
    let lips = refm::lips(m.df, &pr);
    let what = || optim::full(&pr, &m, &k, st, Route::Solver);
    let phases = work.phases.borrow();
    for (i, ph) in phases.iter().enumerate() {
        phase(c, &pr, &m, &k, &lips, ph, if i > 0 { Some(&phases[i - 1]) } else { None }, eps, &what)?;
    }
    c.count("fits", 1);
    c.sample(|| {
        let sizes: Vec<usize> = work.phases.borrow().iter().map(|p| p.steps.iter().filter(|s| **s > 0).count()).collect();
        format!("{}: working sets of {sizes:?}", optim::describe(&pr, &m, &k, st, Route::Solver))
    });
    Ok(())
}

fn main() {
    let rep = Report::new(
        "C32",
        "between two scorings of all features, the features the solver updates contain the support, outrank the features left out and number max(start, min(2*support, all))",
    );
    rep.cases(1, rep.n(2500, 60000), |r: &mut Rng, c: &Case| case::<f64>(r, c, Size { nmax: 40, pmax: 80, tmax: 4 }, 1e-10));
    rep.cases(2, rep.n(200, 5000), |r: &mut Rng, c: &Case| case::<f64>(r, c, Size { nmax: 60, pmax: 400, tmax: 3 }, 1e-10));
    rep.cases(3, rep.n(600, 15000), |r: &mut Rng, c: &Case| case::<f32>(r, c, Size { nmax: 30, pmax: 60, tmax: 3 }, 2e-4));
    rep.finish(
        &[
            ("working sets (single-task)", 2000),
            ("working sets (multi-task)", 1000),
            ("sets ranked against outsiders", 1000),
            ("sets leaving violators out", 300),
            ("working sets grown with the support", 300),
        ],
        &["working sets are seen through the coordinate updates; columns of zeros are never updated"],
    )
}
