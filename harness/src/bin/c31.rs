//! C31: settings objects hold exactly what was set.
use sparseglm::estimators::hyperparams::*;
use sparseglm::solvers::Solver;
use vh::est::*;
use vh::fit::*;
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

fn real(r: &mut Rng, lo: f64, hi: f64) -> f64 {
    match r.int(0, 5) {
        0 => lo,
        1 => hi,
        _ => r.range(lo, hi),
    }
}
fn size(r: &mut Rng) -> usize {
    match r.int(0, 7) {
        0 => 1,
        1 => usize::MAX,
        2 => usize::MAX - 1,
        3 => 1 << 32,
        _ => r.int(1, 5000),
    }
}
fn op(r: &mut Rng, gamma: bool) -> Op {
    match r.int(0, 8) {
        0 => Op::Alpha(real(r, 0.0, 100.0)),
        1 => Op::Second(if gamma { real(r, 1.0, 50.0) } else { real(r, 0.0, 1.0) }),
        2 => Op::Iters(if r.bool(0.2) { 0 } else { size(r) }),
        3 => Op::Epochs(if r.bool(0.2) { 0 } else { size(r) }),
        4 => Op::Ws(size(r)),
        5 => Op::Tol(real(r, 0.0, 1.0)),
        6 => Op::K(size(r)),
        7 => Op::Accel(r.bool(0.5)),
        _ => Op::Verbose(r.bool(0.5)),
    }
}
fn stored<F: Fl>(o: Op) -> Op {
    match o {
        Op::Alpha(v) => Op::Alpha(rounded::<F>(v)),
        Op::Second(v) => Op::Second(rounded::<F>(v)),
        Op::Tol(v) => Op::Tol(rounded::<F>(v)),
        o => o,
    }
}

fn params<F: Fl, P: Params<F>>(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let name = P::NAME;
    let start = r.int(0, 2);
    let mut p = match start {
        0 => P::via_new(),
        1 => P::via_default(),
        _ => P::via_estimator(),
    };
    let mut set = defaults::<F, P>();
    let mut hist: Vec<Op> = vec![];
    let bad = |s: &Set, got: &Result<Set, String>, hist: &Vec<Op>| {
        viol(
            format!("{name}:field"),
            format!("{name} f{} started by {} then {hist:?}: expected {s:?}, holds {got:?}", 8 * std::mem::size_of::<F>(), ["new", "default", "params"][start]),
        )
    };
    let read = |p: &P| guard(|| p.check_by_ref().map_err(|e| e.to_string())).unwrap_or_else(|e| Err(format!("PANIC {e}")));
    let g = read(&p);
    match &g {
        Ok(s) if s.same(&set) => {}
        _ => return bad(&set, &g, &hist),
    }
    let n = r.int(0, 14);
    for _ in 0..n {
        let o = op(r, P::GAMMA);
        p = p.op(o);
        set.apply(stored::<F>(o));
        hist.push(o);
        // look after every call: the last one changed its own field only
        let g = read(&p);
        match &g {
            Ok(s) if s.same(&set) => {}
            _ => return bad(&set, &g, &hist),
        }
    }
    let g = guard(|| p.clone().check_by_value().map_err(|e| e.to_string())).unwrap_or_else(|e| Err(format!("PANIC {e}")));
    match &g {
        Ok(s) if s.same(&set) => {}
        _ => return bad(&set, &g, &hist),
    }
    let g = guard(|| p.clone().unwrap_it());
    match &g {
        Ok(s) if s.same(&set) => {}
        _ => return bad(&set, &g.clone(), &hist),
    }
    // equality of sets is equality of fields: a shuffled history with the same last calls
    let mut last: Vec<Op> = vec![];
    for o in hist.iter().rev() {
        if !last.iter().any(|q| std::mem::discriminant(q) == std::mem::discriminant(o)) {
            last.push(*o);
        }
    }
    r.shuffle(&mut last);
    let q = last.iter().fold(P::via_new(), |q, o| q.op(*o));
    if q != p || p.clone() != p {
        return viol(format!("{name}:history"), format!("{name}: {hist:?} and {last:?} give different sets {p:?} {q:?}"));
    }
    c.count(&format!("{name} f{}", 8 * std::mem::size_of::<F>()), 1);
    c.count("setter calls observed", n as u64);
    if n > 0 {
        c.nontrivial((name, format!("{hist:?}")));
    }
    c.sample(|| format!("{name}: {hist:?} -> {set:?}"));
    Ok(())
}

fn solvers<F: Fl>(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let mut s: Solver<F> = if r.bool(0.5) { Solver::new() } else { Solver::default() };
    let mut set = Set { alpha: 0.0, second: None, iters: 50, epochs: 1000, ws: 10, tol: rounded::<F>(1e-8), k: 5, accel: true, verbose: true };
    let read = |s: &Solver<F>| Set {
        alpha: 0.0,
        second: None,
        iters: s.max_iterations,
        epochs: s.max_epochs,
        ws: s.ws_start_size,
        tol: up(s.tolerance),
        k: s.K,
        accel: s.use_acceleration,
        verbose: s.verbose,
    };
    let mut hist: Vec<Op> = vec![];
    for i in 0..=r.int(0, 14) {
        if i > 0 {
            let o = loop {
                let o = op(r, false);
                if !matches!(o, Op::Alpha(_) | Op::Second(_)) {
                    break o;
                }
            };
            s = match o {
                Op::Iters(v) => s.max_iterations(v),
                Op::Epochs(v) => s.max_epochs(v),
                Op::Ws(v) => s.ws_start_size(v),
                Op::Tol(v) => s.tolerance(F::cast(v)),
                Op::K(v) => s.K(v),
                Op::Accel(v) => s.use_acceleration(v),
                Op::Verbose(v) => s.verbose(v),
                _ => unreachable!(),
            };
            set.apply(stored::<F>(o));
            hist.push(o);
            c.count("setter calls observed", 1);
        }
        let g = read(&s);
        if !g.same(&set) {
            return viol("solver:field", format!("Solver f{}: {hist:?}: expected {set:?}, holds {g:?}", 8 * std::mem::size_of::<F>()));
        }
    }
    c.count(&format!("solver f{}", 8 * std::mem::size_of::<F>()), 1);
    c.nontrivial(("solver", format!("{hist:?}")));
    Ok(())
}

/// What was set is what a fit uses: settings with an observable effect on a small problem.
fn effect<F: Fl, P: Params<F>>(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let name = P::NAME;
    let mut pr = vh::gen::fixed(r, "gauss", 12, 6, if P::MULTI { 2 } else { 1 });
    pr = pr.to_f32();
    let d = Data::<F>::new(&pr, Storage::Csc);
    let n = r.int(1, 10);
    let mut hist: Vec<Op> = vec![];
    for _ in 0..n {
        let o = match r.int(0, 8) {
            0 => Op::Alpha(r.logu(1e-3, 2.0)),
            1 => Op::Second(if P::GAMMA { r.range(1.0, 5.0) } else { r.f() }),
            2 => Op::Iters(r.int(0, 4)),
            3 => Op::Epochs(r.int(0, 30)),
            4 => Op::Ws(r.int(1, 8)),
            5 => Op::Tol(r.logu(1e-8, 1e-1)),
            6 => Op::K(r.int(1, 6)),
            _ => Op::Accel(r.bool(0.5)),
        };
        hist.push(o);
    }
    hist.push(Op::Verbose(false));
    let p = hist.iter().fold(P::via_new(), |p, o| p.op(*o));
    let mut last: Vec<Op> = vec![];
    for o in hist.iter().rev() {
        if !last.iter().any(|q| std::mem::discriminant(q) == std::mem::discriminant(o)) {
            last.push(*o);
        }
    }
    r.shuffle(&mut last);
    let q = last.iter().fold(P::via_default(), |q, o| q.op(*o));
    let a = guard(|| (p.fit_dense(&d).unwrap(), p.fit_csc(&d).unwrap()));
    let b = guard(|| (q.fit_dense(&d).unwrap(), q.fit_csc(&d).unwrap()));
    match (&a, &b) {
        (Ok(x), Ok(y)) if bits(&x.0) == bits(&y.0) && bits(&x.1) == bits(&y.1) => {}
        _ => return viol(format!("{name}:effect"), format!("{name}: fits after {hist:?} and {last:?} differ: {a:?} {b:?}\n{}", pr.dump())),
    }
    c.count("fits compared", 2);
    Ok(())
}

fn one<F: Fl>(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    macro_rules! go {
        ($P:ident) => {
            if r.bool(0.9) {
                params::<F, $P<F>>(r, c)
            } else {
                effect::<F, $P<F>>(r, c)
            }
        };
    }
    match r.int(0, 6) {
        0 => go!(LassoParams),
        1 => go!(ElasticNetParams),
        2 => go!(MCParams),
        3 => go!(MultiTaskLassoParams),
        4 => go!(MultiTaskElasticNetParams),
        5 => go!(BlockMCParams),
        _ => solvers::<F>(r, c),
    }
}

fn main() {
    let rep = Report::new(
        "C31",
        "random setter histories on the six estimator parameter sets (started by new, default, and the estimator's params) and \
         the Solver builder; every field is read after every call and compared with a record of the last values set. \
         Non-trivial: distinct non-empty histories",
    );
    rep.cases(1, rep.n(60_000, 1_500_000), one::<f64>);
    rep.cases(2, rep.n(30_000, 700_000), one::<f32>);
    rep.finish(&[("setter calls observed", 100_000), ("fits compared", 1000), ("solver f32", 1000), ("solver f64", 1000)], &[]);
}
