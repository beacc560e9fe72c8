//! C12: hyperparameter validation accepts exactly the documented domain.
use sparseglm::estimators::error::EstimatorError;
use sparseglm::estimators::hyperparams::*;
use vh::est::*;
use vh::fit::*;
use vh::gen::{self, Size};
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

/// Interesting reals: valid, invalid, boundary. Never -0 (its sign is not documented).
fn real(r: &mut Rng, bounds: &[f64], valid: &dyn Fn(&mut Rng) -> f64) -> f64 {
    let b = *r.pick(bounds);
    let v = match r.int(0, 15) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => b,
        4 => b - r.logu(1e-7, 1e3),
        5 => b + r.logu(1e-7, 1e3),
        6 => b * (1.0 + 2e-7),
        7 => b * (1.0 - 2e-7),
        8 => -r.logu(1e-30, 1e30),
        9 => r.logu(1e-30, 1e30),
        10 => *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 1e-40, -1e-40, -f64::MIN_POSITIVE, f64::EPSILON]),
        _ => valid(r),
    };
    if v == 0.0 {
        0.0
    } else {
        v
    }
}
fn size(r: &mut Rng) -> usize {
    *r.pick(&[0, 0, 1, 1, 2, 5, 10, 1000, usize::MAX])
}

fn kind(e: &EstimatorError) -> (&'static str, f32) {
    match e {
        EstimatorError::InvalidRegularization(v) => ("alpha", *v),
        EstimatorError::InvalidGamma(v) => ("gamma", *v),
        EstimatorError::InvalidTolerance(v) => ("tolerance", *v),
        EstimatorError::InvalidK(v) => ("K", *v as f32),
        EstimatorError::InvalidWSSize(v) => ("ws_start_size", *v as f32),
        EstimatorError::InvalidL1Ratio(v) => ("l1_ratio", *v),
        #[allow(unreachable_patterns)]
        _ => ("another kind", 0.0),
    }
}
/// (name, value) of every field outside its documented domain
fn offending(s: &Set, gamma: bool) -> Vec<(&'static str, f32)> {
    let mut v = vec![];
    if !(s.alpha >= 0.0) {
        v.push(("alpha", s.alpha as f32));
    }
    if !(s.tol >= 0.0) {
        v.push(("tolerance", s.tol as f32));
    }
    if let Some(x) = s.second {
        if gamma && !(x >= 1.0) {
            v.push(("gamma", x as f32));
        }
        if !gamma && !(x >= 0.0 && x <= 1.0) {
            v.push(("l1_ratio", x as f32));
        }
    }
    if s.k < 1 {
        v.push(("K", 0.0));
    }
    if s.ws < 1 {
        v.push(("ws_start_size", 0.0));
    }
    v
}
fn names(e: &EstimatorError, off: &[(&'static str, f32)]) -> bool {
    let (k, v) = kind(e);
    off.iter().any(|(n, x)| *n == k && (x.to_bits() == v.to_bits() || (x.is_nan() && v.is_nan())))
}

fn run<F: Fl, P: Params<F>>(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let mut set = defaults::<F, P>();
    let mut p = P::via_new();
    let mut ops = vec![];
    // few changes most of the time, so that single invalid fields are common
    let n = *r.pick(&[1, 1, 2, 3, 5, 9]);
    for _ in 0..n {
        let op = match r.int(0, 8) {
            0 | 1 => Op::Alpha(real(r, &[0.0], &|r| r.logu(1e-4, 1e2))),
            2 | 3 => {
                if P::GAMMA {
                    Op::Second(real(r, &[1.0], &|r| r.range(1.0, 20.0)))
                } else {
                    Op::Second(real(r, &[0.0, 1.0], &|r| r.f()))
                }
            }
            4 | 5 => Op::Tol(real(r, &[0.0], &|r| r.logu(1e-10, 1e-2))),
            6 => Op::K(size(r)),
            7 => Op::Ws(size(r)),
            _ => *r.pick(&[Op::Iters(0), Op::Iters(3), Op::Epochs(0), Op::Epochs(7), Op::Accel(false)]),
        };
        // what the setter receives after conversion
        let stored = match op {
            Op::Alpha(v) => Op::Alpha(rounded::<F>(v)),
            Op::Second(v) => Op::Second(rounded::<F>(v)),
            Op::Tol(v) => Op::Tol(rounded::<F>(v)),
            o => o,
        };
        let v = match stored {
            Op::Alpha(v) | Op::Second(v) | Op::Tol(v) => v,
            _ => 1.0,
        };
        if v == 0.0 && v.is_sign_negative() {
            continue; // a negative number that underflowed to -0
        }
        set.apply(stored);
        p = p.op(op);
        ops.push(op);
    }
    p = p.op(Op::Verbose(false));
    set.verbose = false;
    let off = offending(&set, P::GAMMA);
    let name = P::NAME;
    let what = || format!("{name} f{} {ops:?} => {set:?}, offending {off:?}", 8 * std::mem::size_of::<F>());
    let by_ref = guard(|| p.check_by_ref());
    let by_val = guard(|| p.clone().check_by_value());
    let unwrapped = guard(|| p.clone().unwrap_it());
    let (by_ref, by_val) = match (by_ref, by_val) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return viol(format!("{name}:check-panics"), format!("{a:?} {b:?}; {}", what())),
    };
    for (how, res) in [("check_ref", &by_ref), ("check", &by_val)] {
        match res {
            Ok(s) => {
                if !off.is_empty() {
                    return viol(format!("{name}:accepted-invalid"), format!("{how} accepted; {}", what()));
                }
                if !s.same(&set) {
                    return viol(format!("{name}:checked-values"), format!("{how} returned {s:?}; {}", what()));
                }
            }
            Err(e) => {
                if off.is_empty() {
                    return viol(format!("{name}:rejected-valid"), format!("{how} rejected with {e:?}; {}", what()));
                }
                if !names(e, &off) {
                    return viol(format!("{name}:error-kind"), format!("{how} reported {e:?}; {}", what()));
                }
            }
        }
    }
    if let (Err(a), Err(b)) = (&by_ref, &by_val) {
        if format!("{a:?}") != format!("{b:?}") {
            return viol(format!("{name}:checks-disagree"), format!("{a:?} by reference, {b:?} by value; {}", what()));
        }
    }
    if unwrapped.is_ok() != off.is_empty() {
        return viol(format!("{name}:check-unwrap"), format!("check_unwrap gave {unwrapped:?}; {}", what()));
    }
    // implicit checking through fit; accepted but astronomically large settings are not run
    let mut pr = gen::family(r, "tiny", Size { nmax: 6, pmax: 7, tmax: if P::MULTI { 3 } else { 1 } });
    pr = pr.to_f32();
    let d = Data::<F>::new(&pr, *r.pick(SPARSE));
    let big = |v: f64| !(v < 1e6);
    let tame = set.k <= 1000 && set.ws <= 1000;
    // the set under judgement, with a short budget: how long a fit runs is not the matter here
    let mut q = p.clone().op(Op::Iters(set.iters.min(2))).op(Op::Epochs(set.epochs.min(4)));
    if off.is_empty() && (!tame || big(set.alpha) || set.second.map(big).unwrap_or(false)) {
        if !tame {
            q = q.op(Op::K(5)).op(Op::Ws(3));
        }
        q = q.op(Op::Iters(0));
    }
    for (how, res) in [("dense", guard(|| q.fit_dense(&d))), ("csc", guard(|| q.fit_csc(&d)))] {
        let res = match res {
            Ok(x) => x,
            Err(e) => return viol(format!("{name}:fit-panics"), format!("{how}: {e}; {}", what())),
        };
        match res {
            Ok(w) => {
                if !off.is_empty() {
                    return viol(format!("{name}:model-from-invalid"), format!("{how} fit returned {w:?}; {}", what()));
                }
                if w.len() != pr.p * pr.t {
                    return viol(format!("{name}:shape"), format!("{how} fit returned {w:?}; {}", what()));
                }
            }
            Err(e) => {
                if off.is_empty() {
                    return viol(format!("{name}:fit-rejected-valid"), format!("{how} fit: {e:?}; {}", what()));
                }
                let (Err(a), true) = (&by_ref, names(&e, &off)) else {
                    return viol(format!("{name}:error-kind"), format!("{how} fit: {e:?}; {}", what()));
                };
                if format!("{a:?}") != format!("{e:?}") {
                    return viol(format!("{name}:checks-disagree"), format!("{a:?} by check, {e:?} by fit; {}", what()));
                }
            }
        }
    }
    if off.is_empty() {
        c.count("accepted", 1);
        c.nontrivial((name, format!("{set:?}")));
    } else {
        c.count("rejected", 1);
        for (n, _) in &off {
            c.count(&format!("invalid {n}"), 1);
            if off.len() == 1 {
                c.count(&format!("only {n} invalid"), 1);
            }
        }
        c.nontrivial((name, format!("{set:?}")));
    }
    c.count(&format!("{name} f{}", 8 * std::mem::size_of::<F>()), 1);
    c.sample(|| format!("{}: {by_ref:?}", what()));
    Ok(())
}
fn one<F: Fl>(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    match r.int(0, 5) {
        0 => run::<F, LassoParams<F>>(r, c),
        1 => run::<F, ElasticNetParams<F>>(r, c),
        2 => run::<F, MCParams<F>>(r, c),
        3 => run::<F, MultiTaskLassoParams<F>>(r, c),
        4 => run::<F, MultiTaskElasticNetParams<F>>(r, c),
        _ => run::<F, BlockMCParams<F>>(r, c),
    }
}
fn main() {
    let rep = Report::new(
        "C12",
        "random parameter sets built from boundary, special and ordinary values; check by reference, by value, check_unwrap and \
         implicit checking through dense and CSC fits against the documented domain. Non-trivial: distinct (estimator, set) judged",
    );
    rep.cases(1, rep.n(80_000, 2_000_000), one::<f64>);
    rep.cases(2, rep.n(40_000, 1_000_000), one::<f32>);
    rep.finish(
        &[
            ("accepted", 10_000),
            ("rejected", 10_000),
            ("only alpha invalid", 500),
            ("only gamma invalid", 500),
            ("only l1_ratio invalid", 500),
            ("only tolerance invalid", 500),
            ("only K invalid", 500),
            ("only ws_start_size invalid", 500),
        ],
        &["negative zero is not judged", "sets with astronomically large accepted values are fitted with a zero budget"],
    );
}
