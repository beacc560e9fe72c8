//! C18: fits are deterministic, also under concurrency.
use ndarray::{Array2, ArrayView1, ArrayView2, Axis};
use sparseglm::datafits::multi_task::{MultiTaskDatafit, QuadraticMultiTask};
use sparseglm::datafits::single_task::{Datafit, Logistic, Quadratic};
use sparseglm::datasets::csc_array::CSCArray;
use sparseglm::datasets::DatasetBase;
use sparseglm::estimators::hyperparams::*;
use sparseglm::penalties::block_separable::{BlockL1PlusL2, BlockMCP, MultiTaskPenalty, L21};
use sparseglm::penalties::separable::{L1PlusL2, Penalty, L05, L1, MCP};
use sparseglm::solvers::{BCDSolver, CDSolver, Solver};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;
use vh::est::{Data, Op, Params};
use vh::fit::*;
use vh::gen::{self, Prob, Size};
use vh::optim::*;
use vh::refm::*;
use vh::rep::{guard, viol, Case, Report, Viol};
use vh::rng::Rng;

type Scene = (Prob, Model, Knobs, Storage, Route);
fn scene(r: &mut Rng, size: usize) -> Scene {
    let multi = r.bool(0.4);
    let (pr, m) = any_problem(r, Kind::Any, multi, Size { nmax: size, pmax: size, tmax: 4 });
    let mut k = Knobs::random(r, pr.p).capped(&pr);
    k.iters = *r.pick(&[1, 3, 10]);
    k.epochs = k.epochs.min(150);
    (pr, m, k, any_storage(r), any_route(r))
}
fn run(s: &Scene) -> Result<Vec<u64>, String> {
    // half of the fits in single precision
    if s.2.k % 2 == 0 {
        fit::<f32>(&s.0, &s.1, &s.2, s.3, s.4).map(|w| bits(&w)).map_err(|e| e.0)
    } else {
        fit64(&s.0, &s.1, &s.2, s.3, s.4).map(|w| bits(&w)).map_err(|e| e.0)
    }
}
fn text(s: &Scene) -> String {
    full(&s.0, &s.1, &s.2, s.3, s.4)
}

fn repeat(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let scenes: Vec<Scene> = (0..4).map(|_| scene(r, 24)).collect();
    let first: Vec<_> = scenes.iter().map(run).collect();
    for round in 0..3 {
        let mut order: Vec<usize> = (0..scenes.len()).collect();
        r.shuffle(&mut order);
        for i in order {
            let again = run(&scenes[i]);
            if again != first[i] {
                return viol(format!("{}:repeat", scenes[i].1.name()), format!("round {round}: {:?} then {again:?} in {}", first[i], text(&scenes[i])));
            }
            c.count("repetitions", 1);
        }
    }
    c.sample(|| format!("{} scenes, 3 shuffled rounds, the first: {}", scenes.len(), text(&scenes[0]).chars().take(300).collect::<String>()));
    for (s, f) in scenes.iter().zip(&first) {
        match f {
            Ok(b) if b.iter().any(|v| v << 1 != 0) => c.nontrivial((b, format!("{:?}", s.2))),
            Ok(_) => {}
            Err(e) => return viol(format!("{}:fit-failed", s.1.name()), format!("{e} in {}", text(s))),
        }
    }
    Ok(())
}

/// One parameter set object fitted on several datasets, against fresh sets.
fn reuse_params<P: Params<f64> + Sync>(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    let t = if P::MULTI { 3 } else { 1 };
    let probs: Vec<Prob> = (0..4)
        .map(|_| {
            let mut p = gen::any(r, Size { nmax: 20, pmax: 20, tmax: 1 });
            p = gen::fixed(r, p.fam, p.n, p.p, t);
            p
        })
        .collect();
    let a = 0.1 * alpha_max(Df::Quad, &probs[0]).max(1e-3);
    let mk = || -> P {
        let p = P::via_new().op(Op::Alpha(a)).op(Op::Iters(4)).op(Op::Epochs(60)).op(Op::Verbose(false));
        p.op(Op::Ws(3)).op(Op::Tol(1e-9))
    };
    let shared = mk();
    for step in 0..8 {
        let pr = r.pick(&probs).clone();
        let d = Data::<f64>::new(&pr, Storage::Csc);
        let checked = r.bool(0.5);
        let sparse = r.bool(0.5);
        let go = |p: &P| match (checked, sparse) {
            (false, false) => p.fit_dense(&d),
            (false, true) => p.fit_csc(&d),
            (true, false) => p.fit_checked_dense(&d),
            (true, true) => p.fit_checked_csc(&d),
        };
        let (x, y) = (guard(|| go(&shared)), guard(|| go(&mk())));
        let b = |z: &Result<Result<Vec<f64>, _>, String>| match z {
            Ok(Ok(w)) => Some(bits(w)),
            _ => None,
        };
        let (bx, by) = (b(&x), b(&y));
        if bx.is_none() || bx != by {
            return viol(format!("{}:reused-parameters", P::NAME), format!("step {step}: reused {x:?}, fresh {y:?} on {}", pr.dump()));
        }
        c.count("reused parameter sets", 1);
    }
    Ok(())
}

macro_rules! reuse_body {
    ($r:expr, $c:expr, $mk:expr, $pen:expr, $probs:expr, $name:expr, $solve:ident, $dim:ident, $view:expr) => {{
        let (r, c, pen, probs) = ($r, $c, $pen, $probs);
        let k = Knobs { ws: *r.pick(&[1, 3, 10]), iters: 4, epochs: 50, tol: 1e-9, k: *r.pick(&[2, 5]), ..Knobs::default() };
        let sol: Solver<f64> = solver(&k);
        let mut shared = $mk();
        for step in 0..8 {
            let pr: &Prob = r.pick(&probs);
            let y = Array2::from_shape_fn((pr.n, pr.t), |(i, j)| pr.yit(i, j));
            let yv = $view(y.view());
            let fresh_solver: Solver<f64> = solver(&k);
            let mut fresh = $mk();
            // the shared object may also be a clone in the middle of its history
            if r.bool(0.2) {
                shared = shared.clone();
            }
            let (a, b) = if r.bool(0.5) {
                let x = Array2::from_shape_fn((pr.n, pr.p), |(i, j)| pr.xij(i, j));
                let ds = DatasetBase::from((x.view(), yv));
                (guard(|| sol.$solve(&ds, &mut shared, &pen).unwrap()), guard(|| fresh_solver.$solve(&ds, &mut fresh, &pen).unwrap()))
            } else {
                let x = CscBuf::<f64>::new(pr, Storage::Csc);
                let ds = DatasetBase::from((x.view(), yv));
                (guard(|| sol.$solve(&ds, &mut shared, &pen).unwrap()), guard(|| fresh_solver.$solve(&ds, &mut fresh, &pen).unwrap()))
            };
            let same = match (&a, &b) {
                (Ok(a), Ok(b)) => a.dim() == b.dim() && a.iter().zip(b.iter()).all(|(x, y)| x.to_bits() == y.to_bits()),
                _ => false,
            };
            if !same {
                return viol(format!("{}:reused-objects", $name), format!("step {step}: reused {a:?}, fresh {b:?}, {k:?} on {}", pr.dump()));
            }
            c.count("reused solver, datafit and penalty", 1);
        }
        Ok(())
    }};
}
fn reuse1<D, P>(r: &mut Rng, c: &Case, mk: impl Fn() -> D, pen: P, probs: Vec<Prob>, name: &str) -> Result<(), Viol>
where
    D: Clone + for<'a> Datafit<f64, ArrayView2<'a, f64>, ArrayView1<'a, f64>> + for<'a> Datafit<f64, CSCArray<'a, f64>, ArrayView1<'a, f64>>,
    P: Penalty<f64>,
{
    reuse_body!(r, c, mk, pen, probs, name, solve, Ix1, |y: ArrayView2<'_, f64>| -> ArrayView1<f64> {
        let n = y.nrows();
        // a copy of the single column, leaked (it has to outlive the view)
        let v: Vec<f64> = y.index_axis(Axis(1), 0).to_vec();
        ArrayView1::from_shape(n, Vec::leak(v)).unwrap()
    })
}
fn reusem<P>(r: &mut Rng, c: &Case, pen: P, probs: Vec<Prob>, name: &str) -> Result<(), Viol>
where
    P: MultiTaskPenalty<f64>,
    QuadraticMultiTask<f64>: for<'a> MultiTaskDatafit<f64, ArrayView2<'a, f64>, ArrayView2<'a, f64>>,
{
    reuse_body!(r, c, QuadraticMultiTask::<f64>::new, pen, probs, name, solve_multi_task, Ix2, |y| y)
}
fn reuse(r: &mut Rng, c: &Case) -> Result<(), Viol> {
    match r.int(0, 15) {
        0 => return reuse_params::<LassoParams<f64>>(r, c),
        1 => return reuse_params::<ElasticNetParams<f64>>(r, c),
        2 => return reuse_params::<MCParams<f64>>(r, c),
        3 => return reuse_params::<MultiTaskLassoParams<f64>>(r, c),
        4 => return reuse_params::<MultiTaskElasticNetParams<f64>>(r, c),
        5 => return reuse_params::<BlockMCParams<f64>>(r, c),
        _ => {}
    }
    let multi = r.bool(0.4);
    let mut probs: Vec<Prob> = (0..3).map(|_| gen::any(r, Size { nmax: 20, pmax: 20, tmax: if multi { 4 } else { 1 } })).collect();
    let logit = !multi && r.bool(0.4);
    let mut amax = 1e-3f64;
    for p in probs.iter_mut() {
        if logit {
            gen::labels(r, p);
        }
        amax = amax.max(alpha_max(if logit { Df::Logit } else { Df::Quad }, p));
    }
    // a second dataset with the very same shape as the first, but other numbers
    let mut twin = probs[0].clone();
    twin.x.iter_mut().for_each(|v| *v = *v * 1.5 + 0.25);
    probs.push(twin);
    let a = amax * r.logu(0.01, 0.5);
    match (multi, logit, r.int(0, 3)) {
        (true, _, 0) => reusem(r, c, L21::new(a), probs, "mt-lasso"),
        (true, _, 1) => reusem(r, c, BlockL1PlusL2::new(a, 0.4), probs, "mt-enet"),
        (true, _, _) => reusem(r, c, BlockMCP::new(a, 4.0), probs, "block-mcp"),
        (_, true, 0) => reuse1(r, c, Logistic::<f64>::new, L1::new(a), probs, "logit-l1"),
        (_, true, _) => reuse1(r, c, Logistic::<f64>::new, L1PlusL2::new(a, 0.4), probs, "logit-enet"),
        (_, _, 0) => reuse1(r, c, Quadratic::<f64>::new, L1::new(a), probs, "lasso"),
        (_, _, 1) => reuse1(r, c, Quadratic::<f64>::new, L1PlusL2::new(a, 0.4), probs, "enet"),
        (_, _, 2) => reuse1(r, c, Quadratic::<f64>::new, MCP::new(a, 4.0), probs, "mcp"),
        (_, _, _) => reuse1(r, c, Quadratic::<f64>::new, L05::new(a), probs, "l05"),
    }
}

/// Many threads, one dataset, shared parameter sets.
fn concurrent(r: &mut Rng, threads: usize, rounds: usize, size: usize) -> Result<(usize, usize, Vec<u64>), Viol> {
    let t = r.int(1, 3);
    let pr = {
        let fam = *r.pick(gen::FAMS);
        let (n, p) = (r.int(3, size), r.int(2, size));
        gen::fixed(r, fam, n, p, t)
    };
    let d = Data::<f64>::new(&pr, Storage::CscShuf);
    let mut lab = pr.single();
    gen::labels(r, &mut lab);
    let ld = Data::<f64>::new(&lab, Storage::Csc);
    let amax = alpha_max(Df::Quad, &pr).max(1e-3);
    let a = amax * r.logu(0.01, 0.5);
    macro_rules! set {
        ($P:ident) => {
            $P::<f64>::new().alpha(a).max_iterations(4).max_epochs(40).ws_start_size(2).verbose(false)
        };
    }
    let (p1, p2, p3) = (set!(LassoParams), set!(ElasticNetParams), set!(MCParams));
    let (q1, q2, q3) = (set!(MultiTaskLassoParams), set!(MultiTaskElasticNetParams), set!(BlockMCParams));
    let sol: Solver<f64> = solver(&Knobs { iters: 4, epochs: 40, ws: 3, ..Knobs::default() });
    let la = 0.1 * alpha_max(Df::Logit, &lab).max(1e-3);
    let lpen = L1::new(la);
    let jobs = 14usize;
    let job = |i: usize| -> Vec<u64> {
        let w = match i {
            0 => p1.fit_dense(&d),
            1 => p1.fit_csc(&d),
            2 => p2.fit_dense(&d),
            3 => p2.fit_csc(&d),
            4 => p3.fit_dense(&d),
            5 => p3.fit_csc(&d),
            6 => q1.fit_dense(&d),
            7 => q1.fit_csc(&d),
            8 => q2.fit_dense(&d),
            9 => q2.fit_csc(&d),
            10 => q3.fit_dense(&d),
            11 => q3.fit_csc(&d),
            12 => {
                let ds = DatasetBase::from((ld.x.x.view(), ld.x.y.index_axis(Axis(1), 0)));
                Ok(sol.solve(&ds, &mut Logistic::new(), &lpen).unwrap().to_vec())
            }
            _ => {
                let ds = DatasetBase::from((ld.csc.view(), ld.x.y.index_axis(Axis(1), 0)));
                Ok(sol.solve(&ds, &mut Logistic::new(), &lpen).unwrap().to_vec())
            }
        };
        match w {
            Ok(w) => bits(&w),
            Err(e) => panic!("fit failed: {e}"),
        }
    };
    let want: Vec<Vec<u64>> = (0..jobs).map(|i| job(i)).collect();
    let bar = Barrier::new(threads);
    let (inflight, peak, done) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let seeds: Vec<u64> = (0..threads).map(|_| r.u64()).collect();
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for th in 0..threads {
            let (bar, inflight, peak, done, bad, want, job, seeds) = (&bar, &inflight, &peak, &done, &bad, &want, &job, &seeds);
            s.spawn(move || {
                let mut r = Rng::new(seeds[th]);
                for round in 0..rounds {
                    bar.wait();
                    // half of the time everyone runs the same fit at once
                    let i = if round % 2 == 0 { round % want.len() } else { r.int(0, want.len() - 1) };
                    for q in [i, r.int(0, want.len() - 1)] {
                        let f = inflight.fetch_add(1, Ordering::SeqCst) + 1;
                        peak.fetch_max(f, Ordering::SeqCst);
                        let got = guard(|| job(q));
                        inflight.fetch_sub(1, Ordering::SeqCst);
                        done.fetch_add(1, Ordering::SeqCst);
                        if got.as_ref() != Ok(&want[q]) {
                            *bad.lock().unwrap() = Some((q, format!("{got:?}")));
                        }
                    }
                }
            });
        }
    });
    if let Some((q, got)) = bad.into_inner().unwrap() {
        return viol(format!("concurrent:job{q}"), format!("job {q} alone {:?}, concurrently {got}; alpha {a}; {}", want[q], pr.dump()));
    }
    Ok((done.into_inner(), peak.into_inner(), want.concat()))
}

fn hash<H: Hash>(h: H) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}
fn process_scene(seed: u64, i: u64) -> Scene {
    let mut r = Rng::case(seed, 40, i);
    scene(&mut r, 24)
}

fn main() {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    // child process: fit a slice of the scenes, in some order, and print hashes
    if let Ok(v) = std::env::var("VH_CHILD") {
        let (n, rev) = v.split_once(',').unwrap();
        let n: u64 = n.parse().unwrap();
        let mut order: Vec<u64> = (0..n).collect();
        match rev {
            "rev" => order.reverse(),
            "mix" => Rng::new(n).shuffle(&mut order),
            _ => {}
        }
        for i in order {
            println!("{i} {:016x}", hash(run(&process_scene(seed, i))));
        }
        return;
    }
    // sanitizer stage: only the concurrent workload, reported by counts
    if let Ok(v) = std::env::var("VH_SAN_STAGE") {
        let n: usize = v.parse().unwrap();
        let (mut fits, mut peak) = (0, 0);
        let mut r = Rng::case(seed, 50, 0);
        for _ in 0..n {
            match concurrent(&mut r, 4, 4, 10) {
                Ok((f, p, _)) => {
                    fits += f;
                    peak = peak.max(p);
                }
                Err(v) => {
                    println!("STAGE-VIOLATION {} {}", v.sig, v.detail);
                    std::process::exit(1);
                }
            }
        }
        println!("STAGE fits={fits} peak={peak}");
        return;
    }
    let rep = Report::new("C18", "distinct non-zero fits repeated, reused, run in another process or run concurrently");
    // what the ThreadSanitizer stage (run by the wrapper script) observed
    if let Ok(f) = std::env::var("VH_SAN_LOG") {
        let txt = std::fs::read_to_string(&f).unwrap_or_default();
        let code = std::env::var("VH_SAN_RC").unwrap_or_default();
        let num = |k: &str| txt.split(k).nth(1).and_then(|s| s.split_whitespace().next()).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
        rep.count("fits under ThreadSanitizer", num("fits="));
        if code != "0" {
            let i = txt.find("WARNING: ThreadSanitizer").unwrap_or(0);
            rep.violation(50, 0, Viol { sig: "tsan".into(), detail: format!("exit {code} of the ThreadSanitizer build: {}", txt[i..].chars().take(3000).collect::<String>()) });
        }
    }
    rep.cases(1, rep.n(1200, 60_000), repeat);
    rep.cases(2, rep.n(1500, 80_000), reuse);
    rep.cases_on(3, rep.n(60, 3000), 1, |r, c| {
        let (fits, peak, w) = concurrent(r, 8, 12, 24)?;
        c.count("concurrent fits", fits as u64);
        c.count("concurrent fits, sum over groups of the peak in flight", peak as u64);
        c.nontrivial(w);
        Ok(())
    });
    let n: u64 = rep.n(800, 8000) as u64;
    let mine: Vec<u64> = (0..n).map(|i| hash(run(&process_scene(seed, i)))).collect();
    for (q, order) in ["fwd", "rev", "mix"].into_iter().enumerate() {
        let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
        cmd.env("VH_CHILD", format!("{n},{order}")).env("VERIF_SEED", seed.to_string()).current_dir("/");
        if q == 1 {
            cmd.env_clear().env("VH_CHILD", format!("{n},{order}")).env("VERIF_SEED", seed.to_string());
        }
        if q == 2 {
            cmd.env("LANG", "tr_TR.UTF-8").env("OMP_NUM_THREADS", "3").env("RUST_BACKTRACE", "full").env("PADDING", "x".repeat(4096));
        }
        let out = cmd.output().expect("child process");
        let txt = String::from_utf8_lossy(&out.stdout);
        let mut seen = 0;
        for l in txt.lines() {
            if let Some((i, h)) = l.split_once(' ') {
                let (i, h) = (i.parse::<usize>().unwrap(), u64::from_str_radix(h, 16).unwrap());
                seen += 1;
                if h != mine[i] {
                    let s = process_scene(seed, i as u64);
                    rep.violation(40, i as u64, Viol { sig: format!("{}:process", s.1.name()), detail: format!("child process ({order} order) gives other coefficients for {}", text(&s)) });
                }
            }
        }
        if seen != n || !out.status.success() {
            rep.violation(40, 0, Viol { sig: "process:died".into(), detail: format!("child did {seen} of {n} fits: {} {}", out.status, String::from_utf8_lossy(&out.stderr)) });
        }
        rep.count("fits repeated in other processes", seen);
        rep.add_eval(seen);
    }
    rep.finish(
        &[("repetitions", 2000), ("reused parameter sets", 500), ("reused solver, datafit and penalty", 2000), ("concurrent fits", 2000),
          ("fits repeated in other processes", 1000), ("fits under ThreadSanitizer", 100)],
        &["Other processes run on the same machine and build", "ThreadSanitizer instruments the library, its dependencies and the standard library"],
    );
}
