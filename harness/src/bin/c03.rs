//! C03: optimality of non-convex fits.
use vh::gen::Size;
use vh::optim::*;
use vh::rep::Report;

fn main() {
    let rep = Report::new(
        "C03",
        "random datasets (12 families, 9 storages) x non-convex models x strengths x solver knobs; a fit that \
         stops by itself (same bits with one more outer iteration) is judged by the reference optimality \
         conditions over all features; well-conditioned problems must be solved. Non-trivial: stopped by \
         itself at non-zero coefficients (distinct by coefficients and knobs)",
    );
    let s = Size { nmax: 40, pmax: 35, tmax: 5 };
    rep.cases(1, rep.n(1500, 60000), |r, c| {
        let multi = r.bool(0.4);
        let (pr, m) = any_problem(r, Kind::NonConvex, multi, s);
        let k = vh::fit::Knobs::random(r, pr.p);
        judge(c, &pr, &m, &k, any_storage(r), any_route(r), false).map(|_| ())
    });
    // well-conditioned: convergence is required
    rep.cases(2, rep.n(700, 30000), |r, c| {
        let multi = r.bool(0.4);
        let (mut pr, mut m) = well_problem(r, Kind::NonConvex, multi, 15, 5);
        let mut k = well_knobs(r, pr.p);
        if r.bool(0.3) {
            rescale(r, &mut pr, &mut m, &mut k);
            c.count("well-conditioned problems in other units", 1);
        }
        judge(c, &pr, &m, &k, any_storage(r), any_route(r), true).map(|_| c.count("well-conditioned-solved", 1))
    });
    // larger problems: several working-set growth steps
    let big = Size { nmax: 120, pmax: 150, tmax: 4 };
    rep.cases(3, rep.n(120, 3000), |r, c| {
        let multi = r.bool(0.4);
        let (pr, m) = any_problem(r, Kind::NonConvex, multi, big);
        let k = vh::fit::Knobs { tol: 1e-6, iters: 30, epochs: 300, ..vh::fit::Knobs::random(r, pr.p) };
        judge(c, &pr, &m, &k, any_storage(r), any_route(r), false).map(|_| ())
    });
    // more than 65536 samples or features
    rep.cases(4, rep.n(10, 300), |r, c| {
        let multi = r.bool(0.4);
        let (pr, m) = vh::gen::with_giants(|| any_problem(r, Kind::NonConvex, multi, s));
        let k = vh::fit::Knobs { tol: 1e-5, iters: 20, epochs: 60, ..vh::fit::Knobs::random(r, 10) };
        judge(c, &pr, &m, &k, any_storage(r), any_route(r), false).map(|_| c.count("giant problems", 1))
    });
    // slow progress under long budgets
    rep.cases(5, rep.n(400, 20000), |r, c| {
        let multi = r.bool(0.4);
        let (pr, m, k) = slow_problem(r, Kind::NonConvex, multi);
        let many = k.iters > 300;
        judge(c, &pr, &m, &k, any_storage(r), any_route(r), false).map(|(_, stopped)| {
            if many && !stopped {
                c.count("hundreds of iterations used up", 1);
            }
        })
    });
    rep.finish(
        &[("stopped-nonzero", 200), ("well-conditioned-solved", 100), ("stopped-partly-sparse", 100), ("giant problems", 10), ("hundreds of iterations used up", 20)],
        &["reference optimality conditions in compensated f64 arithmetic", "rounding slack 4e-12 x gradient scale"],
    );
}
