//! Reference server for the Python checks: fits through the Rust estimators on request.
//! One request per line, numbers as hexadecimal IEEE bits:
//!   model layout n p t alpha second iters epochs ws tol k accel x.. y..
//!   amax layout n p t x.. y..
use ndarray::{Array2, ShapeBuilder};
use std::io::{BufRead, Write};
use vh::est::{Data, DenseBufOf, Op, Params};
use vh::fit::{CscBuf, Storage};
use vh::gen::Prob;
use vh::rep::guard;
use sparseglm::estimators::hyperparams::*;
use sparseglm::utils::helpers::*;

struct Tok<'a>(std::str::SplitAsciiWhitespace<'a>);
impl Tok<'_> {
    fn u(&mut self) -> usize {
        self.0.next().unwrap().parse().unwrap()
    }
    fn f(&mut self) -> f64 {
        f64::from_bits(u64::from_str_radix(self.0.next().unwrap(), 16).unwrap())
    }
}
fn data(t: &mut Tok, layout: &str) -> Data<f64> {
    let (n, p, k) = (t.u(), t.u(), t.u());
    data_of(t, layout, n, p, k)
}
fn data_of(t: &mut Tok, layout: &str, n: usize, p: usize, k: usize) -> Data<f64> {
    let x: Vec<f64> = (0..n * p).map(|_| t.f()).collect();
    let y: Vec<f64> = (0..n * k).map(|_| t.f()).collect();
    let pr = Prob { n, p, t: k, x, y, fam: "py" };
    let f = layout == "F";
    let yf = layout != "C";
    let mk = |r: usize, c: usize, f: bool, g: &dyn Fn(usize, usize) -> f64| {
        if f {
            Array2::from_shape_fn((r, c).f(), |(i, j)| g(i, j))
        } else {
            Array2::from_shape_fn((r, c), |(i, j)| g(i, j))
        }
    };
    Data {
        x: DenseBufOf { x: mk(n, p, f, &|i, j| pr.xij(i, j)), y: mk(n, k, yf, &|i, j| pr.yit(i, j)) },
        csc: CscBuf::new(&pr, Storage::Csc),
        n,
        p,
        t: k,
    }
}
fn run<P: Params<f64>>(t: &mut Tok, layout: &str) -> Result<Vec<f64>, String> {
    let (n, p, k) = (t.u(), t.u(), t.u());
    let mut ps = P::via_new();
    ps = ps.op(Op::Alpha(t.f()));
    ps = ps.op(Op::Second(t.f()));
    ps = ps.op(Op::Iters(t.u())).op(Op::Epochs(t.u())).op(Op::Ws(t.u()));
    ps = ps.op(Op::Tol(t.f()));
    ps = ps.op(Op::K(t.u())).op(Op::Accel(t.u() == 1)).op(Op::Verbose(false));
    let d = data_of(t, layout, n, p, k);
    let r = guard(|| if layout == "S" { ps.fit_csc(&d) } else { ps.fit_dense(&d) })?;
    r.map_err(|e| e.to_string())
}
fn amax(t: &mut Tok, layout: &str) -> Result<Vec<f64>, String> {
    let d = data(t, layout);
    guard(|| {
        if d.t == 1 {
            let y = d.x.y.index_axis(ndarray::Axis(1), 0);
            vec![if layout == "S" { compute_alpha_max_sparse(&d.csc.view(), y) } else { compute_alpha_max(d.x.x.view(), y) }]
        } else {
            vec![compute_alpha_max_mtl(d.x.x.view(), d.x.y.view())]
        }
    })
}
fn main() {
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_ascii_whitespace();
        let model = it.next().unwrap();
        let layout = it.next().unwrap();
        let mut t = Tok(it);
        let r = match model {
            "Lasso" => run::<LassoParams<f64>>(&mut t, layout),
            "ElasticNet" => run::<ElasticNetParams<f64>>(&mut t, layout),
            "MCPRegressor" => run::<MCParams<f64>>(&mut t, layout),
            "MultiTaskLasso" => run::<MultiTaskLassoParams<f64>>(&mut t, layout),
            "MultiTaskElasticNet" => run::<MultiTaskElasticNetParams<f64>>(&mut t, layout),
            "BlockMCPRegressor" => run::<BlockMCParams<f64>>(&mut t, layout),
            "amax" => amax(&mut t, layout),
            _ => Err("model".into()),
        };
        let s = match r {
            Ok(v) => format!("ok {}", v.iter().map(|x| format!("{:x}", x.to_bits())).collect::<Vec<_>>().join(" ")),
            Err(e) => format!("err {}", e.replace('\n', " ")),
        };
        let mut o = out.lock();
        writeln!(o, "{s}").unwrap();
        o.flush().unwrap();
    }
}
