//! C24: verbosity only affects output.
use std::io::Write;
use std::process::{Command, Stdio};
use vh::fit::*;
use vh::gen::Size;
use vh::optim::*;
use vh::refm::*;
use vh::rep::{Report, Viol};
use vh::rng::Rng;

type Scene = (vh::gen::Prob, Model, Knobs, Storage, Route);
fn scene(seed: u64, i: u64) -> Scene {
    let mut r = Rng::case(seed, 24, i);
    let r = &mut r;
    let multi = r.bool(0.45);
    let (pr, m) = any_problem(r, Kind::Any, multi, Size { nmax: 20, pmax: 16, tmax: 4 });
    let mut k = Knobs::random(r, pr.p).capped(&pr);
    k.iters = *r.pick(&[0, 1, 2, 5, 20]);
    k.epochs = *r.pick(&[0, 1, 12, 25, 60, 150]);
    k.k = *r.pick(&[1, 2, 3, 5, 7]);
    (pr, m, k, any_storage(r), any_route(r))
}
fn run(s: &Scene, verbose: bool) -> String {
    let k = Knobs { verbose, ..s.2 };
    let w = if s.2.ws % 2 == 0 { fit::<f32>(&s.0, &s.1, &k, s.3, s.4) } else { fit64(&s.0, &s.1, &k, s.3, s.4) };
    match w {
        Ok(w) => format!("{:x?}", bits(&w)),
        Err(e) => format!("FAILED {}", e.0.replace('\n', " ")),
    }
}
struct Out {
    coefs: Vec<String>,
    stdout: String,
    stderr: String,
    ok: bool,
}
fn child(mode: &str, n: u64, seed: u64, tag: u64) -> Out {
    let dir = std::env::temp_dir().join(format!("vh-c24-{}-{tag}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("coefs");
    let o = Command::new(std::env::current_exe().unwrap())
        .env("VH_CHILD", format!("{mode},{n},{}", file.display()))
        .env("VERIF_SEED", seed.to_string())
        .stdin(Stdio::null())
        .output()
        .expect("child");
    let coefs = std::fs::read_to_string(&file).unwrap_or_default().lines().map(|s| s.to_string()).collect();
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_dir(&dir);
    Out {
        coefs,
        stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
        ok: o.status.success(),
    }
}

fn main() {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if let Ok(v) = std::env::var("VH_CHILD") {
        let q: Vec<&str> = v.splitn(3, ',').collect();
        let (mode, n) = (q[0], q[1].parse::<u64>().unwrap());
        let mut f = std::io::BufWriter::new(std::fs::File::create(q[2]).unwrap());
        for i in 0..n {
            if mode == "verbose" {
                println!("\n@@{i}");
            }
            let line = run(&scene(seed, i), mode == "verbose");
            writeln!(f, "{line}").unwrap();
        }
        return;
    }
    let rep = Report::new("C24", "distinct non-zero fits done quietly and verbosely with identical bits and observed output");
    let n = rep.n(5000, 100_000) as u64;
    let text = |i: u64| {
        let s = scene(seed, i);
        full(&s.0, &s.1, &s.2, s.3, s.4)
    };
    let quiet = child("quiet", n, seed, 0);
    let verb = child("verbose", n, seed, 1);
    rep.add_eval(2 * n);
    let mut v = |i: u64, sig: &str, detail: String| rep.violation(24, i, Viol { sig: sig.into(), detail });
    if !quiet.ok || !verb.ok || quiet.coefs.len() as u64 != n || verb.coefs.len() as u64 != n {
        v(0, "child", format!("children finished {}/{} and {}/{n} fits; {} {}", quiet.coefs.len(), n, verb.coefs.len(), quiet.stderr, verb.stderr));
    } else {
        if !quiet.stdout.is_empty() || !quiet.stderr.is_empty() {
            // find the first fit that speaks
            let (mut lo, mut hi) = (0, n);
            while hi - lo > 1 {
                let mid = (lo + hi) / 2;
                let o = child("quiet", mid, seed, 2);
                if o.stdout.is_empty() && o.stderr.is_empty() {
                    lo = mid
                } else {
                    hi = mid
                }
            }
            v(lo, "quiet-fit-prints", format!("quiet fits print {:?} / {:?}; first: {}", cut(&quiet.stdout), cut(&quiet.stderr), text(lo)));
        }
        let sections: Vec<&str> = verb.stdout.split("\n@@").skip(1).collect();
        for i in 0..n {
            let (a, b) = (&quiet.coefs[i as usize], &verb.coefs[i as usize]);
            let s = scene(seed, i);
            if a.starts_with("FAILED") || b.starts_with("FAILED") {
                v(i, "fit-failed", format!("quiet {a}, verbose {b}: {}", text(i)));
                continue;
            }
            if a != b {
                v(i, "coefficients-differ", format!("quiet {a}, verbose {b}: {}", text(i)));
            }
            let said = sections.get(i as usize).map(|t| t.split_once('\n').map(|x| x.1.trim()).unwrap_or("")).unwrap_or("");
            if s.2.iters > 0 && said.is_empty() {
                v(i, "verbose-fit-silent", format!("no progress reported: {}", text(i)));
            }
            if s.2.iters > 0 {
                rep.count("verbose fits that reported progress", 1);
                rep.count("lines of progress", said.lines().count() as u64);
                for (w, key) in [("ACCEL", "extrapolations reported"), ("arly exit", "early exits reported"), ("ingular", "singular systems reported")] {
                    rep.count(key, said.matches(w).count() as u64);
                }
            }
            rep.count("pairs compared", 1);
            if a.contains(|c: char| c.is_ascii_digit() && c != '0') {
                vh::rep::Case { rep: &rep, stream: 24, idx: i }.nontrivial(a);
            }
        }
        rep.note(format!("verbose stdout {} bytes, quiet stdout {} bytes, quiet stderr {} bytes", verb.stdout.len(), quiet.stdout.len(), quiet.stderr.len()));
    }
    rep.finish(
        &[("pairs compared", 1000), ("verbose fits that reported progress", 500)],
        &["Output is what the process writes to its standard output and standard error"],
    );
}
fn cut(s: &str) -> String {
    s.chars().take(300).collect()
}
