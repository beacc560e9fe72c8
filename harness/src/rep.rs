//! Reporting: parallel case execution, evidence, replay files, verdicts.
use crate::rng::Rng;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, Once};
use std::time::{Duration, Instant};

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<usize> = RefCell::new(0);
}
static HOOK: Once = Once::new();
fn hook() {
    HOOK.call_once(|| {
        let old = panic::take_hook();
        panic::set_hook(Box::new(move |i| {
            if QUIET.with(|q| *q.borrow() > 0) {
                let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                let msg = i
                    .payload()
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                LAST.with(|l| *l.borrow_mut() = format!("{msg} at {loc}"));
            } else {
                old(i)
            }
        }));
    });
}
/// Run code under test; a panic becomes Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    hook();
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// stable signature, used for known findings
    pub sig: String,
    pub detail: String,
}
pub fn viol<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), detail: detail.into() })
}

pub struct Report {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub t0: Instant,
    rule: String,
    only: Option<(u64, u64)>,
    root: PathBuf,
    evals: AtomicU64,
    planned: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    viols: Mutex<Vec<(u64, u64, Viol)>>,
    nviol: AtomicU64,
    deadline: Mutex<Option<Instant>>,
    cut: AtomicBool,
    soft: f64,
    slowest: Mutex<Vec<(f64, u64, u64)>>,
}

/// Per-case recorder.
pub struct Case<'a> {
    pub rep: &'a Report,
    pub stream: u64,
    pub idx: u64,
}
impl Case<'_> {
    pub fn count(&self, key: &str, n: u64) {
        self.rep.count(key, n)
    }
    /// The case exercised something non-trivial, identified by `what`.
    pub fn nontrivial<H: Hash>(&self, what: H) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.stream.hash(&mut h);
        what.hash(&mut h);
        self.rep.distinct.lock().unwrap().insert(h.finish());
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        if self.idx < 3 {
            let s = s();
            self.rep.samples.lock().unwrap().push(format!("[{}:{}] {}", self.stream, self.idx, s));
        }
    }
}

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from(env!("CARGO_MANIFEST_DIR")).join(".."))
}

impl Report {
    pub fn new(id: &str, rule: &str) -> Report {
        hook();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let only = std::env::var("VH_CASE").ok().and_then(|s| {
            let (a, b) = s.split_once(':')?;
            Some((a.parse().ok()?, b.parse().ok()?))
        });
        // a generous wall-clock watchdog: firing is inconclusive, never a violation
        let hard: u64 = if thorough { 4 * 3600 } else { 840 };
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(hard));
            println!("INCONCLUSIVE: watchdog after {hard} s");
            std::process::exit(3);
        });
        let soft = if thorough { 3.0 * 3600.0 } else { 300.0 };
        Report {
            id: id.into(),
            seed,
            thorough,
            t0: Instant::now(),
            rule: rule.into(),
            only,
            root: root(),
            evals: AtomicU64::new(0),
            planned: AtomicU64::new(0),
            distinct: Mutex::new(HashSet::new()),
            counters: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            viols: Mutex::new(vec![]),
            nviol: AtomicU64::new(0),
            deadline: Mutex::new(None),
            cut: AtomicBool::new(false),
            soft,
            slowest: Mutex::new(vec![]),
        }
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn count(&self, key: &str, n: u64) {
        *self.counters.lock().unwrap().entry(key.to_string()).or_insert(0) += n;
    }
    pub fn counter(&self, key: &str) -> u64 {
        self.counters.lock().unwrap().get(key).copied().unwrap_or(0)
    }
    pub fn note(&self, s: String) {
        self.samples.lock().unwrap().push(s);
    }
    pub fn add_eval(&self, n: u64) {
        self.evals.fetch_add(n, Ordering::Relaxed);
    }
    fn timed(&self, s: f64, stream: u64, idx: u64) {
        let mut l = self.slowest.lock().unwrap();
        l.push((s, stream, idx));
        if l.len() > 64 {
            l.sort_by(|a, b| b.0.total_cmp(&a.0));
            l.truncate(5);
        }
    }
    pub fn violation(&self, stream: u64, idx: u64, v: Viol) {
        self.nviol.fetch_add(1, Ordering::Relaxed);
        let mut l = self.viols.lock().unwrap();
        if l.len() < 40 {
            l.push((stream, idx, v));
        }
    }
    /// Run `n` cases of one stream on all cores.
    pub fn cases<Fc>(&self, stream: u64, n: usize, f: Fc)
    where
        Fc: Fn(&mut Rng, &Case) -> Result<(), Viol> + Sync,
    {
        self.cases_on(stream, n, 8, f)
    }
    pub fn cases_on<Fc>(&self, stream: u64, n: usize, threads: usize, f: Fc)
    where
        Fc: Fn(&mut Rng, &Case) -> Result<(), Viol> + Sync,
    {
        let only = self.only;
        if let Some((s, _)) = only {
            if s != stream {
                return;
            }
        }
        self.planned.fetch_add(if only.is_some() { 1 } else { n as u64 }, Ordering::Relaxed);
        let deadline = *self
            .deadline
            .lock()
            .unwrap()
            .get_or_insert_with(|| self.t0 + Duration::from_secs_f64(self.soft));
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || loop {
                        let i = match only {
                            Some((_, i)) => {
                                if next.fetch_add(1, Ordering::Relaxed) > 0 {
                                    return;
                                }
                                i as usize
                            }
                            None => next.fetch_add(1, Ordering::Relaxed),
                        };
                        if only.is_none() && i >= n {
                            return;
                        }
                        if Instant::now() > deadline {
                            self.cut.store(true, Ordering::Relaxed);
                            return;
                        }
                        // enough evidence of a violation: stop early
                        if self.nviol.load(Ordering::Relaxed) >= 40 {
                            return;
                        }
                        let mut r = Rng::case(self.seed, stream, i as u64);
                        let case = Case { rep: self, stream, idx: i as u64 };
                        self.evals.fetch_add(1, Ordering::Relaxed);
                        let t = Instant::now();
                        let res = guard(|| f(&mut r, &case));
                        self.timed(t.elapsed().as_secs_f64(), stream, i as u64);
                        match res {
                            Ok(Ok(())) => {}
                            Ok(Err(v)) => self.violation(stream, i as u64, v),
                            Err(p) => {
                                // a panic that escaped the per-call guards
                                self.violation(stream, i as u64, Viol { sig: "panic".into(), detail: format!("PANIC: {p}") })
                            }
                        }
                    })
                    .unwrap();
            }
        });
    }

    /// `need`: counters that must reach a minimum, else the run observed too little.
    pub fn finish(self, need: &[(&str, u64)], assumptions: &[&str]) -> ! {
        let known = self.known();
        let mut viols = self.viols.into_inner().unwrap();
        viols.sort_by_key(|v| (v.0, v.1));
        let mut fresh = vec![];
        let mut seen = HashSet::new();
        for v in &viols {
            if known.iter().any(|k| *k == v.2.sig) {
                if seen.insert(v.2.sig.clone()) {
                    println!("KNOWN-FINDING: property={} {}", self.id, v.2.sig);
                }
            } else {
                fresh.push(v.clone());
            }
        }
        // checks that drive other processes first pass the time they started
        let before = std::env::var("VH_STARTED").ok().and_then(|s| s.parse::<f64>().ok()).and_then(|t| {
            let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).ok()?.as_secs_f64();
            Some(now - t)
        });
        let wall = before.unwrap_or(0.0).max(self.t0.elapsed().as_secs_f64());
        let counters = self.counters.into_inner().unwrap();
        let evals = self.evals.load(Ordering::Relaxed);
        let distinct = self.distinct.lock().unwrap().len() as u64;
        let samples = self.samples.into_inner().unwrap();
        let mut js = String::new();
        js.push_str("{\n");
        js.push_str(&format!("  \"property\": {},\n", q(&self.id)));
        js.push_str(&format!("  \"tier\": {},\n", q(if self.thorough { "thorough" } else { "quick" })));
        js.push_str(&format!("  \"seed\": {},\n  \"level\": \"exploration\",\n", self.seed));
        js.push_str("  \"coverage\": {\n");
        js.push_str(&format!("    \"evaluations\": {evals},\n    \"distinct_nontrivial\": {distinct},\n"));
        js.push_str(&format!("    \"rule\": {},\n", q(&self.rule)));
        js.push_str(&format!("    \"planned\": {},\n", self.planned.load(Ordering::Relaxed)));
        js.push_str(&format!("    \"cut_short\": {},\n", self.cut.load(Ordering::Relaxed)));
        js.push_str("    \"observed\": {");
        js.push_str(&counters.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", "));
        js.push_str("},\n    \"samples\": [");
        js.push_str(&samples.iter().take(40).map(|s| q(s)).collect::<Vec<_>>().join(",\n      "));
        js.push_str("]\n  },\n");
        js.push_str(&format!(
            "  \"assumptions\": [{}],\n",
            assumptions.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ")
        ));
        js.push_str(&format!("  \"wall_s\": {wall:.3},\n  \"violations\": {}\n}}\n", fresh.len()));
        if self.only.is_none() {
            let dir = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(dir.join(format!("{}.json", self.id)), js).expect("evidence");
        }
        println!("{}: {} evaluations, {} distinct non-trivial, {:.1} s", self.id, evals, distinct, wall);
        for (k, v) in &counters {
            println!("  {k}: {v}");
        }
        let mut slow = self.slowest.into_inner().unwrap();
        slow.sort_by(|a, b| b.0.total_cmp(&a.0));
        for (s, st, ix) in slow.iter().take(3) {
            println!("  slow case {st}:{ix}: {s:.1} s");
        }
        if !fresh.is_empty() {
            let dir = self.root.join("replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}.txt", self.id));
            let mut s = String::new();
            for (st, ix, v) in &fresh {
                s.push_str(&format!(
                    "== case {st}:{ix} sig={}\nreplay: cd /verif && VERIF_SEED={} VERIF_TIER={} VH_CASE={st}:{ix} bash run.sh {}\n{}\n\n",
                    v.sig,
                    self.seed,
                    if self.thorough { "thorough" } else { "quick" },
                    self.id,
                    v.detail
                ));
            }
            std::fs::write(&path, &s).expect("replay");
            for (st, ix, v) in fresh.iter().take(5) {
                let d: String = v.detail.chars().take(700).collect();
                println!("-- case {st}:{ix} [{}] {}", v.sig, d);
            }
            println!("VIOLATION property={} replay={}", self.id, path.display());
            std::process::exit(1);
        }
        if self.only.is_none() {
            for (k, m) in need {
                let have = if *k == "evaluations" { evals } else { counters.get(*k).copied().unwrap_or(0) };
                if have < *m {
                    println!("INCONCLUSIVE: observed {have} of '{k}', need {m}");
                    std::process::exit(3);
                }
            }
        }
        std::process::exit(0);
    }
    fn known(&self) -> Vec<String> {
        let txt = std::fs::read_to_string(self.root.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
        let pre = format!("known: property={} ", self.id);
        txt.lines().filter_map(|l| l.strip_prefix(&pre)).map(|s| s.split(" -- ").next().unwrap_or("").trim().to_string()).collect()
    }
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
