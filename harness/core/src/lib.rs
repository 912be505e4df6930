//! Common machinery of the monitors: case scheduler, panic capture, verdicts, coverage counters.
pub mod rng;
pub mod dense;
pub mod conv;
pub mod fem;
pub mod mat;

pub use rng::Rng;

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
    static TRAPPED: RefCell<u32> = RefCell::new(0);
}

/// Runs code under test, turning a panic into Err(message @ location).
pub fn trap<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(LAST_PANIC.with(|p| match p.borrow_mut().take() {
            Some((m, l)) => format!("panic \"{}\" at {}", m, l),
            None => "panic".to_string(),
        })),
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
}

pub struct Ctx {
    pub rng: Rng,
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    pub what: String,
    pub nontrivial: bool,
    pub violations: Vec<Violation>,
    pub counts: BTreeMap<String, u64>,
    sig: std::collections::hash_map::DefaultHasher,
    pub scratch: std::path::PathBuf,
}

impl Ctx {
    /// Reports a violation. The key names the kind of failure (known findings are matched on it).
    pub fn fail(&mut self, key: &str, msg: impl Into<String>) {
        self.violations.push(Violation { key: key.to_string(), msg: msg.into() });
    }
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            let m = msg();
            self.fail(key, m);
        }
        ok
    }
    /// Runs code under test; a panic is a violation of kind `key`.
    pub fn run<T>(&mut self, key: &str, f: impl FnOnce() -> T) -> Option<T> {
        match trap(f) {
            Ok(x) => Some(x),
            Err(e) => {
                self.fail(key, e);
                None
            }
        }
    }
    pub fn count(&mut self, name: &str) {
        self.add(name, 1);
    }
    pub fn add(&mut self, name: &str, n: u64) {
        *self.counts.entry(name.to_string()).or_insert(0) += n;
    }
    /// Feeds the case's signature, by which distinct cases are counted.
    pub fn sig<T: Hash>(&mut self, x: T) {
        x.hash(&mut self.sig);
    }
    pub fn sigf(&mut self, xs: &[f64]) {
        for x in xs {
            x.to_bits().hash(&mut self.sig);
        }
    }
    pub fn describe(&mut self, s: impl Into<String>) {
        self.what = s.into();
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Plan {
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// counters that must be non-zero, or the run observed too little to be a verdict
    pub need: &'static [&'static str],
}

struct Args {
    seed: u64,
    thorough: bool,
    cases: Option<u64>,
    only: Option<u64>,
    secs: u64,
    out: String,
    scratch: String,
    threads: usize,
    hang: u64,
}

fn args() -> Args {
    let mut a = Args {
        seed: 1,
        thorough: false,
        cases: None,
        only: None,
        secs: 300,
        out: String::from("/dev/stdout"),
        scratch: String::from("/tmp"),
        threads: 8,
        hang: 40,
    };
    let v: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i < v.len() {
        let val = || v.get(i + 1).cloned().unwrap_or_default();
        match v[i].as_str() {
            "--seed" => a.seed = val().parse().unwrap(),
            "--tier" => a.thorough = val() == "thorough",
            "--cases" => a.cases = Some(val().parse().unwrap()),
            "--only" => a.only = Some(val().parse().unwrap()),
            "--secs" => a.secs = val().parse().unwrap(),
            "--out" => a.out = val(),
            "--scratch" => a.scratch = val(),
            "--threads" => a.threads = val().parse().unwrap(),
            "--hang" => a.hang = val().parse().unwrap(),
            x => panic!("unknown argument {}", x),
        }
        i += 2;
    }
    a
}

#[derive(Default)]
struct Totals {
    evals: u64,
    distinct: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(u64, String, Violation)>,
    keys: BTreeMap<String, u64>,
    errors: Vec<String>,
    slowest: (f64, u64),
}

/// Runs the cases of a property and writes the run's record as JSON.
pub fn main_loop(plan: Plan, case: fn(&mut Ctx)) {
    let a = args();
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if msg.contains("unsafe precondition") {
            eprintln!("ABORT: {} at {}", msg, loc);
        }
        let msg: String = msg.chars().take(300).collect();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));

    let n = a.cases.unwrap_or(if a.thorough { plan.thorough } else { plan.quick });
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let totals = Mutex::new(Totals::default());
    let stop = AtomicBool::new(false);
    let timed_out = AtomicBool::new(false);
    let threads = if a.only.is_some() { 1 } else { a.threads };
    let marks: Arc<Vec<(AtomicU64, AtomicU64)>> =
        Arc::new((0..threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    // which case each worker is on, for the driver to read after an abort
    let progress = std::fs::File::create(format!("{}/progress", a.scratch)).expect("progress file");

    if a.only.is_none() {
        let marks = marks.clone();
        let hang = a.hang;
        let path = format!("{}/hang", a.scratch);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = start.elapsed().as_secs();
            for (idx, since) in marks.iter() {
                let i = idx.load(Ordering::SeqCst);
                if i != u64::MAX && now.saturating_sub(since.load(Ordering::SeqCst)) > hang {
                    let _ = std::fs::write(&path, format!("{}", i));
                    std::process::exit(97);
                }
            }
        });
    }

    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, totals, stop, timed_out, marks, progress, a) =
                (&next, &totals, &stop, &timed_out, &marks, &progress, &a);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || {
                    let scratch = std::path::PathBuf::from(format!("{}/t{}", a.scratch, t));
                    std::fs::create_dir_all(&scratch).expect("scratch");
                    loop {
                        if stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let i = match a.only {
                            Some(i) => {
                                stop.store(true, Ordering::SeqCst);
                                i
                            }
                            None => next.fetch_add(1, Ordering::SeqCst),
                        };
                        if a.only.is_none() && i >= n {
                            break;
                        }
                        if start.elapsed().as_secs() > a.secs {
                            timed_out.store(true, Ordering::SeqCst);
                            break;
                        }
                        let _ = progress.write_all_at(&(i + 1).to_le_bytes(), t as u64 * 8);
                        marks[t].1.store(start.elapsed().as_secs(), Ordering::SeqCst);
                        marks[t].0.store(i, Ordering::SeqCst);
                        let t0 = Instant::now();
                        let mut ctx = Ctx {
                            rng: Rng::new(a.seed, i),
                            seed: a.seed,
                            idx: i,
                            thorough: a.thorough,
                            what: String::new(),
                            nontrivial: false,
                            violations: Vec::new(),
                            counts: BTreeMap::new(),
                            sig: Default::default(),
                            scratch: scratch.clone(),
                        };
                        let r = panic::catch_unwind(AssertUnwindSafe(|| case(&mut ctx)));
                        marks[t].0.store(u64::MAX, Ordering::SeqCst);
                        let dt = t0.elapsed().as_secs_f64();
                        let mut tot = totals.lock().unwrap();
                        if r.is_err() {
                            let (m, l) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                            if l.contains("bugi/src") {
                                ctx.fail("panic", format!("panic \"{}\" at {}", m, l));
                            } else {
                                // outside the code under test: an error of the harness
                                tot.errors.push(format!("case {}: {} at {} [{}]", i, m, l, ctx.what));
                            }
                        }
                        tot.evals += 1;
                        if dt > tot.slowest.0 {
                            tot.slowest = (dt, i);
                        }
                        if ctx.nontrivial {
                            tot.distinct.insert(ctx.sig.finish());
                            if tot.samples.len() < 6 && !ctx.what.is_empty() {
                                let w: String = ctx.what.chars().take(1500).collect();
                                tot.samples.push(w);
                            }
                        }
                        for (k, v) in ctx.counts {
                            *tot.counts.entry(k).or_insert(0) += v;
                        }
                        for v in ctx.violations {
                            let seen = tot.keys.entry(v.key.clone()).or_insert(0);
                            *seen += 1;
                            if *seen <= 3 {
                                let w: String = ctx.what.chars().take(4000).collect();
                                tot.violations.push((i, w, v));
                            }
                        }
                        if tot.errors.len() > 20 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    let _ = progress.write_all_at(&0u64.to_le_bytes(), t as u64 * 8);
                })
                .unwrap();
        }
    });

    let tot = totals.into_inner().unwrap();
    let mut missing = Vec::new();
    if a.only.is_none() {
        for k in plan.need {
            if tot.counts.get(*k).copied().unwrap_or(0) == 0 {
                missing.push(*k);
            }
        }
    }
    let mut o = String::from("{");
    o += &format!("\"evaluations\":{},\"distinct_nontrivial\":{},", tot.evals, tot.distinct.len());
    o += &format!("\"planned\":{},\"timed_out\":{},", n, timed_out.load(Ordering::SeqCst));
    o += &format!("\"slowest_case_s\":{:.3},\"slowest_case\":{},", tot.slowest.0, tot.slowest.1);
    o += &format!("\"wall_s\":{:.2},", start.elapsed().as_secs_f64());
    o += &format!("\"rule\":{},", esc(plan.rule));
    o += &format!("\"samples\":[{}],", tot.samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"missing\":[{}],", missing.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    o += &format!("\"errors\":[{}],", tot.errors.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    o += &format!(
        "\"violation_counts\":{{{}}},",
        tot.keys.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    );
    o += &format!(
        "\"violations\":[{}],",
        tot.violations
            .iter()
            .map(|(i, w, v)| format!(
                "{{\"case\":{},\"key\":{},\"msg\":{},\"what\":{}}}",
                i,
                esc(&v.key),
                esc(&v.msg),
                esc(w)
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    o += &format!(
        "\"observed\":{{{}}}",
        tot.counts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
    );
    o += "}\n";
    let mut f = std::fs::File::create(&a.out).expect("out file");
    f.write_all(o.as_bytes()).expect("write out");
}

/// 0 when a and b agree to `tol` relative to `scale`.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}
