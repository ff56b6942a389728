//! Case runner: runs the workload of one property over many deterministic cases on all cores,
//! collects what the monitors observed, writes the evidence file, and gives the verdict.
use crate::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

/// What a monitor found wrong. `sig` identifies the specific failing input class or call site:
/// it is what the known-findings file lists.
#[derive(Debug, Clone)]
pub struct Bad {
    pub sig: String,
    pub msg: String,
    pub detail: Value,
}

pub fn bad<T>(sig: &str, msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { sig: sig.into(), msg: msg.into(), detail: Value::Null })
}
pub fn bad_with<T>(sig: &str, msg: impl Into<String>, detail: Value) -> Result<T, Bad> {
    Err(Bad { sig: sig.into(), msg: msg.into(), detail })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::Bad { sig: $sig.to_string(), msg: format!($($fmt)*), detail: ::serde_json::Value::Null });
        }
    };
}

/// Per-case observations.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub keys: Vec<u64>,
    pub sample: Option<Value>,
    pub nontrivial: bool,
    pub trace: Vec<String>,
}

impl Obs {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    /// Record a distinct behaviour class seen (hashed).
    pub fn distinct(&mut self, s: &str) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        self.keys.push(h);
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.trace.push(s.into());
    }
}

pub struct Spec {
    pub prop: &'static str,
    pub rule: &'static str,
    /// Number of cases for the quick tier and the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// Monitors that must have observed at least this many events, else the run is inconclusive.
    pub require: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
    /// Cap on worker threads (0 = all cores; 16 and more, for executions which mostly wait, is a number
    /// of threads whatever the cores).
    pub threads: usize,
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}

pub fn known_findings() -> Vec<Known> {
    // lines: "known: property=<id> sig=<signature> <what fails>"; "fixed:" lines suppress nothing
    let p = verif_dir().join("known-findings.txt");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (property, l) = l.split_once(" sig=")?;
            let (sig, what) = l.split_once(' ')?;
            Some(Known { property: property.into(), sig: sig.into(), what: what.into() })
        })
        .collect()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{m} at {loc}")));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Run `f`, turning a panic into Err(message with location).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

struct Shared {
    counts: BTreeMap<String, u64>,
    keys: HashSet<u64>,
    samples: Vec<Value>,
    nontrivial: u64,
    bads: Vec<(u64, Bad)>,
    known_hit: BTreeSet<String>,
    known_n: u64,
}

/// Runs the check; returns the process exit code. `f(rng, obs, case_index)` drives one case.
pub fn run(spec: Spec, f: impl Fn(&mut Rng, &mut Obs, u64) -> Result<(), Bad> + Sync) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let seed = seed();
    let thorough = thorough();
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let n = ((if thorough { spec.thorough } else { spec.quick }) as f64 * scale) as u64;
    // watchdog only bounds the exploration; it never decides a verdict
    let cap = Duration::from_secs(if thorough { 3000 } else { 240 });
    let known: Vec<Known> = known_findings().into_iter().filter(|k| k.property == spec.prop).collect();
    let only: Option<u64> = std::env::var("VERIF_CASE").ok().and_then(|s| s.parse().ok());

    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let shared = Mutex::new(Shared {
        counts: BTreeMap::new(),
        keys: HashSet::new(),
        samples: vec![],
        nontrivial: 0,
        bads: vec![],
        known_hit: BTreeSet::new(),
        known_n: 0,
    });
    let mut threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    if spec.threads > 0 {
        threads = if spec.threads >= 16 { spec.threads } else { threads.min(spec.threads) };
    }
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || loop {
                    if stop.load(Ordering::Relaxed) || start.elapsed() > cap {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let i = match only {
                        Some(c) if i == 0 => c,
                        Some(_) => break,
                        None if i >= n => break,
                        None => i,
                    };
                    let mut rng = Rng::for_case(seed, spec.prop, i);
                    let mut obs = Obs::default();
                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, &mut obs, i)));
                    let r = match r {
                        Ok(r) => r,
                        Err(_) => {
                            let m = last_panic();
                            // site without the line number, so that the signature is stable
                            let site = m.rsplit(" at ").next().unwrap_or("").rsplit('/').next().unwrap_or("");
                            let site = site.split(':').next().unwrap_or("").to_string();
                            Err(Bad { sig: format!("panic:{site}"), msg: format!("the code under test panicked: {m}"), detail: Value::Null })
                        }
                    };
                    if only.is_some() {
                        for t in &obs.trace {
                            println!("  {t}");
                        }
                    }
                    done.fetch_add(1, Ordering::Relaxed);
                    let mut s = shared.lock().unwrap_or_else(|e| e.into_inner());
                    for (k, v) in &obs.counts {
                        *s.counts.entry(k.clone()).or_default() += v;
                    }
                    if obs.nontrivial {
                        s.nontrivial += 1;
                        if obs.keys.is_empty() {
                            s.keys.insert(i.wrapping_mul(0x9E37_79B9_7F4A_7C15));
                        }
                    }
                    for k in &obs.keys {
                        s.keys.insert(*k);
                    }
                    if let Some(v) = obs.sample.take() {
                        if s.samples.len() < 5 {
                            s.samples.push(v);
                        }
                    }
                    if let Err(mut b) = r {
                        if known.iter().any(|k| k.sig == b.sig) {
                            s.known_hit.insert(b.sig.clone());
                            s.known_n += 1;
                        } else {
                            b.detail = json!({"detail": b.detail, "trace": obs.trace});
                            s.bads.push((i, b));
                            if s.bads.len() >= 5 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                })
                .expect("spawn");
        }
    });
    let s = shared.into_inner().unwrap_or_else(|e| e.into_inner());
    let evals = done.load(Ordering::Relaxed);
    let wall = start.elapsed().as_secs_f64();
    let ev = json!({
        "property": spec.prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": s.keys.len(),
            "nontrivial_cases": s.nontrivial,
            "rule": spec.rule,
            "samples": s.samples,
            "observed": s.counts,
            "planned_cases": n,
            "known_finding_hits": s.known_n,
        },
        "assumptions": spec.assumptions,
        "wall_s": wall,
        "violations": s.bads.len(),
    });
    let evdir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let evfile = evdir.join(format!("{}.json", spec.prop));
    if let Err(e) = std::fs::write(&evfile, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    for k in &known {
        if s.known_hit.contains(&k.sig) {
            println!("KNOWN-FINDING: property={} {}", k.property, k.what);
        }
    }
    if !s.bads.is_empty() {
        let rdir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let mut bads = s.bads;
        bads.sort_by_key(|b| b.0);
        let (case, b) = &bads[0];
        let path = rdir.join(format!("{}-seed{}-case{}.json", spec.prop, seed, case));
        let rep = json!({
            "property": spec.prop, "seed": seed, "case": case, "sig": b.sig, "what": b.msg, "detail": b.detail,
            "replay": format!("VERIF_SEED={} VERIF_CASE={} VERIF_TIER={} ./check {}", seed, case, if thorough {"thorough"} else {"quick"}, spec.prop),
            "other_cases": bads.iter().skip(1).map(|(c, b)| json!({"case": c, "sig": b.sig, "what": b.msg})).collect::<Vec<_>>(),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap() + "\n");
        println!("{}: case {case}: [{}] {}", spec.prop, b.sig, b.msg);
        println!("VIOLATION property={} replay={}", spec.prop, path.display());
        return 1;
    }
    if only.is_none() {
        let mut short = vec![];
        for (k, min) in spec.require {
            let got = s.counts.get(*k).copied().unwrap_or(0);
            // the numbers are typical of a quick run: a quarter of them is enough to have looked
            let min = ((*min as f64) * scale.min(1.0) / 4.0) as u64;
            if got < min {
                short.push(format!("{k}: {got} < {min}"));
            }
        }
        if !short.is_empty() || evals < n.min(1) {
            eprintln!("INCONCLUSIVE {}: the monitors observed too little: {}", spec.prop, short.join(", "));
            return 2;
        }
    }
    println!("OK {}: {} executions, {} distinct, {:.1}s; observed {:?}", spec.prop, evals, s.keys.len(), wall, s.counts);
    0
}
