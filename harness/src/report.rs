//! Case driver, verdicts, evidence.
use crate::rng::{hash_str, mix, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Run code of the system under test; a panic comes back as Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one case saw. Filled by the case function.
pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    pub family: &'static str,
    pub idx: u64,
    pub tier: Tier,
    pub sig: u64,
    pub nontrivial: bool,
    pub evals: u64,
    pub events: BTreeMap<String, u64>,
    pub distinct: Vec<u64>,
    pub sample: Option<Value>,
    pub detail: Vec<String>,
}

impl Case {
    pub fn ev(&mut self, name: &str) {
        *self.events.entry(name.to_string()).or_insert(0) += 1;
    }
    pub fn evn(&mut self, name: &str, n: u64) {
        *self.events.entry(name.to_string()).or_insert(0) += n;
    }
    /// Count one observed, distinct, non-trivial execution.
    pub fn seen(&mut self, key: u64) {
        self.distinct.push(key);
    }
    pub fn seen_str(&mut self, key: &str) {
        self.distinct.push(hash_str(key));
    }
    pub fn note(&mut self, s: impl Into<String>) {
        if self.detail.len() < 200 {
            self.detail.push(s.into());
        }
    }
    /// a scratch directory private to this case
    pub fn scratch(&self) -> Scratch {
        Scratch::new(&format!("{}-{}", self.family, self.idx))
    }
}

pub struct Scratch {
    pub path: PathBuf,
}

impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::SeqCst);
        let base = scratch_root();
        let path = base.join(format!("{tag}-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&path).expect("scratch dir");
        Self { path }
    }
    pub fn join(&self, s: &str) -> PathBuf {
        self.path.join(s)
    }
}

pub fn scratch_root() -> PathBuf {
    match std::env::var_os("VMON_SCRATCH") {
        Some(p) => PathBuf::from(p),
        None => std::env::temp_dir().join(format!("vmon-{}", std::process::id())),
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

/// Outcome of a case: Ok, or a violation with a short signature and an explanation.
pub struct Bad {
    pub sig: String,
    pub why: String,
}
pub type R = Result<(), Bad>;

pub fn bad<T>(sig: impl Into<String>, why: impl Into<String>) -> Result<T, Bad> {
    Err(Bad {
        sig: sig.into(),
        why: why.into(),
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::report::bad($sig, format!($($arg)*));
        }
    };
}

pub struct Family {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> R,
}

pub struct Spec {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// events that must have been observed at least this often, else inconclusive
    pub require: &'static [(&'static str, u64)],
    pub families: Vec<Family>,
}

struct Agg {
    evals: u64,
    distinct: HashSet<u64>,
    events: BTreeMap<String, u64>,
    per_family: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
    bads: Vec<(String, u64, Bad, Vec<String>)>,
    known_hits: BTreeMap<String, u64>,
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub verif: PathBuf,
}

struct Known {
    property: String,
    sig: String,
    what: String,
}

fn load_known(verif: &std::path::Path) -> Vec<Known> {
    let p = verif.join("known_findings.json");
    let Ok(txt) = std::fs::read_to_string(p) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&txt).expect("known_findings.json is valid JSON");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["status"] == "open")
                .map(|f| Known {
                    property: f["property"].as_str().unwrap_or("").to_string(),
                    sig: f["signature"].as_str().unwrap_or("").to_string(),
                    what: f["what"].as_str().unwrap_or("").to_string(),
                })
                .collect()
        })
        .unwrap_or_default()
}

/// Runs a spec; returns the process exit code.
pub fn run(spec: Spec, opts: &Opts) -> i32 {
    install_panic_hook();
    let start = Instant::now();
    let cap = Duration::from_secs(match opts.tier {
        Tier::Quick => 420,
        Tier::Thorough => 3 * 3600,
    });
    let known = load_known(&opts.verif);
    let agg = Mutex::new(Agg {
        evals: 0,
        distinct: HashSet::new(),
        events: BTreeMap::new(),
        per_family: BTreeMap::new(),
        samples: vec![],
        bads: vec![],
        known_hits: BTreeMap::new(),
    });
    let stopped_early = AtomicBool::new(false);
    let harness_err = Mutex::new(Vec::<String>::new());
    for fam in &spec.families {
        let n = match opts.tier {
            Tier::Quick => fam.quick,
            Tier::Thorough => fam.thorough,
        };
        let next = AtomicU64::new(0);
        let threads = if opts.only.is_some() { 1 } else { opts.threads };
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    if let Some((f, idx)) = &opts.only {
                        if f != fam.name || *idx != i {
                            continue;
                        }
                    }
                    if start.elapsed() > cap {
                        stopped_early.store(true, Ordering::SeqCst);
                        break;
                    }
                    if agg.lock().unwrap().bads.len() >= 40 {
                        break;
                    }
                    let cseed = mix(opts.seed ^ hash_str(spec.id) ^ mix(hash_str(fam.name)).rotate_left(17) ^ mix(i.wrapping_add(0x51ed)));
                    let mut case = Case {
                        rng: Rng::new(cseed),
                        seed: cseed,
                        family: fam.name,
                        idx: i,
                        tier: opts.tier,
                        sig: cseed,
                        nontrivial: true,
                        evals: 0,
                        events: BTreeMap::new(),
                        distinct: vec![],
                        sample: None,
                        detail: vec![],
                    };
                    let out = guarded(|| (fam.f)(&mut case));
                    let mut a = agg.lock().unwrap();
                    a.evals += case.evals.max(1);
                    *a.per_family.entry(fam.name).or_insert(0) += 1;
                    for d in &case.distinct {
                        a.distinct.insert(*d);
                    }
                    for (k, v) in &case.events {
                        *a.events.entry(k.clone()).or_insert(0) += v;
                    }
                    if let Some(s) = case.sample.take() {
                        if a.samples.len() < 8 && (i < 2 || a.samples.len() < 2) {
                            a.samples.push(json!({"family": fam.name, "case": i, "seen": s}));
                        }
                    }
                    match out {
                        Ok(Ok(())) => {}
                        Ok(Err(b)) => {
                            if let Some(k) = known.iter().find(|k| k.property == spec.id && k.sig == b.sig) {
                                let n = a.known_hits.entry(k.sig.clone()).or_insert(0);
                                *n += 1;
                                if *n == 1 {
                                    eprintln!("[known] {} {} case {}: {}", spec.id, fam.name, i, b.why);
                                }
                            } else {
                                a.bads.push((fam.name.to_string(), i, b, case.detail.clone()));
                            }
                        }
                        Err(p) => {
                            // A panic that escaped the guarded calls: an error of the harness.
                            harness_err.lock().unwrap().push(format!("{} case {i}: {p}", fam.name));
                        }
                    }
                })
                .expect("spawn");
            }
        });
    }
    let mut a = agg.into_inner().unwrap();
    let harness_err = harness_err.into_inner().unwrap();
    let wall = start.elapsed().as_secs_f64();
    let mut code = 0;

    for k in &known {
        if k.property == spec.id {
            println!("KNOWN-FINDING: property={} {}", spec.id, k.what);
        }
    }
    if a.samples.is_empty() {
        a.samples.push(json!({"note": "no sample recorded"}));
    }
    a.bads.sort_by(|x, y| (&x.0, x.1).cmp(&(&y.0, y.1)));
    let mut seen_sigs = HashSet::new();
    let rdir = opts.verif.join("replays");
    for (fam, idx, b, detail) in &a.bads {
        if !seen_sigs.insert(b.sig.clone()) {
            continue;
        }
        let _ = std::fs::create_dir_all(&rdir);
        let slug: String = b.sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).take(60).collect();
        let path = rdir.join(format!("{}-{}.json", spec.id, slug));
        let body = json!({
            "property": spec.id, "family": fam, "case": idx, "seed": opts.seed,
            "tier": if opts.tier == Tier::Quick {"quick"} else {"thorough"},
            "signature": b.sig, "why": b.why, "detail": detail,
            "replay": format!("VERIF_SEED={} VERIF_TIER={} bash /verif/check.sh {} --case {fam} {idx}", opts.seed, if opts.tier == Tier::Quick {"quick"} else {"thorough"}, spec.id),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("VIOLATION property={} replay={}", spec.id, path.display());
        println!("  [{}] {} case {}: {}", b.sig, fam, idx, b.why);
        code = 1;
    }
    let mut missing = vec![];
    if opts.only.is_none() {
        for (name, min) in spec.require {
            let got = a.events.get(*name).copied().unwrap_or(0);
            if got < *min {
                missing.push(format!("{name}: {got} < {min}"));
            }
        }
    }
    let ev = json!({
        "property": spec.id,
        "tier": if opts.tier == Tier::Quick {"quick"} else {"thorough"},
        "seed": opts.seed,
        "level": spec.level,
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.distinct.len(),
            "rule": spec.rule,
            "samples": a.samples,
            "cases_per_family": a.per_family,
            "events_observed": a.events,
            "known_finding_hits": a.known_hits,
            "stopped_early": stopped_early.load(Ordering::SeqCst),
            "harness_errors": harness_err,
        },
        "assumptions": spec.assumptions,
        "wall_s": wall,
        "violations": seen_sigs.len(),
    });
    let edir = opts.verif.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    std::fs::write(
        edir.join(format!("{}.json", spec.id)),
        serde_json::to_string_pretty(&ev).unwrap() + "\n",
    )
    .expect("write evidence");
    println!(
        "{}: {} executions, {} distinct non-trivial, {} violation signature(s), {:.1}s",
        spec.id, a.evals, a.distinct.len(), seen_sigs.len(), wall
    );
    if code == 0 && !harness_err.is_empty() {
        println!("INCONCLUSIVE property={} harness error: {}", spec.id, harness_err[0]);
        return 3;
    }
    if code == 0 && !missing.is_empty() {
        println!("INCONCLUSIVE property={} too little observed: {}", spec.id, missing.join("; "));
        return 3;
    }
    if code == 0 && stopped_early.load(Ordering::SeqCst) {
        println!("note: the time cap ended the workload early; verdict covers what was observed");
    }
    code
}
