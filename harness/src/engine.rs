//! Property-based testing engine: seeded sharded generation, panic capture, shrinking, replay
//! files, statistics, evidence, known findings and a watchdog.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::Strategy;
use proptest::test_runner::{
    Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::de::DeserializeOwned;
use serde::Serialize;
use sha2::{Digest, Sha256};

pub const SHARDS: usize = 16;
/// The cases drawn between two looks at the clock.
const PORTION: u32 = 128;
/// A single case that does not finish in this time is reported as a violation: ordinary cases take
/// milliseconds.
pub const CASE_LIMIT: Duration = Duration::from_secs(120);

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = payload(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    let s = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".to_string()
    };
    s.chars().take(400).collect()
}

/// Runs the closure, converting a panic into an error message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| LAST_PANIC.with(|p| format!("panic: {}", p.borrow())))
}

/// Observations made by a check on one case.
pub struct Obs<'a> {
    nontrivial: bool,
    evals: u64,
    labels: Vec<String>,
    sample: Option<String>,
    known: &'a Known,
    hit: Vec<String>,
}

impl<'a> Obs<'a> {
    /// Marks the case as non-trivial if the condition holds.
    pub fn nontrivial(&mut self, cond: bool) { self.nontrivial |= cond; }
    pub fn label(&mut self, l: impl Into<String>) { self.labels.push(l.into()); }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.to_string())
        }
    }
    /// Counts additional evaluations of the oracle inside the case.
    pub fn evals(&mut self, n: usize) { self.evals += n as u64; }
    /// Provides a readable description of the case for the evidence.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f())
        }
    }
    /// Whether the given known finding is listed (and may be tolerated); records it as reproduced.
    pub fn known(&mut self, id: &str) -> bool {
        if self.known.listed.contains_key(id) {
            self.hit.push(id.to_string());
            true
        } else {
            false
        }
    }
}

#[derive(Default)]
pub struct Known {
    listed: BTreeMap<String, String>,
}

impl Known {
    pub fn load(path: &Path, prop: &str) -> Known {
        let mut listed = BTreeMap::new();
        if let Ok(text) = std::fs::read_to_string(path) {
            let v: serde_json::Value = serde_json::from_str(&text).expect("known_findings.json");
            for f in v["findings"].as_array().into_iter().flatten() {
                if f["property"] == prop {
                    listed.insert(
                        f["id"].as_str().unwrap().to_string(),
                        f["what"].as_str().unwrap().to_string(),
                    );
                }
            }
        }
        Known { listed }
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    oracle_checks: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    hits: BTreeSet<String>,
}

impl Stats {
    fn absorb(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.oracle_checks += o.oracle_checks;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
        self.hits.extend(o.hits);
    }
}

struct Failure {
    group: String,
    reason: String,
    case: serde_json::Value,
}

struct GroupReport {
    name: String,
    rule: String,
    stats: Stats,
    exhaustive: bool,
    cut: bool,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub trace: Option<PathBuf>,
    only: Option<String>,
    replay: Option<(String, serde_json::Value)>,
    scale: f64,
    threads: usize,
    start: Instant,
    deadline: Duration,
    known: Known,
    groups: Vec<GroupReport>,
    failures: Vec<Failure>,
    pub notes: Vec<String>,
    replayed: bool,
    /// How long a minimal case is looked for.
    pub shrink_ms: u32,
    #[cfg(feature = "fuzz")]
    pub fuzz: Option<crate::fuzz::Mode>,
}

struct Slot {
    since: AtomicU64, // millis since start + 1, 0 = idle
}

fn fnv(bytes: &[u8]) -> u64 {
    let h = Sha256::digest(bytes);
    u64::from_le_bytes(h[..8].try_into().unwrap())
}

impl Ctx {
    pub fn new(
        prop: &str,
        tier: Tier,
        seed: u64,
        verif: PathBuf,
        replay: Option<(String, serde_json::Value)>,
        only: Option<String>,
        trace: Option<PathBuf>,
    ) -> Ctx {
        let scale = std::env::var("CSV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(SHARDS);
        let known = Known::load(&verif.join("known_findings.json"), prop);
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            verif,
            trace,
            only,
            replay,
            scale,
            threads,
            start: Instant::now(),
            deadline: match tier {
                Tier::Quick => Duration::from_secs(420),
                Tier::Thorough => Duration::from_secs(
                    std::env::var("CSV_THOROUGH_S").ok().and_then(|s| s.parse().ok()).unwrap_or(1200),
                ),
            },
            known,
            groups: vec![],
            failures: vec![],
            notes: vec![],
            replayed: false,
            shrink_ms: 10_000,
            #[cfg(feature = "fuzz")]
            fuzz: None,
        }
    }

    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }

    pub fn is_replay(&self) -> bool { self.replay.is_some() }

    /// Whether the libraries under test were built without debug assertions and overflow checks. This
    /// second run of each of the checks has other cases and fewer of them.
    pub fn unchecked() -> bool { cfg!(not(debug_assertions)) }

    /// The content of a replay file.
    pub fn replay_json(&self, group: &str, reason: &str, case: &serde_json::Value) -> serde_json::Value {
        serde_json::json!({
            "property": self.prop, "group": group, "seed": self.seed,
            "reason": reason, "case": case,
            "overflow_checks_and_debug_assertions": !Ctx::unchecked(),
        })
    }

    /// Runs one case; returns the hashes of what was non-trivial.
    #[cfg(feature = "fuzz")]
    pub fn run_quiet<C: Serialize + Debug>(
        &self,
        case: &C,
        check: &impl Fn(&C, &mut Obs) -> Result<(), String>,
    ) -> (Result<(), String>, HashSet<u64>) {
        let (r, st) = run_one(case, &self.known, false, check);
        (r, st.nontrivial)
    }

    /// Number of cases for this tier.
    fn count(&self, quick: u32) -> u32 {
        let n = match self.tier {
            Tier::Quick => quick as f64,
            Tier::Thorough => quick as f64 * 40.0,
        };
        // Properties with cheap cases get more of them
        let n = n * match self.prop.as_str() {
            "C02" | "C05" | "C06" | "C07" | "C09" | "C12" | "C14" | "C31" => 3.0,
            "C13" | "C15" | "C16" | "C17" | "C18" | "C20" | "C22" | "C24" | "C25" | "C26" | "C27" | "C28" | "C29" | "C32" => 6.0,
            "C03" | "C10" | "C11" | "C21" | "C23" => 2.0,
            _ => 1.0,
        };
        let part = if Ctx::unchecked() { 0.5 } else { 1.0 };
        ((n * self.scale * part).ceil() as u32).max(1)
    }

    fn skip(&self, name: &str) -> bool {
        self.only.as_deref().is_some_and(|o| o != name) || !self.failures.is_empty()
    }

    fn try_replay<C: DeserializeOwned + Serialize + Debug>(
        &mut self,
        name: &str,
        check: &impl Fn(&C, &mut Obs) -> Result<(), String>,
    ) -> bool {
        let Some((group, value)) = &self.replay else { return false };
        if group == name {
            let case: C = serde_json::from_value(value.clone()).expect("replay file case");
            let value = value.clone();
            self.replayed = true;
            let (res, st) = run_one(&case, &self.known, true, check);
            self.groups.push(GroupReport {
                name: name.to_string(),
                rule: "replay".to_string(),
                stats: st,
                exhaustive: false,
                cut: false,
            });
            if let Err(reason) = res {
                self.failures.push(Failure { group: name.to_string(), reason, case: value });
            }
        }
        true
    }

    /// Random search over generated cases.
    pub fn group<C, S>(
        &mut self,
        name: &str,
        rule: &str,
        quick: u32,
        strategy: impl Fn() -> S + Sync,
        check: impl Fn(&C, &mut Obs) -> Result<(), String> + Sync,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + Send,
        S: Strategy<Value = C>,
    {
        #[cfg(feature = "fuzz")]
        if let Some(mode) = &self.fuzz {
            return crate::fuzz::group(self, mode, name, strategy, check);
        }
        if self.try_replay(name, &check) || self.skip(name) {
            return;
        }
        let total = self.count(quick);
        let per = total.div_ceil(SHARDS as u32);
        let t0 = Instant::now();
        let stop = AtomicBool::new(false);
        let cut = AtomicBool::new(false);
        let next = AtomicUsize::new(0);
        let all = Mutex::new(Stats::default());
        let fails: Mutex<Vec<(usize, Failure)>> = Mutex::new(vec![]);
        let slots: Vec<Slot> =
            (0..SHARDS).map(|_| Slot { since: AtomicU64::new(0) }).collect();
        let done = AtomicBool::new(false);
        let this = &*self;
        // In the thorough tier no group takes more than half of the time left, so that all are searched.
        let deadline = match self.tier {
            Tier::Quick => self.deadline,
            Tier::Thorough => {
                let now = self.start.elapsed();
                now + self.deadline.saturating_sub(now) / 2
            }
        };
        std::thread::scope(|scope| {
            let workers: Vec<_> = (0..this.threads)
                .map(|_| {
                    let (stop, cut, next, all, fails, slots, strategy, check) =
                        (&stop, &cut, &next, &all, &fails, &slots, &strategy, &check);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(scope, move || loop {
                            let shard = next.fetch_add(1, Ordering::SeqCst);
                            if shard >= SHARDS || stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let stats = RefCell::new(Stats::default());
                            let failing = RefCell::new(false);
                            let strategy = strategy();
                            let mut res = Ok(());
                            // In portions, so that nothing more is drawn once the time is over.
                            for portion in 0..per.div_ceil(PORTION) {
                                if stop.load(Ordering::SeqCst) || cut.load(Ordering::Relaxed) {
                                    break;
                                }
                                let mut seed = Sha256::new();
                                seed.update(this.seed.to_le_bytes());
                                seed.update(this.prop.as_bytes());
                                seed.update([Ctx::unchecked() as u8]);
                                seed.update(name.as_bytes());
                                seed.update((shard as u64).to_le_bytes());
                                seed.update(portion.to_le_bytes());
                                let seed: [u8; 32] = seed.finalize().into();
                                let cfg = Config {
                                    cases: PORTION.min(per - portion * PORTION),
                                    failure_persistence: None,
                                    max_shrink_iters: 2000,
                                    max_shrink_time: this.shrink_ms,
                                    max_global_rejects: 1 << 20,
                                    max_local_rejects: 1 << 20,
                                    ..Config::default()
                                };
                                let mut runner = TestRunner::new_with_rng(
                                    cfg,
                                    TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                                );
                                res = runner.run(&strategy, |case: C| {
                                    if !*failing.borrow() {
                                        if stop.load(Ordering::Relaxed) {
                                            return Ok(());
                                        }
                                        if this.start.elapsed() > deadline {
                                            cut.store(true, Ordering::Relaxed);
                                            return Ok(());
                                        }
                                    }
                                    if let Some(dir) = &this.trace {
                                        let v = serde_json::json!({"property": this.prop, "group": name,
                                            "reason": "process died", "case": case});
                                        let _ = std::fs::write(
                                            dir.join(format!("trace.{shard}.json")),
                                            v.to_string(),
                                        );
                                    }
                                    let slot = &slots[shard];
                                    slot.since.store(
                                        this.start.elapsed().as_millis() as u64 + 1,
                                        Ordering::SeqCst,
                                    );
                                    let want = stats.borrow().samples.len() < 2;
                                    let (r, st) = run_one(&case, &this.known, want, check);
                                    slot.since.store(0, Ordering::SeqCst);
                                    match r {
                                        Ok(()) => {
                                            if !*failing.borrow() {
                                                stats.borrow_mut().absorb(st);
                                            }
                                            Ok(())
                                        }
                                        Err(e) => {
                                            // Only the first failing shard looks for a minimal case.
                                            if !*failing.borrow() && stop.swap(true, Ordering::SeqCst) {
                                                return Ok(());
                                            }
                                            *failing.borrow_mut() = true;
                                            Err(TestCaseError::fail(e))
                                        }
                                    }
                                });
                                if res.is_err() {
                                    break;
                                }
                            }
                            all.lock().unwrap().absorb(stats.into_inner());
                            match res {
                                Ok(()) => {}
                                Err(TestError::Fail(reason, case)) => {
                                    stop.store(true, Ordering::SeqCst);
                                    // Re-evaluate to get the reason of the minimal case.
                                    let (r, _) = run_one(&case, &this.known, false, check);
                                    let reason = r.err().unwrap_or_else(|| reason.message().to_string());
                                    fails.lock().unwrap().push((
                                        shard,
                                        Failure {
                                            group: name.to_string(),
                                            reason,
                                            case: serde_json::to_value(&case).unwrap(),
                                        },
                                    ));
                                }
                                Err(TestError::Abort(reason)) => {
                                    eprintln!("generator of {name} gave up: {reason}");
                                    std::process::exit(2);
                                }
                            }
                        })
                        .unwrap()
                })
                .collect();
            let dog = {
                let (slots, done) = (&slots, &done);
                scope.spawn(move || this.watchdog(slots, done))
            };
            for w in workers {
                w.join().unwrap();
            }
            done.store(true, Ordering::SeqCst);
            dog.thread().unpark();
            dog.join().unwrap();
        });
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|(s, f)| (f.case.to_string().len(), *s));
        self.finish_group(name, rule, all.into_inner().unwrap(), false, cut.into_inner(), t0);
        if let Some((_, f)) = fails.into_iter().next() {
            self.failures.push(f);
        }
    }

    fn watchdog(&self, slots: &[Slot], done: &AtomicBool) {
        while !done.load(Ordering::SeqCst) {
            std::thread::park_timeout(Duration::from_millis(500));
            let now = self.start.elapsed().as_millis() as u64 + 1;
            for s in slots {
                let since = s.since.load(Ordering::SeqCst);
                if since != 0 && now.saturating_sub(since) > CASE_LIMIT.as_millis() as u64 {
                    // A hanging call. The parent process finds the case by re-running with
                    // tracing (see main).
                    eprintln!("a case did not terminate");
                    std::process::exit(77);
                }
            }
            let hard = match self.tier {
                Tier::Quick => Duration::from_secs(800),
                Tier::Thorough => self.deadline + Duration::from_secs(900),
            };
            if self.start.elapsed() > hard {
                eprintln!("global time limit reached");
                std::process::exit(2);
            }
        }
    }

    /// Complete enumeration of a finite list of cases (smallest first).
    pub fn enumerate<C>(
        &mut self,
        name: &str,
        rule: &str,
        cases: impl FnOnce() -> Vec<C>,
        check: impl Fn(&C, &mut Obs) -> Result<(), String> + Sync,
    ) where
        C: Serialize + DeserializeOwned + Debug + Clone + Send + Sync,
    {
        #[cfg(feature = "fuzz")]
        if self.fuzz.is_some() {
            return;
        }
        if self.try_replay(name, &check) || self.skip(name) {
            return;
        }
        let t0 = Instant::now();
        let cases = cases();
        let next = AtomicUsize::new(0);
        let worst = AtomicUsize::new(usize::MAX);
        let all = Mutex::new(Stats::default());
        let fails: Mutex<BTreeMap<usize, Failure>> = Mutex::new(BTreeMap::new());
        let slots: Vec<Slot> = (0..self.threads)
            .map(|_| Slot { since: AtomicU64::new(0) })
            .collect();
        let done = AtomicBool::new(false);
        let this = &*self;
        std::thread::scope(|scope| {
            let workers: Vec<_> = (0..this.threads)
                .map(|t| {
                    let (next, worst, all, fails, slots, cases, check) =
                        (&next, &worst, &all, &fails, &slots, &cases, &check);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(scope, move || {
                            let mut stats = Stats::default();
                            loop {
                                let i = next.fetch_add(1, Ordering::SeqCst);
                                if i >= cases.len() || i > worst.load(Ordering::SeqCst) {
                                    break;
                                }
                                if let Some(dir) = &this.trace {
                                    let v = serde_json::json!({"property": this.prop, "group": name,
                                        "reason": "process died", "case": cases[i]});
                                    let _ = std::fs::write(
                                        dir.join(format!("trace.{t}.json")),
                                        v.to_string(),
                                    );
                                }
                                slots[t].since.store(
                                    this.start.elapsed().as_millis() as u64 + 1,
                                    Ordering::SeqCst,
                                );
                                let (r, st) = run_one(&cases[i], &this.known, stats.samples.len() < 2, check);
                                slots[t].since.store(0, Ordering::SeqCst);
                                match r {
                                    Ok(()) => stats.absorb(st),
                                    Err(reason) => {
                                        worst.fetch_min(i, Ordering::SeqCst);
                                        fails.lock().unwrap().insert(i, Failure {
                                            group: name.to_string(),
                                            reason,
                                            case: serde_json::to_value(&cases[i]).unwrap(),
                                        });
                                    }
                                }
                            }
                            all.lock().unwrap().absorb(stats);
                        })
                        .unwrap()
                })
                .collect();
            let dog = {
                let (slots, done) = (&slots, &done);
                scope.spawn(move || this.watchdog(slots, done))
            };
            for w in workers {
                w.join().unwrap();
            }
            done.store(true, Ordering::SeqCst);
            dog.thread().unpark();
            dog.join().unwrap();
        });
        self.finish_group(name, rule, all.into_inner().unwrap(), true, false, t0);
        if let Some((_, f)) = fails.into_inner().unwrap().into_iter().next() {
            self.failures.push(f);
        }
    }

    fn finish_group(&mut self, name: &str, rule: &str, stats: Stats, exhaustive: bool, cut: bool, t0: Instant) {
        if std::env::var("CSV_VERBOSE").is_ok() {
            eprintln!(
                "{} {name}: {} cases, {} non-trivial, {:.1}s {:?}",
                self.prop,
                stats.evaluations,
                stats.nontrivial.len(),
                t0.elapsed().as_secs_f32(),
                stats.labels
            );
        }
        self.groups.push(GroupReport {
            name: name.to_string(),
            rule: rule.to_string(),
            stats,
            exhaustive,
            cut,
        });
    }

    /// Writes evidence, prints results; returns the exit code.
    pub fn finish(mut self) -> i32 {
        if self.replay.is_some() && !self.replayed {
            eprintln!("the replay file names an unknown group");
            return 2;
        }
        let mut hits = BTreeSet::new();
        for g in &self.groups {
            hits.extend(g.stats.hits.iter().cloned());
        }
        for h in &hits {
            println!("KNOWN-FINDING: property={} {}", self.prop, self.known.listed[h]);
        }
        let mut code = 0;
        let mut replay_path = None;
        if let Some(f) = self.failures.first() {
            code = 1;
            let dir = self.verif.join("evidence/replay");
            let _ = std::fs::create_dir_all(&dir);
            let v = self.replay_json(&f.group, &f.reason, &f.case);
            let text = serde_json::to_string_pretty(&v).unwrap();
            let path = if self.replay.is_some() {
                dir.join(format!("{}-replayed.json", self.prop))
            } else {
                dir.join(format!("{}-{}-{:016x}.json", self.prop, f.group, fnv(text.as_bytes())))
            };
            let _ = std::fs::write(&path, &text);
            let case = f.case.to_string();
            println!("{} group {}: {}", self.prop, f.group, f.reason);
            println!("case: {}", case.chars().take(1500).collect::<String>());
            replay_path = Some(path);
        }
        if self.replay.is_none() && self.only.is_none() && self.trace.is_none() {
            self.write_evidence(code, &hits);
        }
        if let Some(path) = replay_path {
            println!("VIOLATION property={} replay={}", self.prop, path.display());
        } else {
            println!(
                "{}: held on {} cases",
                self.prop,
                self.groups.iter().map(|g| g.stats.evaluations).sum::<u64>()
            );
        }
        code
    }

    fn write_evidence(&mut self, code: i32, hits: &BTreeSet<String>) {
        let evaluations: u64 = self.groups.iter().map(|g| g.stats.evaluations).sum();
        let nontrivial: u64 = self.groups.iter().map(|g| g.stats.nontrivial.len() as u64).sum();
        let mut samples = vec![];
        for g in &self.groups {
            for s in &g.stats.samples {
                samples.push(serde_json::json!({"group": g.name, "case": s}));
            }
        }
        let groups: Vec<_> = self
            .groups
            .iter()
            .map(|g| {
                serde_json::json!({
                    "name": g.name, "rule": g.rule,
                    "cases": g.stats.evaluations,
                    "oracle_comparisons": g.stats.oracle_checks,
                    "cases_nontrivial_distinct": g.stats.nontrivial.len(),
                    "finite_list_enumerated": g.exhaustive,
                    "cut_by_time": g.cut,
                    "labels": g.stats.labels,
                })
            })
            .collect();
        if Ctx::unchecked() {
            // Added to what the first run has written
            let path = self.verif.join(format!("evidence/{}.json", self.prop));
            let first = std::fs::read_to_string(&path).ok().and_then(|s| serde_json::from_str(&s).ok());
            if let Some(mut ev) = first {
                let ev: &mut serde_json::Value = &mut ev;
                let add = |v: &mut serde_json::Value, n: u64| *v = (v.as_u64().unwrap_or(0) + n).into();
                add(&mut ev["coverage"]["evaluations"], evaluations);
                add(&mut ev["coverage"]["distinct_nontrivial"], nontrivial);
                ev["coverage"]["without_overflow_checks_and_debug_assertions"] = serde_json::json!({
                    "evaluations": evaluations, "distinct_nontrivial": nontrivial, "groups": groups,
                    "known_findings_reproduced": hits.iter().collect::<Vec<_>>(),
                });
                ev["wall_s"] = (((ev["wall_s"].as_f64().unwrap_or(0.0)
                    + self.start.elapsed().as_secs_f64()) * 100.0).round() / 100.0).into();
                ev["violations"] = code.into();
                std::fs::write(&path, serde_json::to_string_pretty(ev).unwrap()).expect("can't write evidence");
                return;
            }
        }
        let rule = "Cases are drawn per group from seeded structured generators (or from a finite list); \
                    a case is non-trivial when it meets the condition in its group's rule; distinct \
                    cases are counted by the hash of their serialised form, per group";
        let ev = serde_json::json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": nontrivial,
                "rule": rule,
                "samples": samples,
                "groups": groups,
                "known_findings_reproduced": hits.iter().collect::<Vec<_>>(),
                "notes": self.notes,
            },
            "assumptions": [
                "SHA-256 (sha2 crate) is correct and collision-free on the explored inputs",
                "the reference model in harness/src/model.rs states LNPBP-4/LNPBP-81 correctly"
            ],
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": if code == 1 { 1 } else { 0 },
        });
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap(),
        )
        .expect("can't write evidence");
    }
}

fn run_one<C: Serialize + Debug>(
    case: &C,
    known: &Known,
    want_sample: bool,
    check: &impl Fn(&C, &mut Obs) -> Result<(), String>,
) -> (Result<(), String>, Stats) {
    let mut obs = Obs {
        nontrivial: false,
        evals: 0,
        labels: vec![],
        sample: None,
        known,
        hit: vec![],
    };
    let r = match guard(|| check(case, &mut obs)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    let mut st = Stats { evaluations: 1, oracle_checks: 1 + obs.evals, ..Stats::default() };
    if obs.nontrivial {
        let bytes = bincode::serialize(case).unwrap_or_else(|_| format!("{case:?}").into_bytes());
        st.nontrivial.insert(fnv(&bytes));
        if want_sample {
            let s = obs.sample.unwrap_or_else(|| serde_json::to_string(case).unwrap_or_default());
            let cut: String = s.chars().take(500).collect();
            st.samples.push(if cut.len() < s.len() { format!("{cut}...") } else { s });
        }
    }
    for l in obs.labels {
        *st.labels.entry(l).or_default() += 1;
    }
    st.hits = obs.hit.into_iter().collect();
    (r, st)
}

/// Returns an error unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !$c {
            return Err(format!($($arg)*));
        }
    };
}

/// Returns an error unless both sides are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    let (a, b): (String, String) = (
                        format!("{a:?}").chars().take(400).collect(),
                        format!("{b:?}").chars().take(400).collect(),
                    );
                    return Err(format!("{}: got {a}, expected {b}", format!($($arg)*)));
                }
            }
        }
    };
}
