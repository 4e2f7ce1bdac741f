//! Coverage-guided search (thorough tier): libFuzzer chooses the random bytes from which the generator of
//! a group draws its case, guided by the coverage of the libraries under test. The cases and the oracles
//! are the ones of the random search, so that what is found is replayed in the same way.

use std::cell::RefCell;
use std::collections::VecDeque;
use std::ffi::{c_char, c_int, CString};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use sha2::{Digest, Sha256};

use crate::engine::{install_panic_hook, Ctx, Obs};

/// What the coverage-guided program is asked to do with the groups of a check.
pub enum Mode {
    /// Print the names of the groups.
    List,
    /// Search in a group.
    Search { group: String, out: PathBuf, seconds: u64, seed: u64 },
    /// Print the case drawn from the bytes in a file.
    Case { group: String, bytes: PathBuf },
}

extern "C" {
    fn LLVMFuzzerRunDriver(
        argc: *mut c_int,
        argv: *mut *mut *mut c_char,
        callback: extern "C" fn(*const u8, usize) -> c_int,
    ) -> c_int;
}

type Target = Box<dyn FnMut(&[u8]) -> c_int>;
thread_local! {
    static TARGET: RefCell<Option<Target>> = const { RefCell::new(None) };
}

extern "C" fn one_input(data: *const u8, size: usize) -> c_int {
    let data: &[u8] = if size == 0 { &[] } else { unsafe { std::slice::from_raw_parts(data, size) } };
    TARGET.with(|t| (t.borrow_mut().as_mut().expect("target"))(data))
}

fn runner(data: &[u8]) -> TestRunner {
    let cfg = Config {
        cases: 1,
        failure_persistence: None,
        max_shrink_iters: 3000,
        max_shrink_time: 20_000,
        max_global_rejects: 1 << 8,
        max_local_rejects: 1 << 8,
        ..Config::default()
    };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::PassThrough, data))
}

/// The bytes the search starts with.
fn seeds(dir: &Path, seed: u64, group: &str) {
    std::fs::create_dir_all(dir).expect("corpus dir");
    for i in 0..48u64 {
        let len = [64usize, 256, 1024, 4096, 16384, 32768][i as usize % 6];
        let mut data = Vec::with_capacity(len);
        let mut n = 0u64;
        while data.len() < len {
            let mut h = Sha256::new();
            h.update(seed.to_le_bytes());
            h.update(group.as_bytes());
            h.update(i.to_le_bytes());
            h.update(n.to_le_bytes());
            data.extend_from_slice(&h.finalize());
            n += 1;
        }
        data.truncate(len);
        std::fs::write(dir.join(format!("seed{i}")), &data).expect("seed");
    }
}

/// Handles a group in the coverage-guided program. Doesn't return from a search.
pub fn group<C, S>(
    ctx: &Ctx,
    mode: &Mode,
    name: &str,
    strategy: impl Fn() -> S,
    check: impl Fn(&C, &mut Obs) -> Result<(), String>,
) where
    C: Serialize + DeserializeOwned + std::fmt::Debug + Clone,
    S: Strategy<Value = C>,
{
    match mode {
        Mode::List => println!("group {name}"),
        Mode::Case { group, bytes } if group == name => {
            let data = std::fs::read(bytes).expect("bytes");
            let tree = strategy().new_tree(&mut runner(&data)).expect("case");
            let case = proptest::strategy::ValueTree::current(&tree);
            println!("{}", ctx.replay_json(name, "the process ended", &serde_json::to_value(&case).unwrap()));
            std::process::exit(0);
        }
        Mode::Search { group, out, seconds, seed } if group == name => {
            let corpus = out.join("corpus");
            seeds(&corpus, *seed, name);
            let strategy = strategy();
            let (mut first, mut rejected) = (true, 0u64);
            let counts = RefCell::new((0u64, std::collections::HashSet::<u64>::new()));
            let mut last = Instant::now();
            let mut run = |data: &[u8]| -> c_int {
                if std::mem::take(&mut first) {
                    install_panic_hook();
                }
                let mut runner = runner(data);
                let Ok(tree) = strategy.new_tree(&mut runner) else {
                    rejected += 1;
                    return -1;
                };
                let shrinking = std::cell::Cell::new(false);
                let res = runner.run_one(tree, |case: C| {
                    let (r, hashes) = ctx.run_quiet(&case, &check);
                    if !shrinking.get() {
                        let mut counts = counts.borrow_mut();
                        counts.0 += 1;
                        counts.1.extend(hashes);
                    }
                    r.map_err(|e| {
                        shrinking.set(true);
                        TestCaseError::fail(e)
                    })
                });
                if let Err(TestError::Fail(_, case)) = &res {
                    let (r, _) = ctx.run_quiet(case, &check);
                    let reason = r.err().unwrap_or_else(|| "not reproduced".into());
                    let v = ctx.replay_json(name, &reason, &serde_json::to_value(case).unwrap());
                    std::fs::write(out.join("violation.json"), v.to_string()).expect("violation");
                    std::process::exit(1);
                }
                if last.elapsed() > Duration::from_millis(700) {
                    last = Instant::now();
                    let counts = counts.borrow();
                    let v = serde_json::json!({"executions": counts.0, "rejected": rejected,
                        "distinct_nontrivial": counts.1.len()});
                    let _ = std::fs::write(out.join("stats.json"), v.to_string());
                }
                0
            };
            // The driver ends the process, so that nothing outlives the target.
            let target: Box<dyn FnMut(&[u8]) -> c_int + '_> = Box::new(&mut run);
            let target: Target = unsafe { std::mem::transmute(target) };
            TARGET.with(|t| *t.borrow_mut() = Some(target));
            let args = [
                "csvcheck".to_string(),
                corpus.display().to_string(),
                format!("-seed={}", seed % 0x7fff_fffe + 1),
                format!("-max_total_time={seconds}"),
                format!("-artifact_prefix={}/", out.display()),
                "-max_len=65536".into(),
                "-len_control=20".into(),
                "-timeout=100".into(),
                "-rss_limit_mb=3500".into(),
                "-use_value_profile=1".into(),
                "-reload=0".into(),
                "-print_final_stats=1".into(),
            ];
            let args: Vec<CString> = args.into_iter().map(|a| CString::new(a).unwrap()).collect();
            let mut ptrs: Vec<*mut c_char> = args.iter().map(|a| a.as_ptr() as *mut c_char).collect();
            ptrs.push(std::ptr::null_mut());
            let (mut argc, mut argv) = (args.len() as c_int, ptrs.as_mut_ptr());
            let rc = unsafe { LLVMFuzzerRunDriver(&mut argc, &mut argv, one_input) };
            std::process::exit(rc);
        }
        _ => {}
    }
}

/// Searches in all the groups of a property, and returns the exit code.
pub fn orchestrate(prop: &str, verif: &Path, seed: u64) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().expect("exe");
    let budget: u64 = std::env::var("CSV_FUZZ_S").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
    let list = Command::new(&exe).args([prop, "--fuzz-list"]).output().expect("list");
    let groups: Vec<String> = String::from_utf8_lossy(&list.stdout)
        .lines()
        .filter_map(|l| l.strip_prefix("group "))
        .map(str::to_string)
        .collect();
    if groups.is_empty() {
        return if list.status.success() { 0 } else { 2 };
    }
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    // Several independent searches per group when there are fewer groups than processors.
    let rounds = workers.div_ceil(groups.len());
    let jobs: VecDeque<(String, u64)> =
        (0..rounds as u64).flat_map(|r| groups.iter().map(move |g| (g.clone(), seed.wrapping_mul(1000) + r))).collect();
    let seconds = (budget * workers as u64 / jobs.len() as u64).clamp(5, budget);
    let dir = std::env::temp_dir().join(format!("csvcheck-fuzz-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let jobs = Mutex::new(jobs);
    let results = Mutex::new(vec![]);
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let Some((group, seed)) = jobs.lock().unwrap().pop_front() else { break };
                let out = dir.join(format!("{group}-{seed}"));
                std::fs::create_dir_all(&out).expect("dir");
                let log = std::fs::File::create(out.join("log")).expect("log");
                let mut child: Child = Command::new("sh")
                    .args(["-c", "ulimit -s 65536; ulimit -c 0; exec \"$0\" \"$@\""])
                    .arg(&exe)
                    .args([prop, "--fuzz-group", &group, "--fuzz-out"])
                    .arg(&out)
                    .args(["--fuzz-seconds", &seconds.to_string(), "--seed", &seed.to_string()])
                    .stdin(Stdio::null())
                    .stdout(Stdio::null())
                    .stderr(log)
                    .spawn()
                    .expect("spawn");
                let since = Instant::now();
                let code = loop {
                    match child.try_wait().expect("wait") {
                        Some(st) => break st.code(),
                        None if stop.load(std::sync::atomic::Ordering::SeqCst)
                            || since.elapsed() > Duration::from_secs(seconds + 300) =>
                        {
                            let _ = child.kill();
                            let _ = child.wait();
                            break Some(0);
                        }
                        None => std::thread::sleep(Duration::from_millis(100)),
                    }
                };
                if out.join("violation.json").exists() {
                    stop.store(true, std::sync::atomic::Ordering::SeqCst);
                }
                results.lock().unwrap().push((group, out, code));
            });
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by(|a, b| a.1.cmp(&b.1));
    let read = |p: PathBuf| -> Option<serde_json::Value> {
        serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok()
    };
    let mut code = 0;
    let mut found: Option<(String, serde_json::Value)> = None;
    let mut report = vec![];
    for (group, out, exit) in &results {
        let log = std::fs::read_to_string(out.join("log")).unwrap_or_default();
        let cov = log.lines().rev().find_map(|l| l.split(" cov: ").nth(1)?.split(' ').next()?.parse::<u64>().ok());
        let stats = read(out.join("stats.json")).unwrap_or_default();
        report.push(serde_json::json!({
            "group": group, "executions": stats["executions"], "draws_rejected": stats["rejected"],
            "distinct_nontrivial": stats["distinct_nontrivial"], "edges_covered": cov,
            "corpus": std::fs::read_dir(out.join("corpus")).map(|d| d.count()).unwrap_or(0),
        }));
        if let Some(v) = read(out.join("violation.json")) {
            found.get_or_insert((format!("{prop} group {group}: {}", v["reason"].as_str().unwrap_or("")), v));
        } else if *exit != Some(0) {
            // The process ended in the middle of a case: the case is what the ordinary program, which is
            // not instrumented, is asked to judge.
            let artifact = std::fs::read_dir(out).into_iter().flatten().filter_map(|e| e.ok()).map(|e| e.path()).find(|p| {
                let n = p.file_name().unwrap_or_default().to_string_lossy().to_string();
                ["crash-", "timeout-", "oom-", "slow-unit-"].iter().any(|k| n.starts_with(k))
            });
            eprintln!("{prop} {group}: the search ended with {exit:?}; {}", log.lines().rev().take(3).collect::<Vec<_>>().join(" | "));
            let case = artifact.and_then(|a| {
                let o = Command::new("timeout").arg("100").arg(&exe).args([prop, "--fuzz-group", group, "--fuzz-case"]).arg(a).output().ok()?;
                serde_json::from_slice::<serde_json::Value>(&o.stdout).ok()
            });
            match case {
                Some(v) => {
                    let file = out.join("replay.json");
                    std::fs::write(&file, v.to_string()).expect("replay");
                    let st = Command::new("bash")
                        .arg(verif.join("run.sh"))
                        .args([prop, "--replay"])
                        .arg(&file)
                        .status();
                    match st.ok().and_then(|s| s.code()) {
                        Some(1) => {
                            found.get_or_insert((format!("{prop} group {group}: crash or hang"), v));
                        }
                        Some(0) => eprintln!("the ordinary program handles that case"),
                        _ => code = 2,
                    }
                }
                None => code = 2,
            }
        }
    }
    let path = verif.join(format!("evidence/{prop}.json"));
    if let Some(mut ev) = read(path.clone()) {
        let sum = |k: &str| report.iter().map(|r| r[k].as_u64().unwrap_or(0)).sum::<u64>();
        for (field, k) in [("evaluations", "executions"), ("distinct_nontrivial", "distinct_nontrivial")] {
            let v = ev["coverage"][field].as_u64().unwrap_or(0) + sum(k);
            ev["coverage"][field] = v.into();
        }
        ev["coverage"]["coverage_guided"] =
            serde_json::json!({"seconds_per_search": seconds, "searches": report});
        ev["wall_s"] = (ev["wall_s"].as_f64().unwrap_or(0.0) + t0.elapsed().as_secs_f64()).into();
        ev["violations"] = (found.is_some() as u32).into();
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap());
    }
    if let Some((what, v)) = found {
        let out = verif.join("evidence/replay");
        let _ = std::fs::create_dir_all(&out);
        let path = out.join(format!("{prop}-{}-fuzz.json", v["group"].as_str().unwrap_or("")));
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay");
        println!("{what}");
        println!("case: {}", v["case"].to_string().chars().take(1500).collect::<String>());
        println!("VIOLATION property={prop} replay={}", path.display());
        code = 1;
    } else if code == 0 {
        let n: u64 = report.iter().map(|r| r["executions"].as_u64().unwrap_or(0)).sum();
        println!("{prop}: held on {n} cases of the coverage-guided search");
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}
