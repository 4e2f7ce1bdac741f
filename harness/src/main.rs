#![allow(dead_code)]
mod checks;
mod engine;
#[cfg(feature = "fuzz")]
mod fuzz;
#[cfg(feature = "lib")]
mod gen;
mod model;
#[cfg(feature = "lib")]
mod types;
#[cfg(feature = "lib")]
mod ut;
#[cfg(feature = "lib")]
mod values;

use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::Instant;

use engine::{Ctx, Tier};

type Check = fn(&mut Ctx);

/// The checks in this program: all of them, or the ones of the selected modules (the time to build is
/// that of the selected ones).
fn checks() -> Vec<(&'static str, Check)> {
    let mut all: Vec<(&'static str, Check)> = vec![];
    macro_rules! module {
        ($feature:literal, $($id:literal => $f:path),* $(,)?) => {
            #[cfg(feature = $feature)]
            all.extend([$(($id, $f as Check)),*]);
        };
    }
    module!("tree", "C01" => checks::tree::c01, "C03" => checks::tree::c03, "C04" => checks::tree::c04, "C05" => checks::tree::c05, "C32" => checks::tree::c32);
    module!("block", "C02" => checks::block::c02, "C06" => checks::block::c06, "C07" => checks::block::c07, "C08" => checks::block::c08, "C09" => checks::block::c09, "C23" => checks::block::c23, "C31" => checks::block::c31);
    module!("commit", "C12" => checks::commit::c12, "C13" => checks::commit::c13, "C14" => checks::commit::c14, "C15" => checks::commit::c15, "C22" => checks::commit::c22);
    module!("merkle", "C10" => checks::merkle::c10, "C11" => checks::merkle::c11, "C29" => checks::merkle::c29);
    module!("schemes", "C16" => checks::schemes::c16, "C17" => checks::schemes::c17, "C18" => checks::schemes::c18);
    module!("seals", "C24" => checks::seals::c24, "C25" => checks::seals::c25, "C35" => checks::seals::c35);
    module!("api", "C26" => checks::api::c26, "C27" => checks::api::c27);
    module!("enc", "C19" => checks::enc::c19, "C20" => checks::enc::c20);
    module!("text", "C21" => checks::text::c21, "C28" => checks::text::c28);
    module!("derive", "C13" => checks::derive::c33, "C33" => checks::derive::c33);
    module!("tool", "C34" => checks::tool::c34);
    module!("config", "C30" => checks::config::c30);
    all.sort_by_key(|(id, _)| *id);
    all
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        for (id, _) in checks() {
            println!("{id}");
        }
        return;
    }
    let prop = args[0].clone();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut replay: Option<PathBuf> = None;
    let mut only = None;
    let mut trace: Option<PathBuf> = None;
    let mut child = false;
    #[cfg(feature = "fuzz")]
    let mut fuzz_args: Vec<(String, String)> = vec![];
    let mut it = args[1..].iter();
    while let Some(a) = it.next() {
        let mut val = || it.next().expect("argument value").clone();
        match a.as_str() {
            "--tier" => tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => seed = val().parse().expect("seed"),
            "--replay" => replay = Some(val().into()),
            "--only" => only = Some(val()),
            "--trace" => trace = Some(val().into()),
            "--child" => child = true,
            #[cfg(feature = "fuzz")]
            a if a.starts_with("--fuzz") => {
                fuzz_args.push((a.to_string(), if a == "--fuzz" || a == "--fuzz-list" { String::new() } else { val() }))
            }
            _ => {
                eprintln!("unknown argument {a}");
                std::process::exit(2);
            }
        }
    }
    let verif: PathBuf = std::env::var("CSV_VERIF").unwrap_or_else(|_| "/verif".into()).into();
    #[cfg(feature = "fuzz")]
    if !fuzz_args.is_empty() {
        std::process::exit(fuzzing(&prop, &verif, seed, &fuzz_args));
    }
    if !child {
        std::process::exit(parent(&prop, &args, &verif, seed, tier));
    }
    let Some((_, check)) = checks().into_iter().find(|(id, _)| *id == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let replay = replay.map(|p| {
        let v: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(p).expect("replay file")).expect("JSON");
        (v["group"].as_str().expect("group").to_string(), v["case"].clone())
    });
    engine::install_panic_hook();
    let mut ctx = Ctx::new(&prop, tier, seed, verif, replay, only, trace);
    check(&mut ctx);
    std::process::exit(ctx.finish());
}

#[cfg(feature = "fuzz")]
fn fuzzing(prop: &str, verif: &PathBuf, seed: u64, args: &[(String, String)]) -> i32 {
    let get = |k: &str| args.iter().find(|(a, _)| a == k).map(|(_, v)| v.clone());
    if get("--fuzz").is_some() {
        return fuzz::orchestrate(prop, verif, seed);
    }
    let group = get("--fuzz-group").unwrap_or_default();
    let mode = match (get("--fuzz-list"), get("--fuzz-case")) {
        (Some(_), _) => fuzz::Mode::List,
        (_, Some(bytes)) => fuzz::Mode::Case { group, bytes: bytes.into() },
        _ => fuzz::Mode::Search {
            group,
            out: get("--fuzz-out").expect("--fuzz-out").into(),
            seconds: get("--fuzz-seconds").and_then(|s| s.parse().ok()).expect("--fuzz-seconds"),
            seed,
        },
    };
    let (_, check) = checks().into_iter().find(|(id, _)| *id == prop).expect("property");
    engine::install_panic_hook();
    let mut ctx = Ctx::new(prop, Tier::Quick, seed, verif.clone(), None, None, None);
    ctx.fuzz = Some(mode);
    check(&mut ctx);
    0
}

/// Processor time used by a process, in seconds.
fn cpu_seconds(pid: u32) -> f64 {
    let stat = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let mut fields = stat.rsplit(')').next().unwrap_or("").split_whitespace().skip(11);
    let mut ticks = || fields.next().and_then(|f| f.parse::<f64>().ok()).unwrap_or(0.0);
    (ticks() + ticks()) / 100.0
}

/// Runs the check in a child process, so that a crash (abort, stack overflow, memory exhaustion) or
/// a hang of the code under test is attributed to the case that caused it.
fn parent(prop: &str, args: &[String], verif: &PathBuf, seed: u64, tier: Tier) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let run = |extra: &[&str]| {
        Command::new(&exe)
            .args(args)
            .args(extra)
            .arg("--child")
            .stdin(Stdio::null())
            .status()
            .expect("spawn")
            .code()
    };
    match run(&[]) {
        Some(c @ 0..=2) => return c,
        Some(101) => return 2, // panic of the harness itself
        other => eprintln!("the run ended with {other:?}; looking for the case"),
    }
    let dir = std::env::temp_dir().join(format!("csvcheck-trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("trace dir");
    let code = run(&["--trace", dir.to_str().unwrap()]);
    eprintln!("the traced run ended with {code:?}");
    let mut found = None;
    let mut files: Vec<_> = std::fs::read_dir(&dir)
        .into_iter()
        .flatten()
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .collect();
    files.sort();
    for f in files {
        let t0 = Instant::now();
        let mut c = Command::new(&exe)
            .arg(prop)
            .arg("--replay")
            .arg(&f)
            .arg("--child")
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn");
        let bad = loop {
            match c.try_wait().expect("wait") {
                // Killed from outside (memory exhaustion) is no verdict about the code under test.
                Some(st) if st.signal() == Some(9) => break false,
                Some(st) => break !matches!(st.code(), Some(0) | Some(2) | Some(77)),
                // Processor time, not wall clock: the verdict doesn't depend on the load of the
                // machine. Cases take milliseconds, the largest ones some seconds.
                None if cpu_seconds(c.id()) > 100.0 => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break true;
                }
                None if t0.elapsed() > 3 * engine::CASE_LIMIT => {
                    let _ = c.kill();
                    let _ = c.wait();
                    break false;
                }
                None => std::thread::sleep(std::time::Duration::from_millis(50)),
            }
        };
        if bad {
            found = Some(f);
            break;
        }
    }
    let res = match found {
        Some(f) => {
            let out = verif.join("evidence/replay");
            let _ = std::fs::create_dir_all(&out);
            let path = out.join(format!("{prop}-crash.json"));
            std::fs::copy(&f, &path).expect("copy replay");
            let ev = serde_json::json!({
                "property": prop, "tier": if tier == Tier::Quick {"quick"} else {"thorough"},
                "seed": seed, "level": "exploration", "wall_s": 0.0, "violations": 1,
                "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                    "rule": "run ended by a crash or hang of the code under test",
                    "samples": [path.display().to_string()]},
            });
            let _ = std::fs::write(
                verif.join(format!("evidence/{prop}.json")),
                serde_json::to_string_pretty(&ev).unwrap(),
            );
            println!("the code under test crashed or did not terminate");
            println!("VIOLATION property={prop} replay={}", path.display());
            1
        }
        None => 2,
    };
    let _ = std::fs::remove_dir_all(&dir);
    res
}
