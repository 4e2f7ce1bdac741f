//! The generator of the published files: C34.

use std::collections::BTreeMap;
use std::os::unix::fs::{chown, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};

use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{Ctx, Obs};
use crate::{ensure, ensure_eq};

type R = Result<(), String>;

const FORMATS: [&str; 3] = ["stl", "sta", "sty"];
/// Places in the scratch directory; the first is the default.
const PLACES: [&str; 5] = ["stl", "out", "two words", "dé/ep.er", "out/--stl"];
const FILES: [&str; 6] =
    ["CommitVerify@0.1.0.stl", "CommitVerify@0.1.0.sta", "CommitVerify@0.1.0.sty", "Merkle.vesper", "CommitVerify@0.2.0.stl", "notes.txt"];
const NOBODY: u32 = 65534;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// A file which is there before.
    Put { place: u8, file: u8, what: u8, len: u16 },
    /// A run: the format with some dashes, and the destination, if it is given.
    Run { format: u8, dashes: u8, dest: Dest },
    /// Arguments which make no sense.
    Wrong(u8),
    Remove { place: u8, file: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Dest {
    /// No arguments at all
    Nothing,
    Default,
    Relative(u8, u8),
    Absolute(u8, u8),
    Here,
}

fn step() -> impl Strategy<Value = Step> {
    let dest = prop_oneof![
        1 => Just(Dest::Nothing),
        2 => Just(Dest::Default),
        3 => (0u8..5, 0u8..3).prop_map(|(p, s)| Dest::Relative(p, s)),
        3 => (0u8..5, 0u8..3).prop_map(|(p, s)| Dest::Absolute(p, s)),
        1 => Just(Dest::Here),
    ];
    prop_oneof![
        3 => (0u8..6, 0u8..6, 0u8..4, prop_oneof![0u16..300, 0u16..20_000]).prop_map(|(place, file, what, len)| Step::Put { place, file, what, len }),
        5 => (0u8..3, 0u8..3, dest).prop_map(|(format, dashes, dest)| Step::Run { format, dashes, dest }),
        1 => any::<u8>().prop_map(Step::Wrong),
        1 => (0u8..6, 0u8..6).prop_map(|(place, file)| Step::Remove { place, file }),
    ]
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Result<Scratch, String> {
        static NO: AtomicU32 = AtomicU32::new(0);
        let dir = std::env::temp_dir().join(format!("csv-c34-{}-{}", std::process::id(), NO.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&dir).map_err(|e| format!("{}: {e}", dir.display()))?;
        Ok(Scratch(dir))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

/// All the files below a directory
fn files(dir: &Path, out: &mut BTreeMap<PathBuf, Vec<u8>>) -> Result<(), String> {
    for e in std::fs::read_dir(dir).map_err(|e| e.to_string())? {
        let p = e.map_err(|e| e.to_string())?.path();
        if p.is_dir() {
            files(&p, out)?;
        } else {
            out.insert(p.clone(), std::fs::read(&p).map_err(|e| e.to_string())?);
        }
    }
    Ok(())
}

fn published(name: &str) -> Result<Vec<u8>, String> { std::fs::read(format!("/repo/stl/{name}")).map_err(|e| format!("stl/{name}: {e}")) }

pub fn c34(ctx: &mut Ctx) {
    let verif = std::env::var("CSV_VERIF").unwrap_or_else(|_| "/verif".into());
    let exe = PathBuf::from(verif).join(".build/commit-stl");
    let home = Scratch::new().expect("scratch directory");
    // Where an unprivileged user can run it
    let tool = home.0.join("commit-stl");
    std::fs::copy(&exe, &tool).expect("build.sh tool");
    for p in [&home.0, &tool] {
        std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).expect("permissions");
    }
    let tool = &tool;
    ctx.enumerate(
        "fresh",
        "any",
        || {
            let mut v = vec![];
            for format in 0..3u8 {
                for dest in [Dest::Nothing, Dest::Default, Dest::Relative(1, 0), Dest::Absolute(1, 0)] {
                    v.push(vec![Step::Run { format, dashes: 1, dest }]);
                }
            }
            v
        },
        |steps: &Vec<Step>, o| {
            check(tool, steps, o)?;
            o.nontrivial(true);
            Ok(())
        },
    );
    ctx.group("histories", "a run meets what was there before", 400, || prop::collection::vec(step(), 1..=8), |steps: &Vec<Step>, o| check(tool, steps, o));
}

fn check(tool: &Path, steps: &[Step], o: &mut Obs) -> R {
    let scratch = Scratch::new()?;
    let root = &scratch.0;
    let root_user = std::fs::metadata(root).map_err(|e| e.to_string())?.permissions().mode() != 0 && unsafe_uid(root);
    let own = |p: &Path| -> R {
        if root_user {
            chown(p, Some(NOBODY), Some(NOBODY)).map_err(|e| e.to_string())?;
        }
        Ok(())
    };
    own(root)?;
    for p in PLACES {
        let mut dir = root.clone();
        for part in Path::new(p) {
            dir.push(part);
            if !dir.exists() {
                std::fs::create_dir(&dir).map_err(|e| e.to_string())?;
                own(&dir)?;
            }
        }
    }
    let place = |n: u8| match PLACES.get(n as usize % 6) {
        Some(p) => root.join(p),
        None => root.clone(),
    };
    let mut state: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    let mut met = false;
    for (no, s) in steps.iter().enumerate() {
        match s {
            Step::Put { place: p, file, what, len } => {
                let name = FILES[*file as usize % FILES.len()];
                let genuine = published(FILES[*file as usize % 4])?;
                let data = match what {
                    0 => vec![b'x'; *len as usize],
                    1 => genuine[..(*len as usize).min(genuine.len())].to_vec(),
                    2 => [genuine, vec![b'\n'; *len as usize]].concat(),
                    _ => genuine.iter().rev().copied().collect(),
                };
                let path = place(*p).join(name);
                std::fs::write(&path, &data).map_err(|e| e.to_string())?;
                own(&path)?;
                state.insert(path, data);
            }
            Step::Remove { place: p, file } => {
                let path = place(*p).join(FILES[*file as usize % FILES.len()]);
                if state.remove(&path).is_some() {
                    std::fs::remove_file(&path).map_err(|e| e.to_string())?;
                }
            }
            Step::Run { format, dashes, dest } => {
                let format = FORMATS[*format as usize % 3];
                let arg = format!("{}{format}", "--".repeat(*dashes as usize));
                let end = |k: u8| ["", "/", "/."][k as usize % 3];
                let (args, dir) = match dest {
                    Dest::Nothing => (vec![], None),
                    Dest::Default => (vec![arg], Some(root.join("stl"))),
                    Dest::Relative(p, k) => {
                        let p = PLACES[*p as usize % 5];
                        (vec![arg, format!("{p}{}", end(*k))], Some(root.join(p)))
                    }
                    Dest::Absolute(p, k) => {
                        let p = root.join(PLACES[*p as usize % 5]);
                        (vec![arg, format!("{}{}", p.display(), end(*k))], Some(p))
                    }
                    Dest::Here => (vec![arg, ".".into()], Some(root.clone())),
                };
                let format = if args.is_empty() { "sty" } else { format };
                let library = format!("CommitVerify@0.1.0.{format}");
                let (ok, stdout, stderr) = run(tool, root, &args, root_user)?;
                ensure!(ok, "run {no} with {args:?} fails: {stderr}");
                let mut want = vec![(dir.clone().unwrap_or_else(|| root.clone()).join("Merkle.vesper"), published("Merkle.vesper")?)];
                match dir {
                    Some(dir) => {
                        want.push((dir.join(&library), published(&library)?));
                        ensure!(stdout.is_empty(), "run {no} with {args:?} prints something");
                    }
                    None => ensure!(stdout == published(&library)?, "run {no} prints another library than the published one"),
                }
                for (path, data) in want {
                    met |= state.insert(path, data).is_some();
                }
                o.label(format);
            }
            Step::Wrong(k) => {
                let args: Vec<String> = match k % 5 {
                    0 => vec!["--xml".into()],
                    1 => vec!["--stl".into(), "out".into(), "more".into()],
                    2 => vec!["".into(), "out".into()],
                    3 => vec!["--stlx".into(), "stl".into()],
                    _ => vec!["--".into()],
                };
                let (ok, ..) = run(tool, root, &args, root_user)?;
                ensure!(!ok, "run {no} with {args:?} succeeds");
                o.label("wrong arguments");
            }
        }
        let mut now = BTreeMap::new();
        files(root, &mut now)?;
        let names = |m: &BTreeMap<PathBuf, Vec<u8>>| m.keys().map(|p| p.strip_prefix(root).unwrap().display().to_string()).collect::<Vec<_>>();
        ensure_eq!(names(&now), names(&state), "files after step {no}");
        for (p, data) in &now {
            let want = &state[p];
            if data != want {
                let at = data.iter().zip(want).take_while(|(a, b)| a == b).count();
                return Err(format!(
                    "{} after step {no}: {} bytes instead of {}, different from byte {at} on",
                    p.strip_prefix(root).unwrap().display(),
                    data.len(),
                    want.len()
                ));
            }
        }
        o.evals(1);
    }
    o.nontrivial(met);
    o.sample(|| format!("{} steps, {} files", steps.len(), state.len()));
    Ok(())
}

/// Whether files here may be given to others
fn unsafe_uid(dir: &Path) -> bool {
    use std::os::unix::fs::MetadataExt;
    std::fs::metadata(dir).map(|m| m.uid() == 0).unwrap_or(false)
}

fn run(tool: &Path, dir: &Path, args: &[String], root_user: bool) -> Result<(bool, Vec<u8>, String), String> {
    let mut c = Command::new(tool);
    c.args(args).current_dir(dir).env_clear().stdin(Stdio::null());
    if root_user {
        c.uid(NOBODY).gid(NOBODY);
    }
    let out = c.output().map_err(|e| format!("the generator can't be run: {e}"))?;
    Ok((out.status.success(), out.stdout, String::from_utf8_lossy(&out.stderr).chars().take(300).collect()))
}
