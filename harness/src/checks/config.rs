//! C30: the same answers in every configuration the libraries can be built in.
//!
//! A small program (the probe) is built in all the configurations; it answers requests with everything
//! the libraries return for them. Lists of generated requests are given to all the programs, and the
//! answers are compared.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde_json::{json, Value};

use super::block::part;
use super::enc::mutation;
use crate::engine::{Ctx, Obs};
use crate::gen::{self, TreeSpec};
use crate::model::{self, hex, B32};
use crate::values::{self, Ty, Val};
use crate::ensure;

type R = Result<(), String>;

const FEATURES: [&str; 8] = ["core", "core-serde", "bare", "default", "all", "serde", "rand", "stl"];

struct Proc {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Proc {
    fn start(path: &PathBuf) -> Proc {
        let mut child = Command::new(path)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("{}: {e}", path.display()));
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        Proc { child, stdin, stdout }
    }
    fn ask(&mut self, line: &str) -> std::io::Result<String> {
        self.stdin.write_all(line.as_bytes())?;
        self.stdin.write_all(b"\n")?;
        self.stdin.flush()?;
        let mut s = String::new();
        if self.stdout.read_line(&mut s)? == 0 {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        Ok(s)
    }
}

thread_local! {
    static PROCS: RefCell<BTreeMap<String, Proc>> = const { RefCell::new(BTreeMap::new()) };
}

/// The configurations which differ most.
const MAIN: [&str; 6] = ["core-debug", "core-release", "bare-release", "default-debug", "all-debug", "all-release"];

fn configs(main: bool) -> Vec<String> {
    if main {
        return MAIN.iter().map(|s| s.to_string()).collect();
    }
    FEATURES.iter().flat_map(|f| [format!("{f}-debug"), format!("{f}-release")]).collect()
}

/// Answers of one configuration; a program which does not survive says so.
fn ask(config: &str, reqs: &str) -> Result<Vec<Value>, String> {
    let verif: PathBuf = std::env::var("CSV_VERIF").unwrap_or_else(|_| "/verif".into()).into();
    let path = verif.join(".build/probe").join(config);
    PROCS.with(|p| {
        let mut p = p.borrow_mut();
        let proc = p.entry(config.to_string()).or_insert_with(|| Proc::start(&path));
        match proc.ask(reqs) {
            Ok(s) => Ok(serde_json::from_str(&s).unwrap_or_else(|e| panic!("answer of the probe: {e}"))),
            Err(_) => {
                let st = proc.child.wait().map(|s| s.to_string()).unwrap_or_default();
                p.remove(config);
                Err(st)
            }
        }
    })
}

fn h(b: &B32) -> String { hex(&b.0) }

// ------------------------------------------------------------------------------------ requests

fn req<S: Strategy + 'static>(s: S, f: impl Fn(S::Value) -> Value + 'static) -> BoxedStrategy<Value> {
    s.prop_map(f).boxed()
}

fn source() -> BoxedStrategy<Value> {
    let any = prop_oneof![4 => gen::source(20, 0..=6), 1 => gen::source(3, 0..=0), 2 => gen::crowded()];
    req((any, prop::bool::weighted(0.05)), |(s, random)| {
        let m: Vec<_> = s.messages.iter().map(|(p, m)| json!([h(p), h(m)])).collect();
        json!(["source", s.min_depth.min(10), if random { None } else { s.entropy }, m])
    })
}

/// Sources which need large cofactors, and sources of hundreds of messages.
fn large_source() -> BoxedStrategy<Value> {
    let any = prop_oneof![2 => gen::colliding(3..=12, 502), 1 => gen::source(300, 0..=8), 1 => gen::crowded()];
    req(any, |s| {
        let m: Vec<_> = s.messages.iter().map(|(p, m)| json!([h(p), h(m)])).collect();
        json!(["source", s.min_depth.min(12), s.entropy, m])
    })
}

fn tree_spec() -> BoxedStrategy<TreeSpec> {
    prop_oneof![
        4 => gen::small_tree(0..=5, 10),
        2 => gen::deep_tree(0..=31, 8),
        1 => gen::deep_tree(28..=31, 6),
    ]
    .boxed()
}

fn tree() -> BoxedStrategy<Value> {
    req(gen::small_tree(0..=7, 10), |t| json!(["tree", hex(&t.build().encode()), 1]))
}

fn value() -> BoxedStrategy<Value> {
    let ok = |t: Ty| !matches!(t, Ty::MerkleNode | Ty::MerkleTree) && format!("{t:?}") != "NodeBranching";
    req((values::val(), prop::collection::vec(mutation(), 0..3)), move |(v, ms)| {
        let mut b = v.encode();
        for m in &ms {
            m.apply(&mut b);
        }
        match v.ty() {
            Ty::MerkleTree => json!(["tree", hex(&b), 0]),
            t if ok(t) => json!(["value", t.name(), hex(&b)]),
            _ => json!(["value", "Leaf", hex(&b)]),
        }
    })
}

/// Operations with blocks; the ids, blocks and proofs are mostly those of the tree.
fn block() -> BoxedStrategy<Value> {
    let op = (0u8..9, part(), gen::mask(), gen::b32(), gen::b32(), 0u8..8, gen::num64());
    req((tree_spec(), tree_spec(), part(), prop::collection::vec(op, 0..5)), |(t, t2, p, ops)| {
        let t = t.build();
        let t2 = t2.build();
        let leaves: Vec<_> = t.leaves.iter().map(|(p, x)| (*p, *x)).collect();
        let mut list = vec![];
        for (kind, p, mask, a, b, odd, seed) in ops {
            let (pos, (pid, msg)) = if leaves.is_empty() { (0, (a.0, b.0)) } else { leaves[seed as usize % leaves.len()] };
            let pid = if odd == 0 { a.0 } else { pid };
            let msg = if odd == 1 { b.0 } else { msg };
            let other = if odd == 2 { &t2 } else { &t };
            let proof = if odd == 3 { t.proof(model::mod_le(&a.0, model::factored(t.depth, t.cofactor))) } else { t.proof(pos) };
            list.push(match kind {
                0 | 1 => {
                    let mut keep: Vec<_> =
                        gen::subset(&t, mask).iter().map(|p| json!(hex(&t.leaves[p].0))).collect();
                    if odd == 0 {
                        keep.push(json!(hex(&a.0)));
                    }
                    json!(["except", keep])
                }
                2 => json!(["other", hex(&pid)]),
                3 | 4 => json!(["merge", hex(&p.of(other).encode())]),
                5 => json!(["path", hex(&proof.encode()), hex(&pid), hex(&msg)]),
                6 => json!(["with", hex(&proof.encode()), hex(&pid), hex(&msg)]),
                7 => json!(["proof", hex(&pid)]),
                _ if odd % 2 == 0 => json!(["proofs"]),
                _ => json!(["conceal"]),
            });
        }
        json!(["block", hex(&p.of(&t).encode()), list])
    })
}

fn convolve() -> BoxedStrategy<Value> {
    let any_proof = (any::<u32>(), any::<u16>(), prop::collection::vec(gen::b32(), 0..=31))
        .prop_map(|(pos, cofactor, path)| Val::Proof { pos, cofactor, path }.encode());
    let real = (tree_spec(), any::<u32>(), gen::cofactor(5), any::<bool>()).prop_map(|(t, pos, c, keep)| {
        let t = t.build();
        let m = model::factored(t.depth, t.cofactor);
        let mut p = t.proof(pos % m);
        if !keep {
            p.cofactor = c;
        }
        p.encode()
    });
    req((prop_oneof![any_proof, real], gen::b32(), gen::b32()), |(p, a, b)| {
        json!(["convolve", hex(&p), h(&a), h(&b)])
    })
}

fn merklize() -> BoxedStrategy<Value> {
    let kind = prop::sample::select(vec!["tiny", "small", "tinyset", "smallset", "large", "forest"]);
    req((kind, prop::collection::vec(prop_oneof![gen::num64(), 0u64..9], 0..40)), |(k, v)| json!(["merklize", k, v]))
}

fn node() -> BoxedStrategy<Value> {
    req((0u8..3, any::<u8>(), gen::b32(), gen::b32(), gen::b32()), |(k, d, w, a, b)| {
        json!(["node", k, d, h(&w), h(&a), h(&b)])
    })
}

fn data(max: usize) -> BoxedStrategy<String> {
    prop::collection::vec(any::<u8>(), 0..=max).prop_map(|v| hex(&v)).boxed()
}

fn engine() -> BoxedStrategy<Value> {
    let nums = || prop::collection::vec(prop_oneof![gen::num64(), 0u64..9], 0..20);
    let op = prop_oneof![
        req(gen::num64(), |x| json!(["elem", x])),
        req(data(40), |x| json!(["blob", x])),
        req((any::<u16>(), data(9), any::<Option<u32>>(), data(9)), |(a, b, c, d)| json!(["rec", a, b, c, d])),
        req((gen::b32(), gen::b32()), |(a, b)| json!(["leaf", h(&a), h(&b)])),
        req(any::<Option<u64>>(), |x| json!(["optelem", x])),
        req(prop::option::of(data(9)), |x| json!(["optblob", x])),
        req((any::<u8>(), gen::num64()), |(a, b)| json!(["hash", a, b])),
        Just(json!(["reserved"])).boxed(),
        req((any::<u8>(), data(9), any::<Option<u64>>()), |(a, b, c)| json!(["secret", a, b, c])),
        req(nums(), |x| json!(["merkle", x])),
        req(nums(), |x| json!(["list", x])),
        req(nums(), |x| json!(["set", x])),
        req(nums(), |x| json!(["map", x])),
        req((0u8..4, gen::num64(), data(9)), |(a, b, c)| json!(["kind", a, b, c])),
    ];
    req((0u8..4, prop::collection::vec(op, 0..10)), |(t, ops)| json!(["engine", t, ops]))
}

fn text() -> BoxedStrategy<Value> {
    let s = prop_oneof![
        3 => gen::b32().prop_map(|b| h(&b)),
        1 => gen::b32().prop_map(|b| h(&b).to_uppercase()),
        1 => "[0-9a-fA-F]{30,36}",
        1 => "[0-9a-g]{64}",
        1 => ".{0,40}",
    ];
    let ty = prop::sample::select(vec!["ProtocolId", "Message", "Commitment", "MerkleHash", "StrictHash"]);
    req((ty, s), |(t, s)| json!(["text", t, s]))
}

fn digest() -> BoxedStrategy<Value> {
    let data = prop_oneof![6 => data(40), 1 => data(400)];
    req((".{0,12}", prop::collection::vec((0u8..5, data), 0..5)), |(t, v)| json!(["digest", t, v]))
}

/// Depths of the leaves of a tree, from the left to the right.
fn buoy() -> BoxedStrategy<Value> {
    req((0u8..8, gen::num64()), |(depth, seed)| {
        fn go(d: u8, max: u8, s: &mut u64, out: &mut Vec<u8>) {
            *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            if d == max || (*s >> 60) % 4 == 0 {
                out.push(d);
            } else {
                go(d + 1, max, s, out);
                go(d + 1, max, s, out);
            }
        }
        let mut v = vec![];
        go(0, depth, &mut { seed }, &mut v);
        let top = v[0];
        json!(["buoy", top, v[1..]])
    })
}

fn list4() -> BoxedStrategy<Value> {
    let l = || prop::collection::vec(0u32..5, 0..3);
    req((l(), l(), l(), l()), |(a, b, c, d)| json!([a, b, c, d]))
}

fn status() -> BoxedStrategy<Value> {
    let op = prop_oneof![
        req((prop::sample::select(vec!["issue", "failure", "warning", "info", "from", "collect"]), 0u32..9), |(k, n)| json!([k, n])),
        req((prop::sample::select(vec!["merge", "into"]), list4()), |(k, l)| json!([k, l])),
    ];
    req(prop::collection::vec(op, 0..8), |ops| json!(["status", ops]))
}

fn validate() -> BoxedStrategy<Value> {
    let item = (list4(), prop::collection::vec(0u32..9, 0..4)).prop_map(|(l, s)| json!([l, s]));
    req((list4(), prop::collection::vec(item, 0..5), 0u8..8), |(l, i, m)| json!(["validate", l, i, m]))
}

fn request() -> BoxedStrategy<Value> {
    prop_oneof![
        6 => source(),
        3 => tree(),
        6 => value(),
        10 => block(),
        4 => convolve(),
        3 => merklize(),
        2 => node(),
        5 => engine(),
        2 => text(),
        2 => digest(),
        2 => buoy(),
        1 => req(data(3), |b| json!(["reserved", b])),
        1 => req(Just(()), |_| json!(["reserved", "5a5a"])),
        2 => req((any::<u32>(), 0u64..9, 0u64..99), |(a, b, c)| json!(["embed", a, b, c])),
        2 => req((0u64..99, 0u64..9), |(a, b)| json!(["commit", a, b])),
        4 => req((0u32..6, 0u8..6, 0u32..6, prop::collection::vec(0u16..10, 0..6), 0u16..6),
            |(a, b, c, s, m)| json!(["seal", a, b, c, s, m])),
        3 => req((any::<u32>(), 0u64..3, prop::collection::vec(0u8..40, 0..5), 0u64..3),
            |(a, b, s, m)| json!(["bare", a, b, s, m])),
        2 => status(),
        2 => validate(),
    ]
    .boxed()
}

/// Whether a configuration has an answer to the request.
fn applies(req: &Value, config: &str) -> bool {
    let stack = !config.starts_with("core");
    let random = config.starts_with("rand") || config.starts_with("all");
    match req[0].as_str().unwrap_or_default() {
        "status" | "validate" => stack,
        // documented: the entropy has to be given when there is no source of randomness
        "source" => random || !req[2].is_null(),
        _ => true,
    }
}

fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 600 {
        format!("{}…", s.chars().take(600).collect::<String>())
    } else {
        s
    }
}

fn compare(main: bool, reqs: &Vec<Value>, o: &mut Obs) -> R {
    let line = Value::from(reqs.clone()).to_string();
    let answers: Vec<(String, Result<Vec<Value>, String>)> =
        configs(main).into_iter().map(|c| (c.clone(), ask(&c, &line))).collect();
    o.evals(answers.len() * reqs.len());
    for (c, a) in &answers {
        if let Err(st) = a {
            let alive = answers.iter().find(|(_, a)| a.is_ok()).map(|(c, _)| c.as_str());
            // The same end in all the configurations is not a difference
            ensure!(alive.is_none(), "configuration {c} ends with {st}, configuration {} does not; requests {}",
                alive.unwrap_or_default(), short(&Value::from(reqs.clone())));
        }
    }
    let mut values = 0;
    for (i, r) in reqs.iter().enumerate() {
        let mut first: Option<(&str, &Value)> = None;
        for (c, a) in &answers {
            let Ok(a) = a else { continue };
            if !applies(r, c) {
                continue;
            }
            let a = &a[i];
            match first {
                None => first = Some((c, a)),
                Some((c0, a0)) if a0 != a => {
                    let (x, y) = (a0.as_array().unwrap(), a.as_array().unwrap());
                    let k = x.iter().zip(y).position(|(x, y)| x != y).unwrap_or(x.len().min(y.len()));
                    return Err(format!(
                        "answers differ at observation {k}:\n  {c0}: {}\n  {c}: {}\n  request {}",
                        short(x.get(k).unwrap_or(&Value::Null)),
                        short(y.get(k).unwrap_or(&Value::Null)),
                        short(r)
                    ));
                }
                _ => {}
            }
        }
        if let Some((_, a)) = first {
            let text = a.to_string();
            let panics = a.as_array().is_some_and(|a| a.last().is_some_and(|x| x == "PANIC"));
            let kind = r[0].as_str().unwrap_or_default();
            o.label(if panics { format!("{kind}: panic everywhere") } else { kind.to_string() });
            values += (text.len() > 8 && !panics) as usize;
        }
    }
    o.nontrivial(values > 1);
    o.sample(|| {
        let last = answers[0].1.as_ref().map(|a| short(&Value::from(a.clone()))).unwrap_or_default();
        format!("{} => {}", short(&Value::from(reqs.clone())), last.chars().take(200).collect::<String>())
    });
    Ok(())
}

pub fn c30(ctx: &mut Ctx) {
    ctx.group(
        "requests",
        "at least two of the requests are answered with values",
        1_600,
        || prop::collection::vec(request(), 1..6),
        |r, o| compare(true, r, o),
    );
    ctx.group(
        "blocks",
        "at least two of the requests are answered with values",
        320,
        || prop::collection::vec(block(), 2..3),
        |r, o| compare(true, r, o),
    );
    ctx.group(
        "large_sources",
        "at least two of the requests are answered with values",
        48,
        || prop::collection::vec(large_source(), 2..3),
        |r, o| compare(true, r, o),
    );
    ctx.group(
        "all-configurations",
        "at least two of the requests are answered with values",
        160,
        || prop::collection::vec(request(), 1..6),
        |r, o| compare(false, r, o),
    );
    ctx.enumerate(
        "layouts",
        "always: layouts, names, tags and dummy values",
        || vec![vec![json!(["layouts"]), json!(["layouts"])]],
        |r, o| compare(false, r, o),
    );
}
