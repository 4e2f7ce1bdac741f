//! Client-side validation: C26 (status), C27 (validation).

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Display};
use std::hash::{Hash, Hasher};

use client_side_validation::{
    ClientData, ClientSideValidate, SealIssue, SealResolver, Status, ValidationFailure, ValidationLog,
    ValidationReport, Validity,
};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::engine::{Ctx, Obs};
use crate::{ensure, ensure_eq};

type R = Result<(), String>;

macro_rules! entry {
    ($name:ident) => {
        #[derive(Clone, PartialEq, Eq, Hash, Debug, Default, Serialize, Deserialize)]
        pub struct $name(pub u32);
        impl Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, concat!(stringify!($name), " {}"), self.0)
            }
        }
    };
}
entry!(Failure);
entry!(Warning);
entry!(Info);

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default, Serialize, Deserialize)]
pub struct Issue {
    pub seal: u32,
    pub no: u32,
}
impl Display for Issue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "issue {} with {}", self.no, self.seal) }
}
impl std::error::Error for Issue {}
impl std::error::Error for Failure {}
impl ValidationLog for Issue {}
impl ValidationLog for Failure {}
impl ValidationFailure for Failure {}
impl SealIssue for Issue {
    type Seal = u32;
    fn seal(&self) -> &u32 { &self.seal }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Report;
impl ValidationReport for Report {
    type SealIssue = Issue;
    type Failure = Failure;
    type Warning = Warning;
    type Info = Info;
}
pub type St = Status<Report>;

/// Reference: lists in the order of reporting.
#[derive(Clone, PartialEq, Eq, Debug, Default, Serialize, Deserialize)]
pub struct Log {
    pub issues: Vec<(u32, u32)>,
    pub failures: Vec<u32>,
    pub warnings: Vec<u32>,
    pub info: Vec<u32>,
}
impl Log {
    pub fn status(&self) -> St {
        Status {
            seal_issues: self.issues.iter().map(|(seal, no)| Issue { seal: *seal, no: *no }).collect(),
            failures: self.failures.iter().map(|x| Failure(*x)).collect(),
            warnings: self.warnings.iter().map(|x| Warning(*x)).collect(),
            info: self.info.iter().map(|x| Info(*x)).collect(),
        }
    }
    pub fn of(s: &St) -> Log {
        Log {
            issues: s.seal_issues.iter().map(|i| (i.seal, i.no)).collect(),
            failures: s.failures.iter().map(|x| x.0).collect(),
            warnings: s.warnings.iter().map(|x| x.0).collect(),
            info: s.info.iter().map(|x| x.0).collect(),
        }
    }
    pub fn extend(&mut self, o: &Log) {
        self.issues.extend(&o.issues);
        self.failures.extend(&o.failures);
        self.warnings.extend(&o.warnings);
        self.info.extend(&o.info);
    }
    fn validity(&self) -> Validity {
        match (self.failures.is_empty(), self.issues.is_empty()) {
            (false, _) => Validity::Invalid,
            (true, false) => Validity::SealIssues,
            (true, true) => Validity::Valid,
        }
    }
}

fn rank(v: Validity) -> u8 {
    match v {
        Validity::Valid => 0,
        Validity::SealIssues => 1,
        Validity::Invalid => 2,
    }
}

/// A short log: values repeat often.
pub fn small_log() -> BoxedStrategy<Log> {
    let vals = || prop_oneof![6 => prop::collection::vec(0u32..5, 0..3), 6 => Just(vec![]), 1 => prop::collection::vec(0u32..5, 0..40)];
    (
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((0u32..4, 0u32..4), 0..3)],
        prop_oneof![2 => Just(vec![]), 1 => vals()],
        vals(),
        vals(),
    )
        .prop_map(|(issues, failures, warnings, info)| Log { issues, failures, warnings, info })
        .boxed()
}

/// A log with many entries, described by their numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LargeLog {
    issues: u16,
    failures: u16,
    warnings: u16,
    info: u16,
    seed: u64,
}
impl LargeLog {
    fn tiny(seed: u64) -> LargeLog {
        let n = |i: u64| (seed >> (8 * i) & 0xF == 0) as u16;
        LargeLog { issues: n(0), failures: n(1), warnings: n(2), info: n(3), seed }
    }
    fn most(&self) -> u16 { self.issues.max(self.failures).max(self.warnings).max(self.info) }
    pub fn log(&self) -> Log {
        let list = |n: u16, k: u64| (0..n as u64).map(|i| (self.seed ^ k).wrapping_mul(i + 1) as u32 % 97).collect::<Vec<_>>();
        Log {
            issues: list(self.issues, 1).into_iter().zip(0..).collect(),
            failures: list(self.failures, 2),
            warnings: list(self.warnings, 3),
            info: list(self.info, 4),
        }
    }
}
/// Numbers around those at which counters or buffers may change.
pub fn large() -> BoxedStrategy<u16> {
    prop_oneof![3 => 0u16..5, 2 => 250u16..260, 2 => 0u16..1200, 1 => 1015u16..1030, 1 => 4090u16..4100].boxed()
}
pub fn large_log() -> BoxedStrategy<LargeLog> {
    let none = || prop_oneof![2 => Just(0u16), 1 => large()];
    (none(), none(), large(), large(), any::<u64>())
        .prop_map(|(issues, failures, warnings, info, seed)| LargeLog { issues, failures, warnings, info, seed })
        .boxed()
}

/// A step of the history of a status.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Issue(u32, u32),
    Failure(u32),
    Warning(u32),
    Info(u32),
    /// The current status is added to
    Merge(Log),
    /// The current status is added to another one
    MergedInto(Log),
    /// Status collected from failures is added
    Collect(Vec<u32>),
    /// The failures (only) of the current status become a new status, which is added.
    Recollect,
    FromFailure(u32),
    SelfMerge,
    Clone,
    Json,
    Bincode,
    Cbor,
    Default,
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => (0u32..9, any::<u32>()).prop_map(|(a, b)| Op::Issue(a, b)),
        3 => (0u32..9).prop_map(Op::Failure),
        5 => (0u32..9).prop_map(Op::Warning),
        5 => (0u32..9).prop_map(Op::Info),
        4 => small_log().prop_map(Op::Merge),
        3 => small_log().prop_map(Op::MergedInto),
        2 => prop::collection::vec(0u32..9, 0..4).prop_map(Op::Collect),
        1 => Just(Op::Recollect),
        1 => (0u32..9).prop_map(Op::FromFailure),
        1 => Just(Op::SelfMerge),
        1 => Just(Op::Clone),
        1 => Just(Op::Json),
        1 => Just(Op::Bincode),
        1 => Just(Op::Cbor),
        2 => Just(Op::Default),
    ]
    .boxed()
}

fn hash(s: &St) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub fn c26(ctx: &mut Ctx) {
    ctx.group(
        "histories",
        "at least three steps",
        40_000,
        || (prop::collection::vec(op(), 0..24), 0u8..3),
        |c: &(Vec<Op>, u8), o| {
            o.nontrivial(c.0.len() >= 3);
            c26_check(c, o)
        },
    );
    ctx.group(
        "long_histories",
        "more than 255 entries of a kind",
        320,
        || prop::collection::vec(prop_oneof![3 => (large_log(), any::<bool>()).prop_map(Ok), 2 => op().prop_map(Err)], 1..8),
        |steps: &Vec<Result<(LargeLog, bool), Op>>, o| {
            o.nontrivial(steps.iter().any(|s| matches!(s, Ok((l, _)) if l.most() > 255)));
            o.sample(|| format!("{steps:?}"));
            let ops = steps
                .iter()
                .map(|s| match s {
                    Ok((l, false)) => Op::Merge(l.log()),
                    Ok((l, true)) => Op::MergedInto(l.log()),
                    Err(op) => op.clone(),
                })
                .collect();
            c26_check(&(ops, 0), o)
        },
    );
    ctx.group(
        "pairs",
        "the two statuses differ",
        40_000,
        || {
            prop_oneof![
                1 => (small_log(), small_log()),
                2 => (small_log(), any::<u8>()).prop_map(|(a, k)| {
                    // rearrangements and moves between the lists
                    let mut b = a.clone();
                    match k % 7 {
                        0 => b.warnings.reverse(),
                        1 => b.info.reverse(),
                        2 => b.failures.reverse(),
                        3 => b.issues.reverse(),
                        4 => std::mem::swap(&mut b.info, &mut b.warnings),
                        5 => std::mem::swap(&mut b.failures, &mut b.warnings),
                        _ => { if let Some(x) = b.info.last().copied() { b.info.push(x) } }
                    }
                    (a, b)
                }),
            ]
        },
        |(a, b): &(Log, Log), o| {
            o.nontrivial(a != b);
            let (x, y) = (a.status(), b.status());
            ensure_eq!(x == y, a == b, "equality of statuses {a:?} and {b:?}");
            if a == b {
                ensure_eq!(hash(&x), hash(&y), "digest of equal statuses");
            }
            ensure_eq!(x.validity(), a.validity(), "validity");
            ensure_eq!(y.validity(), b.validity(), "validity");
            Ok(())
        },
    );
    ctx.enumerate(
        "verdicts",
        "always: values of the verdicts",
        || vec![0u8],
        |_, o| {
            o.nontrivial(true);
            let all = [(Validity::Valid, 1, "valid"), (Validity::SealIssues, 0xFF, "unresolved seal issues"), (Validity::Invalid, 0, "invalid")];
            for (v, n, text) in all {
                ensure_eq!(v as u8, n, "numeric value of {v:?}");
                ensure_eq!(v.to_string(), text, "text of {v:?}");
                for (w, m, _) in all {
                    ensure_eq!(v == w, n == m, "equality of {v:?} and {w:?}");
                    ensure_eq!(v.cmp(&w).is_eq(), n == m, "comparison of {v:?} and {w:?}");
                }
            }
            Ok(())
        },
    );
}

/// An iterator which tells about its length what it is told.
struct Hinted<I>(I, (usize, Option<usize>));
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.1 }
}

fn c26_check((ops, start): &(Vec<Op>, u8), o: &mut Obs) -> R {
    let mut s = match start {
        0 => St::new(),
        1 => St::default(),
        _ => std::iter::empty().collect(),
    };
    let mut m = Log::default();
    ensure_eq!(s.validity(), Validity::Valid, "validity of an empty status");
    ensure_eq!(Log::of(&s), m, "empty status");
    for (i, op) in ops.iter().enumerate() {
        let before = rank(s.validity());
        match op {
            Op::Issue(a, b) => {
                let r = s.add_seal_issue(Issue { seal: *a, no: *b }).clone();
                m.issues.push((*a, *b));
                ensure_eq!(Log::of(&r), m, "status returned by an addition");
            }
            Op::Failure(x) => {
                let r = s.add_failure(Failure(*x)).clone();
                m.failures.push(*x);
                ensure_eq!(Log::of(&r), m, "status returned by an addition");
            }
            Op::Warning(x) => {
                let r = s.add_warning(Warning(*x)).clone();
                m.warnings.push(*x);
                ensure_eq!(Log::of(&r), m, "status returned by an addition");
                ensure_eq!(rank(s.validity()), before, "verdict after a warning");
            }
            Op::Info(x) => {
                let r = s.add_info(Info(*x)).clone();
                m.info.push(*x);
                ensure_eq!(Log::of(&r), m, "status returned by an addition");
                ensure_eq!(rank(s.validity()), before, "verdict after a note");
            }
            Op::Merge(l) => {
                s += l.status();
                m.extend(l);
            }
            Op::MergedInto(l) => {
                let mut t = l.status();
                t += s;
                s = t;
                let mut l = l.clone();
                l.extend(&m);
                m = l;
            }
            Op::Collect(v) => {
                let t: St = v.iter().map(|x| Failure(*x)).collect();
                let l = Log { failures: v.clone(), ..Log::default() };
                ensure_eq!(Log::of(&t), l, "status collected from failures");
                for (n, hint) in [(0, None), (0, Some(v.len() + 3)), (v.len(), None), (v.len() / 2, Some(v.len()))].into_iter().enumerate() {
                    let t: St = Hinted(v.iter().map(|x| Failure(*x)), hint).collect();
                    ensure_eq!(Log::of(&t), l, "status collected from failures of an unknown number ({n})");
                    ensure_eq!(t.validity(), l.validity(), "verdict of a status collected from failures ({n})");
                }
                s += t;
                m.extend(&l);
            }
            Op::Recollect => {
                let t: St = s.failures.iter().cloned().collect();
                s += t;
                m.failures.extend_from_within(..);
                if m.failures.len() > 4000 {
                    break;
                }
            }
            Op::FromFailure(x) => {
                let t = St::from_failure(Failure(*x));
                let l = Log { failures: vec![*x], ..Log::default() };
                ensure_eq!(Log::of(&t), l, "status from a failure");
                s += t;
                m.extend(&l);
            }
            Op::SelfMerge => {
                if m.info.len() + m.warnings.len() + m.failures.len() + m.issues.len() > 4000 {
                    continue;
                }
                s += s.clone();
                let l = m.clone();
                m.extend(&l);
            }
            Op::Clone => s = s.clone(),
            Op::Json => s = serde_json::from_str(&serde_json::to_string(&s).unwrap()).map_err(|e| e.to_string())?,
            Op::Bincode => s = bincode::deserialize(&bincode::serialize(&s).unwrap()).map_err(|e| e.to_string())?,
            Op::Cbor => {
                let mut v = vec![];
                ciborium::into_writer(&s, &mut v).unwrap();
                s = ciborium::from_reader(&v[..]).map_err(|e| e.to_string())?;
            }
            Op::Default => s += St::default(),
        }
        ensure_eq!(Log::of(&s), m, "status after step {i}: {op:?}");
        ensure_eq!(s.validity(), m.validity(), "verdict after step {i}: {op:?}");
        ensure!(rank(s.validity()) >= before, "verdict improves at step {i}: {op:?}");
        o.evals(1);
    }
    ensure!(s == m.status(), "equality with the directly constructed status");
    o.label(format!("{:?}", s.validity()));
    Ok(())
}

// ------------------------------------------------------------------------------------------ C27

thread_local! {
    static CALLS: RefCell<Vec<Step>> = const { RefCell::new(Vec::new()) };
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum Step {
    Set,
    Item(usize),
    Seal(u32),
}
fn call(s: Step) { CALLS.with(|c| c.borrow_mut().push(s)) }

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
    no: usize,
    log: Log,
    seals: Vec<u32>,
    /// Equal seals are one object in memory.
    #[serde(default)]
    shared: bool,
}
static POOL: [u32; 12] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Set {
    log: Log,
    /// Seals of the set as such: they belong to no item.
    own: Vec<u32>,
    items: Vec<Item>,
    /// Iteration order of the items is reversed.
    rev: bool,
    /// The items are visited twice.
    twice: bool,
}

impl<'a> ClientData<'a> for Item {
    type ValidationReport = Report;
    type SealIterator = std::vec::IntoIter<&'a u32>;
    fn single_use_seals(&'a self) -> Self::SealIterator {
        let find = |s: &'a u32| if self.shared { POOL.get(*s as usize).unwrap_or(s) } else { s };
        self.seals.iter().map(find).collect::<Vec<_>>().into_iter()
    }
    fn validate_internal_consistency(&'a self) -> St {
        call(Step::Item(self.no));
        self.log.status()
    }
}
impl<'a> ClientData<'a> for Set {
    type ValidationReport = Report;
    type SealIterator = std::slice::Iter<'a, u32>;
    fn single_use_seals(&'a self) -> Self::SealIterator { self.own.iter() }
    fn validate_internal_consistency(&'a self) -> St {
        call(Step::Set);
        self.log.status()
    }
}
impl Set {
    fn order(&self) -> Vec<&Item> {
        let mut v: Vec<&Item> = self.items.iter().collect();
        if self.rev {
            v.reverse();
        }
        if self.twice {
            v.extend_from_within(..);
        }
        v
    }
}
impl<'a> ClientSideValidate<'a> for Set {
    type ValidationItem = Item;
    type ValidationIter = std::vec::IntoIter<&'a Item>;
    fn validation_iter(&'a self) -> Self::ValidationIter { self.order().into_iter() }
}

/// The answer depends on the seal and on the history of the resolver.
#[derive(Clone, Debug, Default)]
struct Resolver {
    mode: u8,
    calls: u32,
    known: std::collections::BTreeSet<u32>,
}
impl Resolver {
    fn answer(&mut self, seal: u32) -> Option<(u32, u32)> {
        self.calls += 1;
        let fails = match self.mode % 5 {
            0 => false,
            1 => true,
            2 => seal % 3 == 0,
            3 => self.calls % 3 == 1,
            // A seal is resolved only at the first attempt
            _ => !self.known.insert(seal),
        };
        fails.then_some((seal, self.calls))
    }
}
impl SealResolver<u32> for Resolver {
    type Error = Issue;
    fn resolve_trust(&mut self, seal: &u32) -> Result<(), Issue> {
        call(Step::Seal(*seal));
        match self.answer(*seal) {
            Some((seal, no)) => Err(Issue { seal, no }),
            None => Ok(()),
        }
    }
}

/// Set whose data are its only item (the items have the type of the set), held by other containers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nested(Vec<Item>);
impl<'a> ClientData<'a> for Nested {
    type ValidationReport = Report;
    type SealIterator = std::iter::Flatten<std::vec::IntoIter<std::slice::Iter<'a, u32>>>;
    fn single_use_seals(&'a self) -> Self::SealIterator {
        self.0.iter().map(|i| i.seals.iter()).collect::<Vec<_>>().into_iter().flatten()
    }
    fn validate_internal_consistency(&'a self) -> St {
        call(Step::Set);
        let mut s = St::new();
        for i in &self.0 {
            s += i.log.status();
        }
        s
    }
}
impl<'a> ClientSideValidate<'a> for Nested {
    type ValidationItem = Nested;
    type ValidationIter = std::option::IntoIter<&'a Nested>;
    fn validation_iter(&'a self) -> Self::ValidationIter { Some(self).into_iter() }
}

fn item() -> BoxedStrategy<(Log, Vec<u32>)> {
    (small_log(), prop_oneof![6 => prop::collection::vec(0u32..12, 0..5), 1 => prop::collection::vec(any::<u32>(), 0..40)])
        .boxed()
}

pub fn c27(ctx: &mut Ctx) {
    ctx.group(
        "sets",
        "at least two items, with at least two seals in total",
        40_000,
        || {
            (
                small_log(),
                prop::collection::vec(0u32..12, 0..4),
                prop_oneof![8 => prop::collection::vec(item(), 0..6), 1 => prop::collection::vec(item(), 0..30)],
                any::<bool>(),
                prop::bool::weighted(0.1),
                0u8..5,
                any::<bool>(),
            )
                .prop_map(|(log, own, items, rev, twice, mode, shared)| {
                    let items = items.into_iter().enumerate().map(|(no, (log, seals))| Item { no, log, seals, shared }).collect();
                    (Set { log, own, items, rev, twice }, mode)
                })
        },
        |(set, mode): &(Set, u8), o| {
            o.nontrivial(set.items.len() > 1 && set.items.iter().map(|i| i.seals.len()).sum::<usize>() > 1);
            c27_check(set, *mode, o)
        },
    );
    ctx.group(
        "large_sets",
        "more than 255 items, seals of an item, or reports of a kind",
        320,
        || (large_log(), large(), large(), large(), 0u8..5, any::<u64>()),
        |(set, items, seals, wide, mode, seed): &(LargeLog, u16, u16, u16, u8, u64), o| {
            // Many items, one of which may have many seals and many reports
            let items = items % 3000;
            o.nontrivial(items > 255 || *seals > 255 || *wide > 255 || set.most() > 255);
            o.sample(|| format!("{items} items, one with {seals} seals, set log {set:?}, mode {mode}"));
            let big = (*seed % items.max(1) as u64) as usize;
            let wide = LargeLog { issues: wide % 500, failures: *wide, warnings: wide % 700, info: wide % 300, seed: *seed };
            let items = (0..items as usize)
                .map(|no| Item {
                    no,
                    log: if no == big { wide.log() } else { LargeLog::tiny(seed ^ no as u64).log() },
                    seals: if no == big {
                        (0..*seals as u32).map(|n| n.wrapping_mul(*seed as u32 | 1) % 1000).collect()
                    } else {
                        (0..(no % 3) as u32).map(|n| n + no as u32 % 50).collect()
                    },
                    shared: seed & 2 != 0,
                })
                .collect();
            let set = Set { log: set.log(), own: vec![], items, rev: seed & 1 == 1, twice: false };
            c27_check(&set, *mode, o)
        },
    );
    ctx.group(
        "single_item",
        "the item has seals",
        5_000,
        || {
            (prop::collection::vec(item(), 0..4), 0u8..5).prop_map(|(items, mode)| {
                (Nested(items.into_iter().enumerate().map(|(no, (log, seals))| Item { no, log, seals, shared: false }).collect()), mode)
            })
        },
        |(set, mode): &(Nested, u8), o| {
            let mut model = Resolver { mode: *mode, ..Default::default() };
            let mut resolver = model.clone();
            let mut log = Log::default();
            for i in &set.0 {
                log.extend(&i.log);
            }
            let mut want = log.clone();
            for s in set.0.iter().flat_map(|i| &i.seals) {
                o.nontrivial(true);
                if let Some(x) = model.answer(*s) {
                    want.issues.push(x);
                }
            }
            want.extend(&log);
            let got = set.client_side_validate(&mut resolver);
            compare(&got, &want)?;
            Ok(())
        },
    );
}

fn c27_check(set: &Set, mode: u8, o: &mut Obs) -> R {
    let mut model = Resolver { mode, ..Default::default() };
    let mut resolver = model.clone();
    let mut want = set.log.clone();
    let mut seals = vec![];
    for i in set.order() {
        for s in &i.seals {
            seals.push(*s);
            if let Some(x) = model.answer(*s) {
                want.issues.push(x);
            }
        }
        want.extend(&i.log);
    }
    o.label(format!("{:?}", want.validity()));
    CALLS.with(|c| c.borrow_mut().clear());
    let got = set.client_side_validate(&mut resolver);
    let calls = CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()));
    // what was consulted
    let asked: Vec<u32> = calls.iter().filter_map(|c| if let Step::Seal(s) = c { Some(*s) } else { None }).collect();
    ensure_eq!(asked, seals, "seals given to the resolver");
    let visited: Vec<usize> = calls.iter().filter_map(|c| if let Step::Item(s) = c { Some(*s) } else { None }).collect();
    ensure_eq!(visited, set.order().iter().map(|i| i.no).collect::<Vec<_>>(), "items whose consistency was checked");
    ensure_eq!(calls.iter().filter(|c| **c == Step::Set).count(), 1, "number of checks of the set");
    // what was reported
    compare(&got, &want)?;
    // The resolver goes on from where it was
    let mut again = want.clone();
    again.issues.clear();
    again.issues = set.log.issues.clone();
    for i in set.order() {
        for s in &i.seals {
            if let Some(x) = model.answer(*s) {
                again.issues.push(x);
            }
        }
        again.issues.extend(&i.log.issues);
    }
    let got = set.client_side_validate(&mut resolver.clone());
    compare(&got, &again)?;
    o.evals(1);
    Ok(())
}

fn compare(got: &St, want: &Log) -> R {
    let log = Log::of(got);
    ensure_eq!(log.failures, want.failures, "failures");
    ensure_eq!(log.warnings, want.warnings, "warnings");
    ensure_eq!(log.info, want.info, "notes");
    ensure_eq!(log.issues, want.issues, "seal issues");
    ensure_eq!(got.validity(), want.validity(), "verdict");
    Ok(())
}
