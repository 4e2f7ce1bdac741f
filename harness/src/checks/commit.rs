//! Commit engine, derived encodings, layouts, digests, reserved bytes: C12, C13, C14, C15, C22.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::{Confined, TinyVec};
use commit_verify::mpc::{Leaf, MerkleBlock, MerkleConcealed, MerkleTree};
use commit_verify::{
    CommitColType, CommitEncode, CommitEngine, CommitId, CommitStep, CommitmentId,
    CommitmentLayout, Conceal, DigestExt, MerkleNode, ReservedBytes, Ripemd160, Sha256,
};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use sha2::Digest;
use strict_encoding::{StrictDumb, StrictType};

use crate::engine::{guard, Ctx, Obs};
use crate::gen;
use crate::model::{self, B32, H};
use crate::types::*;
use crate::ut::{self, enc};
use crate::{ensure, ensure_eq};

type R = Result<(), String>;

const U8: usize = u8::MAX as usize;
const U16: usize = u16::MAX as usize;
const U24: usize = (1 << 24) - 1;
const U32: usize = u32::MAX as usize;
const U64: usize = u64::MAX as usize;

// --------------------------------------------------------------------------- generated values

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RecSpec {
    a: u16,
    b: Vec<u8>,
    c: Option<u32>,
    d: Vec<u8>,
}

impl RecSpec {
    pub fn rec(&self) -> Rec { Rec { a: self.a, b: Blob::new(&self.b), c: self.c, d: Blob::new(&self.d) } }
}

fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop::collection::vec(any::<u8>(), 0..=max).boxed()
}

pub fn rec_spec() -> BoxedStrategy<RecSpec> {
    (any::<u16>(), prop_oneof![8 => bytes(12), 1 => bytes(255)], any::<Option<u32>>(), bytes(6))
        .prop_map(|(a, b, c, d)| RecSpec { a, b, c, d })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum KindSpec {
    Void,
    Num(u16),
    Pair(u8, Vec<u8>),
    Nested(u8, i64, u64, Option<u64>),
}

impl KindSpec {
    fn kind(&self) -> Kind {
        match self {
            KindSpec::Void => Kind::Void,
            KindSpec::Num(n) => Kind::Num(*n),
            KindSpec::Pair(x, y) => Kind::Pair { x: *x, y: Blob::new(y) },
            KindSpec::Nested(a, b, c, e) => Kind::Nested(tup(*a, *b, *c), e.map(Elem)),
        }
    }
}

fn kind_spec() -> BoxedStrategy<KindSpec> {
    prop_oneof![
        1 => Just(KindSpec::Void),
        3 => any::<u16>().prop_map(KindSpec::Num),
        3 => (any::<u8>(), bytes(10)).prop_map(|(a, b)| KindSpec::Pair(a, b)),
        3 => (any::<u8>(), any::<i64>(), gen::num64(), any::<Option<u64>>()).prop_map(|(a, b, c, d)| KindSpec::Nested(a, b, c, d)),
    ]
    .boxed()
}

fn tup(a: u8, b: i64, c: u64) -> Tup { Tup(a, b, (c as u128) << 31 ^ c as u128) }

// ------------------------------------------------------------------------------------------ C12

/// A step of a commitment program.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Elem(u64),
    Raw16(u16),
    Blob(Vec<u8>),
    Rec(RecSpec),
    Kind(KindSpec),
    Leaf(B32, B32),
    OptElem(Option<u64>),
    OptBlob(Option<Vec<u8>>),
    HashTup(u8, i64, u64),
    HashBlob(Vec<u8>),
    HashReserved,
    MerkleList(Vec<u64>, u8),
    MerkleSet(Vec<u64>, u8),
    MerkleForest(Vec<u64>),
    Secret(u8, Vec<u8>, Option<u64>),
    /// Bounds are selected from a list.
    List(Vec<u64>, u8),
    BlobList(Vec<Vec<u8>>, u8),
    Set(Vec<u64>, u8),
    Map(Vec<(u64, Vec<u8>)>, u8),
    NumMap(Vec<(u8, u16)>, u8),
    /// Keys and values of one type.
    SameMap(Vec<(u64, u64)>, u8),
    /// List, set or map of anonymous types.
    Nums(Vec<u32>, u8),
    /// A step over a large value: kind, number of bytes or elements, and a seed of the content.
    Bulk(u8, u32, u64),
}

/// Sizes around those at which encodings and buffers change.
fn large() -> BoxedStrategy<u32> {
    prop_oneof![
        6 => prop::sample::select(vec![255u32, 256, 1 << 12, 1 << 13, 1 << 15, 1 << 16]).prop_flat_map(|n| n - 5..=n + 5),
        6 => 0u32..200_000,
    ]
    .boxed()
}
fn huge() -> BoxedStrategy<u32> { prop_oneof![1 => (1u32 << 24) - 5..=(1 << 24) + 5, 1 => 0u32..20_000_000].boxed() }
fn blob(n: u32, seed: u64) -> Vec<u8> {
    let mut x = seed | 1;
    (0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 56) as u8 }).collect()
}

fn op() -> BoxedStrategy<Op> {
    use Op::*;
    let nums = || {
        prop_oneof![6 => prop::collection::vec(prop_oneof![gen::num64(), 0u64..600], 0..=8), 1 => prop::collection::vec(0u64..600, 0..=255)]
    };
    prop_oneof![
        gen::num64().prop_map(Elem),
        any::<u16>().prop_map(Raw16),
        bytes(12).prop_map(Blob),
        rec_spec().prop_map(Rec),
        kind_spec().prop_map(Kind),
        (gen::b32(), gen::b32()).prop_map(|(a, b)| Leaf(a, b)),
        any::<Option<u64>>().prop_map(OptElem),
        prop::option::of(bytes(5)).prop_map(OptBlob),
        (any::<u8>(), any::<i64>(), gen::num64()).prop_map(|(a, b, c)| HashTup(a, b, c)),
        bytes(20).prop_map(HashBlob),
        Just(HashReserved),
        (nums(), any::<u8>()).prop_map(|(a, b)| MerkleList(a, b)),
        (nums(), any::<u8>()).prop_map(|(a, b)| MerkleSet(a, b)),
        nums().prop_map(MerkleForest),
        (any::<u8>(), bytes(12), any::<Option<u64>>()).prop_map(|(a, b, c)| Secret(a, b, c)),
        (nums(), any::<u8>()).prop_map(|(a, b)| List(a, b)),
        (prop::collection::vec(bytes(6), 0..6), any::<u8>()).prop_map(|(a, b)| BlobList(a, b)),
        (nums(), any::<u8>()).prop_map(|(a, b)| Set(a, b)),
        (prop::collection::vec((gen::num64(), bytes(4)), 0..6), any::<u8>()).prop_map(|(a, b)| Map(a, b)),
        (prop::collection::vec(any::<(u8, u16)>(), 0..6), any::<u8>()).prop_map(|(a, b)| NumMap(a, b)),
        (prop::collection::vec((gen::num64(), gen::num64()), 0..6), any::<u8>()).prop_map(|(a, b)| SameMap(a, b)),
        (prop::collection::vec(any::<u32>(), 0..6), any::<u8>()).prop_map(|(a, b)| Nums(a, b)),
    ]
    .boxed()
}

/// A step of the model: the bytes hashed and the record in the layout.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Step {
    bytes: Vec<u8>,
    /// Predicate of the step.
    what: &'static str,
    ty: String,
    key: Option<String>,
    bounds: Option<(u64, u64)>,
}

impl Step {
    fn new<T: StrictType>(what: &'static str, bytes: Vec<u8>) -> Step {
        Step { bytes, what, ty: strict_name::<T>(), key: None, bounds: None }
    }
    fn of(s: &CommitStep) -> Step {
        let (what, ty, key, bounds) = match s {
            CommitStep::Serialized(t) => ("serialized", t, None, None),
            CommitStep::Hashed(t) => ("hashed", t, None, None),
            CommitStep::Merklized(t) => ("merklized", t, None, None),
            CommitStep::Concealed(t) => ("concealed", t, None, None),
            CommitStep::Collection(CommitColType::List, s, t) => ("list", t, None, Some((s.min, s.max))),
            CommitStep::Collection(CommitColType::Set, s, t) => ("set", t, None, Some((s.min, s.max))),
            CommitStep::Collection(CommitColType::Map { key }, s, t) => ("map", t, Some(key.to_string()), Some((s.min, s.max))),
        };
        Step { bytes: vec![], what, ty: ty.to_string(), key, bounds }
    }
    fn sans(&self) -> Step { Step { bytes: vec![], ..self.clone() } }
    /// Name without the library.
    fn short(name: &str) -> &str { name.split('.').next_back().unwrap() }
    /// Lines of the textual form.
    fn render(&self, out: &mut String) {
        let s = Step::short(&self.ty);
        match self.what {
            "concealed" => out.push_str(&format!("  concealed {s}, concealed {s}\n")),
            w => {
                out.push_str(&format!("  {w} {s}"));
                if let Some((min, max)) = self.bounds {
                    let max = match max {
                        0xFF => "MAX8".into(),
                        0xFFFF => "MAX16".into(),
                        0xFFFFFF => "MAX24".into(),
                        0xFFFFFFFF => "MAX32".into(),
                        u64::MAX => "MAX64".into(),
                        n => n.to_string(),
                    };
                    out.push_str(&format!(", len {min}..{max}\n"));
                    match &self.key {
                        None => out.push_str(&format!("    element {s}\n")),
                        Some(k) => out.push_str(&format!("    mapKey {}\n    mapValue {s}\n", Step::short(k))),
                    }
                } else {
                    out.push('\n')
                }
            }
        }
    }
}

/// Calls `$f` with a collection bounded by one of the listed bounds, falling back to the last one.
macro_rules! bounded {
    ($e:ident, $f:ident, $sel:expr, $items:expr, $col:ty; $($i:expr => $min:expr, $max:expr);+ $(;)?) => {{
        let items: $col = $items;
        let n = items.len();
        const B: &[(usize, usize)] = &[$(($min, $max)),+];
        let mut k = *$sel as usize % B.len();
        if n < B[k].0 || n > B[k].1 {
            k = 0;
        }
        $(
            if k == $i {
                $e.$f(&Confined::<$col, { $min }, { $max }>::try_from(items.clone()).expect("bounds"));
            }
        )+
        B[k]
    }};
}

macro_rules! bounded_merkle {
    ($e:ident, $sel:expr, $items:expr, $col:ty) => {{
        let items: $col = $items;
        match $sel % 4 {
            0 => $e.commit_to_merkle(&Confined::<$col, 0, U8>::try_from(items).expect("bounds")),
            1 => $e.commit_to_merkle(&Confined::<$col, 0, U16>::try_from(items).expect("bounds")),
            2 => $e.commit_to_merkle(&Confined::<$col, 0, U32>::try_from(items).expect("bounds")),
            _ if items.is_empty() => $e.commit_to_merkle(&Confined::<$col, 0, U16>::try_from(items).expect("bounds")),
            _ => $e.commit_to_merkle(&Confined::<$col, 1, U16>::try_from(items).expect("bounds")),
        }
    }};
}

impl Op {
    /// Performs the step on the engine and returns what it must have done.
    fn run(&self, e: &mut CommitEngine) -> Step {
        let root = |items: &[u64]| -> Vec<u8> {
            let l: Vec<H> = items.iter().map(|x| model::tagged(model::TAG_MERKLE, &Elem(*x).canon())).collect();
            model::merklize(&l).to_vec()
        };
        match self {
            Op::Elem(n) => {
                e.commit_to_serialized(&Elem(*n));
                Step::new::<Elem>("serialized", n.canon())
            }
            Op::Raw16(n) => {
                e.commit_to_serialized(n);
                Step::new::<u16>("serialized", n.canon())
            }
            Op::Blob(b) => {
                e.commit_to_serialized(&Blob::new(b));
                Step::new::<Blob>("serialized", Blob::new(b).canon())
            }
            Op::Rec(r) => {
                e.commit_to_serialized(&r.rec());
                Step::new::<Rec>("serialized", r.rec().canon())
            }
            Op::Kind(k) => {
                e.commit_to_serialized(&k.kind());
                Step::new::<Kind>("serialized", k.kind().canon())
            }
            Op::Leaf(p, m) => {
                e.commit_to_serialized(&ut::inhabited(&p.0, &m.0));
                Step::new::<Leaf>("serialized", model::leaf_bytes(&p.0, &m.0))
            }
            Op::OptElem(x) => {
                e.commit_to_option(&x.map(Elem));
                Step::new::<Elem>("serialized", x.canon())
            }
            Op::OptBlob(x) => {
                let x = x.as_ref().map(|b| Blob::new(b));
                e.commit_to_option(&x);
                Step::new::<Blob>("serialized", x.canon())
            }
            Op::HashTup(a, b, c) => {
                let t = tup(*a, *b, *c);
                e.commit_to_hash(&t);
                Step::new::<Tup>("hashed", model::tagged(model::TAG_STRICT, &t.canon()).to_vec())
            }
            Op::HashBlob(b) => {
                let b = Blob::new(b);
                e.commit_to_hash(&b);
                Step::new::<Blob>("hashed", model::tagged(model::TAG_STRICT, &b.canon()).to_vec())
            }
            Op::HashReserved => {
                e.commit_to_hash(&ReservedBytes::<3, 9>::default());
                Step::new::<ReservedBytes<3, 9>>("hashed", model::tagged(model::TAG_STRICT, &[9; 3]).to_vec())
            }
            Op::MerkleList(items, sel) => {
                let v: Vec<Elem> = items.iter().map(|x| Elem(*x)).collect();
                bounded_merkle!(e, sel, v, Vec<Elem>);
                Step::new::<Elem>("merklized", root(items))
            }
            Op::MerkleSet(items, sel) => {
                let set: BTreeSet<u64> = items.iter().copied().collect();
                let v: BTreeSet<Elem> = set.iter().map(|x| Elem(*x)).collect();
                bounded_merkle!(e, sel, v, BTreeSet<Elem>);
                Step::new::<Elem>("merklized", root(&set.into_iter().collect::<Vec<_>>()))
            }
            Op::MerkleForest(items) => {
                let f = Forest { salt: items.len() as u16, items: TinyVec::try_from_iter(items.iter().map(|x| Elem(*x))).unwrap() };
                e.commit_to_merkle(&f);
                Step::new::<Elem>("merklized", root(items))
            }
            Op::Secret(kind, data, note) => {
                let s = Secret { kind: *kind, data: Blob::new(data), note: *note };
                e.commit_to_concealed(&s);
                Step::new::<Secret>("concealed", s.hidden().canon())
            }
            Op::List(items, sel) => {
                let v: Vec<Elem> = items.iter().map(|x| Elem(*x)).collect();
                let (min, max) = bounded!(e, commit_to_linear_list, sel, v.clone(), Vec<Elem>;
                    0 => 0, U8; 1 => 1, U8; 2 => 0, U16; 3 => 1, U16; 4 => 0, U24; 5 => 3, U32; 6 => 0, U64; 7 => 2, 7; 8 => 0, 300; 9 => 0, 256; 10 => 4, U24; 11 => 255, U8);
                let mut s = Step::new::<Elem>("list", canon_list(v.iter(), max));
                s.bounds = Some((min as u64, max as u64));
                s
            }
            Op::BlobList(items, sel) => {
                let v: Vec<Blob> = items.iter().map(|x| Blob::new(x)).collect();
                let (min, max) = bounded!(e, commit_to_linear_list, sel, v.clone(), Vec<Blob>;
                    0 => 0, U8; 1 => 1, U8; 2 => 0, U16; 3 => 0, 6; 4 => 2, U32);
                let mut s = Step::new::<Blob>("list", canon_list(v.iter(), max));
                s.bounds = Some((min as u64, max as u64));
                s
            }
            Op::Set(items, sel) => {
                let v: BTreeSet<Elem> = items.iter().map(|x| Elem(*x)).collect();
                let (min, max) = bounded!(e, commit_to_linear_set, sel, v.clone(), BTreeSet<Elem>;
                    0 => 0, U8; 1 => 1, U8; 2 => 0, U16; 3 => 1, U16; 4 => 0, U24; 5 => 0, U32; 6 => 0, U64; 7 => 2, 7; 8 => 0, 300; 9 => 3, U16; 10 => 2, U64);
                let mut s = Step::new::<Elem>("set", canon_list(v.iter(), max));
                s.bounds = Some((min as u64, max as u64));
                s
            }
            Op::Map(items, sel) => {
                let v: BTreeMap<Elem, Blob> = items.iter().map(|(k, b)| (Elem(*k), Blob::new(b))).collect();
                let (min, max) = bounded!(e, commit_to_linear_map, sel, v.clone(), BTreeMap<Elem, Blob>;
                    0 => 0, U8; 1 => 1, U8; 2 => 0, U16; 3 => 1, U24; 4 => 0, U32; 5 => 0, U64; 6 => 1, 500; 7 => 2, 10; 8 => 3, U16; 9 => 4, U64);
                let mut bytes = len_prefix(v.len(), max);
                for (k, x) in &v {
                    bytes.extend(k.canon());
                    bytes.extend(x.canon());
                }
                let mut s = Step::new::<Blob>("map", bytes);
                s.key = Some(strict_name::<Elem>());
                s.bounds = Some((min as u64, max as u64));
                s
            }
            Op::NumMap(items, sel) => {
                let v: BTreeMap<u8, u16> = items.iter().copied().collect();
                let (min, max) = bounded!(e, commit_to_linear_map, sel, v.clone(), BTreeMap<u8, u16>;
                    0 => 0, U8; 1 => 0, U16; 2 => 1, 6; 3 => 2, U32; 4 => 3, 5);
                let mut bytes = len_prefix(v.len(), max);
                for (k, x) in &v {
                    bytes.extend(k.canon());
                    bytes.extend(x.canon());
                }
                let mut s = Step::new::<u16>("map", bytes);
                s.key = Some(strict_name::<u8>());
                s.bounds = Some((min as u64, max as u64));
                s
            }
            Op::SameMap(items, sel) => {
                let v: BTreeMap<Elem, Elem> = items.iter().map(|(k, x)| (Elem(*k), Elem(*x))).collect();
                let (min, max) = bounded!(e, commit_to_linear_map, sel, v.clone(), BTreeMap<Elem, Elem>;
                    0 => 0, U8; 1 => 0, U16; 2 => 1, 6; 3 => 2, U32; 4 => 3, 5);
                let mut bytes = len_prefix(v.len(), max);
                for (k, x) in &v {
                    bytes.extend(k.canon());
                    bytes.extend(x.canon());
                }
                let mut s = Step::new::<Elem>("map", bytes);
                s.key = Some(strict_name::<Elem>());
                s.bounds = Some((min as u64, max as u64));
                s
            }
            Op::Nums(items, sel) if sel % 3 == 0 => {
                let (min, max) = bounded!(e, commit_to_linear_list, sel, items.clone(), Vec<u32>;
                    0 => 0, U8; 1 => 0, U16; 2 => 1, 6; 3 => 2, U32);
                let mut s = Step::new::<u32>("list", canon_list(items.iter(), max));
                s.bounds = Some((min as u64, max as u64));
                s
            }
            Op::Nums(items, sel) if sel % 3 == 1 => {
                let v: BTreeSet<u32> = items.iter().copied().collect();
                let (min, max) = bounded!(e, commit_to_linear_set, sel, v.clone(), BTreeSet<u32>;
                    0 => 0, U8; 1 => 0, U16; 2 => 1, 6; 3 => 2, U32);
                let mut s = Step::new::<u32>("set", canon_list(v.iter(), max));
                s.bounds = Some((min as u64, max as u64));
                s
            }
            Op::Nums(items, sel) => {
                let v: BTreeMap<u32, u32> = items.iter().map(|x| (*x, x.rotate_left(7))).collect();
                let (min, max) = bounded!(e, commit_to_linear_map, sel, v.clone(), BTreeMap<u32, u32>;
                    0 => 0, U8; 1 => 0, U16; 2 => 1, 6; 3 => 2, U32);
                let mut bytes = len_prefix(v.len(), max);
                for (k, x) in &v {
                    bytes.extend(k.canon());
                    bytes.extend(x.canon());
                }
                let mut s = Step::new::<u32>("map", bytes);
                s.key = Some(strict_name::<u32>());
                s.bounds = Some((min as u64, max as u64));
                s
            }
            Op::Bulk(kind, n, seed) => {
                let bulk = |n| Bulk::new(blob(n, *seed));
                let bounds = Some((0, U32 as u64));
                match kind % 8 {
                    0 => {
                        let b = bulk(*n);
                        e.commit_to_serialized(&b);
                        Step::new::<Bulk>("serialized", b.canon())
                    }
                    1 => {
                        let b = Some(bulk(*n));
                        e.commit_to_option(&b);
                        Step::new::<Bulk>("serialized", b.canon())
                    }
                    2 => {
                        let b = bulk(*n);
                        e.commit_to_hash(&b);
                        Step::new::<Bulk>("hashed", model::tagged(model::TAG_STRICT, &b.canon()).to_vec())
                    }
                    3 => {
                        let b = bulk(*n);
                        e.commit_to_concealed(&b);
                        Step::new::<Bulk>("concealed", b.conceal().canon())
                    }
                    4 => {
                        let v: Vec<Elem> = (0..*n as u64 / 8).map(|i| Elem(seed.wrapping_mul(i))).collect();
                        let bytes = canon_list(v.iter(), U32);
                        e.commit_to_linear_list(&Confined::<Vec<Elem>, 0, U32>::try_from(v).expect("bounds"));
                        Step { bounds, ..Step::new::<Elem>("list", bytes) }
                    }
                    5 => {
                        let v: BTreeSet<Elem> = (0..*n as u64 / 8).map(|i| Elem((seed | 1).wrapping_mul(i))).collect();
                        let bytes = canon_list(v.iter(), U32);
                        e.commit_to_linear_set(&Confined::<BTreeSet<Elem>, 0, U32>::try_from(v).expect("bounds"));
                        Step { bounds, ..Step::new::<Elem>("set", bytes) }
                    }
                    6 => {
                        let v: BTreeMap<u32, u64> = (0..n / 12).map(|i| (i.wrapping_mul(*seed as u32 | 1), seed ^ i as u64)).collect();
                        let mut bytes = len_prefix(v.len(), U32);
                        for (k, x) in &v {
                            bytes.extend(k.canon());
                            bytes.extend(x.canon());
                        }
                        e.commit_to_linear_map(&Confined::<BTreeMap<u32, u64>, 0, U32>::try_from(v).expect("bounds"));
                        Step { bounds, key: Some(strict_name::<u32>()), ..Step::new::<u64>("map", bytes) }
                    }
                    _ => {
                        // a few large elements
                        let v: Vec<Bulk> = (0..3).map(|i| bulk(n / 3 + i)).collect();
                        let bytes = canon_list(v.iter(), U32);
                        e.commit_to_linear_list(&Confined::<Vec<Bulk>, 0, U32>::try_from(v).expect("bounds"));
                        Step { bounds, ..Step::new::<Bulk>("list", bytes) }
                    }
                }
            }
        }
    }
}

const TAGS: [&str; 6] = [
    "",
    "urn:csv-test:engine#1",
    model::TAG_MERKLE,
    model::TAG_STRICT,
    "a tag which is longer than a single block of the hash function, which has the size of 64 bytes",
    "\u{1F980}",
];

pub fn c12(ctx: &mut Ctx) {
    ctx.group(
        "programs",
        "two or more steps",
        20_000,
        || {
            (0u8..6, prop_oneof![6 => prop::collection::vec(op(), 0..=8), 1 => prop::collection::vec(op(), 20..=60)], gen::num64())
        },
        c12_check,
    );
    ctx.group(
        "long_programs",
        "two or more steps",
        64,
        || {
            let small = prop_oneof![
                gen::num64().prop_map(Op::Elem),
                any::<u16>().prop_map(Op::Raw16),
                any::<Option<u64>>().prop_map(Op::OptElem),
            ];
            (0u8..6, prop::collection::vec(small, 254..=255), gen::num64())
        },
        c12_check,
    );
    let bulk = |size: fn() -> BoxedStrategy<u32>, max: usize| {
        move || {
            (0u8..6, prop::collection::vec((any::<u8>(), size(), gen::num64()), 1..=max))
                .prop_map(|(tag, v)| (tag, v.into_iter().map(|(k, n, s)| Op::Bulk(k, n, s)).collect::<Vec<_>>(), 0u64))
        }
    };
    let bulk_check = |c: &(u8, Vec<Op>, u64), o: &mut Obs| {
        o.nontrivial(c.1.iter().any(|op| matches!(op, Op::Bulk(_, n, _) if *n > 255)));
        o.sample(|| format!("tag {}, steps (kind, size, seed) {:?}", c.0, c.1));
        c12_check(c, o)
    };
    ctx.group("large_values", "a step over at least 256 bytes", 600, bulk(large, 3), bulk_check);
    ctx.group("huge_values", "a step over at least 256 bytes", 24, bulk(huge, 1), bulk_check);
    ctx.group(
        "reordered",
        "the programs hash different data",
        8_000,
        || (prop::collection::vec(op(), 2..=5), 0usize..5, 0usize..5),
        |(ops, i, j): &(Vec<Op>, usize, usize), o| {
            let mut swapped = ops.clone();
            let n = ops.len();
            swapped.swap(i % n, j % n);
            let run = |ops: &[Op]| {
                let mut e = CommitEngine::new(TAGS[1]);
                let steps: Vec<Step> = ops.iter().map(|op| op.run(&mut e)).collect();
                let bytes: Vec<u8> = steps.iter().flat_map(|s| s.bytes.clone()).collect();
                let (d, l) = e.finish_layout();
                (bytes, DigestExt::finish(d), l)
            };
            let ((ba, da, la), (bb, db, lb)) = (run(ops), run(&swapped));
            ensure_eq!(da == db, ba == bb, "equality of digests");
            ensure_eq!(la.len(), lb.len(), "number of steps");
            o.nontrivial(ba != bb);
            Ok(())
        },
    );
}

fn c12_check(c: &(u8, Vec<Op>, u64), o: &mut Obs) -> R {
    let (tag, ops, probe) = c;
    let tag = TAGS[*tag as usize % TAGS.len()];
    o.nontrivial(ops.len() > 1);
    let mut e = CommitEngine::new(tag);
    let mut hasher = model::tagged_engine(tag.as_bytes());
    let mut steps: Vec<Step> = vec![];
    let check = |e: &CommitEngine, steps: &[Step], hasher: &Sha256, at: usize| -> R {
        let want: H = hasher.clone().finalize().into();
        let sans: Vec<Step> = steps.iter().map(Step::sans).collect();
        ensure_eq!(DigestExt::finish(e.clone().finish()), want, "digest after {at} steps");
        let (d, l) = e.clone().finish_layout();
        ensure_eq!(DigestExt::finish(d), want, "digest with the layout after {at} steps");
        ensure_eq!(l.iter().map(Step::of).collect::<Vec<_>>(), sans, "layout (finish_layout)");
        ensure_eq!(e.clone().into_layout().iter().map(Step::of).collect::<Vec<_>>(), sans, "layout (into_layout)");
        let mut x = e.clone();
        ensure_eq!(x.as_layout().iter().map(Step::of).collect::<Vec<_>>(), sans, "layout (as_layout)");
        ensure_eq!(x.as_layout().len(), sans.len(), "repeated request for the layout");
        x.set_finished();
        ensure_eq!(DigestExt::finish(x.finish()), want, "digest after the request for the layout");
        Ok(())
    };
    let mut fork: Option<(usize, CommitEngine)> = None;
    for (i, op) in ops.iter().enumerate() {
        if probe >> (i % 64) & 1 == 1 {
            check(&e, &steps, &hasher, i)?;
            if fork.is_none() {
                fork = Some((i, e.clone()));
            }
            o.evals(1);
        }
        let s = op.run(&mut e);
        hasher.update(&s.bytes);
        steps.push(s);
    }
    check(&e, &steps, &hasher, ops.len())?;
    // A clone made on the way and given the rest of the steps ends up with the same result.
    if let Some((i, mut f)) = fork {
        for op in &ops[i..] {
            op.run(&mut f);
        }
        check(&f, &steps, &hasher, ops.len())?;
    }
    for s in &steps {
        o.label(s.what);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C13Case {
    rec: RecSpec,
    kind: KindSpec,
    num: u64,
    small: u8,
    blob: Vec<u8>,
    items: Vec<u64>,
    note: Option<u64>,
}

fn c13_case() -> BoxedStrategy<C13Case> {
    (
        rec_spec(),
        kind_spec(),
        gen::num64(),
        any::<u8>(),
        bytes(30),
        prop_oneof![6 => prop::collection::vec(gen::num64(), 0..=10), 1 => prop::collection::vec(gen::num64(), 0..=255)],
        any::<Option<u64>>(),
    )
        .prop_map(|(rec, kind, num, small, blob, items, note)| C13Case { rec, kind, num, small, blob, items, note })
        .boxed()
}

impl C13Case {
    fn gen4(&self) -> Gen<Rec, 4> {
        Gen { val: self.rec.rec(), pad: [self.small, 1, self.small ^ 0xFF, 0], num: self.num as u32 }
    }
    fn gen1(&self) -> Gen<u64, 1> { Gen { val: self.num, pad: [self.small], num: 7 } }
    fn gen_kind(&self) -> Gen<Kind, 2> { Gen { val: self.kind.kind(), pad: [self.small; 2], num: self.num as u32 } }
    fn secret(&self) -> Secret { Secret { kind: self.small, data: Blob::new(&self.blob), note: self.note } }
    fn face(&self) -> Face {
        match self.items.first().copied().unwrap_or(self.num) % 4 {
            0 => Face::Blank,
            1 => Face::Open(self.small, Blob::new(&self.blob)),
            2 => Face::Named { x: self.num as u16, y: self.note },
            _ => Face::Shut(self.small, model::sha(&self.blob)),
        }
    }
    fn grove(&self) -> (Grove, Vec<Choice>) {
        let v: Vec<Choice> = self
            .items
            .iter()
            .map(|x| match x % 3 {
                0 => Choice::None,
                1 => Choice::Small(*x as u8),
                _ => Choice::Big(Blob::new(&x.to_le_bytes()[..(*x % 8) as usize])),
            })
            .collect();
        match self.small % 3 {
            0 => (Grove::Few(TinyVec::try_from_iter(v.iter().cloned()).unwrap()), v),
            1 => (Grove::Many { salt: self.num, items: v.clone() }, v),
            _ => (Grove::Bare, vec![]),
        }
    }
    fn forest(&self) -> Forest {
        Forest { salt: self.num as u16, items: TinyVec::try_from_iter(self.items.iter().map(|x| Elem(*x))).unwrap() }
    }
    fn forest_root(&self) -> H {
        let l: Vec<H> = self.items.iter().map(|x| model::tagged(model::TAG_MERKLE, &Elem(*x).canon())).collect();
        model::merklize(&l)
    }
    fn multi(&self) -> Multi {
        Multi {
            num: Elem(self.num),
            opt: self.note.map(|_| self.rec.rec()),
            hashed: tup(self.small, self.num as i64, self.num.rotate_left(9)),
            secret: self.secret(),
            leaves: self.forest().items,
            list: TinyVec::try_from_iter(self.items.iter().take(5).map(|x| Blob::new(&x.to_le_bytes()[..(*x % 8) as usize]))).unwrap(),
        }
    }
}

pub fn c13(ctx: &mut Ctx) {
    ctx.group("strategies", "any", 8_000, c13_case, c13_check);
    ctx.group(
        "large_values",
        "the encoding takes more than 255 bytes",
        300,
        || (large(), gen::num64()),
        |(n, seed): &(u32, u64), o| {
            o.nontrivial(*n > 255);
            let v = Bulk::new(blob(*n, *seed));
            ensure_eq!(ut::h_sh(id(&v)), model::tagged(model::TAG_STRICT, &v.canon()), "id of a large value");
            let w = WrapGen::<Bulk, 0>(v.clone());
            ensure_eq!(ut::h_sh(id(&w)), model::tagged(model::TAG_STRICT, &v.canon()), "id of a wrapped large value");
            // The concealed form is itself concealable, into yet another value.
            let s = BulkSecret(v.clone());
            let got = id(&s).bytes();
            let once = model::tagged(IdB::TAG, &s.conceal().canon());
            let twice = model::tagged(IdB::TAG, &s.conceal().conceal().canon());
            if got != once {
                ensure!(got == twice && o.known("derive-conceals-twice"), "id of a value with a large concealed form: got {}, expected {}", model::hex(&got), model::hex(&once));
            }
            o.evals(2);
            Ok(())
        },
    );
    ctx.group(
        "pairs",
        "the values differ in a single field",
        6_000,
        || (c13_case(), 0u8..10, any::<u8>(), c13_case()),
        c13_pairs,
    );
}

fn id<T: CommitId>(v: &T) -> T::CommitmentId { v.commit_id() }

fn c13_check(c: &C13Case, o: &mut Obs) -> R {
    o.nontrivial(true);
    macro_rules! strict {
        ($v:expr, $tag:expr, $bytes:expr) => {{
            let v = $v;
            ensure_eq!(enc(&v), v.canon(), "harness: encoding of {v:?}");
            let want = model::tagged($tag, &v.canon());
            ensure_eq!($bytes(id(&v)), want, "id of {v:?}");
            ensure_eq!($bytes(id(&v.clone())), want, "id of a copy of {v:?}");
            let mut e = CommitEngine::new($tag);
            v.commit_encode(&mut e);
            ensure_eq!(DigestExt::finish(e.finish()), want, "commitment encoding of {v:?}");
            o.evals(2);
        }};
    }
    let a = |x: IdA| x.bytes();
    let b = |x: IdB| x.bytes();
    let (ta, tb) = (IdA::TAG, IdB::TAG);
    strict!(c.rec.rec(), ta, a);
    strict!(c.kind.kind(), tb, b);
    strict!(Elem(c.num), model::TAG_MERKLE, ut::h_mh);
    strict!(Blob::new(&c.blob), model::TAG_STRICT, ut::h_sh);
    strict!(tup(c.small, c.num as i64, !c.num), model::TAG_STRICT, ut::h_sh);
    strict!(Prim::of(c.small), "", |x: IdEmpty| x.bytes());
    strict!(c.gen4(), ta, a);
    strict!(c.gen1(), ta, a);
    strict!(c.gen_kind(), ta, a);
    // transparent: the inner value, under the tag of the wrapper's id
    ensure_eq!(b(id(&WrapRec::from(c.rec.rec()))), model::tagged(tb, &c.rec.rec().canon()), "id of a wrapper");
    ensure_eq!(ut::h_sh(id(&WrapNum::from(c.num))), model::tagged(model::TAG_STRICT, &c.num.canon()), "id of a wrapped number");
    ensure_eq!(a(id(&WrapKind::from(c.kind.kind()))), model::tagged(ta, &c.kind.kind().canon()), "id of a wrapped enum");
    // conceal: the concealed form only
    let s = c.secret();
    ensure_eq!(a(id(&s)), model::tagged(ta, &s.hidden().canon()), "id of a concealable value");
    let other = Secret { note: s.note.map_or(Some(1), |_| None), ..s.clone() };
    ensure_eq!(id(&s), id(&other), "the id depends on data absent in the concealed form");
    // merklize: the root of the elements only
    let f = c.forest();
    ensure_eq!(a(id(&f)), model::tagged(ta, &c.forest_root()), "id of a merklized collection");
    let other = Forest { salt: !f.salt, ..f.clone() };
    ensure_eq!(id(&f), id(&other), "the id depends on data which are not elements");
    // other shapes of types
    let f = c.face();
    ensure_eq!(b(id(&f)), model::tagged(tb, &f.shut().canon()), "id of a concealable enum");
    ensure_eq!(id(&f), id(&f.shut()), "concealed form has another id");
    let v = Veil { val: c.rec.rec(), note: c.small };
    ensure_eq!(a(id(&v)), model::tagged(ta, &v.hidden().canon()), "id of a generic concealable value");
    let v = Veil { val: c.num, note: c.small };
    ensure_eq!(a(id(&v)), model::tagged(ta, &v.hidden().canon()), "id of a generic concealable number");
    let w = WrapTail { extra: c.small, inner: c.rec.rec() };
    ensure_eq!(b(id(&w)), model::tagged(tb, &w.inner.canon()), "id of a wrapper with other fields");
    let w = WrapGen::<Kind, 3>(c.kind.kind());
    ensure_eq!(ut::h_sh(id(&w)), model::tagged(model::TAG_STRICT, &w.0.canon()), "id of a generic wrapper");
    let w = WrapGen::<u64, 4>(c.num);
    ensure_eq!(ut::h_sh(id(&w)), model::tagged(model::TAG_STRICT, &w.0.canon()), "id of a generic wrapper of a number");
    let w = WrapCoded { extra: c.num as u32, inner: Elem(c.num) };
    ensure_eq!(a(id(&w)), model::tagged(ta, &w.inner.canon()), "id of a wrapper with its own encoding");
    let (g, leaves) = c.grove();
    let leaves: Vec<H> = leaves.iter().map(|x| model::tagged(model::TAG_MERKLE, &x.canon())).collect();
    ensure_eq!(b(id(&g)), model::tagged(tb, &model::merklize(&leaves)), "id of a merklized enum");
    let nums = |n: usize| -> Vec<Elem> { (0..n as u64).map(|i| Elem(c.num.wrapping_mul(i + 1))).collect() };
    let root = |v: &[Elem]| model::merklize(&v.iter().map(|x| model::tagged(model::TAG_MERKLE, &x.canon())).collect::<Vec<_>>());
    macro_rules! row {
        ($($n:literal),*) => {$(
            let v = nums($n);
            ensure_eq!(ut::h_mh(id(&Row::<$n>(v.clone().try_into().unwrap()))),
                model::tagged(model::TAG_MERKLE, &root(&v)), "id of a merklized array of {}", $n);
        )*};
    }
    row!(0, 1, 2, 5);
    let v = nums(c.small as usize);
    ensure_eq!(ut::h_sh(id(&View(&v, c.num))), model::tagged(model::TAG_STRICT, &root(&v)), "id of borrowed elements");
    o.evals(14);
    // combination of steps
    let m = c.multi();
    ensure_eq!(b(id(&m)), model::tagged(tb, &m.canon()), "id of a multi-step value");
    o.evals(6);
    Ok(())
}

fn c13_pairs(c: &(C13Case, u8, u8, C13Case), o: &mut Obs) -> R {
    let (x, how, k, other) = c;
    let mut y = x.clone();
    match how {
        0 => y.rec = other.rec.clone(),
        1 => y.rec.a ^= 1 << (k % 16),
        2 => y.rec.c = match y.rec.c { None => Some(0), Some(n) => Some(n ^ (1 << (k % 32))) },
        3 => y.kind = other.kind.clone(),
        4 => y.num ^= 1 << (k % 64),
        5 => y.small ^= 1 << (k % 8),
        6 => y.blob.push(*k),
        7 => y.items.rotate_left((*k as usize).min(x.items.len())),
        8 => y.note = other.note,
        _ => y = other.clone(),
    }
    let mut diff = false;
    macro_rules! same {
        ($f:expr, $proj:expr) => {{
            let (a, b) = ($f(x), $f(&y));
            let equal = $proj(&a, x) == $proj(&b, &y);
            diff |= !equal;
            ensure_eq!(id(&a) == id(&b), equal, "equality of ids of {a:?} and {b:?}");
            o.evals(1);
        }};
    }
    same!(|c: &C13Case| c.rec.rec(), |v: &Rec, _: &C13Case| v.clone());
    same!(|c: &C13Case| c.kind.kind(), |v: &Kind, _: &C13Case| v.clone());
    same!(|c: &C13Case| c.gen4(), |v: &Gen<Rec, 4>, _: &C13Case| v.clone());
    same!(|c: &C13Case| c.gen_kind(), |v: &Gen<Kind, 2>, _: &C13Case| v.clone());
    same!(|c: &C13Case| Blob::new(&c.blob), |v: &Blob, _: &C13Case| v.clone());
    same!(|c: &C13Case| WrapRec::from(c.rec.rec()), |v: &WrapRec, _: &C13Case| v.clone());
    same!(|c: &C13Case| WrapNum::from(c.num), |v: &WrapNum, _: &C13Case| *v);
    same!(|c: &C13Case| WrapKind::from(c.kind.kind()), |v: &WrapKind, _: &C13Case| v.clone());
    same!(|c: &C13Case| c.secret(), |v: &Secret, _: &C13Case| v.hidden());
    same!(|c: &C13Case| c.face(), |v: &Face, _: &C13Case| v.shut());
    same!(|c: &C13Case| Veil { val: c.rec.rec(), note: c.small }, |v: &Veil<Rec>, _: &C13Case| v.val.clone());
    same!(|c: &C13Case| WrapGen::<Kind, 3>(c.kind.kind()), |v: &WrapGen<Kind, 3>, _: &C13Case| v.clone());
    same!(|c: &C13Case| c.grove().0, |_: &Grove, c: &C13Case| c.grove().1);
    same!(|c: &C13Case| c.forest(), |v: &Forest, _: &C13Case| v.items.clone());
    same!(|c: &C13Case| c.multi(), |v: &Multi, _: &C13Case| v.canon());
    o.nontrivial(diff);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C14

thread_local! {
    static PROGRAM: RefCell<Vec<Op>> = const { RefCell::new(vec![]) };
}

/// A value whose commitment consists of the steps of the current program.
#[derive(Clone, Debug)]
#[derive(StrictDumb, strict_encoding::StrictType, strict_encoding::StrictEncode, strict_encoding::StrictDecode)]
#[strict_type(lib = LIB)]
struct Program(u8);

impl CommitEncode for Program {
    type CommitmentId = IdB;
    fn commit_encode(&self, e: &mut CommitEngine) {
        let ops = PROGRAM.with(|p| p.borrow().clone());
        for op in ops {
            op.run(e);
        }
    }
}

fn render(idty: &str, tag: &str, steps: &[Step]) -> String {
    let mut s = format!("commitment {}, hasher SHA256, tagged {tag}\n", Step::short(idty));
    for x in steps {
        x.render(&mut s);
    }
    s
}

/// The layout of the type, checked against what it must be; the same steps must be done by the value.
fn layout_of<T: CommitmentLayout + CommitId>(v: &T, steps: &[Step], what: &str) -> R {
    let l = T::commitment_layout();
    ensure_eq!(l.idty().to_string(), strict_name::<T::CommitmentId>(), "{what}: id type of the layout");
    ensure_eq!(l.tag(), <T::CommitmentId as CommitmentId>::TAG, "{what}: tag of the layout");
    let got: Vec<Step> = l.fields().iter().map(Step::of).collect();
    let want: Vec<Step> = steps.iter().map(Step::sans).collect();
    ensure_eq!(got, want, "{what}: steps of the layout");
    let of_value: Vec<Step> = v.commit().into_layout().iter().map(Step::of).collect();
    ensure_eq!(of_value, got, "{what}: steps of the value");
    ensure_eq!(l.to_string(), render(&strict_name::<T::CommitmentId>(), l.tag(), steps), "{what}: rendering");
    ensure_eq!(l.to_vesper().display().to_string(), l.to_string(), "{what}: rendering");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C14Case {
    vals: C13Case,
    tree: gen::TreeSpec,
    node: (u8, B32, B32),
    entropy: (u64, u32),
}

pub fn c14(ctx: &mut Ctx) {
    ctx.group(
        "types",
        "any",
        1_500,
        || {
            (c13_case(), gen::small_tree(0..=5, 6), (any::<u8>(), gen::b32(), gen::b32()), any::<(u64, u32)>())
                .prop_map(|(vals, tree, node, entropy)| C14Case { vals, tree, node, entropy })
        },
        c14_types,
    );
    ctx.group(
        "programs",
        "two or more steps",
        5_000,
        || prop_oneof![8 => prop::collection::vec(op(), 0..=8), 1 => prop::collection::vec(op(), 9..=40)],
        |ops: &Vec<Op>, o| {
            o.nontrivial(ops.len() > 1);
            let mut scratch = CommitEngine::new("");
            let steps: Vec<Step> = ops.iter().map(|op| op.run(&mut scratch)).collect();
            PROGRAM.with(|p| *p.borrow_mut() = ops.clone());
            for s in &steps {
                o.label(s.what);
            }
            o.sample(|| render("IdB", IdB::TAG, &steps));
            layout_of(&Program(3), &steps, "program")
        },
    );
    ctx.enumerate("published", "any", || vec![0u8], |_, o| {
        o.nontrivial(true);
        let text = std::fs::read_to_string("/repo/stl/Merkle.vesper").map_err(|e| format!("stl/Merkle.vesper: {e}"))?;
        published(&text, o)
    });
}

/// The description in the repository contains the layouts of all types followed by their structure.
fn published(text: &str, o: &mut Obs) -> R {
    use strict_types::stl::{std_stl, strict_types_stl};
    let sys = strict_types::SystemBuilder::new()
        .import(commit_verify::stl::commit_verify_stl())
        .and_then(|b| b.import(strict_types_stl()))
        .and_then(|b| b.import(std_stl()))
        .map_err(|e| format!("type system: {e}"))?
        .finalize()
        .map_err(|e| format!("type system: {e:?}"))?;
    let squeeze = |s: &str| s.lines().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n");
    let text = squeeze(text);
    let layouts = [
        ("MerkleNode", MerkleNode::commitment_layout().to_string()),
        ("Leaf", Leaf::commitment_layout().to_string()),
        ("MerkleConcealed", MerkleConcealed::commitment_layout().to_string()),
        ("MerkleBlock", MerkleBlock::commitment_layout().to_string()),
        ("MerkleTree", MerkleTree::commitment_layout().to_string()),
    ];
    let mut pos = 0;
    for (name, layout) in &layouts {
        let spec: &'static str = Box::leak(format!("CommitVerify.{name}").into_boxed_str());
        let tree = sys.type_tree(spec).ok_or_else(|| format!("no type {name}"))?.to_string();
        for part in [layout, &tree] {
            let part = squeeze(part);
            match text[pos..].find(part.trim_end()) {
                Some(i) => pos += i + part.trim_end().len(),
                None => return Err(format!("stl/Merkle.vesper lacks the description of {name}: {part}")),
            }
        }
        o.evals(2);
    }
    let n = text.matches("\ncommitment ").count();
    ensure_eq!(n, layouts.len(), "number of the published layouts");
    Ok(())
}

fn c14_types(c: &C14Case, o: &mut Obs) -> R {
    o.nontrivial(true);
    let v = &c.vals;
    let ser = |ty: &str| vec![Step { bytes: vec![], what: "serialized", ty: ty.to_string(), key: None, bounds: None }];
    let con = |ty: &str| vec![Step { bytes: vec![], what: "concealed", ty: ty.to_string(), key: None, bounds: None }];
    let mer = |ty: &str| vec![Step { bytes: vec![], what: "merklized", ty: ty.to_string(), key: None, bounds: None }];
    layout_of(&v.rec.rec(), &ser("CsvTest.Rec"), "Rec")?;
    layout_of(&v.kind.kind(), &ser("CsvTest.Kind"), "Kind")?;
    layout_of(&Elem(v.num), &ser("CsvTest.Elem"), "Elem")?;
    layout_of(&Blob::new(&v.blob), &ser("CsvTest.Blob"), "Blob")?;
    layout_of(&Prim::of(v.small), &ser("CsvTest.Prim"), "Prim")?;
    layout_of(&v.gen4(), &ser("CsvTest.GenRec4"), "Gen")?;
    layout_of(&v.secret(), &con("CsvTest.Hidden"), "Secret")?;
    layout_of(&v.forest(), &mer("CsvTest.Elem"), "Forest")?;
    let list = Step { bytes: vec![], what: "list", ty: "CsvTest.Blob".into(), key: None, bounds: Some((0, 255)) };
    let hashed = Step { bytes: vec![], what: "hashed", ty: "CsvTest.Tup".into(), key: None, bounds: None };
    layout_of(
        &v.multi(),
        &[ser("CsvTest.Elem"), ser("CsvTest.Rec"), vec![hashed], con("CsvTest.Secret"), mer("CsvTest.Elem"), vec![list]].concat(),
        "Multi",
    )?;
    // types of the library
    let t = c.tree.build();
    layout_of(&Leaf::entropy(c.entropy.0, c.entropy.1), &ser("CommitVerify.Leaf"), "Leaf")?;
    layout_of(&ut::inhabited(&c.node.1 .0, &c.node.2 .0), &ser("CommitVerify.Leaf"), "Leaf")?;
    layout_of(&MerkleNode::branches(c.node.0, v.num, ut::mh(&c.node.1 .0), ut::mh(&c.node.2 .0)), &ser("CommitVerify.MerkleNode"), "MerkleNode")?;
    layout_of(&MerkleNode::void(c.node.0, v.num), &ser("CommitVerify.MerkleNode"), "MerkleNode")?;
    let tree = ut::tree(&t)?;
    use commit_verify::Conceal;
    layout_of(&tree.conceal(), &ser("CommitVerify.MerkleConcealed"), "MerkleConcealed")?;
    layout_of(&tree, &con("CommitVerify.MerkleConcealed"), "MerkleTree")?;
    let mut b = MerkleBlock::from(&tree);
    layout_of(&b, &con("CommitVerify.MerkleConcealed"), "MerkleBlock")?;
    b.conceal_except([]).map_err(|e| e.to_string())?;
    layout_of(&b, &con("CommitVerify.MerkleConcealed"), "MerkleBlock")?;
    layout_of(&ReservedBytes::<4>::default(), &ser(&strict_name::<ReservedBytes<4>>()), "ReservedBytes")?;
    o.evals(16);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Feed {
    Raw(Vec<u8>),
    Len(u8, Vec<u8>),
}

macro_rules! with_len {
    ($e:ident, $sel:expr, $data:expr; $($i:expr => $max:expr),+ $(,)?) => {
        match $sel {
            $($i => { $e.input_with_len::<{ $max }>($data); })+
            _ => unreachable!(),
        }
    }
}

const MAXES: [usize; 19] = [
    0, 1, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x7FFF, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x800000, 0xFFFFFE, 0xFFFFFF, 0x1000000, 0x1000001,
    0xFFFFFFFF,
];

fn len_bytes(max: usize) -> usize {
    if max < 1 << 8 {
        1
    } else if max < 1 << 16 {
        2
    } else if max < 1 << 24 {
        3
    } else {
        4
    }
}

fn feed<const N: usize, E: DigestExt<N>>(e: &mut E, f: &Feed) {
    match f {
        Feed::Raw(d) => e.input_raw(d),
        Feed::Len(sel, d) => with_len!(e, *sel as usize % MAXES.len(), d;
            0 => 0, 1 => 1, 2 => 0x7F, 3 => 0x80, 4 => 0xFE, 5 => 0xFF, 6 => 0x100, 7 => 0x101, 8 => 0x7FFF, 9 => 0xFFFE, 10 => 0xFFFF,
            11 => 0x10000, 12 => 0x10001, 13 => 0x800000, 14 => 0xFFFFFE, 15 => 0xFFFFFF, 16 => 0x1000000, 17 => 0x1000001, 18 => 0xFFFFFFFF),
    }
}

fn feed_strategy() -> BoxedStrategy<Feed> {
    prop_oneof![
        1 => bytes(70).prop_map(Feed::Raw),
        3 => (0u8..19, prop_oneof![6 => bytes(20), 1 => Just(255usize).prop_map(|n| vec![7; n]), 1 => (250usize..=300).prop_map(|n| vec![9; n]), 1 => (65530usize..=65540).prop_map(|n| vec![1; n])])
            .prop_map(|(sel, mut d)| {
                d.truncate(MAXES[sel as usize]);
                Feed::Len(sel, d)
            }),
    ]
    .boxed()
}

fn stream(fs: &[Feed]) -> Vec<u8> {
    let mut v = vec![];
    for f in fs {
        match f {
            Feed::Raw(d) => v.extend(d),
            Feed::Len(sel, d) => {
                let n = len_bytes(MAXES[*sel as usize % MAXES.len()]);
                v.extend(&(d.len() as u64).to_le_bytes()[..n]);
                v.extend(d);
            }
        }
    }
    v
}

/// A digest which records the absorbed stream.
#[derive(Clone, Default)]
struct Recorder(Vec<u8>);
impl sha2::digest::OutputSizeUser for Recorder {
    type OutputSize = sha2::digest::consts::U32;
}
impl sha2::digest::HashMarker for Recorder {}
impl sha2::digest::Update for Recorder {
    fn update(&mut self, data: &[u8]) { self.0.extend(data) }
}
impl sha2::digest::FixedOutput for Recorder {
    fn finalize_into(self, out: &mut sha2::digest::Output<Self>) { out.copy_from_slice(&model::sha(&self.0)) }
}
impl DigestExt for Recorder {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self { Recorder(tag.as_ref().to_vec()) }
    fn input_raw(&mut self, data: &[u8]) { self.0.extend(data) }
    fn finish(self) -> [u8; 32] { model::sha(&self.0) }
}

pub fn c15(ctx: &mut Ctx) {
    ctx.group(
        "streams",
        "both raw and length-prefixed data",
        40_000,
        || (prop_oneof![4 => bytes(70), 1 => Just(vec![]), 1 => bytes(300)], prop::collection::vec(feed_strategy(), 0..=6), prop::collection::vec(any::<u16>(), 0..4)),
        c15_check,
    );
    // the data length at each boundary under each maximum
    let thorough = ctx.thorough();
    ctx.enumerate(
        "boundaries",
        "any",
        move || {
            let mut out = vec![];
            for sel in 0..MAXES.len() as u8 {
                for n in [0usize, 1, 2, 127, 128, 254, 255, 256, 257, 32767, 65534, 65535, 65536, 65537, (1 << 24) - 1, 1 << 24] {
                    if n <= MAXES[sel as usize] && (n < 1 << 20 || thorough || sel >= 15) {
                        out.push((sel, n as u32));
                    }
                }
                out.push((sel, MAXES[sel as usize].min(1 << 20) as u32));
            }
            out
        },
        |(sel, n): &(u8, u32), o| {
            o.nontrivial(true);
            let data = vec![0xA5u8; *n as usize];
            let mut r = Recorder::default();
            feed(&mut r, &Feed::Len(*sel, data.clone()));
            let k = len_bytes(MAXES[*sel as usize]);
            ensure_eq!(r.0.len(), k + data.len(), "length of the absorbed stream");
            ensure_eq!(r.0[..k].to_vec(), (*n as u64).to_le_bytes()[..k].to_vec(), "length prefix");
            ensure!(r.0[k..] == data[..], "data in the absorbed stream");
            let mut e = Sha256::from_tag("t");
            feed(&mut e, &Feed::Len(*sel, data));
            let mut h = model::tagged_engine(b"t");
            h.update(&r.0);
            ensure_eq!(DigestExt::finish(e), H::from(h.finalize()), "digest");
            Ok(())
        },
    );
    ctx.group(
        "injectivity",
        "sequences differ",
        40_000,
        || {
            (0u8..19, prop::collection::vec(prop::collection::vec(prop_oneof![Just(0u8), Just(1u8), Just(2u8)], 0..5), 0..5), prop::collection::vec(prop::collection::vec(prop_oneof![Just(0u8), Just(1u8), Just(2u8)], 0..5), 0..5), any::<bool>())
        },
        |(sel, a, b, related): &(u8, Vec<Vec<u8>>, Vec<Vec<u8>>, bool), o| {
            let max = MAXES[*sel as usize % MAXES.len()];
            let cut = |v: &Vec<Vec<u8>>| -> Vec<Vec<u8>> { v.iter().map(|x| x[..x.len().min(max)].to_vec()).collect() };
            let (a, mut b) = (cut(a), cut(b));
            if *related {
                // move a byte over the boundary of two pieces
                b = a.clone();
                if b.len() > 1 && !b[0].is_empty() && b[1].len() < max {
                    let x = b[0].pop().unwrap();
                    b[1].insert(0, x);
                }
            }
            let absorb = |v: &Vec<Vec<u8>>| {
                let mut r = Recorder::default();
                let mut e = Sha256::from_tag("x");
                for d in v {
                    feed(&mut r, &Feed::Len(*sel, d.clone()));
                    feed(&mut e, &Feed::Len(*sel, d.clone()));
                }
                (r.0, DigestExt::finish(e))
            };
            let ((sa, da), (sb, db)) = (absorb(&a), absorb(&b));
            ensure_eq!(sa == sb, a == b, "equality of streams of {a:?} and {b:?}");
            ensure_eq!(da == db, a == b, "equality of digests of {a:?} and {b:?}");
            o.nontrivial(a != b);
            Ok(())
        },
    );
}

fn c15_check(c: &(Vec<u8>, Vec<Feed>, Vec<u16>), o: &mut Obs) -> R {
    let (tag, feeds, cuts) = c;
    o.nontrivial(feeds.iter().any(|f| matches!(f, Feed::Raw(_))) && feeds.iter().any(|f| matches!(f, Feed::Len(..))));
    let data = stream(feeds);
    // SHA-256
    let t = model::sha(tag);
    let want = model::sha(&[&t[..], &t, &data].concat());
    let mut e = Sha256::from_tag(tag);
    for f in feeds {
        feed(&mut e, f);
    }
    ensure_eq!(DigestExt::finish(e), want, "SHA-256 digest");
    // RIPEMD-160
    let r = |d: &[u8]| -> [u8; 20] { <ripemd::Ripemd160 as ripemd::Digest>::digest(d).into() };
    let t = r(tag);
    let want160 = r(&[&t[..], &t, &data].concat());
    let mut e = <Ripemd160 as DigestExt<20>>::from_tag(tag);
    for f in feeds {
        feed(&mut e, f);
    }
    ensure_eq!(DigestExt::<20>::finish(e), want160, "RIPEMD-160 digest");
    // any splitting of raw data
    let mut e = Sha256::from_tag(tag);
    let mut g = <Ripemd160 as DigestExt<20>>::from_tag(tag);
    let mut at: Vec<usize> = cuts.iter().map(|c| *c as usize % (data.len() + 1)).collect();
    at.extend([0, data.len()]);
    at.sort_unstable();
    for w in at.windows(2) {
        e.input_raw(&data[w[0]..w[1]]);
        g.input_raw(&data[w[0]..w[1]]);
    }
    ensure_eq!(DigestExt::finish(e), want, "SHA-256 digest of split data");
    ensure_eq!(DigestExt::<20>::finish(g), want160, "RIPEMD-160 digest of split data");
    // the form of the tag doesn't matter
    if let Ok(s) = String::from_utf8(tag.clone()) {
        ensure_eq!(DigestExt::finish(Sha256::from_tag(&s)), DigestExt::finish(Sha256::from_tag(tag)), "tag as a string");
    }
    let mut rec = Recorder::default();
    for f in feeds {
        feed(&mut rec, f);
    }
    ensure_eq!(rec.0, data, "absorbed stream");
    o.evals(4);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C22

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C22Case {
    len: u8,
    val: u8,
    /// Bytes offered to the decoder: exactly the value with the modifications.
    flips: Vec<(u8, u8)>,
    cut: u8,
    tail: Vec<u8>,
}

pub fn c22(ctx: &mut Ctx) {
    ctx.enumerate(
        "single_deviations",
        "a byte deviates",
        || {
            let mut out = vec![];
            for len in 0..RESERVED_LENS.len() as u8 {
                for val in 0..RESERVED_VALS.len() as u8 {
                    out.push(C22Case { len, val, flips: vec![], cut: 0, tail: vec![] });
                    for at in 0..RESERVED_LENS[len as usize] as u8 {
                        for x in [1u8, 2, 0x40, 0x80, 0xFF, RESERVED_VALS[val as usize]] {
                            out.push(C22Case { len, val, flips: vec![(at, x)], cut: 0, tail: vec![] });
                        }
                    }
                }
            }
            out
        },
        c22_check,
    );
    ctx.group(
        "deviations",
        "a byte deviates",
        60_000,
        || {
            (
                0u8..RESERVED_LENS.len() as u8,
                0u8..RESERVED_VALS.len() as u8,
                prop::collection::vec((0u8..32, any::<u8>()), 0..4),
                prop_oneof![4 => Just(0u8), 1 => 1u8..=32],
                prop_oneof![4 => Just(vec![]), 1 => bytes(4)],
            )
                .prop_map(|(len, val, flips, cut, tail)| C22Case { len, val, flips, cut, tail })
        },
        c22_check,
    );
}

const RESERVED_LENS: [usize; 12] = [1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 31, 32];
const RESERVED_VALS: [u8; 6] = [0, 1, 0x7F, 0x80, 0xA5, 0xFF];

fn c22_check(c: &C22Case, o: &mut Obs) -> R {
    macro_rules! by_val {
        ($len:expr) => {
            match RESERVED_VALS[c.val as usize] {
                0 => reserved::<$len, 0>(c, o),
                1 => reserved::<$len, 1>(c, o),
                0x7F => reserved::<$len, 0x7F>(c, o),
                0x80 => reserved::<$len, 0x80>(c, o),
                0xA5 => reserved::<$len, 0xA5>(c, o),
                0xFF => reserved::<$len, 0xFF>(c, o),
                _ => unreachable!(),
            }
        };
    }
    match RESERVED_LENS[c.len as usize] {
        1 => by_val!(1),
        2 => by_val!(2),
        3 => by_val!(3),
        4 => by_val!(4),
        5 => by_val!(5),
        7 => by_val!(7),
        8 => by_val!(8),
        12 => by_val!(12),
        16 => by_val!(16),
        20 => by_val!(20),
        31 => by_val!(31),
        32 => by_val!(32),
        _ => unreachable!(),
    }
}

fn reserved<const LEN: usize, const VAL: u8>(c: &C22Case, o: &mut Obs) -> R {
    let r = ReservedBytes::<LEN, VAL>::default();
    let good = vec![VAL; LEN];
    ensure_eq!(enc(&r), good, "encoding");
    ensure_eq!(ReservedBytes::<LEN, VAL>::from([VAL; LEN]), r, "construction");
    let want = model::tagged(model::TAG_STRICT, &good);
    ensure_eq!(ut::h_sh(r.commit_id()), want, "id");
    let mut b = good.clone();
    for (at, x) in &c.flips {
        let n = b.len();
        b[*at as usize % n] ^= x;
    }
    let equal = b == good;
    o.nontrivial(!equal);
    let arr: [u8; LEN] = b.clone().try_into().unwrap();
    match guard(|| ReservedBytes::<LEN, VAL>::from(arr)) {
        Ok(v) => ensure!(equal && v == r, "constructed from {b:?}"),
        Err(_) => ensure!(!equal, "construction from the proper value is refused"),
    }
    let full = b.clone();
    b.truncate(LEN.saturating_sub(c.cut as usize % (LEN + 1)));
    let whole = b.len() == LEN;
    if whole {
        b.extend(&c.tail);
    }
    let res = ut::dec_prefix::<ReservedBytes<LEN, VAL>>(&b);
    match res {
        Ok((v, n)) => {
            ensure!(whole && equal, "decoded from {b:?}");
            ensure_eq!((v, n), (r, LEN), "decoded value");
            ensure_eq!(ut::h_sh(v.commit_id()), want, "id of the decoded value");
        }
        Err(e) => {
            ensure!(!(whole && equal), "the proper value is not decoded: {e}");
            if whole {
                ensure!(e.contains("DataIntegrityError"), "wrong class of error: {e}");
                o.label("integrity error");
            } else {
                o.label("truncated");
            }
        }
    }
    // As a part of a larger value
    let mut outer = vec![0x11u8, 0x22];
    outer.extend(&full);
    outer.push(0x33);
    match ut::dec::<(u16, ReservedBytes<LEN, VAL>, u8)>(&outer) {
        Ok((a, v, z)) => {
            ensure!(equal, "decoded from {full:?} inside of another value");
            ensure_eq!((a, v, z), (0x2211, r, 0x33), "decoded as a part");
        }
        Err(e) => ensure!(!equal, "not decoded as a part: {e}"),
    }
    // serde
    let j = serde_json::to_string(&r).map_err(|e| e.to_string())?;
    ensure_eq!(j, "null", "JSON form");
    ensure_eq!(serde_json::from_str::<ReservedBytes<LEN, VAL>>(&j).map_err(|e| e.to_string())?, r, "JSON");
    for bad in ["0", "1", "\"\"", "\"reserved\"", "[]", "{}", "true", "[0]", &format!("{full:?}")] {
        ensure!(serde_json::from_str::<ReservedBytes<LEN, VAL>>(bad).is_err(), "restored from JSON {bad}");
    }
    let bin = bincode::serialize(&r).map_err(|e| e.to_string())?;
    ensure!(bin.is_empty(), "bincode form {bin:?}");
    ensure_eq!(bincode::deserialize::<ReservedBytes<LEN, VAL>>(&bin).map_err(|e| e.to_string())?, r, "bincode");
    let mut cbor = vec![];
    ciborium::into_writer(&r, &mut cbor).map_err(|e| e.to_string())?;
    ensure_eq!(cbor, vec![0xF6], "CBOR form");
    ensure_eq!(ciborium::from_reader::<ReservedBytes<LEN, VAL>, _>(&cbor[..]).map_err(|e| e.to_string())?, r, "CBOR");
    ensure_eq!(r.to_string(), "reserved", "text");
    o.evals(6);
    Ok(())
}
