//! Binary forms: C19 (codec), C20 (type library).

use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{self, Read, Write};
use std::path::PathBuf;

use amplify::confinement::{Confined, MediumBlob, U16, U24, U32, U8};
use commit_verify::mpc::{self, Leaf, MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree, Method};
use commit_verify::stl::{commit_verify_stl, LIB_ID_COMMIT_VERIFY};
use commit_verify::{CommitId, Conceal, MerkleHash, MerkleNode, ReservedBytes, TryCommitVerify};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use strict_encoding::{
    StreamReader, StreamWriter, StrictDecode, StrictDeserialize, StrictDumb, StrictEncode, StrictReader,
    StrictSerialize, StrictWriter,
};
use strict_types::stl::{std_stl, strict_types_stl};
use strict_types::typesys::SymbolicSys;
use strict_types::{SemId, StlFormat, SystemBuilder, Ty as StlTy, TypeLib};

use crate::engine::{guard, Ctx, Obs};
use crate::gen::{self, SourceSpec};
use crate::model::{self, Fill, H};
use crate::ut::{self, dec, dec_prefix, enc};
use crate::values::{self, parse, Sv, Ty, Val};
use crate::{dispatch, dispatch_id, ensure, ensure_eq};

type R = Result<(), String>;

/// Scratch directory removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!(
            "csvcheck-scratch-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::SeqCst)
        ));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); }
}

// ---------------------------------------------------------------------------------------- C19

/// Change of a valid encoding.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mutation {
    Truncate(u32),
    Append(Vec<u8>),
    Flip(u32, u8),
    Set(u32, u8),
    Insert(u32, u8),
    Remove(u32, u8),
    /// Copies a range to another place.
    Splice(u32, u32, u8),
    /// Swaps two adjacent ranges of the given length: reorders entries of maps.
    Swap(u32, u8),
    /// Changes one of the first bytes: tags, depths, lengths.
    Head(u8, u8),
    /// The last bytes: option tags.
    Tail(u8, u8),
}

impl Mutation {
    pub fn apply(&self, b: &mut Vec<u8>) {
        let at = |x: u32, n: usize| if n == 0 { 0 } else { x as usize % n };
        let n = b.len();
        match self {
            Mutation::Truncate(x) => b.truncate(at(*x, n)),
            Mutation::Append(x) => b.extend(x),
            Mutation::Flip(x, bit) if n > 0 => b[at(*x, n)] ^= 1 << (bit % 8),
            Mutation::Set(x, v) if n > 0 => b[at(*x, n)] = *v,
            Mutation::Insert(x, v) => b.insert(at(*x, n + 1), *v),
            Mutation::Remove(x, k) if n > 0 => {
                let i = at(*x, n);
                b.drain(i..(i + 1 + *k as usize % 70).min(n));
            }
            Mutation::Splice(x, y, k) if n > 0 => {
                let (i, j) = (at(*x, n), at(*y, n));
                let k = (*k as usize).min(n - i).min(n - j);
                let part = b[i..i + k].to_vec();
                b[j..j + k].copy_from_slice(&part);
            }
            Mutation::Swap(x, k) if n > 0 => {
                // entries of 64 (messages), 68 (map), 65, 34 (nodes) bytes
                let len = [64, 68, 65, 34, 32][*k as usize % 5];
                let heads = [15usize, 18, 8, 0, 1];
                let i = if *k < 128 { heads[*x as usize % 5] + len * (at(*x >> 8, 4)) } else { at(*x, n) };
                if i + 2 * len <= n {
                    for t in 0..len {
                        b.swap(i + t, i + len + t);
                    }
                }
            }
            Mutation::Head(x, v) if n > 0 => b[*x as usize % n.min(16)] = *v,
            Mutation::Tail(x, v) if n > 0 => b[n - 1 - *x as usize % n.min(10)] = *v,
            _ => {}
        }
    }
}

pub fn mutation() -> BoxedStrategy<Mutation> {
    let v = || prop_oneof![3 => 0u8..4, 2 => any::<u8>(), 1 => 29u8..36, 1 => Just(255u8)];
    prop_oneof![
        2 => any::<u32>().prop_map(Mutation::Truncate),
        2 => prop::collection::vec(any::<u8>(), 1..70).prop_map(Mutation::Append),
        3 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Mutation::Flip(a, b)),
        2 => (any::<u32>(), v()).prop_map(|(a, b)| Mutation::Set(a, b)),
        2 => (any::<u32>(), v()).prop_map(|(a, b)| Mutation::Insert(a, b)),
        2 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Mutation::Remove(a, b)),
        2 => (any::<u32>(), any::<u32>(), any::<u8>()).prop_map(|(a, b, c)| Mutation::Splice(a, b, c)),
        2 => (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Mutation::Swap(a, b)),
        4 => (any::<u8>(), v()).prop_map(|(a, b)| Mutation::Head(a, b)),
        2 => (any::<u8>(), v()).prop_map(|(a, b)| Mutation::Tail(a, b)),
    ]
    .boxed()
}

/// Gives the data in pieces and then, optionally, fails.
struct Drip<'a> {
    data: &'a [u8],
    piece: usize,
    fail_at: Option<usize>,
    pos: usize,
}
impl Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let end = self.fail_at.unwrap_or(usize::MAX).min(self.data.len());
        if self.fail_at.is_some_and(|f| self.pos >= f) {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected"));
        }
        let n = buf.len().min(self.piece).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// Accepts the given number of bytes in pieces and then fails.
struct Sink {
    got: Vec<u8>,
    piece: usize,
    fail_at: Option<usize>,
}
impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let room = self.fail_at.map(|f| f - self.got.len()).unwrap_or(usize::MAX);
        if room == 0 && !buf.is_empty() {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected"));
        }
        let n = buf.len().min(self.piece).min(room);
        self.got.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

fn drip<T: StrictDecode>(data: &[u8], piece: usize, fail_at: Option<usize>) -> Result<(T, usize), String> {
    let r = Drip { data, piece, fail_at, pos: 0 };
    let mut r = StrictReader::with(StreamReader::new::<{ ut::LIM }>(r));
    let v = T::strict_decode(&mut r).map_err(|e| format!("{e:?}"))?;
    Ok((v, r.unbox().unconfine().pos))
}

/// Commitment ids of the types which have them.
trait Ident {
    fn ident(&self) -> Option<H> { None }
}
macro_rules! no_ident { ($($t:ty),*) => {$(impl Ident for $t {})*} }
no_ident!(
    mpc::ProtocolId, mpc::Message, mpc::Commitment, commit_verify::MerkleHash, commit_verify::StrictHash,
    commit_verify::merkle::NodeBranching, mpc::Method, mpc::MerkleProof
);
impl Ident for Leaf {
    fn ident(&self) -> Option<H> { Some(ut::h_mh(self.commit_id())) }
}
impl Ident for MerkleNode {
    fn ident(&self) -> Option<H> { Some(ut::h_mh(self.commit_id())) }
}
impl Ident for MerkleConcealed {
    fn ident(&self) -> Option<H> { Some(ut::h_cm(self.commit_id())) }
}
impl Ident for MerkleBlock {
    fn ident(&self) -> Option<H> { Some(ut::h_cm(self.commit_id())) }
}
impl Ident for MerkleTree {
    // Trees decoded from arbitrary bytes may be too deep to compute their root.
    fn ident(&self) -> Option<H> { None }
}

/// The id prescribed for the encoding.
fn expected_ident(v: &Val) -> Option<H> {
    match v {
        Val::Inhabited(..) | Val::Entropy(..) | Val::Node { .. } => {
            Some(model::tagged(model::TAG_MERKLE, &v.encode()))
        }
        Val::Concealed { .. } => Some(model::tagged(model::TAG_MPC, &v.encode())),
        Val::Block { .. } => v.block().unwrap().commitment(),
        _ => None,
    }
}

fn show<T: Debug>(v: &T) -> String { format!("{v:?}").chars().take(200).collect() }

fn roundtrip<T: StrictEncode + StrictDecode + PartialEq + Debug + Ident>(
    bytes: &[u8],
    want: Option<H>,
) -> R {
    let v: T = dec(bytes).map_err(|e| format!("valid encoding is rejected: {e}"))?;
    ensure!(enc(&v) == bytes, "the value encodes to other bytes than it is decoded from");
    let w: T = dec(&enc(&v)).map_err(|e| format!("own encoding is rejected: {e}"))?;
    ensure!(v == w, "value differs after a round trip: {} / {}", show(&v), show(&w));
    ensure_eq!(v.ident(), w.ident(), "id after a round trip");
    ensure_eq!(v.ident(), want, "id of the decoded value");
    Ok(())
}

fn mutated<T: StrictEncode + StrictDecode + PartialEq + Debug + Ident>(ty: Ty, bytes: &[u8]) -> Result<bool, String> {
    let got = guard(|| dec_prefix::<T>(bytes))?;
    let want = parse(ty, bytes);
    match (got, want) {
        (Err(_), None) => Ok(false),
        (Ok((v, n)), Some(m)) => {
            ensure_eq!(n, m, "number of bytes taken by {}", show(&v));
            ensure!(enc(&v) == bytes[..n], "decoded {} encodes to other bytes", show(&v));
            ensure!(dec::<T>(&bytes[..n]).as_ref() == Ok(&v), "decoding is not repeatable");
            ensure_eq!(dec::<T>(bytes).is_ok(), n == bytes.len(), "trailing bytes");
            Ok(true)
        }
        (Ok((v, _)), None) => Err(format!("malformed bytes are decoded as {}", show(&v))),
        (Err(e), Some(_)) => Err(format!("well-formed bytes are rejected: {e}")),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Faults {
    val: Val,
    other: Val,
    piece: u8,
    at: u32,
}

fn faults<T: StrictEncode + StrictDecode + PartialEq + Debug + Ident>(f: &Faults, o: &mut Obs) -> R {
    let bytes = f.val.encode();
    let v: T = dec(&bytes)?;
    let piece = 1 + f.piece as usize;
    // any partition of the input gives the same value
    let (w, n) = drip::<T>(&bytes, piece, None)?;
    ensure!(v == w && n == bytes.len(), "value read in pieces differs");
    // a failing source is an error
    let at = f.at as usize % bytes.len();
    for at in [at, 0, bytes.len() - 1] {
        if let Ok((w, _)) = drip::<T>(&bytes, piece, Some(at)) {
            return Err(format!("{} is read from a source failing after {at} of {} bytes", show(&w), bytes.len()));
        }
        if let Ok((w, _)) = drip::<T>(&bytes[..at], piece, None) {
            return Err(format!("{} is read from the first {at} of {} bytes", show(&w), bytes.len()));
        }
    }
    // any partition of the output gives the same bytes
    let write = |fail_at: Option<usize>| {
        let w = StrictWriter::with(StreamWriter::new::<{ usize::MAX }>(Sink { got: vec![], piece, fail_at }));
        v.strict_encode(w).map(|w| w.unbox().unconfine().got)
    };
    ensure_eq!(write(None).map_err(|e| e.to_string())?, bytes, "bytes written in pieces");
    for at in [at, 0, bytes.len() - 1] {
        ensure!(write(Some(at)).is_err(), "a sink which failed after {at} of {} bytes is not reported", bytes.len());
    }
    ensure_eq!(write(Some(bytes.len())).map_err(|e| e.to_string())?, bytes, "a sink of the exact size");
    // two values one after the other
    let rest = f.other.encode();
    let all = [bytes.clone(), rest.clone()].concat();
    let (a, n) = dec_prefix::<T>(&all)?;
    ensure!(a == v && n == bytes.len(), "the first of two values");
    dispatch!(f.other.ty(), U => {
        let b: U = dec(&all[n..])?;
        ensure!(enc(&b) == rest, "the second of two values");
    });
    o.evals(9);
    Ok(())
}

pub fn c19(ctx: &mut Ctx) {
    ctx.group(
        "layout",
        "the value has distinguishable fields (several elements, both kinds of nodes, non-zero numbers)",
        12_000,
        values::val,
        |v: &Val, o| {
            o.nontrivial(v.rich());
            o.label(v.ty().name());
            let bytes = v.encode();
            o.sample(|| format!("{:?}: {} bytes {}", v.ty(), bytes.len(), model::hex(&bytes[..bytes.len().min(48)])));
            ensure_eq!(parse(v.ty(), &bytes), Some(bytes.len()), "harness: parser");
            dispatch!(v.ty(), T => roundtrip::<T>(&bytes, expected_ident(v)))
        },
    );
    ctx.group("built", "the object has more than one node or a non-zero field", 2_500, built_case, built);
    ctx.group(
        "mutants",
        "the changed bytes differ from the original encoding",
        40_000,
        || (values::val(), prop::collection::vec(mutation(), 1..4)),
        |(v, ms): &(Val, Vec<Mutation>), o| {
            let orig = v.encode();
            let mut b = orig.clone();
            for m in ms {
                m.apply(&mut b);
            }
            o.nontrivial(b != orig);
            o.label(v.ty().name());
            let ok = dispatch!(v.ty(), T => mutated::<T>(v.ty(), &b))?;
            o.label(if ok { "accepted" } else { "rejected" });
            o.sample(|| {
                let d = b.iter().zip(&orig).position(|(x, y)| x != y).unwrap_or(b.len().min(orig.len()));
                format!("{:?} {} bytes, {ms:?}, first change at {d}: accepted={ok}", v.ty(), orig.len())
            });
            Ok(())
        },
    );
    ctx.group(
        "random",
        "the bytes are accepted",
        20_000,
        || {
            (prop::sample::select(Ty::ALL.to_vec()), prop::collection::vec(
                prop_oneof![3 => 0u8..3, 1 => any::<u8>(), 1 => 0x10u8..0x12], 0..140))
        },
        |(ty, b): &(Ty, Vec<u8>), o| {
            let ok = dispatch!(*ty, T => mutated::<T>(*ty, b))?;
            o.nontrivial(ok);
            o.label_if(ok, &ty.name());
            Ok(())
        },
    );
    ctx.group(
        "every-change",
        "any",
        64,
        || values::val().prop_filter("size", |v| v.encode().len() < 700),
        |v: &Val, o| {
            o.nontrivial(true);
            o.label(v.ty().name());
            let orig = v.encode();
            let ty = v.ty();
            let mut n = 0;
            let mut accepted = 0;
            let mut run = |b: &[u8]| -> R {
                n += 1;
                accepted += dispatch!(ty, T => mutated::<T>(ty, b)).map_err(|e| {
                    format!("{e} (bytes {})", model::hex(b))
                })? as usize;
                Ok(())
            };
            for i in 0..orig.len() {
                run(&orig[..i])?;
                for x in [orig[i] ^ 1, orig[i].wrapping_add(1), orig[i].wrapping_sub(1), 0, 31, 32, 0xFF, orig[i] ^ 0x80, 3, 0x10] {
                    let mut b = orig.clone();
                    b[i] = x;
                    run(&b)?;
                }
                let mut b = orig.clone();
                b.remove(i);
                run(&b)?;
                let mut b = orig.clone();
                b.insert(i, 0);
                run(&b)?;
            }
            o.sample(|| format!("{ty:?} of {} bytes: {n} changes, {accepted} accepted", orig.len()));
            o.evals(n);
            Ok(())
        },
    );
    ctx.group(
        "streams",
        "the encoding has more than one byte",
        2_500,
        || {
            (values::val(), values::val(), prop_oneof![2 => Just(0u8), 1 => 0u8..40, 1 => any::<u8>()], any::<u32>())
                .prop_map(|(val, other, piece, at)| Faults { val, other, piece, at })
        },
        |f: &Faults, o| {
            o.nontrivial(f.val.encode().len() > 1);
            o.label(f.val.ty().name());
            o.sample(|| format!("{:?} then {:?} in pieces of {}, failing at {}", f.val.ty(), f.other.ty(), f.piece as usize + 1, f.at));
            dispatch!(f.val.ty(), T => faults::<T>(f, o))
        },
    );
    ctx.group(
        "containers",
        "the block has at least two nodes",
        400,
        || values::val().prop_filter("block", |v| v.ty() == Ty::MerkleBlock),
        containers,
    );
    ctx.enumerate("dumb", "any", || Ty::ALL.to_vec(), |ty: &Ty, o| {
        o.nontrivial(true);
        o.sample(|| format!("{ty:?}::strict_dumb()"));
        dumb(*ty)
    });
}

fn dumb(ty: Ty) -> R {
    fn one<T: StrictEncode + StrictDecode + StrictDumb + PartialEq + Debug>(ty: Ty) -> R {
        let v = T::strict_dumb();
        let b = enc(&v);
        ensure_eq!(parse(ty, &b), Some(b.len()), "encoding of the dummy value {}", show(&v));
        let w: T = dec(&b)?;
        ensure!(v == w, "dummy value differs after a round trip");
        Ok(())
    }
    match ty {
        Ty::Commitment => one::<mpc::Commitment>(ty),
        Ty::MerkleHash => one::<commit_verify::MerkleHash>(ty),
        Ty::StrictHash => one::<commit_verify::StrictHash>(ty),
        Ty::Leaf => one::<Leaf>(ty),
        Ty::MerkleNode => one::<MerkleNode>(ty),
        Ty::NodeBranching => one::<commit_verify::merkle::NodeBranching>(ty),
        Ty::MerkleConcealed => one::<MerkleConcealed>(ty),
        Ty::MerkleProof => one::<mpc::MerkleProof>(ty),
        Ty::MerkleBlock => one::<MerkleBlock>(ty),
        Ty::MerkleTree => one::<MerkleTree>(ty),
        Ty::Method => one::<mpc::Method>(ty),
        Ty::ProtocolId => one::<mpc::ProtocolId>(ty),
        Ty::Message => one::<mpc::Message>(ty),
    }
}

fn built_case() -> BoxedStrategy<(SourceSpec, u64, Val)> {
    (gen::source(10, 0..=7), gen::mask(), values::val()).boxed()
}

/// Objects produced by the library (not by decoding).
fn built((s, mask, v): &(SourceSpec, u64, Val), o: &mut Obs) -> R {
    // values which have public constructors
    let bytes = v.encode();
    match v {
        Val::Id(t, b) => dispatch_id!(*t, T => ensure_eq!(enc(&T::from(b.0)), bytes, "id")),
        Val::Inhabited(p, m) => ensure_eq!(enc(&ut::inhabited(&p.0, &m.0)), bytes, "leaf"),
        Val::Entropy(e, p) => ensure_eq!(enc(&Leaf::entropy(*e, *p)), bytes, "placeholder"),
        Val::Node { branching, depth, width, node1, node2 } => {
            let n = MerkleNode {
                branching: [
                    commit_verify::NodeBranching::Void,
                    commit_verify::NodeBranching::Single,
                    commit_verify::NodeBranching::Branch,
                ][*branching as usize % 3],
                depth: *depth,
                width: amplify::num::u256::from_le_bytes(width.0),
                node1: ut::mh(&node1.0),
                node2: ut::mh(&node2.0),
            };
            ensure_eq!(enc(&n), bytes, "node");
            let m: MerkleNode = dec(&bytes)?;
            ensure_eq!(m, n, "decoded node");
        }
        Val::Branching(_) | Val::Method => {}
        _ => {}
    }
    // trees and everything made of them
    let map = s.map();
    let pids: Vec<H> = map.keys().copied().collect();
    let Ok((depth, cofactor)) = model::find_shape(&pids, s.min_depth) else { return Ok(()) };
    if depth > 10 {
        return Ok(());
    }
    let src = ut::source(&map, s.min_depth, s.entropy);
    let tree = MerkleTree::try_commit(&src).map_err(|e| format!("{e}"))?;
    let want = model::Tree {
        depth,
        cofactor,
        leaves: map.iter().map(|(p, m)| (model::slot(p, depth, cofactor), (*p, *m))).collect(),
        fill: Fill::Entropy(s.entropy.unwrap()),
    };
    o.nontrivial(want.leaves.len() > 1 && cofactor > 0 || depth > 1);
    o.label(format!("tree of depth {depth}"));
    o.sample(|| format!("{} messages, depth {depth}, cofactor {cofactor}", map.len()));
    ensure_eq!(enc(&tree), want.encode(), "tree");
    let back: MerkleTree = dec(&enc(&tree))?;
    ensure!(back == tree, "tree after a round trip");
    ensure_eq!(back.commit_id(), tree.commit_id(), "id of the tree after a round trip");
    ensure_eq!(ut::h_cm(back.commit_id()), want.commitment(), "id of the tree");
    let conc = tree.conceal();
    ensure_eq!(enc(&conc), model::concealed_bytes(depth, cofactor, &want.root()), "concealed tree");
    ensure!(dec::<MerkleConcealed>(&enc(&conc)).as_ref() == Ok(&conc), "concealed tree after a round trip");
    let mut block = MerkleBlock::from(&tree);
    let mut wb = want.full_block();
    ensure_eq!(enc(&block), wb.encode(), "block");
    ensure!(dec::<MerkleBlock>(&enc(&block)).as_ref() == Ok(&block), "block after a round trip");
    let keep = gen::subset(&want, *mask);
    let keep: Vec<H> = keep.iter().map(|k| want.leaves[k].0).collect();
    block
        .conceal_except(keep.iter().map(ut::pid).collect::<Vec<_>>())
        .map_err(|e| e.to_string())?;
    let _ = wb.conceal_except(&keep);
    ensure_eq!(enc(&block), wb.encode(), "concealed block");
    ensure!(dec::<MerkleBlock>(&enc(&block)).as_ref() == Ok(&block), "concealed block after a round trip");
    for p in &keep {
        let proof = block.to_merkle_proof(ut::pid(p)).map_err(|e| e.to_string())?;
        let wp = want.proof(model::slot(p, depth, cofactor));
        ensure_eq!(enc(&proof), wp.encode(), "proof");
        ensure!(dec::<mpc::MerkleProof>(&enc(&proof)).as_ref() == Ok(&proof), "proof after a round trip");
        let b = MerkleBlock::with(&proof, ut::pid(p), ut::msg(&map[p])).map_err(|e| e.to_string())?;
        ensure_eq!(enc(&b), want.block(&[model::slot(p, depth, cofactor)].into()).encode(), "block of a proof");
        o.evals(2);
    }
    o.evals(6);
    Ok(())
}

fn containers(v: &Val, o: &mut Obs) -> R {
    let m = v.block().unwrap();
    o.nontrivial(m.section.len() > 1);
    let bytes = v.encode();
    o.sample(|| format!("block of {} bytes in memory and in a file", bytes.len()));
    let b: MerkleBlock = dec(&bytes)?;
    let blob = b.to_strict_serialized::<U24>().map_err(|e| e.to_string())?;
    ensure_eq!(blob.as_slice(), &bytes[..], "serialized block");
    ensure!(MerkleBlock::from_strict_serialized::<U24>(blob).as_ref() == Ok(&b), "block read from memory");
    // exact limits
    ensure_eq!(b.to_strict_serialized::<U8>().is_ok(), bytes.len() <= U8, "limit of 255 bytes");
    ensure_eq!(b.to_strict_serialized::<U16>().is_ok(), bytes.len() <= U16, "limit of 64K");
    for cut in [bytes.len() - 1, bytes.len() / 2, 0] {
        let part = MediumBlob::try_from(bytes[..cut].to_vec()).unwrap();
        ensure!(MerkleBlock::from_strict_serialized::<U24>(part).is_err(), "{cut} of {} bytes are accepted", bytes.len());
    }
    let more = MediumBlob::try_from([&bytes[..], &[0]].concat()).unwrap();
    ensure!(MerkleBlock::from_strict_serialized::<U24>(more).is_err(), "trailing byte is accepted");
    let dir = Scratch::new();
    let path = dir.0.join("block");
    b.strict_serialize_to_file::<U32>(&path).map_err(|e| e.to_string())?;
    ensure_eq!(std::fs::read(&path).unwrap(), bytes, "file");
    let c = MerkleBlock::strict_deserialize_from_file::<U32>(&path).map_err(|e| e.to_string())?;
    ensure!(b == c, "block read from a file");
    std::fs::write(&path, &bytes[..bytes.len() - 1]).unwrap();
    ensure!(MerkleBlock::strict_deserialize_from_file::<U32>(&path).is_err(), "truncated file is accepted");
    // as elements of collections
    let list = Confined::<Vec<_>, 0, U8>::try_from(vec![b.clone(), b.clone()]).unwrap();
    ensure_eq!(enc(&list), [&[2u8][..], &bytes, &bytes].concat(), "list of blocks");
    let back: Confined<Vec<MerkleBlock>, 0, U8> = dec(&enc(&list))?;
    ensure!(back == list, "list of blocks after a round trip");
    let opt = Some(b);
    ensure_eq!(enc(&opt), [&[1u8][..], &bytes].concat(), "optional block");
    ensure!(dec::<Option<MerkleBlock>>(&enc(&opt)).as_ref() == Ok(&opt), "optional block after a round trip");
    Ok(())
}

// ---------------------------------------------------------------------------------------- C20

fn shipped(ext: &str) -> Result<Vec<u8>, String> {
    std::fs::read(format!("/repo/stl/CommitVerify@0.1.0.{ext}")).map_err(|e| format!("stl/CommitVerify@0.1.0.{ext}: {e}"))
}

const HEADER: &str = "
  Description: Client-side-validation deterministic commitments
  Author: Dr Maxim Orlovsky <orlovsky@lnp-bp.org>
  Copyright (C) 2023-2024 LNP/BP Standards Association. All rights reserved.
  License: Apache-2.0";

/// Type system compiled of the library file which is shipped.
fn system() -> Result<SymbolicSys, String> {
    let lib: TypeLib = dec(&shipped("stl")?).map_err(|e| format!("stl file: {e}"))?;
    SystemBuilder::new()
        .import(lib)
        .and_then(|b| b.import(strict_types_stl()))
        .and_then(|b| b.import(std_stl()))
        .map_err(|e| e.to_string())?
        .finalize()
        .map_err(|e| format!("{e:?}"))
}

/// Reads the value of the type from the bytes.
fn interpret(sys: &SymbolicSys, id: SemId, b: &mut &[u8]) -> Result<Sv, String> {
    fn take<'a>(b: &mut &'a [u8], n: usize) -> Result<&'a [u8], String> {
        if b.len() < n {
            return Err("bytes are over".into());
        }
        let (a, r) = b.split_at(n);
        *b = r;
        Ok(a)
    }
    fn len(b: &mut &[u8], s: &strict_encoding::Sizing) -> Result<usize, String> {
        let n = match s.max {
            0..=0xFF => 1,
            0x100..=0xFFFF => 2,
            0x1_0000..=0xFF_FFFF => 3,
            0x100_0000..=0xFFFF_FFFF => 4,
            _ => 8,
        };
        let mut x = [0u8; 8];
        x[..n].copy_from_slice(take(b, n)?);
        let l = u64::from_le_bytes(x);
        if l < s.min || l > s.max {
            return Err(format!("{l} elements are out of {}..={}", s.min, s.max));
        }
        Ok(l as usize)
    }
    let ty = sys.get(id).ok_or("unknown type")?;
    Ok(match ty {
        StlTy::Primitive(p) if *p == strict_encoding::Primitive::UNIT => Sv::Unit,
        StlTy::Primitive(p) => Sv::Num(take(b, if *p == strict_encoding::Primitive::BYTE { 1 } else { p.byte_size() as usize })?.to_vec()),
        StlTy::UnicodeChar => return Err("unexpected type".into()),
        StlTy::Enum(vs) => {
            let t = take(b, 1)?[0];
            let name = vs.name_by_tag(t).ok_or_else(|| format!("unknown variant {t}"))?;
            Sv::Enum(t, name.to_string())
        }
        StlTy::Union(vs) => {
            let t = take(b, 1)?[0];
            let (v, ty) = vs.by_tag(t).ok_or_else(|| format!("unknown variant {t}"))?;
            Sv::Union(t, v.name.to_string(), Box::new(interpret(sys, *ty, b)?))
        }
        StlTy::Tuple(fs) => {
            let mut v = fs.iter().map(|f| interpret(sys, *f, b)).collect::<Result<Vec<_>, _>>()?;
            if v.len() == 1 {
                v.remove(0)
            } else {
                Sv::Tuple(v)
            }
        }
        StlTy::Struct(fs) => Sv::Struct(
            fs.iter()
                .map(|f| Ok((f.name.to_string(), interpret(sys, f.ty, b)?)))
                .collect::<Result<Vec<_>, String>>()?,
        ),
        StlTy::Array(t, n) => {
            if matches!(sys.get(*t), Some(StlTy::Primitive(p)) if *p == strict_encoding::Primitive::BYTE || *p == strict_encoding::Primitive::U8) {
                Sv::Bytes(take(b, *n as usize)?.to_vec())
            } else {
                Sv::List((0..*n).map(|_| interpret(sys, *t, b)).collect::<Result<_, _>>()?)
            }
        }
        StlTy::List(t, s) => {
            let n = len(b, s)?;
            Sv::List((0..n).map(|_| interpret(sys, *t, b)).collect::<Result<_, _>>()?)
        }
        StlTy::Set(t, s) => {
            let n = len(b, s)?;
            Sv::Set((0..n).map(|_| interpret(sys, *t, b)).collect::<Result<_, _>>()?)
        }
        StlTy::Map(k, t, s) => {
            let n = len(b, s)?;
            Sv::Map(
                (0..n)
                    .map(|_| Ok((interpret(sys, *k, b)?, interpret(sys, *t, b)?)))
                    .collect::<Result<_, String>>()?,
            )
        }
    })
}

struct Types {
    sys: SymbolicSys,
    ids: BTreeMap<String, SemId>,
}
impl Types {
    fn load() -> Result<Types, String> {
        let sys = system()?;
        let lib: TypeLib = dec(&shipped("stl")?)?;
        let ids = lib
            .types
            .keys()
            .map(|n| {
                let id = sys
                    .to_sem_id(&*Box::leak(format!("CommitVerify.{n}").into_boxed_str()))
                    .ok_or_else(|| format!("type {n} is not resolved"))?;
                Ok((n.to_string(), id))
            })
            .collect::<Result<_, String>>()?;
        Ok(Types { sys, ids })
    }
    fn read(&self, name: &str, mut b: &[u8]) -> Result<Sv, String> {
        let id = self.ids.get(name).ok_or_else(|| format!("type {name} is not exported"))?;
        let v = interpret(&self.sys, *id, &mut b)?;
        if !b.is_empty() {
            return Err(format!("{} bytes are left", b.len()));
        }
        Ok(v)
    }
    /// The reader and the writer of the type system itself.
    fn external(&self, name: &str, b: &[u8]) -> R {
        let t = self
            .sys
            .strict_deserialize_type(self.ids[name], b)
            .map_err(|e| format!("type system rejects {name}: {e}"))?;
        let w = self.sys.as_types().strict_serialize_value::<U32>(&t).map_err(|e| format!("type system can't write {name}: {e}"))?;
        ensure_eq!(w.as_slice(), b, "bytes of {} written by the type system", name);
        Ok(())
    }
}

/// What the methods of a decoded object tell about its fields.
fn reported(ty: Ty, bytes: &[u8]) -> Result<Vec<(&'static str, Sv)>, String> {
    let method = |m: Method| Sv::Enum(m as u8, m.to_string());
    let u5 = |d: amplify::num::u5| Sv::u5(d.to_u8());
    Ok(match ty {
        Ty::MerkleTree => {
            let t = dec::<MerkleTree>(bytes)?;
            vec![("depth", u5(t.depth())), ("cofactor", Sv::n(t.cofactor().to_le_bytes())), ("entropy", Sv::n(t.entropy().to_le_bytes()))]
        }
        Ty::MerkleBlock => {
            let b = dec::<MerkleBlock>(bytes)?;
            let entropy = match b.entropy() {
                None => Sv::un(0, "none", Sv::Unit),
                Some(e) => Sv::un(1, "some", Sv::n(e.to_le_bytes())),
            };
            vec![("method", method(b.method())), ("depth", u5(b.depth())), ("cofactor", Sv::n(b.cofactor().to_le_bytes())), ("entropy", entropy)]
        }
        Ty::MerkleProof => {
            let p = dec::<MerkleProof>(bytes)?;
            let list = |l: &[MerkleHash]| Sv::List(l.iter().map(|h| Sv::b(&ut::h_mh(*h))).collect());
            vec![
                ("method", method(p.method())),
                ("pos", Sv::n(p.pos().to_le_bytes())),
                ("cofactor", Sv::n(p.cofactor().to_le_bytes())),
                ("path", list(p.as_path())),
                ("path", list(&p.to_path())),
                ("path", list(&p.into_path())),
            ]
        }
        Ty::MerkleNode => {
            let n = dec::<MerkleNode>(bytes)?;
            vec![("depth", Sv::n([n.depth])), ("width", Sv::n(n.width.to_le_bytes())), ("node1", Sv::b(&ut::h_mh(n.node1))), ("node2", Sv::b(&ut::h_mh(n.node2)))]
        }
        _ => vec![],
    })
}

pub fn c20(ctx: &mut Ctx) {
    ctx.enumerate(
        "library",
        "any",
        || vec!["id", "stl", "sta", "sty", "exports"].into_iter().map(String::from).collect::<Vec<_>>(),
        |what: &String, o| {
            o.nontrivial(true);
            o.sample(|| format!("artefact: {what}"));
            library(what)
        },
    );
    let types = match Types::load() {
        Ok(t) => t,
        Err(e) => {
            ctx.enumerate("type-system", "any", || vec![0u8], move |_, _| Err(e.clone()));
            return;
        }
    };
    let types = &types;
    ctx.group(
        "values",
        "the value has distinguishable fields",
        6_000,
        values::val,
        move |v: &Val, o| {
            let name = v.ty().name();
            o.nontrivial(v.rich());
            o.label(name.clone());
            // what the code encodes
            let bytes = dispatch!(v.ty(), T => enc(&dec::<T>(&v.encode())?));
            o.sample(|| format!("{name}: {} bytes", bytes.len()));
            let got = types.read(&name, &bytes).map_err(|e| format!("{name} doesn't conform to the library: {e}"))?;
            ensure_eq!(got, v.fields(), "fields of {} according to the library", name);
            for (field, value) in reported(v.ty(), &bytes)? {
                let Sv::Struct(fields) = &got else { return Err(format!("{name} is not a structure")) };
                let stored = fields.iter().find(|(n, _)| n == field).map(|(_, v)| v);
                ensure_eq!(Some(&value), stored, "{field} which {name} reports");
                o.evals(1);
            }
            match v.ty() {
                Ty::MerkleNode => Ok(()), // numbers of 256 bits are not supported by the external reader
                Ty::MerkleTree if v.maps().unwrap().0.len() > 50 => Ok(()),
                _ => types.external(&name, &bytes),
            }
        },
    );
    ctx.group(
        "rejected",
        "the bytes differ from a valid encoding and are rejected",
        6_000,
        || (values::val(), prop::collection::vec(mutation(), 1..3)),
        move |(v, ms): &(Val, Vec<Mutation>), o| {
            // What the library can't express is ordering of keys and structure of trees: hence
            // everything accepted by the code is accepted by the library.
            let mut b = v.encode();
            for m in ms {
                m.apply(&mut b);
            }
            let name = v.ty().name();
            let code = dispatch!(v.ty(), T => guard(|| dec::<T>(&b).is_ok()))?;
            let lib = types.read(&name, &b);
            o.nontrivial(lib.is_err());
            o.label(format!("code {code}, library {}", lib.is_ok()));
            ensure!(!code || lib.is_ok(), "the code decodes {} which is not valid in the library: {:?}", name, lib);
            if matches!(v.ty(), Ty::MerkleTree | Ty::MerkleBlock) {
                return Ok(());
            }
            // .sty allows 32 path elements, depth of a tree is limited by 31
            if let (Ty::MerkleProof, Ok(Sv::Struct(f))) = (v.ty(), &lib) {
                if matches!(&f[3].1, Sv::List(l) if l.len() == 32) {
                    return Ok(());
                }
            }
            ensure_eq!(code, lib.is_ok(), "verdict of the code and of the library for {}", name);
            Ok(())
        },
    );
    ctx.group(
        "reserved",
        "the length is in the library",
        400,
        || 1usize..=32,
        move |n: &usize, o| {
            o.nontrivial(true);
            macro_rules! rb { ($($k:literal)*) => { match *n { $($k => enc(&ReservedBytes::<$k>::default()),)* _ => unreachable!() } } }
            let b = rb!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
            let name = format!("ReservedBytes{n}");
            let want = if *n == 0 { Sv::Unit } else { Sv::Bytes(vec![0; *n]) };
            ensure_eq!(types.read(&name, &b)?, want, "reserved bytes");
            types.external(&name, &b)
        },
    );
}

fn library(what: &str) -> R {
    let lib = guard(commit_verify_stl)?;
    ensure!(enc(&lib) == enc(&commit_verify_stl()), "the library is not reproducible");
    match what {
        "id" => {
            ensure_eq!(lib.id().to_string(), LIB_ID_COMMIT_VERIFY, "published id");
            let text = String::from_utf8(shipped("sty")?).map_err(|e| e.to_string())?;
            ensure!(text.contains(&format!("Id: {}", lib.id())), "id in the source file");
            let file: TypeLib = dec(&shipped("stl")?)?;
            ensure_eq!(file.id(), lib.id(), "id of the library file");
            ensure_eq!(file.name.to_string(), "CommitVerify", "name");
        }
        "exports" => {
            let names: Vec<String> = lib.types.keys().map(|k| k.to_string()).collect();
            let mut want: Vec<String> = Ty::ALL.iter().map(|t| t.name()).collect();
            want.push("TreeNode".into());
            want.extend((1..=32).map(|n| format!("ReservedBytes{n}")));
            want.sort();
            let mut names2 = names.clone();
            names2.sort();
            ensure_eq!(names2, want, "exported types");
        }
        ext => {
            let dir = Scratch::new();
            let format = match ext {
                "stl" => StlFormat::Binary,
                "sta" => StlFormat::Armored,
                _ => StlFormat::Source,
            };
            lib.serialize(format, Some(dir.0.to_str().unwrap()), "0.1.0", Some(HEADER)).map_err(|e| e.to_string())?;
            let f = dir.0.join(format!("CommitVerify@0.1.0.{ext}"));
            let got = std::fs::read(&f).map_err(|e| format!("{f:?}: {e}"))?;
            ensure!(got == shipped(ext)?, "the shipped file CommitVerify@0.1.0.{ext} differs from the library");
        }
    }
    Ok(())
}
