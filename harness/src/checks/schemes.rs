//! Generic commitment schemes: C16 (commit-verify), C17 (embed-commit), C18 (convolve-commit).
//!
//! The scheme implementations are test doubles whose every answer is a small-codomain random function
//! of its arguments: each stage of a verification then succeeds and fails often, for every combination
//! with the other stages, and an argument swapped or replaced by another one shows up as another
//! answer. Equality of the doubles ignores a `noise` field, so that a comparison by anything other
//! than the declared equivalence shows up as well.

use std::collections::BTreeMap;
use std::fmt;

use commit_verify::mpc::{MerkleTree, MultiSource};
use commit_verify::{
    CommitVerify, CommitmentProtocol, ConvolveCommit, ConvolveCommitProof, ConvolveVerifyError,
    EmbedCommitProof, EmbedCommitVerify, EmbedVerifyError, TryCommitVerify, UntaggedProtocol, VerifyEq,
    VerifyError,
};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::engine::{Ctx, Obs};
use crate::gen::{self, SourceSpec, TreeSpec};
use crate::model::{self, Fill, B32, H};
use crate::ut::{self, enc};
use crate::{ensure, ensure_eq};

type R = Result<(), String>;

/// Second protocol: the same types may have several schemes.
pub enum Other {}
impl CommitmentProtocol for Other {}

/// Random function of its arguments.
fn mix(parts: &[u64]) -> u64 {
    let mut z = 0x9E37_79B9_7F4A_7C15u64;
    for p in parts {
        z = (z ^ p).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^= z >> 29;
        z = z.wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 32;
    }
    z
}

/// Number of equivalence classes of each of the doubles.
const CLASSES: u64 = 3;

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub struct Fault(u8);
impl fmt::Display for Fault {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "fault-{}", self.0) }
}
impl std::error::Error for Fault {}

#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
pub struct Note {
    pub val: u8,
    pub noise: u8,
}

// ------------------------------------------------------------------------------------------ C16

#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
struct Seal {
    class: u8,
    noise: u8,
}
impl PartialEq for Seal {
    fn eq(&self, o: &Seal) -> bool { self.class == o.class }
}
impl Eq for Seal {}

const P_ONE: u64 = 1;
const P_TWO: u64 = 2;

fn sealed(p: u64, m: &Note) -> Seal {
    Seal { class: (mix(&[p, 10, m.val as u64]) % CLASSES) as u8, noise: m.noise }
}
/// Codomains of the two fallible schemes differ.
fn try_sealed(p: u64, m: &Note) -> Result<Seal, Fault> {
    let r = mix(&[p, 11, m.val as u64]);
    match r % 4 {
        0 => Err(Fault((r >> 8) as u8)),
        _ => Ok(Seal { class: ((r >> 16) % CLASSES) as u8, noise: m.noise ^ 0x55 }),
    }
}

impl CommitVerify<Note, UntaggedProtocol> for Seal {
    fn commit(m: &Note) -> Seal { sealed(P_ONE, m) }
}
impl CommitVerify<Note, Other> for Seal {
    fn commit(m: &Note) -> Seal { sealed(P_TWO, m) }
}
impl TryCommitVerify<Note, UntaggedProtocol> for Seal {
    type Error = Fault;
    fn try_commit(m: &Note) -> Result<Seal, Fault> { try_sealed(P_ONE, m) }
}
impl TryCommitVerify<Note, Other> for Seal {
    type Error = Fault;
    fn try_commit(m: &Note) -> Result<Seal, Fault> { try_sealed(P_TWO, m) }
}

/// A collision-resistant scheme over byte strings; the fallible variant limits the length.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
struct Digested(H);
impl CommitVerify<Vec<u8>, UntaggedProtocol> for Digested {
    fn commit(m: &Vec<u8>) -> Self { Digested(model::tagged("csv-test:digested", m)) }
}
impl TryCommitVerify<Vec<u8>, Other> for Digested {
    type Error = Fault;
    fn try_commit(m: &Vec<u8>) -> Result<Self, Fault> {
        if m.len() > 24 {
            return Err(Fault(m.len() as u8));
        }
        Ok(Digested(model::tagged("csv-test:digested-short", m)))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Nothing,
    Message(u8, u8),
    Id(u8, u8),
    Remove(u8),
    Insert(B32, B32),
    Swap(u8, u8),
    Entropy(u8),
    MinDepth(u8),
    Clear,
}

fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        2 => Just(Edit::Nothing),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Edit::Message(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Edit::Id(a, b)),
        2 => any::<u8>().prop_map(Edit::Remove),
        2 => (gen::b32(), gen::b32()).prop_map(|(a, b)| Edit::Insert(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Edit::Swap(a, b)),
        3 => any::<u8>().prop_map(Edit::Entropy),
        4 => (0u8..=13).prop_map(Edit::MinDepth),
        1 => Just(Edit::Clear),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C16Case {
    source: SourceSpec,
    edits: Vec<Edit>,
}

fn apply(s: &SourceSpec, e: &Edit) -> SourceSpec {
    let mut s = s.clone();
    let n = s.messages.len().max(1);
    let nth = |i: u8| i as usize % n;
    let some = !s.messages.is_empty();
    match e {
        Edit::Message(i, b) if some => s.messages[nth(*i)].1 .0[*b as usize % 32] ^= 1 << (b >> 5),
        Edit::Id(i, b) if some => s.messages[nth(*i)].0 .0[*b as usize % 32] ^= 1 << (b >> 5),
        Edit::Remove(i) if some => {
            s.messages.remove(nth(*i));
        }
        Edit::Insert(p, m) => s.messages.push((*p, *m)),
        Edit::Swap(i, j) if some => {
            let (a, b) = (nth(*i), nth(*j));
            let m = s.messages[a].1;
            s.messages[a].1 = s.messages[b].1;
            s.messages[b].1 = m;
        }
        Edit::Entropy(b) => s.entropy = s.entropy.map(|e| e ^ 1 << (b % 64)),
        Edit::MinDepth(d) => s.min_depth = *d,
        Edit::Clear => s.messages.clear(),
        _ => {}
    }
    s
}

/// What a source commits to: shape, entropy and messages; `None` if it can't be committed to.
fn outcome(s: &SourceSpec) -> Option<(u8, u16, u64, BTreeMap<H, H>)> {
    let map = s.map();
    let pids: Vec<H> = map.keys().copied().collect();
    let (d, c) = model::find_shape(&pids, s.min_depth).ok()?;
    Some((d, c, s.entropy.unwrap(), map))
}

fn real(s: &SourceSpec) -> MultiSource { ut::source(&s.map(), s.min_depth, s.entropy) }

pub fn c16(ctx: &mut Ctx) {
    ctx.group(
        "doubles",
        "always: the four schemes judge every message and commitment class",
        60_000,
        || {
            (any::<u8>(), any::<u8>(), 0..CLASSES as u8, any::<u8>()).prop_map(|(val, noise, class, cn)| {
                (Note { val, noise }, Seal { class, noise: cn })
            })
        },
        |(m, c): &(Note, Seal), o| {
            o.nontrivial(true);
            let judge = |want: Seal| match want.class == c.class {
                true => Ok(()),
                false => Err(VerifyError::InvalidCommitment),
            };
            let try_judge = |want: Result<Seal, Fault>| match want {
                Err(_) => Err(VerifyError::InvalidMessage),
                Ok(x) => judge(x),
            };
            ensure_eq!(
                <Seal as CommitVerify<Note, UntaggedProtocol>>::verify(c, m),
                judge(sealed(P_ONE, m)),
                "infallible scheme"
            );
            ensure_eq!(
                <Seal as CommitVerify<Note, Other>>::verify(c, m),
                judge(sealed(P_TWO, m)),
                "infallible scheme of another protocol"
            );
            let t1 = try_judge(try_sealed(P_ONE, m));
            o.label(format!("{t1:?}"));
            ensure_eq!(<Seal as TryCommitVerify<Note, UntaggedProtocol>>::verify(c, m), t1, "fallible scheme");
            ensure_eq!(
                <Seal as TryCommitVerify<Note, Other>>::verify(c, m),
                try_judge(try_sealed(P_TWO, m)),
                "fallible scheme of another protocol"
            );
            o.evals(3);
            Ok(())
        },
    );
    ctx.group(
        "digests",
        "the two messages differ",
        20_000,
        || {
            prop_oneof![
                3 => (prop::collection::vec(any::<u8>(), 0..40), any::<u8>(), any::<u8>()).prop_map(|(a, i, x)| {
                    let mut b = a.clone();
                    match x % 4 {
                        0 => b.push(x),
                        1 => { b.pop(); }
                        _ if !b.is_empty() => { let n = b.len(); b[i as usize % n] ^= x | 1 }
                        _ => {}
                    }
                    (a, b)
                }),
                1 => (prop::collection::vec(any::<u8>(), 0..40), prop::collection::vec(any::<u8>(), 0..40)),
                1 => prop::collection::vec(any::<u8>(), 0..40).prop_map(|a| (a.clone(), a)),
            ]
        },
        |(a, b): &(Vec<u8>, Vec<u8>), o| {
            o.nontrivial(a != b);
            let c = <Digested as CommitVerify<Vec<u8>, UntaggedProtocol>>::commit(a);
            ensure_eq!(CommitVerify::<_, UntaggedProtocol>::verify(&c, a), Ok(()), "own message");
            ensure_eq!(
                CommitVerify::<_, UntaggedProtocol>::verify(&c, b),
                if a == b { Ok(()) } else { Err(VerifyError::InvalidCommitment) },
                "another message"
            );
            // (the commitment itself may be of a message which the fallible scheme doesn't take)
            let t = Digested(model::tagged("csv-test:digested-short", a));
            let want = |m: &Vec<u8>| match () {
                _ if m.len() > 24 => Err(VerifyError::InvalidMessage),
                _ if m == a => Ok(()),
                _ => Err(VerifyError::InvalidCommitment),
            };
            ensure_eq!(TryCommitVerify::<_, Other>::verify(&t, a), want(a), "own message, fallible");
            ensure_eq!(TryCommitVerify::<_, Other>::verify(&t, b), want(b), "another message, fallible");
            o.label_if(a.len() > 24, "impossible message");
            o.evals(3);
            Ok(())
        },
    );
    ctx.group(
        "trees",
        "the source has messages and at least one of the variants commits to another tree",
        5_000,
        || {
            (
                prop_oneof![3 => gen::source(12, 0..=7), 2 => gen::source(12, 0..=12), 1 => gen::crowded()],
                prop::collection::vec(edit(), 1..5),
            )
                .prop_map(|(source, edits)| C16Case { source, edits })
        },
        c16_trees,
    );
    ctx.group(
        "foreign_trees",
        "tree with a shape which the search wouldn't choose",
        2_500,
        || (gen::small_tree(0..=8, 10), 0u8..=9),
        |(spec, min_depth): &(TreeSpec, u8), o| {
            let m = spec.build();
            let Fill::Entropy(e) = m.fill else { unreachable!() };
            let tree = ut::tree(&m)?;
            let map: BTreeMap<H, H> = m.leaves.values().copied().collect();
            let pids: Vec<H> = map.keys().copied().collect();
            for min in [*min_depth, m.depth] {
                let want = match model::find_shape(&pids, min) {
                    Err(_) => Err(VerifyError::InvalidMessage),
                    Ok(s) if s == (m.depth, m.cofactor) => Ok(()),
                    Ok(_) => Err(VerifyError::InvalidCommitment),
                };
                o.nontrivial(want.is_err());
                o.label(format!("{want:?}"));
                ensure_eq!(
                    TryCommitVerify::verify(&tree, &ut::source(&map, min, Some(e))),
                    want,
                    "tree of depth {}, cofactor {} against its messages with minimal depth {min}",
                    m.depth,
                    m.cofactor
                );
                o.evals(1);
            }
            Ok(())
        },
    );
}

fn c16_trees(c: &C16Case, o: &mut Obs) -> R {
    let mut sources = vec![c.source.clone()];
    let mut s = c.source.clone();
    for e in &c.edits {
        // Each of the edits alone and all the edits up to this one
        sources.push(apply(&c.source, e));
        s = apply(&s, e);
        sources.push(s.clone());
    }
    let own = outcome(&c.source);
    let tree = match (MerkleTree::try_commit(&real(&c.source)), &own) {
        (Err(_), None) => {
            o.label("can't be committed to");
            let Some(s) = sources.iter().find(|s| outcome(s).is_some()) else { return Ok(()) };
            let tree = MerkleTree::try_commit(&real(s)).map_err(|e| format!("variant is not committed: {e}"))?;
            ensure_eq!(tree.verify(&real(&c.source)), Err(VerifyError::InvalidMessage), "impossible source");
            return Ok(());
        }
        (Ok(t), Some(_)) => t,
        (r, _) => return Err(format!("commitment to the source: {:?}", r.map(|_| ()))),
    };
    let again: MerkleTree = ut::dec(&enc(&tree))?;
    let mut other = false;
    for s in &sources {
        let want = match outcome(s) {
            None => Err(VerifyError::InvalidMessage),
            x if x == own => Ok(()),
            _ => Err(VerifyError::InvalidCommitment),
        };
        o.label(format!("{want:?}"));
        other |= want.is_err();
        ensure_eq!(tree.verify(&real(s)), want, "tree against {s:?}");
        ensure_eq!(again.verify(&real(s)), want, "decoded tree against {s:?}");
        o.evals(2);
    }
    o.nontrivial(other && !c.source.messages.is_empty());
    Ok(())
}

// ------------------------------------------------------------------------------------------ C17

/// Container of the embedded commitments; equivalence ignores the noise.
#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
struct Boxy {
    class: u8,
    noise: u8,
}
#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
struct Receipt {
    class: u8,
    noise: u8,
}
impl VerifyEq for Boxy {
    fn verify_eq(&self, o: &Boxy) -> bool { self.class == o.class }
}
impl VerifyEq for Receipt {
    fn verify_eq(&self, o: &Receipt) -> bool { self.class == o.class }
}

fn restored(p: u64, r: &Receipt, c: &Boxy) -> Result<Boxy, EmbedVerifyError<Fault>> {
    let x = mix(&[p, 20, r.class as u64, c.class as u64, 3]);
    let f = Fault((x >> 40) as u8);
    match x % 12 {
        0 => Err(EmbedVerifyError::InvalidProof),
        1 => Err(EmbedVerifyError::CommitmentMismatch),
        2 => Err(EmbedVerifyError::InvalidMessage(f)),
        3 => Err(EmbedVerifyError::ProofMismatch),
        _ => Ok(Boxy { class: ((x >> 8) % CLASSES) as u8, noise: (x >> 16) as u8 }),
    }
}
fn embedded(p: u64, c: &Boxy, m: &Note) -> Result<(Boxy, Receipt), (Boxy, Fault)> {
    let x = mix(&[p, 21, c.class as u64, m.val as u64]);
    let after = Boxy { class: ((x >> 8) % CLASSES) as u8, noise: (x >> 24) as u8 };
    match x % 5 {
        0 => Err((after, Fault((x >> 40) as u8))),
        _ => Ok((after, Receipt { class: ((x >> 16) % CLASSES) as u8, noise: (x >> 32) as u8 })),
    }
}

macro_rules! embed_impl {
    ($proto:ty, $p:expr) => {
        impl EmbedCommitProof<Note, Boxy, $proto> for Receipt {
            fn restore_original_container(&self, c: &Boxy) -> Result<Boxy, EmbedVerifyError<Fault>> {
                restored($p, self, c)
            }
        }
        impl EmbedCommitVerify<Note, $proto> for Boxy {
            type Proof = Receipt;
            type CommitError = Fault;
            fn embed_commit(&mut self, m: &Note) -> Result<Receipt, Fault> {
                match embedded($p, self, m) {
                    Ok((b, r)) => {
                        *self = b;
                        Ok(r)
                    }
                    Err((b, f)) => {
                        *self = b;
                        Err(f)
                    }
                }
            }
        }
    };
}
embed_impl!(UntaggedProtocol, P_ONE);
embed_impl!(Other, P_TWO);

fn embed_want(p: u64, c: &Boxy, r: &Receipt, m: &Note) -> Result<(), EmbedVerifyError<Fault>> {
    let mut orig = restored(p, r, c)?;
    orig.noise = 0;
    let (c2, r2) = embedded(p, &orig, m).map_err(|(_, f)| EmbedVerifyError::InvalidMessage(f))?;
    if r2.class != r.class {
        return Err(EmbedVerifyError::InvalidProof);
    }
    if c2.class != c.class {
        return Err(EmbedVerifyError::CommitmentMismatch);
    }
    Ok(())
}

/// The library has two names for a proof which is not the one the commitment produces.
fn class<E: std::error::Error>(r: Result<(), EmbedVerifyError<E>>) -> Result<(), EmbedVerifyError<E>> {
    r.map_err(|e| match e {
        EmbedVerifyError::ProofMismatch => EmbedVerifyError::InvalidProof,
        e => e,
    })
}

/// A realistic scheme: the container is a list of slots; the commitment overwrites the free slot with
/// a digest of the message, of the nonce and of all the other slots, which all make the proof.
/// `sig` is not covered by the commitment and is ignored by the equivalence.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Form {
    slots: Vec<Option<B32>>,
    sig: u8,
}
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
struct FormProof {
    at: u8,
    others: B32,
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
enum FormError {
    Full,
    TooLong(usize),
}
impl fmt::Display for FormError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for FormError {}

impl VerifyEq for Form {
    fn verify_eq(&self, o: &Form) -> bool { self.slots == o.slots }
}

fn others(slots: &[Option<B32>], at: usize) -> B32 {
    let mut v = vec![slots.len() as u8];
    for (i, s) in slots.iter().enumerate() {
        if i != at {
            v.push(s.is_some() as u8);
            v.extend(s.map(|s| s.0).unwrap_or_default());
        }
    }
    B32(model::sha(&v))
}
fn form_value(others: &B32, msg: &[u8]) -> B32 {
    B32(model::tagged("csv-test:form", &[&others.0[..], msg].concat()))
}

impl EmbedCommitProof<Vec<u8>, Form, Other> for FormProof {
    fn restore_original_container(&self, c: &Form) -> Result<Form, EmbedVerifyError<FormError>> {
        let at = self.at as usize;
        // The free slot which is taken is always the first one
        if at >= c.slots.len() || c.slots[..at].iter().any(|s| s.is_none()) || others(&c.slots, at) != self.others {
            return Err(EmbedVerifyError::InvalidProof);
        }
        let mut c = c.clone();
        c.slots[at] = None;
        c.sig = 0;
        Ok(c)
    }
}
impl EmbedCommitVerify<Vec<u8>, Other> for Form {
    type Proof = FormProof;
    type CommitError = FormError;
    fn embed_commit(&mut self, msg: &Vec<u8>) -> Result<FormProof, FormError> {
        if msg.len() > 20 {
            return Err(FormError::TooLong(msg.len()));
        }
        let at = self.slots.iter().position(|s| s.is_none()).ok_or(FormError::Full)?;
        let others = others(&self.slots, at);
        self.slots[at] = Some(form_value(&others, msg));
        Ok(FormProof { at: at as u8, others })
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    None,
    Sig(u8),
    Slot(u8, u8),
    Empty(u8),
    Grow(B32),
    Shrink,
    At(u8),
    Digest(u8),
    Msg(u8, u8),
    Long(u8),
    Drop,
}

fn tamper() -> BoxedStrategy<Tamper> {
    prop_oneof![
        2 => Just(Tamper::None),
        2 => any::<u8>().prop_map(Tamper::Sig),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Tamper::Slot(a, b)),
        1 => any::<u8>().prop_map(Tamper::Empty),
        1 => gen::b32().prop_map(Tamper::Grow),
        1 => Just(Tamper::Shrink),
        2 => (0u8..6).prop_map(Tamper::At),
        2 => any::<u8>().prop_map(Tamper::Digest),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Tamper::Msg(a, b)),
        2 => (0u8..30).prop_map(Tamper::Long),
        1 => Just(Tamper::Drop),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FormCase {
    slots: Vec<Option<B32>>,
    msg: Vec<u8>,
    tampers: Vec<Tamper>,
}

pub fn c17(ctx: &mut Ctx) {
    ctx.group(
        "doubles",
        "the container is restored by the proof in at least one of the two protocols",
        150_000,
        || {
            (0..CLASSES as u8, any::<u8>(), 0..CLASSES as u8, any::<u8>(), any::<u8>(), any::<u8>()).prop_map(
                |(a, n1, b, n2, val, n3)| {
                    (Boxy { class: a, noise: n1 }, Receipt { class: b, noise: n2 }, Note { val, noise: n3 })
                },
            )
        },
        |(c, r, m): &(Boxy, Receipt, Note), o| {
            let want = embed_want(P_ONE, c, r, m);
            let want2 = embed_want(P_TWO, c, r, m);
            o.nontrivial(restored(P_ONE, r, c).is_ok() || restored(P_TWO, r, c).is_ok());
            o.label(match &want {
                Ok(()) => "accepted".to_string(),
                Err(e) => format!("{e:?}").chars().take_while(|c| *c != '(').collect(),
            });
            let got = <Boxy as EmbedCommitVerify<Note, UntaggedProtocol>>::verify(c, m, r);
            ensure_eq!(class(got), class(want), "verification");
            let got = <Boxy as EmbedCommitVerify<Note, Other>>::verify(c, m, r);
            ensure_eq!(class(got), class(want2), "verification by another protocol");
            o.evals(1);
            Ok(())
        },
    );
    ctx.group(
        "forms",
        "something was changed after an honest commitment",
        20_000,
        || {
            (
                prop::collection::vec(prop::option::weighted(0.5, gen::b32()), 1..5),
                prop::collection::vec(any::<u8>(), 0..22),
                prop::collection::vec(tamper(), 0..3),
            )
                .prop_map(|(slots, msg, tampers)| FormCase { slots, msg, tampers })
        },
        c17_forms,
    );
    ctx.group(
        "equivalence",
        "always",
        2_000,
        || (gen::b32(), gen::b32(), any::<bool>()),
        |(a, b, same), o| {
            o.nontrivial(true);
            let b = if *same { *a } else { *b };
            ensure_eq!(a.0.verify_eq(&b.0), a.0 == b.0, "equivalence of comparable types is their equality");
            ensure_eq!(ut::pid(&a.0).verify_eq(&ut::pid(&b.0)), a.0 == b.0, "equivalence of ids");
            ensure_eq!(
                a.0.to_vec().verify_eq(&b.0[..31].to_vec()),
                false,
                "equivalence of lists of different length"
            );
            // Errors of the scheme are converted into the one of the message
            let e: EmbedVerifyError<Fault> = Fault(a.0[0]).into();
            ensure_eq!(e, EmbedVerifyError::InvalidMessage(Fault(a.0[0])), "conversion of the error");
            ensure!(
                e.to_string().contains(&format!("fault-{}", a.0[0])),
                "the text of the error lacks its details: {e}"
            );
            Ok(())
        },
    );
}

fn c17_forms(c: &FormCase, o: &mut Obs) -> R {
    let mut form = Form { slots: c.slots.clone(), sig: 1 };
    let free = c.slots.iter().position(|s| s.is_none());
    let res = form.embed_commit(&c.msg);
    let (mut proof, committed) = match (res, free) {
        (Ok(p), Some(_)) if c.msg.len() <= 20 => (p, true),
        (Err(_), _) => (FormProof { at: 0, others: others(&c.slots, 0) }, false),
        x => return Err(format!("harness: {x:?}")),
    };
    let mut msg = c.msg.clone();
    if committed {
        ensure_eq!(form.verify(&msg, &proof), Ok(()), "honest commitment");
    }
    for t in &c.tampers {
        let n = form.slots.len().max(1);
        match t {
            Tamper::None => {}
            Tamper::Sig(s) => form.sig = *s,
            Tamper::Slot(i, b) => {
                if let Some(Some(s)) = form.slots.get_mut(*i as usize % n) {
                    s.0[*b as usize % 32] ^= 1 << (b >> 5);
                }
            }
            Tamper::Empty(i) => {
                if let Some(s) = form.slots.get_mut(*i as usize % n) {
                    *s = None;
                }
            }
            Tamper::Grow(h) => form.slots.push(Some(*h)),
            Tamper::Shrink => {
                form.slots.pop();
            }
            Tamper::At(a) => proof.at = *a,
            Tamper::Digest(b) => proof.others.0[*b as usize % 32] ^= 1 << (b >> 5),
            Tamper::Msg(i, x) if !msg.is_empty() => {
                let n = msg.len();
                msg[*i as usize % n] ^= x;
            }
            Tamper::Msg(..) => {}
            Tamper::Long(n) => msg.resize(*n as usize, 7),
            Tamper::Drop => form = Form { slots: c.slots.clone(), sig: form.sig },
        }
    }
    o.nontrivial(!c.tampers.is_empty() && committed);
    // Declarative description of what is acceptable
    let at = proof.at as usize;
    let restorable = at < form.slots.len()
        && form.slots[..at].iter().all(|s| s.is_some())
        && others(&form.slots, at) == proof.others;
    let want = if !restorable {
        Err(EmbedVerifyError::InvalidProof)
    } else if msg.len() > 20 {
        Err(EmbedVerifyError::InvalidMessage(FormError::TooLong(msg.len())))
    } else if form.slots[at] != Some(form_value(&proof.others, &msg)) {
        Err(EmbedVerifyError::CommitmentMismatch)
    } else {
        Ok(())
    };
    o.label(match &want {
        Ok(()) => "accepted".to_string(),
        Err(e) => format!("{e:?}").chars().take_while(|c| *c != '(').collect(),
    });
    ensure_eq!(class(form.verify(&msg, &proof)), want, "verification of {form:?} with {proof:?}");
    Ok(())
}

// ------------------------------------------------------------------------------------------ C18

#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
struct Stamp {
    class: u8,
    noise: u8,
}
#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
struct Ticket {
    class: u8,
    noise: u8,
    /// The supplement is a part of the proof not covered by its equivalence.
    suppl: u8,
}
#[derive(Copy, Clone, Debug)]
struct Origin {
    val: u64,
}
impl VerifyEq for Stamp {
    fn verify_eq(&self, o: &Stamp) -> bool { self.class == o.class }
}
impl VerifyEq for Ticket {
    fn verify_eq(&self, o: &Ticket) -> bool { self.class == o.class }
}

fn origin(p: u64, t: &Ticket, s: &Stamp) -> Origin {
    Origin { val: mix(&[p, 30, t.class as u64, s.class as u64]) % 5 }
}
fn convolved(p: u64, src: &Origin, suppl: u8, m: &Note) -> Result<(Stamp, Ticket), Fault> {
    let x = mix(&[p, 31, src.val, suppl as u64, m.val as u64]);
    match x % 5 {
        0 => Err(Fault((x >> 40) as u8)),
        _ => Ok((
            Stamp { class: ((x >> 8) % CLASSES) as u8, noise: (x >> 16) as u8 },
            Ticket { class: ((x >> 24) % CLASSES) as u8, noise: (x >> 32) as u8, suppl: (x >> 48) as u8 },
        )),
    }
}

macro_rules! convolve_impl {
    ($proto:ty, $p:expr) => {
        impl ConvolveCommitProof<Note, Origin, $proto> for Ticket {
            type Suppl = u8;
            fn restore_original(&self, s: &Stamp) -> Origin { origin($p, self, s) }
            fn extract_supplement(&self) -> &u8 { &self.suppl }
        }
        impl ConvolveCommit<Note, Ticket, $proto> for Origin {
            type Commitment = Stamp;
            type CommitError = Fault;
            fn convolve_commit(&self, suppl: &u8, m: &Note) -> Result<(Stamp, Ticket), Fault> {
                convolved($p, self, *suppl, m)
            }
        }
    };
}
convolve_impl!(UntaggedProtocol, P_ONE);
convolve_impl!(Other, P_TWO);

fn convolve_want(p: u64, s: &Stamp, t: &Ticket, m: &Note) -> Result<(), ConvolveVerifyError> {
    let (s2, t2) =
        convolved(p, &origin(p, t, s), t.suppl, m).map_err(|_| ConvolveVerifyError::ImpossibleMessage)?;
    if t2.class != t.class {
        return Err(ConvolveVerifyError::InvalidProof);
    }
    if s2.class != s.class {
        return Err(ConvolveVerifyError::CommitmentMismatch);
    }
    Ok(())
}

/// A realistic scheme in the manner of pay-to-contract: the original is a number, the commitment is
/// the original plus a tweak depending on the supplement and the message; the proof consists of the
/// supplement and of the original.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
struct Key(u64);
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
struct KeyProof {
    orig: u64,
    suppl: Vec<u8>,
}
fn tweak(suppl: &[u8], msg: &[u8]) -> u64 {
    let h = model::tagged("csv-test:tweak", &[&[suppl.len() as u8][..], suppl, msg].concat());
    u64::from_le_bytes(h[..8].try_into().unwrap())
}
impl ConvolveCommitProof<Vec<u8>, Key, Other> for KeyProof {
    type Suppl = Vec<u8>;
    fn restore_original(&self, _: &u64) -> Key { Key(self.orig) }
    fn extract_supplement(&self) -> &Vec<u8> { &self.suppl }
}
impl ConvolveCommit<Vec<u8>, KeyProof, Other> for Key {
    type Commitment = u64;
    type CommitError = Fault;
    fn convolve_commit(&self, suppl: &Vec<u8>, msg: &Vec<u8>) -> Result<(u64, KeyProof), Fault> {
        if msg.len() > 20 {
            return Err(Fault(msg.len() as u8));
        }
        Ok((self.0.wrapping_add(tweak(suppl, msg)), KeyProof { orig: self.0, suppl: suppl.clone() }))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyCase {
    key: u64,
    suppl: Vec<u8>,
    msg: Vec<u8>,
    what: u8,
    arg: u8,
    val: u8,
}

pub fn c18(ctx: &mut Ctx) {
    ctx.group(
        "doubles",
        "the restored original can be committed in at least one of the two protocols",
        150_000,
        || {
            ((0..CLASSES as u8, any::<u8>()), (0..CLASSES as u8, any::<u8>(), any::<u8>()), any::<u8>(), any::<u8>())
                .prop_map(|((a, n1), (b, n2, suppl), val, n3)| {
                    (
                        Stamp { class: a, noise: n1 },
                        Ticket { class: b, noise: n2, suppl },
                        Note { val, noise: n3 },
                    )
                })
        },
        |(s, t, m): &(Stamp, Ticket, Note), o| {
            let want = convolve_want(P_ONE, s, t, m);
            let want2 = convolve_want(P_TWO, s, t, m);
            o.nontrivial(
                want != Err(ConvolveVerifyError::ImpossibleMessage)
                    || want2 != Err(ConvolveVerifyError::ImpossibleMessage),
            );
            o.label(format!("{want:?}"));
            let got = ConvolveCommitProof::<Note, Origin, UntaggedProtocol>::verify(t, m, s);
            ensure_eq!(got, want, "verification");
            let got = ConvolveCommitProof::<Note, Origin, Other>::verify(t, m, s);
            ensure_eq!(got, want2, "verification by another protocol");
            o.evals(1);
            Ok(())
        },
    );
    ctx.group(
        "keys",
        "something was changed after an honest commitment",
        20_000,
        || {
            (
                any::<u64>(),
                prop::collection::vec(any::<u8>(), 0..6),
                prop::collection::vec(any::<u8>(), 0..22),
                any::<u8>(),
                any::<u8>(),
                any::<u8>(),
            )
                .prop_map(|(key, suppl, msg, what, arg, val)| KeyCase { key, suppl, msg, what, arg, val })
        },
        |c, o| {
            let verify = |p: &KeyProof, m: &Vec<u8>, k: &u64| ConvolveCommitProof::<_, Key, Other>::verify(p, m, k);
            let mut proof = KeyProof { orig: c.key, suppl: c.suppl.clone() };
            let mut msg = c.msg.clone();
            let mut key = c.key.wrapping_add(tweak(&c.suppl, &c.msg));
            if msg.len() <= 20 {
                ensure_eq!(Key(c.key).convolve_commit(&c.suppl, &msg), Ok((key, proof.clone())), "honest commitment");
                ensure_eq!(verify(&proof, &msg, &key), Ok(()), "verification of an honest commitment");
            }
            o.nontrivial(c.what % 5 != 0);
            match c.what % 5 {
                1 => proof.orig ^= 1u64 << (c.arg % 64),
                2 if !proof.suppl.is_empty() => {
                    let n = proof.suppl.len();
                    proof.suppl[c.arg as usize % n] ^= c.val;
                }
                2 => proof.suppl.push(c.val),
                3 if !msg.is_empty() && c.arg % 2 == 0 => {
                    let n = msg.len();
                    msg[c.arg as usize % n] ^= c.val;
                }
                3 => msg.resize(c.val as usize % 30, c.arg),
                4 => key ^= 1u64 << (c.arg % 64),
                _ => {}
            }
            let want = if msg.len() > 20 {
                Err(ConvolveVerifyError::ImpossibleMessage)
            } else if proof.orig.wrapping_add(tweak(&proof.suppl, &msg)) != key {
                Err(ConvolveVerifyError::CommitmentMismatch)
            } else {
                Ok(())
            };
            o.label(format!("{want:?}"));
            ensure_eq!(verify(&proof, &msg, &key), want, "verification of a changed commitment");
            Ok(())
        },
    );
}
