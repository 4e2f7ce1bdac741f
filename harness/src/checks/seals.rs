//! Single-use seals: C24 (verification of closings), C25 (witness data).

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::error::Error;
use std::fmt::{self, Debug, Display};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use single_use_seals::{
    ClientSideWitness, NoWitness, PublishedWitness, SealError, SealWitness, SingleUseSeal,
};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};

use commit_verify::mpc::{self, InvalidProof, LeafNotKnown, MergeError, MerkleBlock, MerkleTree, ProtocolId};
use commit_verify::{ConvolveVerifyError, EmbedVerifyError, TryCommitVerify, VerifyError};

use crate::engine::{Ctx, Obs};
use crate::gen;
use crate::model::{self, B32};
use crate::ut::{self, enc};
use crate::{ensure, ensure_eq};

type R = Result<(), String>;

const LIB: &str = "CsvSeals";

fn mix(parts: &[u64]) -> u64 {
    let mut z = 0x51_7C_C1_B7_27_22_0A_95u64;
    for p in parts {
        z = (z ^ p).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^= z >> 29;
        z = z.wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 32;
    }
    z
}

/// What was asked from the parts of a witness.
#[derive(Clone, PartialEq, Eq, Debug)]
enum Call {
    Included { seal: u16, msg: u16, published: u32, client: u32 },
    Convolve { client: u32, msg: u16 },
    Commitment { published: u32, proof: u64 },
}
thread_local! {
    static LOG: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
}
fn log(c: Call) { LOG.with(|l| l.borrow_mut().push(c)) }
fn take_log() -> Vec<Call> { LOG.with(|l| std::mem::take(&mut *l.borrow_mut())) }

macro_rules! error {
    ($name:ident) => {
        #[derive(Clone, PartialEq, Eq, Debug)]
        struct $name(u32);
        impl Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, concat!(stringify!($name), "/{}"), self.0) }
        }
        impl Error for $name {}
    };
}
error!(PubFault);
error!(CliFault);

/// Reference of a publication with a representation of its own.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct PubRef(u32);
impl Display for PubRef {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "pub~{:x}~", self.0) }
}

/// Seal: inclusion, convolution and commitment are random functions of everything they may see.
#[derive(Copy, Clone, Eq, PartialEq, Debug, Default, Serialize, Deserialize)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Seal {
    id: u16,
    serial: u16,
}
impl Display for Seal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "<{}:{}>", self.id, self.serial) }
}

#[derive(Clone, Eq, PartialEq, Debug, Serialize, Deserialize)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Published {
    id: u32,
    mood: u8,
}
#[derive(Clone, Eq, PartialEq, Debug, Serialize, Deserialize)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Client {
    id: u32,
    mood: u8,
    extra: Option<u16>,
}

/// `mood` decides how often the answer is positive: otherwise long lists of seals hardly ever pass.
fn included(s: &Seal, m: u16, p: &Published, c: &Client) -> bool {
    match (p.mood ^ c.mood) % 4 {
        0 => mix(&[1, s.id as u64, m as u64, p.id as u64, c.id as u64]) % 2 == 0,
        1 => mix(&[2, s.id as u64, m as u64, p.id as u64, c.id as u64]) % 8 != 0,
        _ => true,
    }
}
fn convolve(c: &Client, m: u16) -> Result<u64, CliFault> {
    let x = mix(&[3, c.id as u64, c.extra.map(|x| x as u64 + 1).unwrap_or_default(), m as u64]);
    if x % 3 == 0 {
        Err(CliFault((x >> 32) as u32))
    } else {
        Ok(x)
    }
}
fn committed(p: &Published, proof: u64) -> Result<(), PubFault> {
    let x = mix(&[4, p.id as u64, proof]);
    if x % 2 == 0 {
        Err(PubFault((x >> 32) as u32))
    } else {
        Ok(())
    }
}
fn pub_ref(p: &Published) -> PubRef { PubRef(mix(&[5, p.id as u64, p.mood as u64]) as u32) }

impl SingleUseSeal for Seal {
    type Message = u16;
    type PubWitness = Published;
    type CliWitness = Client;
    fn is_included(&self, message: u16, witness: &SealWitness<Self>) -> bool {
        log(Call::Included {
            seal: self.id,
            msg: message,
            published: witness.published.id,
            client: witness.client.id,
        });
        included(self, message, &witness.published, &witness.client)
    }
}
impl ClientSideWitness for Client {
    type Seal = Seal;
    type Proof = u64;
    type Error = CliFault;
    fn convolve_commit(&self, msg: u16) -> Result<u64, CliFault> {
        log(Call::Convolve { client: self.id, msg });
        convolve(self, msg)
    }
    fn merge(&mut self, other: Self) -> Result<(), impl Error> {
        if self.id != other.id {
            return Err(CliFault(other.id));
        }
        self.extra = self.extra.or(other.extra);
        Ok(())
    }
}
impl PublishedWitness<Seal> for Published {
    type PubId = PubRef;
    type Error = PubFault;
    fn pub_id(&self) -> PubRef { pub_ref(self) }
    fn verify_commitment(&self, proof: u64) -> Result<(), PubFault> {
        log(Call::Commitment { published: self.id, proof });
        committed(self, proof)
    }
}

/// Seal of a protocol without client-side witnesses (which delegates to the one of the library, as that
/// one has no binary form), closed over messages of a register.
#[derive(Clone, Eq, PartialEq, Debug, Default, Serialize, Deserialize)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Bare(u8);
impl Display for Bare {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "bare-{}", self.0) }
}
#[derive(Clone, Eq, PartialEq, Debug, Serialize, Deserialize)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Register {
    page: u8,
    closed: u32,
    message: u64,
}
#[derive(Clone, Eq, PartialEq, Debug, Serialize, Deserialize)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
struct Nothing {
    unit: u8,
}
impl ClientSideWitness for Nothing {
    type Seal = Bare;
    type Proof = <NoWitness<Bare> as ClientSideWitness>::Proof;
    type Error = <NoWitness<Bare> as ClientSideWitness>::Error;
    fn convolve_commit(&self, msg: u64) -> Result<Self::Proof, Self::Error> {
        no_witness().convolve_commit(msg)
    }
    fn merge(&mut self, _: Self) -> Result<(), impl Error> {
        let mut w = no_witness();
        let res = w.merge(no_witness()).map_err(|e| CliFault(e.to_string().len() as u32));
        res
    }
}
fn no_witness() -> NoWitness<Bare> { NoWitness::default() }
impl SingleUseSeal for Bare {
    type Message = u64;
    type PubWitness = Register;
    type CliWitness = Nothing;
    fn is_included(&self, _: u64, witness: &SealWitness<Self>) -> bool {
        self.0 < 32 && witness.published.closed >> self.0 & 1 == 1
    }
}
impl PublishedWitness<Bare> for Register {
    type PubId = u8;
    type Error = PubFault;
    fn pub_id(&self) -> u8 { self.page }
    fn verify_commitment(&self, proof: u64) -> Result<(), PubFault> {
        if proof == self.message {
            Ok(())
        } else {
            Err(PubFault(proof as u32))
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Closing {
    published: Published,
    client: Client,
    seals: Vec<Seal>,
    msg: u16,
    form: u8,
}

fn published() -> BoxedStrategy<Published> {
    (prop_oneof![0u32..6, any::<u32>()], 0u8..8).prop_map(|(id, mood)| Published { id, mood }).boxed()
}
fn client() -> BoxedStrategy<Client> {
    (prop_oneof![0u32..6, any::<u32>()], 0u8..8, any::<Option<u16>>())
        .prop_map(|(id, mood, extra)| Client { id, mood, extra })
        .boxed()
}

fn closing() -> BoxedStrategy<Closing> {
    (
        published(),
        client(),
        prop::collection::vec((prop_oneof![0u16..10, any::<u16>()], 0u16..3), 0..8),
        prop_oneof![0u16..6, any::<u16>()],
        0u8..5,
    )
        .prop_map(|(published, client, seals, msg, form)| Closing {
            published,
            client,
            seals: seals.into_iter().map(|(id, serial)| Seal { id, serial }).collect(),
            msg,
            form,
        })
        .boxed()
}

pub fn c24(ctx: &mut Ctx) {
    ctx.group(
        "closings",
        "at least one seal",
        120_000,
        closing,
        |c, o| c24_check(c, o),
    );
    ctx.group(
        "long_lists",
        "more than 60 seals of which all but possibly one are included",
        2_000,
        || {
            (published(), client(), prop_oneof![3 => 60usize..200, 1 => 200usize..700], any::<u8>(), any::<u16>(), prop::option::of(any::<u16>())).prop_map(
                |(mut p, mut cl, n, form, msg, bad)| {
                    p.mood = 1;
                    cl.mood = 0;
                    let mut seals = vec![];
                    let mut id = 0u16;
                    while seals.len() < n {
                        let s = Seal { id, serial: 0 };
                        if included(&s, msg, &p, &cl) {
                            seals.push(s);
                        } else if bad.is_some_and(|b| seals.len() == b as usize % n)
                            && seals.iter().all(|s: &Seal| s.serial == 0)
                        {
                            seals.push(Seal { id, serial: 1 });
                        }
                        id = id.wrapping_add(1);
                    }
                    Closing { published: p, client: cl, seals, msg, form }
                },
            )
        },
        c24_check,
    );
    ctx.enumerate(
        "huge_lists",
        "always: more than 32767 seals",
        || {
            let mut v = vec![];
            for n in [32_769u32, 65_536, 65_537, 70_001, 140_000] {
                for bad in [None, Some(0), Some(n / 2), Some(n - 1), Some(65_535), Some(65_536)] {
                    if bad.is_none_or(|b| b < n) {
                        v.push((n, bad));
                    }
                }
            }
            v
        },
        |(n, bad): &(u32, Option<u32>), o| {
            o.nontrivial(true);
            let w = SealWitness::<Bare>::new(Register { page: 3, closed: u32::MAX, message: 1 }, Nothing { unit: 9 });
            let seals = (0..*n).map(|i| Bare(if Some(i) == *bad { 200 } else { (i % 32) as u8 }));
            match (w.verify_seals_closing(seals, 1), bad) {
                (Err(SealError::NotIncluded(s, p)), Some(_)) => ensure_eq!((s.0, p), (200, 3), "seal not included"),
                (Ok(()), None) => {}
                (other, _) => return Err(format!("{n} seals, bad {bad:?}: {other:?}")),
            }
            o.evals(1);
            Ok(())
        },
    );
    ctx.group(
        "no_client_witness",
        "at least one seal, and a message",
        40_000,
        || (any::<u8>(), any::<u32>(), 0u64..4, prop::collection::vec(0u8..34, 0..5), 0u64..4, any::<bool>()),
        |(page, closed, message, seals, msg, all): &(u8, u32, u64, Vec<u8>, u64, bool), o| {
            o.nontrivial(!seals.is_empty());
            let closed = if *all { u32::MAX } else { *closed };
            let w = SealWitness::<Bare>::new(Register { page: *page, closed, message: *message }, Nothing { unit: 9 });
            let bad = seals.iter().find(|s| **s >= 32 || closed >> **s & 1 == 0);
            let res = w.verify_seals_closing(seals.iter().map(|s| Bare(*s)), *msg);
            match (res, bad) {
                (Err(SealError::NotIncluded(s, p)), Some(b)) => ensure_eq!((s.0, p), (*b, *page), "seal not included"),
                (Err(SealError::Published(e)), None) => {
                    ensure!(msg != message, "commitment to the message is not recognised");
                    ensure_eq!(e, PubFault(*msg as u32), "error of the published witness");
                }
                (Ok(()), None) => {
                    o.label("accepted");
                    ensure_eq!(msg, message, "closed over another message");
                }
                (r, b) => return Err(format!("verification gives {r:?}, first seal not included is {b:?}")),
            }
            Ok(())
        },
    );
}

fn c24_check(c: &Closing, o: &mut Obs) -> R {
    o.nontrivial(!c.seals.is_empty());
    let w = SealWitness::<Seal>::new(c.published.clone(), c.client.clone());
    let verify = |form: u8| -> Result<(), SealError<Seal>> {
        match form {
            0 => w.verify_seals_closing(c.seals.iter(), c.msg),
            1 => w.verify_seals_closing(c.seals.clone(), c.msg),
            2 => w.verify_seals_closing(&c.seals, c.msg),
            3 => w.verify_seals_closing(c.seals.iter().map(|s| Box::new(*s)), c.msg),
            // An iterator which doesn't know its length, and is not fused
            _ => {
                let mut left = c.seals.clone();
                left.reverse();
                w.verify_seals_closing(std::iter::from_fn(move || left.pop()), c.msg)
            }
        }
    };
    let bad = c.seals.iter().find(|s| !included(s, c.msg, &c.published, &c.client));
    let proof = convolve(&c.client, c.msg);
    take_log();
    let res = verify(c.form % 5);
    let calls = take_log();
    judge(c, &res, bad, &proof, o)?;
    for call in &calls {
        let ok = match call {
            Call::Included { seal, msg, published, client } => {
                c.seals.iter().any(|s| s.id == *seal)
                    && (*msg, *published, *client) == (c.msg, c.published.id, c.client.id)
            }
            Call::Convolve { client, msg } => bad.is_none() && (*client, *msg) == (c.client.id, c.msg),
            Call::Commitment { published, proof: p } => {
                bad.is_none() && *published == c.published.id && proof.as_ref().ok() == Some(p)
            }
        };
        ensure!(ok, "the part of the witness consulted must not have been: {call:?}");
    }
    if res.is_ok() {
        for s in &c.seals {
            ensure!(
                calls.iter().any(|x| matches!(x, Call::Included { seal, .. } if *seal == s.id)),
                "inclusion of {s} was not asked"
            );
        }
    }
    // One seal at a time
    for s in &c.seals {
        let res = if c.form % 2 == 0 { w.verify_seal_closing(s, c.msg) } else { w.verify_seal_closing(*s, c.msg) };
        let bad = (!included(s, c.msg, &c.published, &c.client)).then_some(s);
        judge(c, &res, bad, &proof, o)?;
        o.evals(1);
    }
    take_log();
    Ok(())
}

fn judge(
    c: &Closing,
    res: &Result<(), SealError<Seal>>,
    bad: Option<&Seal>,
    proof: &Result<u64, CliFault>,
    o: &mut Obs,
) -> R {
    let (text, source, label) = match (res, bad, proof) {
        (Err(SealError::NotIncluded(s, id)), Some(b), _) => {
            ensure_eq!(s, b, "seal reported as not included");
            ensure_eq!(*id, pub_ref(&c.published), "publication id");
            (format!("seal {b} is not included in the witness {id}"), None, "not included")
        }
        (Err(SealError::Client(e)), None, Err(f)) => {
            ensure_eq!(e, f, "error of the client witness");
            (f.to_string(), Some(f.to_string()), "client error")
        }
        (Err(SealError::Published(e)), None, Ok(p)) => {
            ensure_eq!(Err(e.clone()), committed(&c.published, *p), "error of the published witness");
            (e.to_string(), Some(e.to_string()), "published error")
        }
        (Ok(()), None, Ok(p)) => {
            o.label("accepted");
            ensure_eq!(committed(&c.published, *p), Ok(()), "published witness doesn't commit to the proof");
            return Ok(());
        }
        (r, b, p) => {
            return Err(format!("verification gives {r:?}; first seal not included is {b:?}, convolution gives {p:?}"))
        }
    };
    o.label(label);
    let e = res.as_ref().unwrap_err();
    ensure_eq!(e.to_string(), text, "text of the error");
    ensure_eq!(e.source().map(|s| s.to_string()), source, "source of the error");
    ensure_eq!(format!("{:?}", e.clone()), format!("{e:?}"), "copy of the error");
    Ok(())
}

// ------------------------------------------------------------------------------------------ C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C25Case {
    closing: Closing,
    cut: u16,
    extra: Vec<u8>,
}

fn same(w: &SealWitness<Seal>, c: &Closing, what: &str) -> R {
    ensure_eq!(w.published, c.published, "published part of the {what}");
    ensure_eq!(w.client, c.client, "client part of the {what}");
    Ok(())
}

pub fn c25(ctx: &mut Ctx) {
    ctx.group(
        "witnesses",
        "always",
        20_000,
        || {
            (closing(), any::<u16>(), prop::collection::vec(any::<u8>(), 1..4))
                .prop_map(|(closing, cut, extra)| C25Case { closing, cut, extra })
        },
        c25_check,
    );
    ctx.group(
        "no_witness",
        "always",
        5_000,
        || (any::<u64>(), any::<u64>()),
        |(a, b): &(u64, u64), o| {
            o.nontrivial(true);
            let mut w = no_witness();
            ensure_eq!(w.convolve_commit(*a), Ok(*a), "convolution with an empty witness");
            let other = no_witness();
            ensure!(w == other, "empty witnesses are not equal");
            ensure!(!(w != other), "empty witnesses are not equal");
            if let Err(e) = w.merge(other) {
                return Err(format!("empty witnesses do not merge: {e}"));
            }
            ensure_eq!(w.convolve_commit(*b), Ok(*b), "convolution with a merged empty witness");
            ensure_eq!(NoWitness::<Bare>::default().convolve_commit(*b), Ok(*b), "convolution with another empty witness");
            // Message type of another kind of seals
            ensure_eq!(NoWitness::<Seal>::default().convolve_commit(*b as u16), Ok(*b as u16), "convolution");
            ensure_eq!(NoWitness::<Seal>::default().clone(), NoWitness::<Seal>::default(), "copy of the witness");
            Ok(())
        },
    );
}

fn c25_check(c: &C25Case, o: &mut Obs) -> R {
    o.nontrivial(true);
    let cl = &c.closing;
    let w = SealWitness::<Seal>::new(cl.published.clone(), cl.client.clone());
    same(&w, cl, "new witness")?;
    same(&w.clone(), cl, "copy of the witness")?;
    // Binary form
    let bytes = enc(&w);
    let want = [enc(&cl.published), enc(&cl.client)].concat();
    ensure_eq!(bytes, want, "binary form of the witness");
    let back: SealWitness<Seal> = ut::dec(&bytes)?;
    same(&back, cl, "decoded witness")?;
    let n = c.cut as usize % bytes.len();
    ensure!(ut::dec::<SealWitness<Seal>>(&bytes[..n]).is_err(), "witness is decoded from its first {n} bytes");
    ensure!(
        ut::dec::<SealWitness<Seal>>(&[&bytes[..], &c.extra].concat()).is_err(),
        "witness is decoded from a longer string"
    );
    // A list of witnesses is decoded item by item
    let two = [&bytes[..], &bytes].concat();
    let (first, used) = ut::dec_prefix::<SealWitness<Seal>>(&two)?;
    same(&first, cl, "first of two witnesses")?;
    ensure_eq!(used, bytes.len(), "length of the first witness");
    // serde
    let json = serde_json::to_value(&w).map_err(|e| e.to_string())?;
    let fields = serde_json::json!({
        "published": serde_json::to_value(&cl.published).unwrap(),
        "client": serde_json::to_value(&cl.client).unwrap(),
    });
    ensure_eq!(json, fields, "JSON form of the witness");
    let text = serde_json::to_string(&w).unwrap();
    let back_json: SealWitness<Seal> = serde_json::from_str(&text).map_err(|e| format!("JSON: {e}"))?;
    same(&back_json, cl, "witness decoded from JSON")?;
    // fields in the other order
    let swapped = format!(
        "{{\"client\":{},\"published\":{}}}",
        serde_json::to_string(&cl.client).unwrap(),
        serde_json::to_string(&cl.published).unwrap()
    );
    let w2: SealWitness<Seal> = serde_json::from_str(&swapped).map_err(|e| format!("JSON, swapped: {e}"))?;
    same(&w2, cl, "witness decoded from JSON with swapped fields")?;
    for missing in ["published", "client"] {
        let mut v = json.clone();
        v.as_object_mut().unwrap().remove(missing);
        ensure!(
            serde_json::from_value::<SealWitness<Seal>>(v).is_err(),
            "witness without the {missing} part is accepted"
        );
    }
    let bin = bincode::serialize(&w).map_err(|e| e.to_string())?;
    ensure_eq!(
        bin,
        [bincode::serialize(&cl.published).unwrap(), bincode::serialize(&cl.client).unwrap()].concat(),
        "bincode form of the witness"
    );
    let back_bin: SealWitness<Seal> = bincode::deserialize(&bin).map_err(|e| e.to_string())?;
    same(&back_bin, cl, "witness decoded from bincode")?;
    let mut cbor = vec![];
    ciborium::into_writer(&w, &mut cbor).map_err(|e| e.to_string())?;
    let back_cbor: SealWitness<Seal> = ciborium::from_reader(&cbor[..]).map_err(|e| e.to_string())?;
    same(&back_cbor, cl, "witness decoded from CBOR")?;
    // Same verdicts
    let verdict = |w: &SealWitness<Seal>| format!("{:?}", w.verify_seals_closing(&cl.seals, cl.msg));
    let v = verdict(&w);
    o.label_if(v == "Ok(())", "accepted");
    for (x, what) in [(&back, "strict"), (&back_json, "JSON"), (&back_bin, "bincode"), (&back_cbor, "CBOR")] {
        ensure_eq!(verdict(x), v, "verdict of the witness decoded from {what}");
    }
    take_log();
    o.evals(10);
    let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
    for k in json.as_object().unwrap().keys() {
        *seen.entry(k.as_str()).or_default() += 1;
    }
    ensure_eq!(seen.len(), 2, "number of fields");
    Ok(())
}

// Access for the checks of serialization formats.

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WitnessCase(Closing);

/// Witness compared by its parts.
#[derive(Clone, Serialize, Deserialize)]
#[serde(transparent)]
pub struct Parts(SealWitness<Seal>);
impl PartialEq for Parts {
    fn eq(&self, o: &Self) -> bool { self.0.published == o.0.published && self.0.client == o.0.client }
}
impl Debug for Parts {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} {:?}", self.0.published, self.0.client)
    }
}
impl WitnessCase {
    pub fn witness(&self) -> Parts { Parts(SealWitness::new(self.0.published.clone(), self.0.client.clone())) }
}
pub fn witness_case() -> BoxedStrategy<WitnessCase> { closing().prop_map(WitnessCase).boxed() }

// ---- C35: what failures tell

/// Which failure, with what in it
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Failure {
    Closing { seal: Seal, published: Published, client: Client, msg: u16, link: u8, fault: u32 },
    Proof { pid: B32, expected: u32, actual: u32, width: u32, merge: bool },
    Unrelated { base: B32, merged: B32 },
    Unknown { tree: Vec<B32>, asked: B32, way: u8 },
    Source(u8, usize),
    Scheme { kind: u8, fault: u32 },
}

fn failure() -> impl Strategy<Value = Failure> {
    let n = prop_oneof![0u32..12, any::<u32>()];
    prop_oneof![
        4 => (any::<(u16, u16)>(), published(), client(), any::<u16>(), 0u8..3, n.clone()).prop_map(|((id, serial), published, client, msg, link, fault)| {
            Failure::Closing { seal: Seal { id, serial }, published, client, msg, link, fault }
        }),
        4 => (gen::b32(), n.clone(), n.clone(), n.clone(), any::<bool>()).prop_map(|(pid, expected, actual, width, merge)| Failure::Proof { pid, expected, actual, width, merge }),
        2 => (gen::b32(), gen::b32()).prop_map(|(base, merged)| Failure::Unrelated { base, merged }),
        2 => (prop::collection::vec(gen::b32(), 1..4), gen::b32(), 0u8..4).prop_map(|(tree, asked, way)| Failure::Unknown { tree, asked, way }),
        1 => (0u8..3, prop_oneof![0usize..12, any::<usize>()]).prop_map(|(k, n)| Failure::Source(k, n)),
        1 => (0u8..9, n).prop_map(|(kind, fault)| Failure::Scheme { kind, fault }),
    ]
}

/// Words of a text in one line
fn flat(e: &impl Display) -> String { e.to_string().split_whitespace().collect::<Vec<_>>().join(" ") }

fn has(text: &str, parts: &[String]) -> R {
    for p in parts {
        ensure!(
            text.match_indices(p.as_str()).any(|(i, _)| {
                let edge = |c: Option<char>| c.map_or(true, |c| !c.is_ascii_alphanumeric());
                edge(text[..i].chars().next_back()) && edge(text[i + p.len()..].chars().next())
            }),
            "text {text:?} lacks {p:?}"
        );
    }
    Ok(())
}

pub fn c35(ctx: &mut Ctx) {
    ctx.group("failures", "the failure carries data", 60_000, failure, c35_check);
    // Failures of different kinds or with different data have different texts
    ctx.group(
        "distinct",
        "two different failures",
        40_000,
        || {
            (failure(), failure(), any::<u8>()).prop_map(|(a, mut b, how)| {
                // often one with a single difference
                if let (Failure::Proof { pid, expected, actual, width, merge }, true) = (&a, how % 3 > 0) {
                    let x = (*width).wrapping_add(1 + how as u32);
                    b = match how / 3 % 4 {
                        0 => Failure::Proof { pid: *pid, expected: x, actual: *actual, width: *width, merge: *merge },
                        1 => Failure::Proof { pid: *pid, expected: *expected, actual: x, width: *width, merge: *merge },
                        2 => Failure::Proof { pid: *pid, expected: *actual, actual: *expected, width: *width, merge: *merge },
                        _ => Failure::Proof { pid: *pid, expected: *expected, actual: *actual, width: x, merge: *merge },
                    };
                } else if let (Failure::Unrelated { base, merged }, true) = (&a, how % 3 > 0) {
                    b = Failure::Unrelated { base: *merged, merged: *base };
                }
                (a, b)
            })
        },
        |(a, b): &(Failure, Failure), o| {
            let (Some(x), Some(y)) = (text_of(a)?, text_of(b)?) else { return Ok(()) };
            if x.0 == y.0 {
                return Ok(());
            }
            o.nontrivial(true);
            ensure!(x.1 != y.1, "different failures {} and {} have the same text {:?}", x.0, y.0, x.1);
            Ok(())
        },
    );
}

fn proof_fault(pid: &B32, expected: u32, actual: u32, width: u32) -> Result<InvalidProof, String> {
    serde_json::from_value(serde_json::json!({"protocolId": model::hex(&pid.0), "expected": expected, "actual": actual, "width": width})).map_err(|e| e.to_string())
}

/// A block with the messages, and whether one of them is the asked one
fn unknown(tree: &[B32], asked: &B32, way: u8) -> Result<Option<LeafNotKnown>, String> {
    let map: BTreeMap<_, _> = tree.iter().map(|p| (p.0, p.0)).collect();
    if map.contains_key(&asked.0) {
        return Ok(None);
    }
    let tree = MerkleTree::try_commit(&ut::source(&map, 3, Some(1))).map_err(|e| e.to_string())?;
    let mut block = MerkleBlock::from(tree);
    let id = ut::pid(&asked.0);
    let known: Vec<ProtocolId> = block.known_protocol_ids().collect();
    let e = match way {
        0 => block.conceal_other(id).err(),
        1 => block.conceal_except(known.into_iter().chain([id]).collect::<Vec<_>>()).err(),
        2 => block.to_merkle_proof(id).err(),
        _ => block.into_merkle_proof(id).err(),
    };
    e.map(Some).ok_or_else(|| "an unknown protocol is known".into())
}

fn broken(seal: &Seal, published: &Published, link: u8, fault: u32) -> SealError<Seal> {
    match link {
        0 => SealError::NotIncluded(*seal, pub_ref(published)),
        1 => SealError::Client(CliFault(fault)),
        _ => SealError::Published(PubFault(fault)),
    }
}

fn tree_fault(k: u8, n: usize) -> mpc::Error {
    match k {
        0 => mpc::Error::Empty,
        1 => mpc::Error::TooManyMessages(n),
        _ => mpc::Error::CantFitInMaxSlots(n),
    }
}

fn scheme_texts(kind: u8, fault: u32) -> String {
    match kind {
        0 => flat(&VerifyError::InvalidCommitment),
        1 => flat(&VerifyError::InvalidMessage),
        2 => flat(&EmbedVerifyError::<CliFault>::CommitmentMismatch),
        3 => flat(&EmbedVerifyError::from(CliFault(fault))),
        4 => flat(&EmbedVerifyError::<CliFault>::InvalidProof),
        5 => flat(&EmbedVerifyError::<CliFault>::ProofMismatch),
        6 => flat(&ConvolveVerifyError::CommitmentMismatch),
        7 => flat(&ConvolveVerifyError::ImpossibleMessage),
        _ => flat(&ConvolveVerifyError::InvalidProof),
    }
}

/// What the failure is, and its text
fn text_of(f: &Failure) -> Result<Option<(String, String)>, String> {
    Ok(Some(match f {
        Failure::Closing { seal, published, link, fault, .. } => {
            let id = if *link == 0 { format!("{seal} {}", pub_ref(published)) } else { format!("{fault}") };
            (format!("closing {link} {id}"), flat(&broken(seal, published, *link, *fault)))
        }
        Failure::Proof { pid, expected, actual, width, .. } => {
            (format!("proof {pid:?} {expected} {actual} {width}"), flat(&proof_fault(pid, *expected, *actual, *width)?))
        }
        Failure::Unrelated { base, merged } => {
            let e = MergeError::UnrelatedBlocks { base_root: base.0.into(), merged_root: merged.0.into() };
            (format!("unrelated {base:?} {merged:?}"), flat(&e))
        }
        Failure::Unknown { tree, asked, way } => match unknown(tree, asked, *way)? {
            Some(e) => (format!("unknown {asked:?}"), flat(&e)),
            None => return Ok(None),
        },
        Failure::Source(k, n) => (format!("source {k} {}", if *k == 0 { 0 } else { *n }), flat(&tree_fault(*k, *n))),
        Failure::Scheme { kind, fault } => {
            // The same failure of different schemes may have the same text
            let group = ["commit", "commit", "embed", "embed", "embed", "embed", "convolve", "convolve", "convolve"][*kind as usize];
            let same = match kind {
                0 | 2 | 6 => "mismatch".to_string(),
                1 | 7 => "message".to_string(),
                4 | 8 => "proof".to_string(),
                3 => format!("{group} message {fault}"),
                _ => format!("{group} {kind}"),
            };
            // ... or another one
            let text = scheme_texts(*kind, *fault);
            (format!("scheme {same}"), text)
        }
    }))
}

fn c35_check(f: &Failure, o: &mut Obs) -> R {
    match f {
        Failure::Closing { seal, published, client, msg, link, fault } => {
            // As the verification reports it, and with any data
            let _ = take_log();
            let witness = SealWitness::new(published.clone(), client.clone());
            let reported = witness.verify_seal_closing(seal, *msg).err();
            let _ = take_log();
            for e in [Some(broken(seal, published, *link, *fault)), reported].into_iter().flatten() {
                let text = e.to_string();
                let (dbg, nice) = (format!("{e:?}"), format!("{e:#?}"));
                let (want_dbg, want_nice): (String, String) = match &e {
                    SealError::NotIncluded(s, p) => {
                        has(&flat(&e), &[])?;
                        ensure!(text.contains(&s.to_string()) && text.contains(&p.to_string()), "text {text:?} doesn't name {s} and {p}");
                        ensure!(e.source().is_none(), "a seal which is not included has a cause");
                        o.label("not included");
                        (format!("NotIncluded({s:?}, {p:?})"), format!("{s:#?}"))
                    }
                    SealError::Client(c) => {
                        ensure_eq!(text, c.to_string(), "text of a client-side failure");
                        ensure_eq!(e.source().and_then(|s| s.downcast_ref::<CliFault>()), Some(c), "cause of a client-side failure");
                        o.label("client");
                        (format!("Client({c:?})"), format!("Client(\n"))
                    }
                    SealError::Published(p) => {
                        ensure_eq!(text, p.to_string(), "text of a failure of the publication");
                        ensure_eq!(e.source().and_then(|s| s.downcast_ref::<PubFault>()), Some(p), "cause of a failure of the publication");
                        o.label("published");
                        (format!("Published({p:?})"), format!("Published(\n"))
                    }
                };
                ensure_eq!(dbg.strip_prefix("SealError::").unwrap_or(&dbg), want_dbg.as_str(), "debugging form");
                let first = want_nice.lines().next().unwrap_or_default().to_string();
                ensure!(nice.contains(&first), "multi-line debugging form {nice:?}");
                ensure_eq!(e.clone().to_string(), text, "text of a copy");
            }
        }
        Failure::Proof { pid, expected, actual, width, merge } => {
            let e = proof_fault(pid, *expected, *actual, *width)?;
            let mut text = flat(&e);
            if *merge {
                let m = MergeError::from(e);
                ensure_eq!(flat(&m), text, "text of a failed merge of a proof");
                ensure_eq!(m, MergeError::InvalidProof(e), "failed merge");
                text = flat(&m);
            }
            has(&text, &[model::hex(&pid.0), format!("position {actual}"), format!("expected position {expected}"), format!("width {width}")])?;
        }
        Failure::Unrelated { base, merged } => {
            let text = flat(&MergeError::UnrelatedBlocks { base_root: base.0.into(), merged_root: merged.0.into() });
            has(&text, &[format!("base {}", model::hex(&base.0)), format!("merged-in {}", model::hex(&merged.0))])?;
        }
        Failure::Unknown { tree, asked, way } => {
            let Some(e) = unknown(tree, asked, *way)? else { return Ok(()) };
            has(&flat(&e), &[model::hex(&asked.0)])?;
        }
        Failure::Source(k, n) => {
            let text = flat(&tree_fault(*k, *n));
            ensure!(!text.is_empty(), "no text");
            if *k == 0 {
                return Ok(());
            }
            has(&text, &[n.to_string()])?;
        }
        Failure::Scheme { kind, fault } => {
            let text = scheme_texts(*kind, *fault);
            ensure!(!text.is_empty(), "no text");
            if *kind != 3 {
                return Ok(());
            }
            ensure!(text.contains(&CliFault(*fault).to_string()), "text {text:?} lacks the details");
            ensure_eq!(EmbedVerifyError::from(CliFault(*fault)), EmbedVerifyError::InvalidMessage(CliFault(*fault)), "conversion");
        }
    }
    o.nontrivial(true);
    o.sample(|| text_of(f).ok().flatten().map(|(_, t)| t).unwrap_or_default());
    Ok(())
}
