use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Display};
use std::str::FromStr;

use amplify::confinement::{Confined, MediumVec, SmallOrdSet, SmallVec, TinyOrdMap, TinyOrdSet, TinyVec};
use amplify::num::{u256, u5};
use amplify::{Bytes32, Wrapper};
use commit_verify::merkle::MerkleBuoy;
use commit_verify::mpc::{
    Commitment, Leaf, MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree, Message, ProtocolId,
};
use commit_verify::{
    CommitEngine, CommitId, CommitVerify, CommitmentId, CommitmentLayout, CommitmentProtocol, Conceal,
    ConvolveCommit, ConvolveCommitProof, Digest, DigestExt, EmbedCommitProof, EmbedCommitVerify, EmbedVerifyError,
    MerkleHash, MerkleNode, ReservedBytes, Ripemd160, Sha256, StrictHash, TryCommitVerify, VerifyEq,
};
use serde_json::Value;
use strict_encoding::StrictDumb;

use crate::mpc::{dec, enc};
use crate::types::*;
use crate::{arr, b32, bytes, hex, num, text, Out};

pub fn merklize(r: &[Value], out: &mut Out) {
    let items: Vec<Elem> = arr(&r[1]).iter().map(|x| Elem(num(x))).collect();
    let h = match text(&r[0]) {
        "tiny" => MerkleHash::merklize(&TinyVec::try_from(items).expect("size")),
        "small" => MerkleHash::merklize(&SmallVec::try_from(items).expect("size")),
        "tinyset" => MerkleHash::merklize(&TinyOrdSet::try_from_iter(items).expect("size")),
        "smallset" => MerkleHash::merklize(&SmallOrdSet::try_from_iter(items).expect("size")),
        "large" => MerkleHash::merklize(&amplify::confinement::LargeVec::try_from(items).expect("size")),
        _ => MerkleHash::merklize(&Forest { salt: 0, items: TinyVec::try_from(items).expect("size") }),
    };
    out.push(format!("{h} {h:?}"));
}

pub fn node(r: &[Value], out: &mut Out) {
    let d = num(&r[1]) as u8;
    let w = u256::from_le_bytes(b32(&r[2]));
    let (a, b) = (MerkleHash::from(b32(&r[3])), MerkleHash::from(b32(&r[4])));
    let (n, h) = match num(&r[0]) {
        0 => (MerkleNode::void(d, w), MerkleHash::void(d, w)),
        1 => (MerkleNode::single(d, w, a), MerkleHash::single(d, w, a)),
        _ => (MerkleNode::branches(d, w, a, b), MerkleHash::branches(d, w, a, b)),
    };
    out.push(format!("{n:?} {} {h} {}", n.commit_id(), enc(&n)));
}

fn blob(v: &Value) -> Blob { Blob::new(&bytes(v)) }
fn rec(r: &[Value]) -> Rec {
    Rec { a: num(&r[0]) as u16, b: blob(&r[1]), c: r[2].as_u64().map(|x| x as u32), d: blob(&r[3]) }
}
fn elems(v: &Value) -> Vec<Elem> { arr(v).iter().map(|x| Elem(num(x))).collect() }

/// A program of commitment steps; derived commitments of the values are reported as well.
pub fn engine(r: &[Value], out: &mut Out) {
    const TAGS: [&str; 4] = ["", "urn:csv:probe#1", "urn:csv:probe#2", "urn:ubideco:merkle:node#2024-01-31"];
    let mut e = CommitEngine::new(TAGS[num(&r[0]) as usize % 4]);
    for op in arr(&r[1]) {
        let op = arr(op);
        match text(&op[0]) {
            "elem" => {
                let v = Elem(num(&op[1]));
                out.push(v.commit_id().to_string());
                e.commit_to_serialized(&v)
            }
            "blob" => {
                let v = blob(&op[1]);
                out.push(v.commit_id().to_string());
                e.commit_to_serialized(&v)
            }
            "rec" => {
                let v = rec(&op[1..]);
                out.push(format!("{:?} {:?}", v.commit_id(), WrapRec::from(v.clone()).commit_id()));
                e.commit_to_serialized(&v)
            }
            "leaf" => e.commit_to_serialized(&Leaf::inhabited(b32(&op[1]).into(), b32(&op[2]).into())),
            "root" => e.commit_to_serialized(&MerkleHash::from(b32(&op[1]))),
            "optelem" => e.commit_to_option(&op[1].as_u64().map(Elem)),
            "optblob" => e.commit_to_option(&op[1].as_str().map(|_| blob(&op[1]))),
            "hash" => {
                let v = Tup(num(&op[1]) as u8, num(&op[2]) as i64, num(&op[2]) as u128);
                out.push(v.commit_id().to_string());
                e.commit_to_hash(&v)
            }
            "reserved" => e.commit_to_hash(&ReservedBytes::<3, 7>::default()),
            "secret" => {
                let v = Secret { kind: num(&op[1]) as u8, data: blob(&op[2]), note: op[3].as_u64() };
                out.push(format!("{:?}", v.commit_id()));
                e.commit_to_concealed(&v)
            }
            "merkle" => {
                let f = Forest { salt: 1, items: TinyVec::try_from(elems(&op[1])).expect("size") };
                out.push(format!("{:?}", f.commit_id()));
                e.commit_to_merkle(&f.items)
            }
            "list" => e.commit_to_linear_list(&SmallVec::try_from(elems(&op[1])).expect("size")),
            "set" => e.commit_to_linear_set(&TinyOrdSet::try_from_iter(elems(&op[1])).expect("size")),
            "map" => e.commit_to_linear_map(
                &TinyOrdMap::try_from_iter(elems(&op[1]).into_iter().map(|x| (x, Elem(!x.0)))).expect("size"),
            ),
            "kind" => {
                let v = match num(&op[1]) {
                    0 => Kind::Void,
                    1 => Kind::Num(num(&op[2]) as u16),
                    2 => Kind::Pair { x: num(&op[2]) as u8, y: blob(&op[3]) },
                    _ => Kind::Nested(Tup(1, -1, num(&op[2]) as u128), Some(Elem(num(&op[2])))),
                };
                out.push(format!("{:?} {:?}", v.commit_id(), WrapKind::from(v.clone()).commit_id()));
                out.push(format!("{:?}", Prim::of(num(&op[2]) as u8).commit_id()));
                e.commit_to_serialized(&v)
            }
            x => panic!("{x}"),
        }
    }
    out.push(format!("{:?}", e.clone_layout()));
    out.push(hex(&e.finish().finish()));
}

trait CloneLayout {
    fn clone_layout(&mut self) -> Vec<String>;
}
impl CloneLayout for CommitEngine {
    fn clone_layout(&mut self) -> Vec<String> { self.as_layout().iter().map(|s| format!("{s:?}")).collect() }
}

pub fn layouts(out: &mut Out) {
    macro_rules! layout {
        ($($t:ty),*) => {$({
            let l = <$t as CommitmentLayout>::commitment_layout();
            out.push(format!("{l:?}"));
            out.push(l.to_string());
            out.push(format!("{:?}", <$t as StrictDumb>::strict_dumb().commit_id()));
        })*}
    }
    layout!(Elem, Blob, Rec, Tup, Kind, Prim, Gen<u16, 3>, Secret, Multi);
    layout!(MerkleTree, MerkleConcealed, MerkleNode, Leaf);
    layout!(MerkleBlock, ReservedBytes<2, 1>);
    for t in [
        <Commitment as CommitmentId>::TAG,
        <MerkleHash as CommitmentId>::TAG,
        <StrictHash as CommitmentId>::TAG,
    ] {
        out.push(t.into());
    }
}

pub fn parse(r: &[Value], out: &mut Out) {
    let s = text(&r[1]);
    macro_rules! case {
        ($t:ty) => {
            match <$t>::from_str(s) {
                Ok(x) => out.push(format!("{x} {x:?} {x:x} {x:X}")),
                Err(e) => out.push(format!("{e:?} / {e}")),
            }
        };
    }
    match text(&r[0]) {
        "ProtocolId" => case!(ProtocolId),
        "Message" => case!(Message),
        "Commitment" => case!(Commitment),
        "MerkleHash" => case!(MerkleHash),
        _ => case!(StrictHash),
    }
    out.push(format!("{:?}", ProtocolId::copy_from_slice(s.as_bytes()).map_err(|e| e.to_string())));
    out.push(format!("{:?}", Message::copy_from_slice(s.as_bytes()).map_err(|e| e.to_string())));
    out.push(format!("{:?}", Commitment::copy_from_slice(s.as_bytes()).map_err(|e| e.to_string())));
}

pub fn digest(r: &[Value], out: &mut Out) {
    fn run<const N: usize, D: DigestExt<N> + Clone>(r: &[Value], out: &mut Out) {
        let mut d = D::from_tag(text(&r[0]));
        for op in arr(&r[1]) {
            let op = arr(op);
            let data = bytes(&op[1]);
            match num(&op[0]) {
                0 => d.input_raw(&data),
                1 => d.input_with_len::<0xFF>(&data[..data.len().min(255)]),
                2 => d.input_with_len::<0xFFFF>(&data),
                3 => d.input_with_len::<0xFFFFFF>(&data),
                _ => d.input_with_len::<0xFFFFFFFF>(&data),
            }
            out.push(hex(&d.clone().finish()));
        }
        out.push(hex(&d.finish()));
    }
    run::<32, Sha256>(r, out);
    run::<20, Ripemd160>(r, out);
}

pub fn buoy(r: &[Value], out: &mut Out) {
    let mut b = MerkleBuoy::<u5>::new(u5::with(num(&r[0]) as u8));
    for d in arr(&r[1]) {
        let up = b.push(u5::with(num(d) as u8));
        out.push(format!("{up} {}", b.level()));
    }
}

pub fn reserved(r: &[Value], out: &mut Out) {
    let data = bytes(&r[0]);
    match dec::<ReservedBytes<2, 0x5A>>(&data) {
        Ok((v, n)) => out.push(format!("{v} {v:?} {n} {}", enc(&v))),
        Err(e) => out.push(e),
    }
    let v = ReservedBytes::<2, 0x5A>::default();
    out.push(format!("{v} {}", v.commit_id()));
}

// Schemes: everything is a random function of what is given.

fn mix(parts: &[u64]) -> u64 {
    let mut z = 77u64;
    for p in parts {
        z = (z ^ p).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z ^= z >> 29;
    }
    z
}

struct Proto;
impl CommitmentProtocol for Proto {}

#[derive(Debug, Clone, PartialEq, Eq)]
struct Fault(u64);
impl Display for Fault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "fault {}", self.0) }
}
impl std::error::Error for Fault {}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Container(u64, u64);
#[derive(Clone, PartialEq, Eq, Debug)]
struct Evidence(u64, u64);

impl EmbedCommitProof<u64, Container, Proto> for Evidence {
    fn restore_original_container(&self, c: &Container) -> Result<Container, EmbedVerifyError<Fault>> {
        if self.1 % 5 == 4 {
            return Err(EmbedVerifyError::from(Fault(self.1)));
        }
        Ok(Container(c.0, self.0))
    }
}
impl EmbedCommitVerify<u64, Proto> for Container {
    type Proof = Evidence;
    type CommitError = Fault;
    fn embed_commit(&mut self, msg: &u64) -> Result<Evidence, Fault> {
        if (self.0 ^ msg) % 7 == 6 {
            return Err(Fault(*msg));
        }
        let p = Evidence(self.1, *msg % 5);
        self.1 = mix(&[self.0, self.1, *msg]) % 6;
        Ok(p)
    }
}
impl ConvolveCommit<u64, [u8; 32], Proto> for Container {
    type Commitment = u64;
    type CommitError = Fault;
    fn convolve_commit(&self, suppl: &[u8; 32], msg: &u64) -> Result<(u64, [u8; 32]), Fault> {
        if (self.0 ^ msg) % 7 == 6 {
            return Err(Fault(*msg));
        }
        Ok((self.0.wrapping_mul(3) ^ msg, *suppl))
    }
}
impl ConvolveCommitProof<u64, Container, Proto> for [u8; 32] {
    type Suppl = [u8; 32];
    fn restore_original(&self, c: &u64) -> Container { Container((c ^ self[0] as u64) / 3, 0) }
    fn extract_supplement(&self) -> &[u8; 32] { self }
}

pub fn embed(r: &[Value], out: &mut Out) {
    let (a, b, m) = (num(&r[0]), num(&r[1]), num(&r[2]));
    let mut c = Container(a, b);
    let p = c.embed_commit(&m);
    out.push(format!("{c:?} {p:?}"));
    let p = p.unwrap_or(Evidence(b, m % 5));
    for m in [m, m ^ 1, m + 7] {
        out.push(format!("{:?}", c.verify(&m, &p).map_err(|e| format!("{e:?}/{e}"))));
        out.push(format!("{:?}", Evidence(p.0 ^ 1, p.1).verify_eq(&p)));
        out.push(format!("{:?}", Container(a, b).verify(&m, &p).map_err(|e| format!("{e:?}/{e}"))));
    }
    let s = [m as u8; 32];
    let c = Container(a, b);
    let x = c.convolve_commit(&s, &m);
    out.push(format!("{x:?}"));
    if let Ok((x, p)) = x {
        for m in [m, m ^ 1, m + 7] {
            out.push(format!("{:?}", ConvolveCommitProof::<u64, Container, Proto>::verify(&p, &m, &x).map_err(|e| e.to_string())));
            out.push(format!("{:?}", ConvolveCommitProof::<u64, Container, Proto>::verify(&p, &m, &(x ^ 1)).map_err(|e| e.to_string())));
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
struct Sure(u64);
impl CommitVerify<u64, Proto> for Sure {
    fn commit(m: &u64) -> Sure { Sure(m % 5) }
}
#[derive(Clone, PartialEq, Eq, Debug)]
struct Unsure(u64);
impl TryCommitVerify<u64, Proto> for Unsure {
    type Error = Fault;
    fn try_commit(m: &u64) -> Result<Unsure, Fault> {
        if m % 3 == 2 {
            Err(Fault(*m))
        } else {
            Ok(Unsure(m % 5))
        }
    }
}
pub fn commit(r: &[Value], out: &mut Out) {
    let (m, c) = (num(&r[0]), num(&r[1]));
    out.push(format!("{:?}", Sure::commit(&m)));
    out.push(format!("{:?}", Sure(c % 5).verify(&m).map_err(|e| format!("{e:?}/{e}"))));
    out.push(format!("{:?}", Unsure::try_commit(&m)));
    out.push(format!("{:?}", Unsure(c % 5).verify(&m).map_err(|e| format!("{e:?}/{e}"))));
}
