//! Bridges between the reference model and the objects under test (public API only).

use std::collections::BTreeMap;

use amplify::confinement::{Confined, MediumOrdMap};
use amplify::num::u5;
use amplify::{Bytes32, Wrapper};
use commit_verify::mpc::{
    Commitment, Leaf, MerkleBlock, MerkleProof, MerkleTree, Message, Method, MultiSource,
    ProtocolId,
};
use commit_verify::{MerkleHash, StrictHash};
use strict_encoding::{StreamReader, StrictDecode, StrictEncode, StrictReader, StrictWriter};

use crate::model::{self, H};

pub const LIM: usize = 1 << 31;

/// Strict encoding of any value.
pub fn enc<T: StrictEncode>(v: &T) -> Vec<u8> {
    v.strict_encode(StrictWriter::in_memory::<{ usize::MAX }>())
        .expect("in-memory encoding")
        .unbox()
        .unconfine()
}

/// Strict decoding which must consume all the bytes. The error is a description.
pub fn dec<T: StrictDecode>(b: &[u8]) -> Result<T, String> {
    let (v, n) = dec_prefix::<T>(b)?;
    if n != b.len() {
        return Err(format!("only {n} of {} bytes consumed", b.len()));
    }
    Ok(v)
}

pub fn dec_prefix<T: StrictDecode>(b: &[u8]) -> Result<(T, usize), String> {
    let mut r = StrictReader::with(StreamReader::cursor::<LIM>(b));
    let v = T::strict_decode(&mut r).map_err(|e| format!("{e:?}"))?;
    let n = r.unbox().unconfine().position() as usize;
    Ok((v, n))
}

pub fn pid(h: &H) -> ProtocolId { ProtocolId::from(*h) }
pub fn msg(h: &H) -> Message { Message::from(*h) }
pub fn mh(h: &H) -> MerkleHash { MerkleHash::from(*h) }
pub fn h_mh(h: MerkleHash) -> H { h.into_inner().into_inner() }
pub fn h_cm(h: Commitment) -> H { h.into_inner().into_inner() }
pub fn h_sh(h: StrictHash) -> H { h.into_inner().into_inner() }
pub fn h_pid(h: ProtocolId) -> H { h.into_inner().into_inner() }
pub fn h_msg(h: Message) -> H { h.into_inner().into_inner() }
pub fn d5(d: u8) -> u5 { u5::with(d) }
pub fn b32(h: &H) -> Bytes32 { Bytes32::from_array(*h) }
pub fn inhabited(p: &H, m: &H) -> Leaf { Leaf::inhabited(pid(p), msg(m)) }

pub fn source(messages: &BTreeMap<H, H>, min_depth: u8, entropy: Option<u64>) -> MultiSource {
    MultiSource {
        method: Method::Sha256t,
        min_depth: d5(min_depth),
        messages: MediumOrdMap::try_from_iter(messages.iter().map(|(p, m)| (pid(p), msg(m))))
            .expect("size"),
        static_entropy: entropy,
    }
}

pub fn tree(t: &model::Tree) -> Result<MerkleTree, String> {
    dec(&t.encode()).map_err(|e| format!("valid tree is not decoded: {e}"))
}
pub fn block(b: &model::Block) -> Result<MerkleBlock, String> {
    dec(&b.encode()).map_err(|e| format!("valid block is not decoded: {e}"))
}
pub fn proof(p: &model::Proof) -> Result<MerkleProof, String> {
    dec(&p.encode()).map_err(|e| format!("valid proof is not decoded: {e}"))
}

/// Model view of a block under test, through its binary form.
pub fn view(b: &MerkleBlock) -> Result<model::Block, String> {
    model::Block::decode(&enc(b)).ok_or_else(|| "block has a malformed binary form".to_string())
}

pub fn view_proof(p: &MerkleProof) -> model::Proof {
    model::Proof {
        pos: p.pos(),
        cofactor: p.cofactor(),
        path: p.as_path().iter().map(|h| h_mh(*h)).collect(),
    }
}

pub fn medium<T>(v: Vec<T>) -> Confined<Vec<T>, 0, { u32::MAX as usize }> {
    Confined::try_from(v).expect("size")
}
