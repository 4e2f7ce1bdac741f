#![allow(dead_code, unused_imports, unused_macros)]
use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::num::u5;
use amplify::Wrapper;
use commit_verify::mpc::*;
use commit_verify::*;
use strict_encoding::{StrictDeserialize, StrictSerialize, StrictDecode, StrictEncode, StrictReader, StrictWriter};

fn pid(n: u64) -> ProtocolId {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&n.to_le_bytes());
    ProtocolId::from(b)
}
fn msg(n: u64) -> Message {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&n.to_le_bytes());
    Message::from(b)
}
fn source(depth: u8, entropy: u64, list: &[(ProtocolId, Message)]) -> MultiSource {
    MultiSource {
        method: Method::Sha256t,
        min_depth: u5::with(depth),
        messages: Confined::try_from_iter(list.iter().copied()).unwrap(),
        static_entropy: Some(entropy),
    }
}
fn tree(depth: u8, entropy: u64, list: &[(ProtocolId, Message)]) -> MerkleTree {
    MerkleTree::try_commit(&source(depth, entropy, list)).unwrap()
}
fn bytes<T: StrictEncode>(v: &T) -> Vec<u8> {
    let mut out = Vec::new();
    let mut c = std::io::Cursor::new(&mut out);
    v.strict_encode(StrictWriter::with(strict_encoding::StreamWriter::new::<{ usize::MAX }>(&mut c))).unwrap();
    out
}
fn decode<T: StrictDecode>(b: &[u8]) -> Option<T> {
    let mut r = StrictReader::with(strict_encoding::StreamReader::new::<{ usize::MAX }>(std::io::Cursor::new(b.to_vec())));
    T::strict_decode(&mut r).ok()
}
