//! Forms of values other than the binary encoding: C21 (serde), C28 (text and bytes of ids).

use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

use amplify::hex::{FromHex, ToHex};
use amplify::{Bytes32, Wrapper};
use commit_verify::mpc::{Commitment, InvalidProof, MerkleBlock, MerkleProof, Message, ProtocolId};
use commit_verify::{ConvolveVerifyError, ReservedBytes};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use strict_encoding::{StrictDecode, StrictEncode};

use super::api::{small_log, Log, St};
use super::seals;
use crate::engine::{guard, Ctx, Obs};
use crate::gen;
use crate::model::{self, hex, Block, Node, B32, H};
use crate::ut::{self, dec, enc};
use crate::values::{self, Ty, Val};
use crate::{dispatch_id, ensure, ensure_eq};

type R = Result<(), String>;

// ---------------------------------------------------------------------------------------- C28

fn hash_of<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Text with a possible mistake.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
    bytes: B32,
    case_mask: u64,
    edit: Edit,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    None,
    Char(u8, char),
    Insert(u8, char),
    Remove(u8, u8),
    Prefix(String),
    Suffix(String),
    Other(String),
    Length(u8),
}

fn text() -> BoxedStrategy<Text> {
    let ch = || {
        prop_oneof![
            3 => prop::sample::select("gGzZ +-_.xX:/@`OoIl0fF\n\t\u{0}".chars().collect::<Vec<_>>()),
            1 => any::<char>(),
            1 => prop::sample::select("０ａÀ٣é".chars().collect::<Vec<_>>()),
        ]
    };
    let edit = prop_oneof![
        3 => Just(Edit::None),
        3 => (any::<u8>(), ch()).prop_map(|(a, b)| Edit::Char(a, b)),
        2 => (any::<u8>(), ch()).prop_map(|(a, b)| Edit::Insert(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Edit::Remove(a, b)),
        1 => prop::sample::select(vec!["0x", "0X", " ", "00", "0", "+", "urn:"]).prop_map(|s| Edit::Prefix(s.to_string())),
        1 => prop::sample::select(vec![" ", "\n", "00", "0", "g", "\u{0}"]).prop_map(|s| Edit::Suffix(s.to_string())),
        1 => "\\PC{0,80}".prop_map(Edit::Other),
        1 => "[0-9a-fA-F]{0,130}".prop_map(Edit::Other),
        1 => "[0-9a-fA-F]{64}".prop_map(Edit::Other),
        1 => any::<u8>().prop_map(Edit::Length),
    ];
    (gen::b32(), prop_oneof![2 => Just(0u64), 1 => Just(u64::MAX), 3 => gen::num64()], edit)
        .prop_map(|(bytes, case_mask, edit)| Text { bytes, case_mask, edit })
        .boxed()
}

impl Text {
    fn build(&self) -> String {
        let mut c: Vec<char> = hex(&self.bytes.0)
            .chars()
            .enumerate()
            .map(|(i, c)| if self.case_mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
            .collect();
        match &self.edit {
            Edit::None => {}
            Edit::Char(i, x) => c[*i as usize % 64] = *x,
            Edit::Insert(i, x) => c.insert(*i as usize % 65, *x),
            Edit::Remove(i, k) => {
                let i = *i as usize % 64;
                c.drain(i..(i + 1 + *k as usize % 64).min(64));
            }
            Edit::Prefix(s) => return s.clone() + &c.iter().collect::<String>(),
            Edit::Suffix(s) => return c.iter().collect::<String>() + s,
            Edit::Other(s) => return s.clone(),
            Edit::Length(n) => return c.iter().cycle().take(*n as usize).collect(),
        }
        c.into_iter().collect()
    }
}

/// Independent parser.
fn parse_hex(s: &str) -> Option<H> {
    if s.len() != 64 {
        return None;
    }
    let mut out = [0u8; 32];
    for (i, c) in s.bytes().enumerate() {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        };
        out[i / 2] = out[i / 2] << 4 | d;
    }
    Some(out)
}

pub fn c28(ctx: &mut Ctx) {
    ctx.group(
        "values",
        "bytes are not all equal",
        20_000,
        || (values::id_ty(), gen::b32(), gen::b32(), any::<(u8, u8)>()),
        |(t, a, b, cut): &(Ty, B32, B32, (u8, u8)), o| {
            o.nontrivial(a.0.iter().any(|x| *x != a.0[0]));
            o.label(t.name());
            o.sample(|| format!("{t:?} {a:?}"));
            dispatch_id!(*t, T => {
                let v = T::from(a.0);
                let w = T::from(b.0);
                let want = hex(&a.0);
                ensure_eq!(v.to_string(), want, "text");
                ensure_eq!(format!("{v:x}"), want, "lower-case hex");
                ensure_eq!(format!("{v:X}"), want.to_uppercase(), "upper-case hex");
                ensure_eq!(v.to_hex(), want, "hex");
                for s in [want.clone(), want.to_uppercase()] {
                    ensure_eq!(T::from_str(&s).map_err(|e| e.to_string())?, v, "parsed text");
                    ensure_eq!(T::from_hex(&s).map_err(|e| e.to_string())?, v, "parsed hex");
                }
                // bytes
                ensure_eq!(v.into_inner().into_inner(), a.0, "bytes");
                ensure_eq!(T::from(Bytes32::from_array(a.0)), v, "value of an array type");
                ensure_eq!(v.as_inner().as_slice(), &a.0[..], "inner bytes");
                ensure_eq!(std::borrow::Borrow::<[u8]>::borrow(&v), &a.0[..], "borrowed bytes");
                ensure_eq!(&v[..], &a.0[..], "all bytes by range");
                let (i, j) = ((cut.0 % 32) as usize, (cut.1 % 33) as usize);
                let (lo, hi) = (i.min(j), i.max(j));
                ensure_eq!(v[i], a.0[i], "byte {i}");
                ensure_eq!(&v[lo..hi], &a.0[lo..hi], "range");
                ensure_eq!(&v[..hi], &a.0[..hi], "range to");
                ensure_eq!(&v[lo..], &a.0[lo..], "range from");
                ensure_eq!(&v[..=i], &a.0[..=i], "inclusive range to");
                ensure!(v.iter().eq(a.0.iter()), "iterator");
                // relations
                ensure_eq!(v == w, a.0 == b.0, "equality");
                ensure_eq!(v.cmp(&w), a.0.cmp(&b.0), "order");
                ensure_eq!(v.partial_cmp(&w), Some(a.0.cmp(&b.0)), "partial order");
                let copy = T::from(a.0);
                ensure!(copy == v && hash_of(&copy) == hash_of(&v), "copy of the value");
                let near: Vec<T> = (0..8).map(|k| { let mut x = a.0; x[(cut.0 as usize + k * 5) % 32] ^= 1 << (k % 8); T::from(x) }).collect();
                for n in &near {
                    ensure!(*n != v && n.to_string() != v.to_string(), "different values are not distinguished");
                    ensure_eq!(n.cmp(&v), n.into_inner().into_inner().cmp(&a.0), "order of near values");
                }
                let set: BTreeSet<T> = near.iter().copied().chain([v, w]).collect();
                let model: BTreeSet<H> = near.iter().map(|n| n.into_inner().into_inner()).chain([a.0, b.0]).collect();
                ensure!(set.iter().map(|x| x.into_inner().into_inner()).eq(model.iter().copied()), "ordered set");
                let hs: HashSet<T> = set.iter().copied().collect();
                ensure!(hs.contains(&v) && hs.contains(&w) && hs.len() == model.len(), "hash set");
                ensure!(format!("{v:?}").to_lowercase().contains(&want), "debug text {v:?} doesn't have the bytes");
            });
            // fmt of the short types must not depend on the type
            o.evals(20);
            Ok(())
        },
    );
    ctx.group(
        "texts",
        "the text is not the plain hex string",
        60_000,
        || (values::id_ty(), text()),
        |(t, x): &(Ty, Text), o| {
            let s = x.build();
            let want = parse_hex(&s);
            o.nontrivial(!matches!(x.edit, Edit::None) || x.case_mask != 0);
            o.label(if want.is_some() { "valid" } else { "invalid" });
            o.sample(|| format!("{t:?} {s:?} valid={}", want.is_some()));
            dispatch_id!(*t, T => {
                let got = guard(|| T::from_str(&s).ok())?;
                ensure_eq!(got, want.map(T::from), "value of {s:?}");
                let got = guard(|| T::from_hex(&s).ok())?;
                ensure_eq!(got, want.map(T::from), "value of hex {s:?}");
                let js = guard(|| serde_json::from_value::<T>(Value::String(s.clone())).ok())?;
                ensure_eq!(js, want.map(T::from), "value of JSON {s:?}");
            });
            Ok(())
        },
    );
    ctx.group(
        "slices",
        "the length is 30 to 34 bytes",
        20_000,
        || prop_oneof![
            2 => prop::collection::vec(any::<u8>(), 32..=32),
            3 => prop::collection::vec(any::<u8>(), 30..=34),
            2 => prop::collection::vec(any::<u8>(), 0..100),
        ],
        |b: &Vec<u8>, o| {
            o.nontrivial((30..=34).contains(&b.len()));
            o.label_if(b.len() == 32, "valid");
            o.sample(|| format!("{} bytes", b.len()));
            let want: Option<H> = b.as_slice().try_into().ok();
            ensure_eq!(guard(|| ProtocolId::copy_from_slice(b).ok())?, want.map(ProtocolId::from), "protocol of {} bytes", b.len());
            ensure_eq!(guard(|| Message::copy_from_slice(b).ok())?, want.map(Message::from), "message of {} bytes", b.len());
            ensure_eq!(guard(|| Commitment::copy_from_slice(b).ok())?, want.map(Commitment::from), "commitment of {} bytes", b.len());
            Ok(())
        },
    );
    ctx.enumerate("defaults", "any", || vec![0u8], |_, o| {
        o.nontrivial(true);
        ensure_eq!(ProtocolId::default(), ProtocolId::from([0u8; 32]), "default protocol");
        ensure_eq!(Message::default(), Message::from([0u8; 32]), "default message");
        Ok(())
    });
}

// ---------------------------------------------------------------------------------------- C21

pub fn to_json<T: Serialize>(v: &T) -> Result<String, String> { serde_json::to_string(v).map_err(|e| format!("JSON: {e}")) }
fn to_cbor<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
    let mut b = vec![];
    ciborium::into_writer(v, &mut b).map_err(|e| format!("CBOR: {e}"))?;
    Ok(b)
}
fn to_bin<T: Serialize>(v: &T) -> Result<Vec<u8>, String> { bincode::serialize(v).map_err(|e| format!("bincode: {e}")) }
fn of_json<T: DeserializeOwned>(s: &str) -> Result<T, String> { serde_json::from_str(s).map_err(|e| format!("JSON: {e}")) }
fn of_cbor<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> { ciborium::from_reader(b).map_err(|e| format!("CBOR: {e}")) }
fn of_bin<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> { bincode::deserialize(b).map_err(|e| format!("bincode: {e}")) }

/// Round trips in all formats and through chains of formats.
fn formats<T: Serialize + DeserializeOwned + PartialEq + Debug>(v: &T, o: &mut Obs) -> R {
    let (j, c, b) = (to_json(v)?, to_cbor(v)?, to_bin(v)?);
    let vj: T = of_json(&j)?;
    ensure!(vj == *v, "value differs after JSON: {j}");
    let vp: T = of_json(&serde_json::to_string_pretty(v).unwrap())?;
    ensure!(vp == *v, "value differs after pretty JSON");
    let vv: T = serde_json::from_value(serde_json::to_value(v).map_err(|e| e.to_string())?).map_err(|e| format!("JSON value: {e}"))?;
    ensure!(vv == *v, "value differs after a JSON value");
    let vr: T = serde_json::from_reader(j.as_bytes()).map_err(|e| format!("JSON reader: {e}"))?;
    ensure!(vr == *v, "value differs after reading JSON");
    let vc: T = of_cbor(&c)?;
    ensure!(vc == *v, "value differs after CBOR");
    let vb: T = of_bin(&b)?;
    ensure!(vb == *v, "value differs after bincode");
    // chains
    ensure_eq!(to_json(&vb)?, j, "JSON of the value read from bincode");
    ensure_eq!(to_bin(&vc)?, b, "bincode of the value read from CBOR");
    ensure_eq!(to_cbor(&vj)?, c, "CBOR of the value read from JSON");
    // self-describing conversion between formats
    let any: ciborium::Value = of_cbor(&c)?;
    let va: T = any.deserialized().map_err(|e| format!("CBOR value: {e}"))?;
    ensure!(va == *v, "value differs after a CBOR value");
    // truncated forms
    for cut in [0, b.len() / 2, b.len().saturating_sub(1)] {
        if cut < b.len() {
            ensure!(of_bin::<T>(&b[..cut]).is_err(), "{cut} of {} bytes of bincode are accepted", b.len());
        }
    }
    for cut in [0, c.len() / 2, c.len() - 1] {
        ensure!(of_cbor::<T>(&c[..cut]).is_err(), "{cut} of {} bytes of CBOR are accepted", c.len());
    }
    for cut in [0, j.len() / 2, j.len() - 1] {
        if j.is_char_boundary(cut) && !j.chars().all(|c| c.is_ascii_digit()) {
            ensure!(of_json::<T>(&j[..cut]).is_err(), "{cut} of {} bytes of JSON are accepted", j.len());
        }
    }
    o.evals(12);
    Ok(())
}

/// JSON form known to the model.
fn model_json(v: &Val) -> Option<Value> {
    Some(match v {
        Val::Id(_, b) => json!(hex(&b.0)),
        Val::Method => json!("sha256t"),
        Val::Concealed { depth, cofactor, root } => {
            json!({"depth": depth, "cofactor": cofactor, "merkleRoot": hex(&root.0)})
        }
        Val::Proof { pos, cofactor, path } => json!({
            "method": "sha256t", "pos": pos, "cofactor": cofactor,
            "path": path.iter().map(|h| hex(&h.0)).collect::<Vec<_>>(),
        }),
        Val::Block { .. } => block_json(&v.block().unwrap()),
        _ => return None,
    })
}
fn block_json(b: &Block) -> Value {
    json!({
        "method": "sha256t", "depth": b.depth, "cofactor": b.cofactor, "entropy": b.entropy,
        "cross_section": b.section.iter().map(|n| match n {
            Node::Hidden { depth, hash } => json!({"ConcealedNode": {"depth": depth, "hash": hex(hash)}}),
            Node::Leaf { pid, msg } => json!({"CommitmentLeaf": {"protocol_id": hex(pid), "message": hex(msg)}}),
        }).collect::<Vec<_>>(),
    })
}

/// Reads a JSON form; the result is the binary encoding of the value.
fn judge(ty: Ty, v: &Value) -> Option<Vec<u8>> {
    fn fields<'a>(v: &'a Value, names: &[&str], opt: &[&str]) -> Option<BTreeMap<String, &'a Value>> {
        match v {
            Value::Object(m) => {
                for n in names {
                    if !m.contains_key(*n) && !opt.contains(n) {
                        return None;
                    }
                }
                Some(m.iter().filter(|(k, _)| names.contains(&k.as_str())).map(|(k, v)| (k.clone(), v)).collect())
            }
            // structures may be given as sequences of their fields
            Value::Array(a) if a.len() == names.len() => {
                Some(names.iter().map(|n| n.to_string()).zip(a.iter()).collect())
            }
            _ => None,
        }
    }
    fn int(v: &Value, max: u64) -> Option<u64> { v.as_u64().filter(|x| *x <= max) }
    fn hash(v: &Value) -> Option<H> { parse_hex(v.as_str()?) }
    fn method(v: &Value) -> Option<()> {
        match v {
            Value::String(s) if s == "sha256t" => Some(()),
            // a unit variant may be given as a map
            Value::Object(m) if m.len() == 1 && m.get("sha256t") == Some(&Value::Null) => Some(()),
            _ => None,
        }
    }
    match ty {
        Ty::Method => method(v).map(|_| vec![0]),
        Ty::MerkleConcealed => {
            let f = fields(v, &["depth", "cofactor", "merkleRoot"], &[])?;
            Some(model::concealed_bytes(int(f["depth"], 31)? as u8, int(f["cofactor"], 0xFFFF)? as u16, &hash(f["merkleRoot"])?))
        }
        Ty::MerkleProof => {
            let f = fields(v, &["method", "pos", "cofactor", "path"], &[])?;
            method(f["method"])?;
            let path = f["path"].as_array()?.iter().map(hash).collect::<Option<Vec<_>>>()?;
            if path.len() > 31 {
                return None;
            }
            Some(model::Proof { pos: int(f["pos"], u32::MAX as u64)? as u32, cofactor: int(f["cofactor"], 0xFFFF)? as u16, path }.encode())
        }
        Ty::MerkleBlock => {
            let f = fields(v, &["method", "depth", "cofactor", "cross_section", "entropy"], &["entropy"])?;
            method(f["method"])?;
            let section = f["cross_section"]
                .as_array()?
                .iter()
                .map(|n| {
                    let o = n.as_object()?;
                    if o.len() != 1 {
                        return None;
                    }
                    let (k, v) = o.iter().next().unwrap();
                    match k.as_str() {
                        "ConcealedNode" => {
                            let f = fields(v, &["depth", "hash"], &[])?;
                            Some(Node::Hidden { depth: int(f["depth"], 31)? as u8, hash: hash(f["hash"])? })
                        }
                        "CommitmentLeaf" => {
                            let f = fields(v, &["protocol_id", "message"], &[])?;
                            Some(Node::Leaf { pid: hash(f["protocol_id"])?, msg: hash(f["message"])? })
                        }
                        _ => None,
                    }
                })
                .collect::<Option<Vec<_>>>()?;
            let entropy = match f.get("entropy") {
                None | Some(Value::Null) => None,
                Some(v) => Some(int(v, u64::MAX)?),
            };
            let b = Block { depth: int(f["depth"], 31)? as u8, cofactor: int(f["cofactor"], 0xFFFF)? as u16, section, entropy };
            (!b.section.is_empty() && b.well_formed()).then(|| b.encode())
        }
        _ => hash(v).map(|h| h.to_vec()),
    }
}

/// Change of one place of a JSON document.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edits {
    at: u32,
    how: u8,
    arg: u32,
}

fn edit(v: &mut Value, e: &Edits) -> bool {
    fn count(v: &Value) -> usize {
        1 + match v {
            Value::Array(a) => a.iter().map(count).sum(),
            Value::Object(m) => m.values().map(count).sum(),
            _ => 0,
        }
    }
    fn nth<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
        if *n == 0 {
            return Some(v);
        }
        *n -= 1;
        match v {
            Value::Array(a) => a.iter_mut().find_map(|x| nth(x, n)),
            Value::Object(m) => m.values_mut().find_map(|x| nth(x, n)),
            _ => None,
        }
    }
    let total = count(v);
    // prefer places close to the root
    let mut n = if e.how & 0x80 == 0 { e.at as usize % total.min(8) } else { e.at as usize % total };
    let Some(x) = nth(v, &mut n) else { return false };
    let old = x.clone();
    let arg = e.arg;
    let nums = [0u64, 1, 31, 32, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, u64::MAX];
    match (e.how & 0x7F) % 14 {
        0 => *x = Value::Null,
        1 => *x = json!(nums[arg as usize % nums.len()]),
        2 => *x = json!(-1),
        3 => *x = json!(1.5),
        4 => *x = json!(["sha256t", "Sha256t", "", "none"][arg as usize % 4]),
        5 => *x = json!([]),
        6 => *x = json!({}),
        7 => match x {
            // shorter or longer lists, fewer fields
            Value::Array(a) if !a.is_empty() => {
                let i = arg as usize % a.len();
                a.remove(i);
            }
            Value::Object(m) if !m.is_empty() => {
                let k = m.keys().nth(arg as usize % m.len()).unwrap().clone();
                m.remove(&k);
            }
            Value::String(s) => {
                s.pop();
            }
            _ => {}
        },
        8 => match x {
            Value::Array(a) if !a.is_empty() => {
                let i = arg as usize % a.len();
                let y = a[i].clone();
                for _ in 0..1 + (arg >> 16) % 3 * 16 {
                    a.insert(i, y.clone());
                }
            }
            Value::Object(m) => {
                m.insert("unknown".into(), json!(1));
            }
            Value::String(s) => s.push(['0', 'g', ' '][arg as usize % 3]),
            _ => {}
        },
        9 => match x {
            Value::Array(a) if a.len() > 1 => {
                let i = arg as usize % a.len();
                let j = (i + 1 + (arg >> 16) as usize) % a.len();
                a.swap(i, j);
            }
            Value::Object(m) if !m.is_empty() => {
                // rename a field
                let k = m.keys().nth(arg as usize % m.len()).unwrap().clone();
                let y = m.remove(&k).unwrap();
                let names = ["depth", "cofactor", "merkle_root", "CommitmentLeaf", "ConcealedNode", "crossSection", "protocolId"];
                m.insert(names[(arg >> 16) as usize % names.len()].to_string(), y);
            }
            Value::String(s) if !s.is_empty() && s.is_ascii() => {
                let i = arg as usize % s.len();
                let c = ["0", "f", "F", "g", " "][(arg >> 16) as usize % 5];
                s.replace_range(i..i + 1, c);
            }
            _ => {}
        },
        10 => {
            // structure as a sequence of values
            if let Value::Object(m) = x {
                let order = ["method", "depth", "pos", "cofactor", "merkleRoot", "path", "cross_section", "entropy", "hash", "protocol_id", "message"];
                let seq: Vec<Value> = order.iter().filter_map(|k| m.get(*k).cloned()).collect();
                *x = Value::Array(seq);
            }
        }
        11 => {
            if let Value::String(s) = x {
                *s = s.to_uppercase();
            }
        }
        12 => {
            if let Value::Number(k) = x {
                if let Some(k) = k.as_u64() {
                    *x = json!(k.wrapping_add([1, u64::MAX, 256, 65536, 1 << 32][arg as usize % 5]));
                }
            }
        }
        _ => *x = json!(true),
    }
    *x != old
}

/// Calls the closure for the types with serde support.
macro_rules! serde_dispatch {
    ($ty:expr, $t:ident => $body:expr) => {
        match $ty {
            Ty::Method => { type $t = commit_verify::mpc::Method; $body }
            Ty::MerkleConcealed => { type $t = commit_verify::mpc::MerkleConcealed; $body }
            Ty::MerkleProof => { type $t = MerkleProof; $body }
            Ty::MerkleBlock => { type $t = MerkleBlock; $body }
            x => dispatch_id!(x, $t => $body),
        }
    };
}

fn serde_val() -> BoxedStrategy<Val> {
    values::val().prop_filter("has serde", |v| model_json(v).is_some()).boxed()
}

fn decoded_is_valid<T: StrictEncode + StrictDecode + PartialEq + Debug>(v: &T) -> R {
    let b = enc(v);
    let w: T = dec(&b).map_err(|e| format!("an invalid value is deserialized: {e}: {:.200}", format!("{v:?}")))?;
    ensure!(w == *v, "deserialized value is not restored from its binary form");
    Ok(())
}

pub fn c21(ctx: &mut Ctx) {
    ctx.group(
        "values",
        "the value has distinguishable fields",
        8_000,
        serde_val,
        |v: &Val, o| {
            o.nontrivial(v.rich());
            o.label(v.ty().name());
            serde_dispatch!(v.ty(), T => {
                let x: T = dec(&v.encode())?;
                formats(&x, o)?;
                let got = serde_json::to_value(&x).map_err(|e| e.to_string())?;
                let want = model_json(v).unwrap();
                o.sample(|| { let s = want.to_string(); format!("{:?}: {}", v.ty(), s.chars().take(160).collect::<String>()) });
                ensure_eq!(got, want, "JSON form");
                // the form written by others
                let y: T = of_json(&want.to_string())?;
                ensure!(enc(&y) == v.encode(), "value read from the JSON of the model differs");
                Ok::<(), String>(())
            })?;
            if let Some(b) = v.block() {
                let x: MerkleBlock = of_cbor(&to_cbor(&dec::<MerkleBlock>(&v.encode())?)?)?;
                use commit_verify::CommitId;
                ensure_eq!(Some(ut::h_cm(x.commit_id())), b.commitment(), "id of the block read from CBOR");
            }
            Ok(())
        },
    );
    ctx.group(
        "malformed",
        "the document is changed",
        60_000,
        || {
            let e = (any::<u32>(), any::<u8>(), any::<u32>()).prop_map(|(at, how, arg)| Edits { at, how, arg });
            (serde_val(), prop::collection::vec(e, 1..3))
        },
        |(v, es): &(Val, Vec<Edits>), o| {
            let mut j = model_json(v).unwrap();
            let mut changed = false;
            for e in es {
                changed |= edit(&mut j, e);
            }
            o.nontrivial(changed);
            let ty = v.ty();
            let want = judge(ty, &j);
            o.label(format!("{ty:?} {}", if want.is_some() { "valid" } else { "invalid" }));
            let text = j.to_string();
            o.sample(|| format!("{ty:?} valid={}: {}", want.is_some(), text.chars().take(160).collect::<String>()));
            serde_dispatch!(ty, T => {
                let a = guard(|| of_json::<T>(&text))?;
                match (&a, &want) {
                    (Ok(x), Some(w)) => ensure!(enc(x) == *w, "value read from {text} differs"),
                    (Err(_), None) => {}
                    (Ok(_), None) => return Err(format!("malformed JSON is accepted: {text}")),
                    (Err(e), Some(_)) => return Err(format!("well-formed JSON is rejected: {e}: {text}")),
                }
                let b = guard(|| serde_json::from_value::<T>(j.clone()).ok())?;
                // (trees of serde_json do not accept sequences in place of structures of variants)
                if b.is_some() {
                    ensure_eq!(b, a.ok(), "value read from a JSON tree");
                }
                // the same document in CBOR: hashes are strings there, so mostly rejected; whatever
                // is accepted is valid
                if let Ok(c) = to_cbor(&j) {
                    if let Ok(x) = guard(|| of_cbor::<T>(&c))? {
                        decoded_is_valid(&x)?;
                    }
                }
                Ok(())
            })
        },
    );
    ctx.group(
        "damaged",
        "the damaged bytes are accepted",
        30_000,
        || (serde_val(), any::<bool>(), prop::collection::vec((any::<u32>(), prop_oneof![2 => 0u8..5, 1 => any::<u8>(), 1 => 30u8..34]), 1..3)),
        |(v, cbor, ds): &(Val, bool, Vec<(u32, u8)>), o| {
            serde_dispatch!(v.ty(), T => {
                let x: T = dec(&v.encode())?;
                let mut b = if *cbor { to_cbor(&x)? } else { to_bin(&x)? };
                for (at, val) in ds {
                    // half of the places are in the first bytes and the headers of elements
                    let i = if at & 1 == 0 { (at >> 1) as usize % b.len() } else { (at >> 1) as usize % b.len().min(40) };
                    b[i] = *val;
                }
                // declared lengths may be huge: the formats bound what is allocated
                let y = guard(|| if *cbor { of_cbor::<T>(&b) } else { of_bin::<T>(&b) })?;
                o.nontrivial(y.is_ok());
                o.label(format!("{} {}", v.ty().name(), if y.is_ok() { "accepted" } else { "rejected" }));
                if let Ok(y) = y {
                    decoded_is_valid(&y)?;
                    formats(&y, o)?;
                }
                Ok(())
            })
        },
    );
    ctx.group(
        "duplicates",
        "any",
        2_000,
        || (serde_val(), any::<u32>()),
        |(v, n): &(Val, u32), o| {
            // a field given twice is ambiguous
            let j = model_json(v).unwrap();
            let Value::Object(m) = &j else { return Ok(()) };
            o.nontrivial(true);
            o.label(v.ty().name());
            let k = m.keys().nth(*n as usize % m.len()).unwrap();
            let body = j.to_string();
            let text = format!("{{\"{k}\":{},{}", m[k], &body[1..]);
            o.sample(|| format!("{:?} with {k} twice", v.ty()));
            serde_dispatch!(v.ty(), T => {
                ensure!(of_json::<T>(&text).is_err(), "{k} given twice is accepted");
                Ok(())
            })
        },
    );
    ctx.group(
        "errors",
        "always",
        4_000,
        || (gen::b32(), gen::b32(), any::<u32>(), any::<u16>(), prop::collection::vec(gen::b32(), 0..=31)),
        |(p, m, pos, cofactor, path): &(B32, B32, u32, u16, Vec<B32>), o| {
            let proof = model::Proof { pos: *pos, cofactor: *cofactor, path: path.iter().map(|b| b.0).collect() };
            let ut_proof = ut::proof(&proof)?;
            let expected = match proof.open(&p.0, &m.0) {
                Ok(_) => return Ok(()),
                Err(e) => e,
            };
            let err: InvalidProof = match MerkleBlock::with(&ut_proof, ut::pid(&p.0), ut::msg(&m.0)) {
                Err(e) => e,
                Ok(_) => return Err("proof is accepted".into()),
            };
            o.nontrivial(true);
            let want = json!({"protocolId": hex(&p.0), "expected": expected, "actual": pos, "width": model::width(proof.depth())});
            o.sample(|| want.to_string());
            ensure_eq!(serde_json::to_value(err).unwrap(), want, "JSON form of the error");
            formats(&err, o)?;
            for k in ["protocolId", "expected", "actual", "width"] {
                let mut j = want.clone();
                j.as_object_mut().unwrap().remove(k);
                ensure!(serde_json::from_value::<InvalidProof>(j).is_err(), "error without {k} is accepted");
            }
            Ok(())
        },
    );
    ctx.enumerate(
        "verify-errors",
        "any",
        || vec!["commitmentMismatch", "impossibleMessage", "invalidProof"].into_iter().map(String::from).collect(),
        |name: &String, o| {
            o.nontrivial(true);
            o.sample(|| name.clone());
            let want = match name.as_str() {
                "commitmentMismatch" => ConvolveVerifyError::CommitmentMismatch,
                "impossibleMessage" => ConvolveVerifyError::ImpossibleMessage,
                _ => ConvolveVerifyError::InvalidProof,
            };
            ensure_eq!(of_json::<ConvolveVerifyError>(&format!("\"{name}\""))?, want, "error read from JSON");
            formats(&want, o)?;
            for bad in ["CommitmentMismatch", "commitment_mismatch", "", "Invalid"] {
                ensure!(of_json::<ConvolveVerifyError>(&format!("\"{bad}\"")).is_err(), "{bad} is accepted");
            }
            Ok(())
        },
    );
    ctx.group(
        "statuses",
        "the status is not empty",
        3_000,
        small_log,
        |l: &Log, o| {
            let s: St = l.status();
            o.nontrivial(*l != Log::default());
            formats(&s, o)?;
            let want = json!({
                "seal_issues": l.issues.iter().map(|(seal, no)| json!({"seal": seal, "no": no})).collect::<Vec<_>>(),
                "failures": l.failures, "warnings": l.warnings, "info": l.info,
            });
            o.sample(|| want.to_string());
            ensure_eq!(serde_json::to_value(&s).unwrap(), want, "JSON form of the status");
            for k in ["seal_issues", "failures", "warnings", "info"] {
                let mut j = want.clone();
                j.as_object_mut().unwrap().remove(k);
                ensure!(serde_json::from_value::<St>(j).is_err(), "status without {k} is accepted");
            }
            ensure_eq!(Log::of(&of_bin(&to_bin(&s)?)?), *l, "status read from bincode");
            Ok(())
        },
    );
    ctx.group("witnesses", "always", 2_000, seals::witness_case, |c: &seals::WitnessCase, o| {
        o.nontrivial(true);
        let w = c.witness();
        o.sample(|| format!("{c:?}"));
        formats(&w, o)
    });
    ctx.group("reserved", "the value is not null", 2_000, || any::<(u8, u64)>(), |(k, x): &(u8, u64), o| {
        fn one<const N: usize, const V: u8>(o: &mut Obs, k: u8, x: u64) -> R {
            let r = ReservedBytes::<N, V>::default();
            ensure_eq!(to_json(&r)?, "null", "JSON form of reserved bytes");
            let back: ReservedBytes<N, V> = of_json("null")?;
            ensure_eq!(back, r, "reserved bytes read from JSON");
            ensure_eq!(of_cbor::<ReservedBytes<N, V>>(&to_cbor(&r)?)?, r, "reserved bytes read from CBOR");
            ensure_eq!(of_bin::<ReservedBytes<N, V>>(&to_bin(&r)?)?, r, "reserved bytes read from bincode");
            let bad = match k % 6 {
                0 => json!(x),
                1 => json!("reserved"),
                2 => json!(vec![V; N]),
                3 => json!({}),
                4 => json!(true),
                _ => json!(hex(&[V; N])),
            };
            o.nontrivial(true);
            ensure!(serde_json::from_value::<ReservedBytes<N, V>>(bad.clone()).is_err(), "{bad} is accepted as reserved bytes");
            Ok(())
        }
        one::<1, 0>(o, *k, *x)?;
        one::<4, 0>(o, *k, *x)?;
        one::<8, 0xFF>(o, *k, *x)
    });
}
