use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Display};

use amplify::confinement::{Confined, MediumOrdMap};
use amplify::num::u5;
use amplify::{Bytes32, Wrapper};
use commit_verify::mpc::{
    Commitment, Leaf, MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree, Message, Method,
    MultiSource, ProtocolId,
};
use commit_verify::{CommitId, Conceal, MerkleHash, ReservedBytes, StrictHash, TryCommitVerify};
use serde_json::Value;
use strict_encoding::{StreamReader, StrictDecode, StrictEncode, StrictReader, StrictWriter};

use crate::{arr, b32, bytes, hex, num, Out};

const LIM: usize = 1 << 31;

pub fn enc<T: StrictEncode>(v: &T) -> String {
    hex(&v.strict_encode(StrictWriter::in_memory::<{ usize::MAX }>()).expect("in memory").unbox().unconfine())
}
pub fn dec<T: StrictDecode>(b: &[u8]) -> Result<(T, u64), String> {
    let mut r = StrictReader::with(StreamReader::cursor::<LIM>(b));
    let v = T::strict_decode(&mut r).map_err(|e| format!("{e:?}/{e}"))?;
    Ok((v, r.unbox().unconfine().position()))
}

fn pid(v: &Value) -> ProtocolId { ProtocolId::from(b32(v)) }
fn msg(v: &Value) -> Message { Message::from(b32(v)) }

fn res<T: Debug, E: Debug + Display>(out: &mut Out, r: Result<T, E>) -> bool {
    match r {
        Ok(x) => {
            out.push(format!("ok {x:?}"));
            true
        }
        Err(e) => {
            out.push(format!("err {e:?} / {e}"));
            false
        }
    }
}

pub fn source(r: &[Value], out: &mut Out) {
    let src = MultiSource {
        method: Method::Sha256t,
        min_depth: u5::with(num(&r[0]) as u8),
        messages: MediumOrdMap::try_from_iter(arr(&r[2]).iter().map(|x| {
            let x = arr(x);
            (pid(&x[0]), msg(&x[1]))
        }))
        .expect("size"),
        static_entropy: r[1].as_u64(),
    };
    match MerkleTree::try_commit(&src) {
        Err(e) => out.push(format!("err {e:?} / {e}")),
        Ok(t) if src.static_entropy.is_none() => {
            out.push(format!("{} {} {}", t.depth(), t.cofactor(), t.factored_width()))
        }
        Ok(t) => {
            examine_tree(&t, out);
            let mut other = src.clone();
            other.static_entropy = Some(t.entropy() ^ 1);
            for s in [&src, &other] {
                match t.verify(s) {
                    Ok(x) => out.push(format!("verified {x:?}")),
                    Err(e) => out.push(format!("not verified {e:?} / {e}")),
                }
            }
        }
    }
}

fn examine_tree(t: &MerkleTree, out: &mut Out) {
    out.push(format!("{} {} {} {} {}", t.depth(), t.cofactor(), t.width_limit(), t.factored_width(), t.entropy()));
    if t.width_limit() <= 1 << 10 {
        out.push(t.root().to_string());
        out.push(t.commit_id().to_string());
        out.push(enc(t));
        let c = t.conceal();
        out.push(format!("{c:?} {} {}", c.commit_id(), enc(&c)));
        let b = MerkleBlock::from(t);
        out.push(b.commit_id().to_string());
        out.push(hex(&crate::model::sha(enc(&b).as_bytes())));
        for (p, proof) in t.clone().into_proofs() {
            out.push(format!("{p} {} {}", t.protocol_id_pos(p), enc(&proof)));
        }
    }
}

pub fn tree(r: &[Value], out: &mut Out) {
    match dec::<MerkleTree>(&bytes(&r[0])) {
        Ok((t, n)) => {
            out.push(format!("{n}"));
            if num(&r[1]) != 0 {
                examine_tree(&t, out);
            } else {
                out.push(enc(&t));
            }
        }
        Err(e) => out.push(e),
    }
}

/// Any type: bytes are decoded; the value is shown and encoded again.
pub fn value(r: &[Value], out: &mut Out) {
    let data = bytes(&r[1]);
    macro_rules! case {
        ($t:ty) => { case!($t, |x: &$t| format!("{x:?}")) };
        ($t:ty, $f:expr) => {
            match dec::<$t>(&data) {
                Ok((v, n)) => {
                    out.push(format!("{n}"));
                    out.push(enc(&v));
                    out.push($f(&v));
                }
                Err(e) => out.push(e),
            }
        };
    }
    match crate::text(&r[0]) {
        "Method" => case!(Method),
        "ProtocolId" => case!(ProtocolId, |x: &ProtocolId| format!("{x} {x:?}")),
        "Message" => case!(Message, |x: &Message| format!("{x} {x:?}")),
        "Commitment" => case!(Commitment, |x: &Commitment| format!("{x} {x:?}")),
        "MerkleHash" => case!(MerkleHash, |x: &MerkleHash| format!("{x} {x:?}")),
        "StrictHash" => case!(StrictHash, |x: &StrictHash| format!("{x} {x:?}")),
        "Leaf" => case!(Leaf, |x: &Leaf| format!("{x:?} {}", x.commit_id())),
        "MerkleConcealed" => case!(MerkleConcealed, |x: &MerkleConcealed| format!("{x:?} {}", x.commit_id())),
        "MerkleProof" => case!(MerkleProof, |x: &MerkleProof| format!(
            "{x:?} {} {} {} {} {:?}",
            x.pos(),
            x.cofactor(),
            x.depth(),
            x.width_limit(),
            x.merkle_root()
        )),
        "MerkleBlock" => case!(MerkleBlock, |x: &MerkleBlock| format!(
            "{x:?} {} {} {}",
            x.commit_id(),
            x.width_limit(),
            x.factored_width()
        )),
        "ReservedBytes" => case!(ReservedBytes<4, 0xA5>, |x: &ReservedBytes<4, 0xA5>| format!("{x:?} {x}")),
        _ => out.push("no such type".into()),
    }
}

fn examine_block(b: &MerkleBlock, out: &mut Out) {
    out.push(enc(b));
    out.push(format!("{} {} {} {} {}", b.depth(), b.cofactor(), b.width_limit(), b.factored_width(), b.commit_id()));
    out.push(format!("{:?}", b.known_protocol_ids().map(|p| (p.to_string(), b.protocol_id_pos(p))).collect::<Vec<_>>()));
    out.push(format!("{:?}", b.to_known_message_map()));
}

pub fn block(r: &[Value], out: &mut Out) {
    let mut b = match dec::<MerkleBlock>(&bytes(&r[0])) {
        Ok((b, _)) => b,
        Err(e) => return out.push(e),
    };
    examine_block(&b, out);
    for op in arr(&r[1]) {
        let op = arr(op);
        match crate::text(&op[0]) {
            "except" => {
                let keep: Vec<_> = arr(&op[1]).iter().map(pid).collect();
                res(out, b.conceal_except(keep));
            }
            "other" => {
                res(out, b.conceal_other(pid(&op[1])));
            }
            "merge" => match dec::<MerkleBlock>(&bytes(&op[1])) {
                Ok((o, _)) => {
                    res(out, b.merge_reveal(o));
                }
                Err(e) => out.push(e),
            },
            "path" => match dec::<MerkleProof>(&bytes(&op[1])) {
                Ok((p, _)) => {
                    res(out, b.merge_reveal_path(&p, pid(&op[2]), msg(&op[3])));
                }
                Err(e) => out.push(e),
            },
            "with" => match dec::<MerkleProof>(&bytes(&op[1])) {
                Ok((p, _)) => match MerkleBlock::with(&p, pid(&op[2]), msg(&op[3])) {
                    Ok(n) => b = n,
                    Err(e) => out.push(format!("{e:?}/{e}")),
                },
                Err(e) => out.push(e),
            },
            "proof" => {
                let p = b.to_merkle_proof(pid(&op[1]));
                if let Ok(p) = &p {
                    out.push(enc(p));
                }
                res(out, p);
            }
            "proofs" => {
                for (p, proof) in b.clone().into_known_proofs() {
                    out.push(format!("{p} {}", enc(&proof)));
                }
            }
            "conceal" => {
                let c = b.conceal();
                out.push(format!("{c:?} {} {}", c.commit_id(), enc(&c)));
            }
            x => panic!("{x}"),
        }
        examine_block(&b, out);
    }
}

pub fn convolve(r: &[Value], out: &mut Out) {
    match dec::<MerkleProof>(&bytes(&r[0])) {
        Ok((p, _)) => {
            out.push(format!("{} {} {} {}", p.depth(), p.pos(), p.cofactor(), p.width_limit()));
            out.push(format!("{}", p.factored_width()));
            match p.convolve(pid(&r[1]), msg(&r[2])) {
                Ok(c) => out.push(format!("{c}")),
                Err(e) => out.push(format!("{e:?} / {e}")),
            }
        }
        Err(e) => out.push(e),
    }
}
