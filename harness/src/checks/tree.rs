//! Multi-protocol commitment trees: C01, C03, C04, C05, C32.

use std::collections::{BTreeMap, BTreeSet};

use commit_verify::mpc::{MerkleBlock, MerkleTree};
use commit_verify::{CommitId, Conceal, TryCommitVerify};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::engine::{Ctx, Obs};
use crate::gen::{self, SourceSpec, TreeSpec};
use crate::model::{self, Fill, B32, H};
use crate::ut::{self, enc};
use crate::{ensure, ensure_eq};

type R = Result<(), String>;

/// Commits with the real code, compares the shape with the model.
pub fn build(spec: &SourceSpec) -> Result<Option<(MerkleTree, model::Tree)>, String> {
    let map = spec.map();
    let src = ut::source(&map, spec.min_depth, spec.entropy);
    let Ok(tree) = MerkleTree::try_commit(&src) else { return Ok(None) };
    let (depth, cofactor) = (tree.depth().to_u8(), tree.cofactor());
    let leaves: BTreeMap<u32, (H, H)> =
        map.iter().map(|(p, m)| (model::slot(p, depth, cofactor), (*p, *m))).collect();
    ensure_eq!(leaves.len(), map.len(), "protocols share a slot at depth {depth}, cofactor {cofactor}");
    let m = model::Tree { depth, cofactor, leaves, fill: Fill::Entropy(tree.entropy()) };
    Ok(Some((tree, m)))
}

// ------------------------------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C01Case {
    source: SourceSpec,
    keep: u64,
}

pub fn c01(ctx: &mut Ctx) {
    ctx.group(
        "sources",
        "source commits successfully, to a tree with at least two leaf slots",
        2400,
        || (gen::source(20, 0..=7), gen::mask()).prop_map(|(source, keep)| C01Case { source, keep }),
        c01_check,
    );
    ctx.group(
        "many_messages",
        "source commits to a tree with at least two slots",
        16,
        || {
            (prop::collection::vec((gen::uni32(), gen::b32()), 50..110), gen::num64(), gen::mask()).prop_map(
                |(messages, e, keep)| C01Case {
                    source: SourceSpec { min_depth: 0, entropy: Some(e), messages },
                    keep,
                },
            )
        },
        c01_check,
    );
    ctx.group(
        "high_cofactor",
        "the tree needs a cofactor above zero",
        600,
        || (gen::crowded(), gen::mask()).prop_map(|(source, keep)| C01Case { source, keep }),
        c01_check,
    );
    ctx.group(
        "colliding",
        "source commits successfully, to a tree with at least two leaf slots",
        48,
        || (gen::colliding(6..=10, 500), gen::mask()).prop_map(|(source, keep)| C01Case { source, keep }),
        c01_check,
    );
    ctx.group(
        "hundreds_of_messages",
        "source commits successfully, to a tree with at least two leaf slots",
        8,
        || {
            // almost full trees: one message for each of the slots
            (250usize..520, gen::num64(), gen::b32(), gen::mask()).prop_map(|(n, e, base, keep)| {
                let depth = if n <= 256 { 8 } else { 9 };
                let f = 1u32 << depth;
                let messages = (0..n.min(f as usize) as u32)
                    .map(|i| (B32(model::mk_pid(i, f, &base.0)), B32(model::u256_le(i as u64 ^ e))))
                    .collect();
                C01Case { source: SourceSpec { min_depth: depth, entropy: Some(e), messages }, keep }
            })
        },
        c01_check,
    );
}

fn c01_check(c: &C01Case, o: &mut Obs) -> R {
    let map = c.source.map();
    let pids: Vec<H> = map.keys().copied().collect();
    if let Ok((d, _)) = model::find_shape(&pids, c.source.min_depth) {
        if d > 12 {
            o.label("tree too deep to be materialised");
            return Ok(());
        }
    }
    let Some((tree, m)) = build(&c.source)? else {
        o.label("not committed");
        return Ok(());
    };
    o.nontrivial(m.depth > 0 && !map.is_empty());
    o.label(format!("depth {:2}", m.depth));
    o.label_if(m.cofactor > 0, "cofactor > 0");
    o.label_if(m.cofactor > 255, "cofactor > 255");
    let id = tree.commit_id();
    let proofs: Vec<_> = tree.clone().into_proofs().collect();
    ensure_eq!(proofs.len(), map.len(), "number of proofs");
    let mut seen = BTreeSet::new();
    for (pid, proof) in &proofs {
        let p = ut::h_pid(*pid);
        ensure!(seen.insert(p), "two proofs for {pid}");
        let Some(msg) = map.get(&p) else { return Err(format!("proof for foreign {pid}")) };
        ensure_eq!(proof.depth(), tree.depth(), "depth of the proof");
        ensure_eq!(proof.cofactor(), tree.cofactor(), "cofactor of the proof");
        match proof.convolve(*pid, ut::msg(msg)) {
            Ok(got) => ensure_eq!(got, id, "opening of the proof for {pid}"),
            Err(e) => return Err(format!("proof of {pid} doesn't open: {e}")),
        }
        ensure_eq!(
            ut::view_proof(proof).open(&p, msg),
            Ok(ut::h_cm(id)),
            "independent opening of the proof for {pid}"
        );
        o.evals(2);
    }
    // Proofs from partial blocks
    let keep = gen::subset(&m, c.keep);
    let kept: Vec<H> = keep.iter().map(|s| m.leaves[s].0).collect();
    let mut block = MerkleBlock::from(&tree);
    block
        .conceal_except(kept.iter().map(ut::pid).collect::<Vec<_>>())
        .map_err(|e| format!("conceal_except fails: {e}"))?;
    for p in &kept {
        let proof = block
            .to_merkle_proof(ut::pid(p))
            .map_err(|e| format!("no proof from a partial block: {e}"))?;
        ensure_eq!(
            proof.convolve(ut::pid(p), ut::msg(&map[p])).ok(),
            Some(id),
            "opening of the proof from a partial block"
        );
        o.evals(1);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C03Case {
    depth: u8,
    cofactor: u16,
    pids: Vec<B32>,
    pos: u32,
    hash: B32,
}

pub fn c03(ctx: &mut Ctx) {
    ctx.group(
        "slots",
        "depth above zero and a non-zero cofactor or id larger than 64 bits",
        14_000,
        || {
            (0u8..=31)
                .prop_flat_map(|depth| {
                    let m = model::width(depth);
                    let near = (0u64..4, 0u32..=2, any::<u16>()).prop_map(move |(k, d, _)| {
                        // multiples of the width with small differences
                        B32(model::u256_le((k * m as u64 + d as u64).wrapping_sub(1)))
                    });
                    (
                        Just(depth),
                        gen::cofactor(depth),
                        prop::collection::vec(prop_oneof![3 => gen::b32(), 1 => near], 1..4),
                        prop_oneof![any::<u32>(), 0..m, Just(m), Just(m - 1), Just(0)],
                        gen::b32(),
                    )
                })
                .prop_map(|(depth, cofactor, pids, pos, hash)| C03Case { depth, cofactor, pids, pos, hash })
        },
        c03_check,
    );
    ctx.enumerate(
        "widths",
        "cofactor above zero",
        || {
            let mut v = vec![];
            for depth in 0u8..=31 {
                let w = model::width(depth) as u64;
                let mut cs: BTreeSet<u64> = (0..=40).collect();
                cs.extend([255, 256, 257, 499, 500, 501, 32767, 32768, 65534, 65535]);
                for d in 0..3 {
                    cs.insert(w.saturating_sub(d));
                    cs.insert(w + d);
                }
                for c in cs.into_iter().filter(|c| *c <= 65535) {
                    v.push(C03Case {
                        depth,
                        cofactor: c as u16,
                        pids: vec![B32([0xFF; 32]), B32([0; 32]), B32(model::u256_le(w)), B32(model::u256_le(w - 1))],
                        pos: 0,
                        hash: B32([3; 32]),
                    });
                }
            }
            v
        },
        c03_check,
    );
}

fn numbers(text: &str) -> BTreeMap<u64, usize> {
    let mut out = BTreeMap::new();
    for w in text.split(|c: char| !c.is_ascii_alphanumeric()) {
        if let Ok(x) = w.parse::<u64>() {
            *out.entry(x).or_default() += 1;
        }
    }
    out
}

fn c03_check(c: &C03Case, o: &mut Obs) -> R {
    let (d, cf) = (c.depth, c.cofactor);
    let w = model::width(d);
    let f = model::factored(d, cf);
    o.nontrivial(d > 0 && (cf > 0 || c.pids.iter().any(|p| p.0[8..] != [0; 24])));
    o.label_if(cf as u32 >= w, "cofactor >= width");
    o.label_if(d > 16, "depth > 16");
    let mt = model::Tree { depth: d, cofactor: cf, leaves: BTreeMap::new(), fill: Fill::Entropy(1) };
    let tree = ut::tree(&mt)?;
    let block = ut::block(&model::Block {
        depth: d,
        cofactor: cf,
        section: vec![model::Node::Hidden { depth: 0, hash: c.hash.0 }],
        entropy: None,
    })?;
    let path: Vec<H> = (0..d).map(|i| model::sha(&[i, c.hash.0[0]])).collect();
    ensure_eq!(tree.width_limit(), w, "tree width");
    ensure_eq!(block.width_limit(), w, "block width");
    ensure_eq!(tree.factored_width(), f, "factored width of the tree");
    ensure_eq!(block.factored_width(), f, "factored width of the block");
    ensure_eq!(tree.depth().to_u8(), d, "tree depth");
    for p in &c.pids {
        let s = model::slot(&p.0, d, cf);
        assert!(s < w && s < f);
        ensure_eq!(tree.protocol_id_pos(ut::pid(&p.0)), s, "slot in the tree");
        ensure_eq!(block.protocol_id_pos(ut::pid(&p.0)), s, "slot in the block");
        for pos in [s, c.pos, s ^ 1, s.wrapping_add(w), s.wrapping_add(f), 0, w - 1] {
            let proof = ut::proof(&model::Proof { pos, cofactor: cf, path: path.clone() })?;
            ensure_eq!(proof.width_limit(), w, "proof width");
            ensure_eq!(proof.factored_width(), f, "factored width of the proof");
            ensure_eq!(proof.depth().to_u8(), d, "depth of the proof");
            let res = MerkleBlock::with(&proof, ut::pid(&p.0), ut::msg(&c.hash.0));
            let opened = proof.convolve(ut::pid(&p.0), ut::msg(&c.hash.0));
            o.evals(1);
            if pos == s {
                let b = res.map_err(|e| format!("proof at its own slot is rejected: {e}"))?;
                ensure!(opened.is_ok(), "opening at its own slot is rejected");
                let v = ut::view(&b)?;
                let leaves = v.tiling().ok_or("block of a proof is not a tiling")?;
                ensure_eq!(leaves, vec![(s, p.0, c.hash.0)], "revealed leaf of the block");
            } else {
                let e1 = match (res, opened) {
                    (Err(e1), Err(e2)) => {
                        ensure_eq!(e1, e2, "errors of both methods");
                        e1
                    }
                    _ => return Err(format!("position {pos} accepted instead of {s}")),
                };
                let json = serde_json::to_value(e1).unwrap();
                let want = serde_json::json!({"protocolId": model::hex(&p.0), "expected": s, "actual": pos, "width": w});
                ensure_eq!(json, want, "error contents");
                let text = e1.to_string();
                ensure!(text.contains(&model::hex(&p.0)), "error text doesn't name the protocol: {text}");
                let nums = numbers(&text.replace(&model::hex(&p.0), ""));
                for x in [s, pos, w] {
                    ensure!(nums.contains_key(&(x as u64)), "error text doesn't state {x}: {text}");
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C04

pub fn c04(ctx: &mut Ctx) {
    ctx.group(
        "sources",
        "at least two messages",
        12_000,
        || gen::source(24, 0..=31),
        c04_check,
    );
    ctx.group(
        "shallow",
        "at least two messages",
        12_000,
        || gen::source(16, 0..=5),
        c04_check,
    );
    ctx.group("crowded", "at least two messages", 3_000, gen::crowded, c04_check);
    ctx.group("colliding", "at least two messages", 600, || gen::colliding(3..=13, 502), c04_check);
    ctx.group(
        "many_messages",
        "at least 100 messages",
        64,
        || {
            (0u8..=20, gen::num64(), prop::collection::vec((gen::uni32(), gen::b32()), 100..320))
                .prop_map(|(min_depth, e, messages)| SourceSpec { min_depth, entropy: Some(e), messages })
        },
        c04_check,
    );
    ctx.group(
        "max_depth",
        "ids collide for at least one cofactor at the maximal depth",
        1_500,
        || {
            // ids which are equal modulo 2^31 and several smaller factored widths
            (0u32..4, 0u64..5, prop::collection::vec((0u64..3, gen::b32()), 0..5), 28u8..=31, gen::num64()).prop_map(
                |(upto, r, ks, min_depth, e)| {
                    let mut l: u128 = 1;
                    for c in 0..=upto {
                        let m = (1u128 << 31) - c as u128;
                        l = l / gen::gcd(l, m) * m;
                        if l >= 1 << 95 {
                            break;
                        }
                    }
                    SourceSpec {
                        min_depth,
                        entropy: Some(e),
                        messages: ks
                            .into_iter()
                            .map(|(k, m)| {
                                let mut h = [0u8; 32];
                                h[..16].copy_from_slice(&(r as u128 + l * k as u128).to_le_bytes());
                                (B32(h), m)
                            })
                            .collect(),
                    }
                },
            )
        },
        c04_check,
    );
}

fn c04_check(c: &SourceSpec, o: &mut Obs) -> R {
    use commit_verify::mpc::Error;
    let map = c.map();
    o.nontrivial(map.len() > 1);
    let pids: Vec<H> = map.keys().copied().collect();
    let shape = model::find_shape(&pids, c.min_depth);
    let src = ut::source(&map, c.min_depth, c.entropy);
    let res = MerkleTree::try_commit(&src);
    // The same source again, assembled in the reverse order
    let mut src2 = ut::source(&BTreeMap::new(), c.min_depth, c.entropy);
    for (p, m) in map.iter().rev() {
        src2.messages.insert(ut::pid(p), ut::msg(m)).expect("size");
    }
    let res2 = MerkleTree::try_commit(&src2);
    ensure_eq!(res, res2, "second creation");
    match shape {
        Err(true) => {
            o.label("empty");
            ensure_eq!(res, Err(Error::Empty), "empty source");
        }
        Err(false) => {
            o.label("can't fit");
            ensure_eq!(res, Err(Error::CantFitInMaxSlots(map.len())), "source which doesn't fit");
        }
        Ok((depth, cofactor)) => {
            o.label_if(cofactor > 0, "cofactor > 0");
            o.label_if(cofactor > 1, "cofactor > 1");
            o.label_if(cofactor > 255, "cofactor > 255");
            o.label_if(depth > c.min_depth, "deeper than requested");
            let tree = res.map_err(|e| format!("fails with {e:?} instead of depth {depth}, cofactor {cofactor}"))?;
            ensure_eq!(tree.depth().to_u8(), depth, "depth (cofactor {cofactor})");
            ensure_eq!(tree.cofactor(), cofactor, "cofactor at depth {depth}");
            ensure_eq!(Some(tree.entropy()), c.entropy, "entropy");
            let m = model::Tree {
                depth,
                cofactor,
                leaves: map.iter().map(|(p, m)| (model::slot(p, depth, cofactor), (*p, *m))).collect(),
                fill: Fill::Entropy(c.entropy.unwrap()),
            };
            assert_eq!(m.leaves.len(), map.len());
            ensure!(enc(&tree) == m.encode(), "contents of the tree differ from the source");
            if depth <= 8 {
                let v = ut::view(&MerkleBlock::from(&tree))?;
                ensure_eq!(
                    v.tiling().ok_or("block is not a tiling")?,
                    m.leaves.iter().map(|(s, (p, m))| (*s, *p, *m)).collect::<Vec<_>>(),
                    "messages of the complete block"
                );
                ensure_eq!(v.section.len(), 1usize << depth, "length of the complete block");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C05Case {
    tree: TreeSpec,
    change: u8,
    arg: u32,
}

pub fn c05(ctx: &mut Ctx) {
    ctx.group(
        "trees",
        "tree with at least two slots, of which one is empty and one occupied",
        4_000,
        || {
            (gen::small_tree(0..=6, 20), any::<u8>(), any::<u32>())
                .prop_map(|(tree, change, arg)| C05Case { tree, change, arg })
        },
        c05_check,
    );
    ctx.group(
        "wide_trees",
        "tree with at least 256 slots",
        64,
        || {
            (gen::small_tree(7..=11, 60), any::<u8>(), any::<u32>())
                .prop_map(|(tree, change, arg)| C05Case { tree, change, arg })
        },
        c05_check,
    );
    ctx.group(
        "sources",
        "source commits successfully",
        1_500,
        || gen::source(12, 0..=7),
        |c, o| {
            let pids: Vec<H> = c.map().keys().copied().collect();
            if model::find_shape(&pids, c.min_depth).is_ok_and(|(d, _)| d > 11) {
                return Ok(());
            }
            let Some((tree, m)) = build(c)? else { return Ok(()) };
            o.nontrivial(true);
            ids_agree(&tree, &m)
        },
    );
    ctx.group(
        "huge_trees",
        "slots beyond 65535 exist",
        8,
        || gen::small_tree(16..=17, 30),
        |t, o| {
            let m = t.build();
            o.nontrivial(m.depth > 16);
            let tree = ut::tree(&m)?;
            ensure_eq!(ut::h_mh(tree.root()), m.root(), "root");
            Ok(())
        },
    );
    ctx.group(
        "deep_blocks",
        "block of depth above 16",
        2_500,
        || (gen::deep_tree(0..=31, 6), gen::mask()),
        |(t, mask), o| {
            let m = t.build();
            o.nontrivial(m.depth > 16);
            let b = ut::block(&m.block(&gen::subset(&m, *mask)))?;
            ensure_eq!(ut::h_cm(b.commit_id()), m.commitment(), "commitment id of the block");
            ensure_eq!(
                enc(&b.conceal()),
                model::concealed_bytes(m.depth, m.cofactor, &m.root()),
                "concealed form of the block"
            );
            Ok(())
        },
    );
}

fn ids_agree(tree: &MerkleTree, m: &model::Tree) -> R {
    let root = m.root();
    let id = model::commitment(m.depth, m.cofactor, &root);
    ensure_eq!(ut::h_mh(tree.root()), root, "root of the tree");
    ensure_eq!(enc(&tree.conceal()), model::concealed_bytes(m.depth, m.cofactor, &root), "concealed tree");
    ensure_eq!(ut::h_cm(tree.commit_id()), id, "commitment id of the tree");
    ensure_eq!(ut::h_cm(tree.conceal().commit_id()), id, "commitment id of the concealed tree");
    let block = MerkleBlock::from(tree);
    ensure!(enc(&block) == m.full_block().encode(), "contents of the complete block");
    ensure_eq!(ut::h_cm(block.commit_id()), id, "commitment id of the block");
    ensure_eq!(enc(&block.conceal()), model::concealed_bytes(m.depth, m.cofactor, &root), "concealed block");
    Ok(())
}

fn c05_check(c: &C05Case, o: &mut Obs) -> R {
    let m = c.tree.build();
    let w = model::width(m.depth);
    let empty = w as usize - m.leaves.len();
    if m.depth < 7 {
        o.nontrivial(w > 1 && empty > 0 && !m.leaves.is_empty());
    } else {
        o.nontrivial(w >= 256);
    }
    o.label_if(m.cofactor > 0, "cofactor > 0");
    o.label_if(empty == 0, "full tree");
    let tree = ut::tree(&m)?;
    ids_agree(&tree, &m)?;
    // Change one thing
    let mut n = m.clone();
    let nth = c.arg as usize % m.leaves.len();
    let (slot, (pid, _)) = m.leaves.iter().nth(nth).map(|(a, b)| (*a, *b)).unwrap();
    let what = match c.change % 6 {
        0 => {
            n.leaves.get_mut(&slot).unwrap().1[(c.arg >> 8) as usize % 32] ^= 1 << (c.arg >> 16) % 8;
            "message"
        }
        1 => {
            // another protocol of the same slot
            let f = model::factored(m.depth, m.cofactor);
            let mut base = pid;
            base[(c.arg >> 8) as usize % 32] ^= 1 << (c.arg >> 16) % 8;
            let mut p2 = model::mk_pid(slot, f, &base);
            if p2 == pid {
                base[31] ^= 0x80;
                p2 = model::mk_pid(slot, f, &base);
            }
            n.leaves.get_mut(&slot).unwrap().0 = p2;
            "protocol"
        }
        2 => {
            n.fill = Fill::Entropy(c.tree.fill ^ 1u64 << (c.arg % 64));
            if empty == 0 {
                return Ok(());
            }
            "entropy"
        }
        3 => {
            // The slots of the leaves do not enter the hash by the cofactor: keep the map, change
            // the cofactor only.
            n.cofactor ^= 1 << (c.arg % 16);
            "cofactor"
        }
        4 => {
            if empty == 0 || m.leaves.len() < 2 {
                return Ok(());
            }
            n.leaves.remove(&slot);
            "occupancy"
        }
        _ => {
            if m.depth >= 9 {
                return Ok(());
            }
            n.depth += 1;
            "depth"
        }
    };
    o.label(format!("changed {what}"));
    let tree2 = ut::tree(&n)?;
    ensure_eq!(ut::h_cm(tree2.commit_id()), n.commitment(), "id of the tree with another {what}");
    ensure!(tree2.commit_id() != tree.commit_id(), "changing the {what} does not change the id");
    ensure!(tree2 != tree, "changed tree is equal to the original");
    o.evals(1);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C32

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C32Case {
    source: SourceSpec,
    runs: u8,
}

pub fn c32(ctx: &mut Ctx) {
    ctx.group(
        "fixed",
        "entropy is specified and the source commits",
        4_000,
        || {
            (
                gen::source(10, 0..=6),
                prop_oneof![
                    3 => gen::num64(),
                    1 => Just(0u64),
                    1 => Just(u64::MAX),
                    1 => (0u32..64).prop_map(|b| 1 << b)
                ],
            )
                .prop_map(|(mut source, e)| {
                    source.entropy = Some(e);
                    C32Case { source, runs: 1 }
                })
        },
        c32_fixed,
    );
    ctx.group(
        "fresh",
        "entropy is not specified, the source commits repeatedly and leaves an empty slot",
        500,
        || {
            (gen::source(10, 0..=6), 3u8..10).prop_map(|(mut source, runs)| {
                source.entropy = None;
                C32Case { source, runs }
            })
        },
        c32_fresh,
    );
    // A pool of values drawn without specification: no bit may be constant
    ctx.enumerate(
        "spread",
        "always",
        || vec![0u8, 1, 2, 3],
        |_, o| {
            o.nontrivial(true);
            let mut ones = [0u32; 64];
            let mut seen = BTreeSet::new();
            let n = 2000;
            let src = ut::source(&BTreeMap::new(), 1, None);
            for _ in 0..n {
                let e = MerkleTree::try_commit(&src).map_err(|e| e.to_string())?.entropy();
                ensure!(seen.insert(e), "entropy {e:#x} drawn twice");
                for (i, c) in ones.iter_mut().enumerate() {
                    *c += (e >> i & 1) as u32;
                }
            }
            // 2000 fair coin flips: deviation of more than 12 sigma (p < 1e-30)
            for (i, c) in ones.iter().enumerate() {
                ensure!((732..=1268).contains(c), "bit {i} of the entropy is set {c} times of {n}");
            }
            o.evals(n);
            Ok(())
        },
    );
}

fn shallow(c: &SourceSpec) -> Option<(u8, u16)> {
    let pids: Vec<H> = c.map().keys().copied().collect();
    model::find_shape(&pids, c.min_depth).ok().filter(|(d, _)| *d <= 10)
}

fn c32_fixed(c: &C32Case, o: &mut Obs) -> R {
    let Some(_) = shallow(&c.source) else { return Ok(()) };
    let Some((tree, _)) = build(&c.source)? else { return Ok(()) };
    o.nontrivial(true);
    ensure_eq!(Some(tree.entropy()), c.source.entropy, "entropy of the tree");
    ensure_eq!(MerkleBlock::from(&tree).entropy(), c.source.entropy, "entropy of the block");
    let Some((tree2, _)) = build(&c.source)? else { return Err("second creation fails".into()) };
    ensure_eq!(tree2, tree, "second creation");
    ensure_eq!(tree2.commit_id(), tree.commit_id(), "commitment id of the second creation");
    Ok(())
}

fn c32_fresh(c: &C32Case, o: &mut Obs) -> R {
    let Some((depth, cofactor)) = shallow(&c.source) else { return Ok(()) };
    let map = c.source.map();
    let empty = (model::width(depth) as usize) > map.len();
    o.nontrivial(empty);
    let (mut es, mut ids) = (BTreeSet::new(), BTreeSet::new());
    for _ in 0..c.runs {
        let Some((tree, m)) = build(&c.source)? else { return Err("creation fails".into()) };
        ensure_eq!((m.depth, m.cofactor), (depth, cofactor), "shape depends on randomness");
        ensure!(es.insert(tree.entropy()), "entropy {:#x} is repeated", tree.entropy());
        ensure_eq!(MerkleBlock::from(&tree).entropy(), Some(tree.entropy()), "entropy of the block");
        let new = ids.insert(tree.commit_id());
        if empty {
            ensure!(new, "commitment id is repeated");
        } else {
            ensure_eq!(ids.len(), 1, "ids of a full tree");
        }
        // the rest of the tree is determined by the source
        let expect = model::Tree { fill: Fill::Entropy(tree.entropy()), ..m };
        ensure!(enc(&tree) == expect.encode(), "contents of the tree");
        o.evals(1);
    }
    Ok(())
}
