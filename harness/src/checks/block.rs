//! Partial blocks and inclusion proofs: C02, C06, C07, C08, C09, C23, C31.

use std::collections::{BTreeMap, BTreeSet};

use amplify::confinement::Confined;
use amplify::num::u5;
use commit_verify::mpc::{MerkleBlock, MerkleConcealed, MerkleProof, MerkleTree, MergeError, Method, Proof};
use commit_verify::{CommitId, Conceal, TryCommitVerify};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::engine::{guard, Ctx, Obs};
use crate::gen::{self, TreeSpec};
use crate::model::{self, Fill, Node, B32, H};
use crate::ut::{self, enc};
use crate::{ensure, ensure_eq};

type R = Result<(), String>;

/// A partial block of a tree: which leaves are revealed, how hidden sub-trees are split.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Part {
    pub keep: u64,
    /// Hidden sub-trees are split with the probability `split / 8` down to `levels` below the last
    /// node on the way to a revealed leaf.
    pub split: u8,
    pub seed: u64,
    pub entropy: Option<u64>,
}

pub fn part() -> BoxedStrategy<Part> {
    (
        gen::mask(),
        prop_oneof![3 => Just(0u8), 3 => 1u8..=4, 1 => Just(8u8)],
        gen::num64(),
        prop_oneof![3 => Just(None), 1 => gen::num64().prop_map(Some)],
    )
        .prop_map(|(keep, split, seed, entropy)| Part { keep, split, seed, entropy })
        .boxed()
}

impl Part {
    pub fn of(&self, t: &model::Tree) -> model::Block {
        let keep = gen::subset(t, self.keep);
        let mut budget = 40u32;
        let (split, seed) = (self.split, self.seed);
        let all = split == 8 && t.depth <= 6;
        let section = t.section_with(&keep, |d, i| {
            if all {
                return true;
            }
            if split == 0 || budget == 0 {
                return false;
            }
            let x = (seed ^ (i.wrapping_add(1)).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ (d as u64) << 40)
                .wrapping_mul(0xD6E8_FEB8_6659_FD93)
                >> 60;
            if x % 8 < split as u64 {
                budget -= 1;
                true
            } else {
                false
            }
        });
        model::Block { depth: t.depth, cofactor: t.cofactor, section, entropy: self.entropy }
    }
}

fn tree_for_blocks(max: usize) -> BoxedStrategy<TreeSpec> {
    prop_oneof![
        4 => gen::small_tree(0..=5, max),
        3 => gen::deep_tree(0..=31, max),
        1 => gen::deep_tree(28..=31, max),
    ]
    .boxed()
}

/// Leaf positions, in order, of a model block together with the pids.
fn known(b: &model::Block) -> Vec<(H, H)> { b.tiling().expect("tiling").into_iter().map(|(_, p, m)| (p, m)).collect() }

fn same_block(got: &MerkleBlock, want: &model::Block, what: &str) -> R {
    let v = ut::view(got)?;
    ensure_eq!(v.section.len(), want.section.len(), "{what}: number of nodes");
    for (i, (a, b)) in v.section.iter().zip(&want.section).enumerate() {
        ensure_eq!(a, b, "{what}: node {i}");
    }
    ensure_eq!((v.depth, v.cofactor), (want.depth, want.cofactor), "{what}: depth and cofactor");
    ensure_eq!((got.depth().to_u8(), got.cofactor()), (want.depth, want.cofactor), "{what}: reported depth and cofactor");
    let ids: Vec<H> = got.known_protocol_ids().map(ut::h_pid).collect();
    ensure_eq!(ids, known(want).iter().map(|x| x.0).collect::<Vec<_>>(), "{what}: revealed protocols");
    let map: BTreeMap<H, H> = got.to_known_message_map().iter().map(|(p, m)| (ut::h_pid(*p), ut::h_msg(*m))).collect();
    ensure_eq!(map, known(want).into_iter().collect::<BTreeMap<_, _>>(), "{what}: revealed messages");
    Ok(())
}

// ------------------------------------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mutation {
    Nothing,
    MsgBit(u8),
    Msg(B32),
    PidBit(u8),
    /// Another protocol of the same slot.
    PidSameSlot(B32),
    Pos(u32),
    PosBit(u8),
    PosAdd(u32),
    Cofactor(u16),
    CofactorBit(u8),
    PathBit(u8, u8),
    PathDrop(u8),
    PathInsert(u8, B32),
    PathSwap(u8, u8),
    PathReverse,
}

fn mutation() -> BoxedStrategy<Mutation> {
    use Mutation::*;
    prop_oneof![
        1 => Just(Nothing),
        3 => any::<u8>().prop_map(MsgBit),
        1 => gen::b32().prop_map(Msg),
        3 => any::<u8>().prop_map(PidBit),
        3 => gen::b32().prop_map(PidSameSlot),
        1 => any::<u32>().prop_map(Pos),
        3 => (0u8..32).prop_map(PosBit),
        1 => (0u32..4).prop_map(PosAdd),
        1 => any::<u16>().prop_map(Cofactor),
        3 => (0u8..16).prop_map(CofactorBit),
        4 => (0u8..32, any::<u8>()).prop_map(|(a, b)| PathBit(a, b)),
        2 => (0u8..32).prop_map(PathDrop),
        2 => (0u8..32, gen::b32()).prop_map(|(a, b)| PathInsert(a, b)),
        2 => (0u8..32, 0u8..32).prop_map(|(a, b)| PathSwap(a, b)),
        1 => Just(PathReverse),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C02Case {
    depth: u8,
    cofactor: u16,
    pid: B32,
    msg: B32,
    path: u64,
    muts: Vec<Mutation>,
}

pub fn c02(ctx: &mut Ctx) {
    ctx.group(
        "mutations",
        "the path is not empty and at least one datum is changed",
        16_000,
        || {
            (0u8..=31)
                .prop_flat_map(|depth| {
                    (
                        Just(depth),
                        gen::cofactor(depth),
                        gen::b32(),
                        gen::b32(),
                        any::<u64>(),
                        prop::collection::vec(mutation(), 1..=3),
                    )
                })
                .prop_map(|(depth, cofactor, pid, msg, path, muts)| C02Case { depth, cofactor, pid, msg, path, muts })
        },
        c02_check,
    );
    // All the positions of small trees, each of them against each proof
    ctx.enumerate(
        "all_positions",
        "depth at least 2",
        || {
            let mut v = vec![];
            for depth in 0u8..=5 {
                for cofactor in 0..model::width(depth).min(10) as u16 {
                    v.push((depth, cofactor));
                }
            }
            v
        },
        |(depth, cofactor), o| {
            o.nontrivial(*depth >= 2);
            let w = model::width(*depth);
            let f = model::factored(*depth, *cofactor);
            let mut spec = model::Tree {
                depth: *depth,
                cofactor: *cofactor,
                leaves: BTreeMap::new(),
                fill: Fill::Entropy(77),
            };
            for s in 0..f {
                spec.leaves.insert(s, (model::mk_pid(s, f, &model::sha(&[s as u8])), [s as u8; 32]));
            }
            let id = spec.commitment();
            for s in 0..f {
                let proof = ut::proof(&spec.proof(s))?;
                for (t, (p, m)) in &spec.leaves {
                    let got = proof.convolve(ut::pid(p), ut::msg(m)).ok().map(ut::h_cm);
                    ensure_eq!(got, (*t == s).then_some(id), "proof of slot {s} with the leaf of slot {t}");
                }
                for pos in 0..w + 2 {
                    let (p, m) = spec.leaves[&s];
                    let forged = ut::proof(&model::Proof { pos, ..spec.proof(s) })?;
                    let got = forged.convolve(ut::pid(&p), ut::msg(&m)).ok().map(ut::h_cm);
                    ensure_eq!(got, (pos == s).then_some(id), "proof of slot {s} moved to {pos}");
                    o.evals(1);
                }
            }
            Ok(())
        },
    );
}

fn c02_check(c: &C02Case, o: &mut Obs) -> R {
    let m = model::factored(c.depth, c.cofactor);
    let pos = model::mod_le(&c.pid.0, m);
    let path: Vec<H> = (0..c.depth).map(|i| {
        let mut v = c.path.to_le_bytes().to_vec();
        v.push(i);
        model::sha(&v)
    }).collect();
    let orig = model::Proof { pos, cofactor: c.cofactor, path };
    let (pid0, msg0) = (c.pid.0, c.msg.0);
    let id = orig.open(&pid0, &msg0).expect("own slot");
    let check = |p: &model::Proof, pid: &H, msg: &H| -> Result<Option<H>, String> {
        let real = ut::proof(p)?;
        let want = p.open(pid, msg);
        let got = real.convolve(ut::pid(pid), ut::msg(msg));
        let block = MerkleBlock::with(&real, ut::pid(pid), ut::msg(msg));
        match (want, got, block) {
            (Ok(w), Ok(g), Ok(b)) => {
                ensure_eq!(ut::h_cm(g), w, "opening of the proof");
                ensure_eq!(ut::h_cm(b.commit_id()), w, "id of the block of the proof");
                Ok(Some(w))
            }
            (Err(slot), Err(_), Err(_)) => {
                assert!(slot != p.pos);
                Ok(None)
            }
            (w, g, b) => Err(format!(
                "opening gives {:?}, block {:?}, expected {}",
                g.map_err(|e| e.to_string()),
                b.map(|_| ()).map_err(|e| e.to_string()),
                match w {
                    Ok(w) => model::hex(&w),
                    Err(s) => format!("rejection: the slot is {s}"),
                }
            )),
        }
    };
    ensure_eq!(check(&orig, &pid0, &msg0)?, Some(id), "valid proof");
    let (mut p, mut pid, mut msg) = (orig.clone(), pid0, msg0);
    for mu in &c.muts {
        let n = p.path.len();
        let at = |i: u8| i as usize % n.max(1);
        match mu {
            Mutation::Nothing => {}
            Mutation::MsgBit(b) => msg[*b as usize / 8] ^= 1 << (b % 8),
            Mutation::Msg(m) => msg = m.0,
            Mutation::PidBit(b) => pid[*b as usize / 8] ^= 1 << (b % 8),
            Mutation::PidSameSlot(b) => {
                let m = model::factored(p.depth(), p.cofactor);
                if p.pos < m {
                    pid = model::mk_pid(p.pos, m, &b.0);
                }
            }
            Mutation::Pos(x) => p.pos = *x,
            Mutation::PosBit(b) => p.pos ^= 1 << b,
            Mutation::PosAdd(k) => p.pos = p.pos.wrapping_add(model::factored(p.depth(), p.cofactor).wrapping_mul(*k)),
            Mutation::Cofactor(x) => p.cofactor = *x,
            Mutation::CofactorBit(b) => p.cofactor ^= 1 << b,
            Mutation::PathBit(i, b) if n > 0 => p.path[at(*i)][*b as usize / 8] ^= 1 << (b % 8),
            Mutation::PathDrop(i) if n > 0 => {
                p.path.remove(at(*i));
            }
            Mutation::PathInsert(i, h) if n < 31 => p.path.insert(*i as usize % (n + 1), h.0),
            Mutation::PathSwap(i, j) if n > 0 => p.path.swap(at(*i), at(*j)),
            Mutation::PathReverse => p.path.reverse(),
            _ => {}
        }
    }
    let same = p == orig && pid == pid0 && msg == msg0;
    let mut variants = vec![(p.clone(), pid, msg)];
    // and moved to the slot which the protocol has after the changes
    let slot = model::slot(&pid, p.depth(), p.cofactor);
    if slot != p.pos {
        variants.push((model::Proof { pos: slot, ..p.clone() }, pid, msg));
    }
    for (p, pid, msg) in variants {
        let same = p == orig && pid == pid0 && msg == msg0;
        let got = check(&p, &pid, &msg)?;
        if !same {
            ensure!(got != Some(id), "changed proof still opens the original commitment");
        }
        o.label_if(got.is_some(), "opens another commitment");
        o.label_if(got.is_none(), "rejected");
        o.evals(1);
    }
    o.nontrivial(!same && c.depth > 0);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Which {
    /// Revealed leaves by a mask.
    Mask(u64),
    /// Revealed leaves by numbers, in this order, possibly repeated.
    List(Vec<u8>),
    /// A protocol of the tree, revealed or not, and known ones by a mask.
    Any(u8, u64),
    /// A foreign protocol (before, after or between known ones).
    Foreign(B32, u64),
}

fn which() -> BoxedStrategy<Which> {
    prop_oneof![
        4 => gen::mask().prop_map(Which::Mask),
        2 => prop::collection::vec(any::<u8>(), 0..5).prop_map(Which::List),
        2 => (any::<u8>(), gen::mask()).prop_map(|(a, b)| Which::Any(a, b)),
        1 => (gen::b32(), gen::mask()).prop_map(|(a, b)| Which::Foreign(a, b)),
    ]
    .boxed()
}

impl Which {
    fn select(&self, t: &model::Tree, b: &model::Block) -> Vec<H> {
        let known: Vec<H> = known(b).iter().map(|x| x.0).collect();
        let by_mask = |m: u64| -> Vec<H> {
            known.iter().enumerate().filter(|(i, _)| m >> (i % 64) & 1 == 1).map(|(_, p)| *p).collect()
        };
        match self {
            Which::Mask(m) => by_mask(*m),
            Which::List(l) if known.is_empty() => l.iter().take(0).map(|_| [0; 32]).collect(),
            Which::List(l) => l.iter().map(|i| known[*i as usize % known.len()]).collect(),
            Which::Any(i, m) => {
                let mut v = by_mask(*m);
                let all: Vec<H> = t.leaves.values().map(|x| x.0).collect();
                v.insert(*i as usize % (v.len() + 1), all[*i as usize % all.len()]);
                v
            }
            Which::Foreign(p, m) => {
                let mut v = by_mask(*m);
                v.insert(p.0[0] as usize % (v.len() + 1), p.0);
                v
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C06Case {
    tree: TreeSpec,
    part: Part,
    steps: Vec<Which>,
}

pub fn c06(ctx: &mut Ctx) {
    let rule = "at least one concealment hides or merges nodes while something stays revealed, or is refused";
    ctx.group(
        "conceal",
        rule,
        14_000,
        || {
            (tree_for_blocks(10), part(), prop::collection::vec(which(), 1..4))
                .prop_map(|(tree, part, steps)| C06Case { tree, part, steps })
        },
        c06_check,
    );
    ctx.group(
        "wide",
        rule,
        160,
        || {
            (gen::small_tree(6..=10, 64), gen::mask(), prop::collection::vec(which(), 1..3)).prop_map(
                |(tree, keep, steps)| C06Case {
                    tree,
                    part: Part { keep, split: 8, seed: 0, entropy: Some(1) },
                    steps,
                },
            )
        },
        c06_check,
    );
    ctx.group(
        "hundreds",
        rule,
        160,
        || {
            (wide_tree(9..=12), gen::mask(), prop::collection::vec(which(), 1..3)).prop_map(|(tree, keep, steps)| C06Case {
                tree,
                part: Part { keep, split: 8, seed: 0, entropy: Some(1) },
                steps,
            })
        },
        c06_check,
    );
}

/// Trees with hundreds of messages.
pub fn wide_tree(depths: std::ops::RangeInclusive<u8>) -> BoxedStrategy<gen::TreeSpec> {
    (gen::small_tree(depths, 1), prop_oneof![1 => 254usize..=258, 1 => 100usize..600], any::<u64>())
        .prop_map(|(mut t, n, seed)| {
            let h = |k: u64, i: u64| {
                let mut h = [0u8; 32];
                for (j, w) in h.chunks_mut(8).enumerate() {
                    let x = (seed ^ k).wrapping_add(i * 4 + j as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                    w.copy_from_slice(&(x ^ x >> 29).wrapping_mul(0xBF58_476D_1CE4_E5B9).to_le_bytes());
                }
                model::B32(h)
            };
            let leaf = |i: u64| gen::LeafSpec { mode: (i % 3 == 1) as u8, arg: (h(1, i).0[8] as u32) << 8 | h(1, i).0[0] as u32, base: h(2, i), msg: h(3, i) };
            t.leaves.extend((0..n as u64).map(leaf));
            t
        })
        .boxed()
}

/// `conceal_except` against the model.
fn conceal_step(b: &mut MerkleBlock, m: &mut model::Block, keep: &[H], o: &mut Obs) -> R {
    let before = b.clone();
    let id = b.commit_id();
    let pids: Vec<_> = keep.iter().map(ut::pid).collect();
    let res = b.conceal_except(&pids);
    match m.conceal_except(keep) {
        Err(unknown) => {
            o.nontrivial(true);
            o.label("refused");
            let Err(e) = res else { return Err("concealment succeeds while a protocol is not known".into()) };
            let text = e.to_string();
            ensure!(
                unknown.iter().any(|p| text.contains(&model::hex(p))),
                "error names none of the unknown protocols: {text}"
            );
            ensure!(
                !keep.iter().any(|p| !unknown.contains(p) && text.contains(&model::hex(p))),
                "error names a known protocol: {text}"
            );
            ensure_eq!(*b, before, "block after a refused concealment");
        }
        Ok(count) => {
            let got = match res {
                Ok(n) => n,
                Err(e) => return Err(format!("concealment fails: {e}")),
            };
            o.nontrivial(count > 0 && !keep.is_empty());
            o.label_if(count > 0, "something concealed");
            same_block(b, m, "concealed block")?;
            ensure_eq!(b.entropy(), None, "entropy after the concealment");
            ensure_eq!(got, count, "number of concealed nodes");
            ensure_eq!(b.commit_id(), id, "commitment id after the concealment");
            if let [p] = pids[..] {
                let mut b2 = before.clone();
                b2.conceal_other(p).map_err(|e| format!("conceal_other fails: {e}"))?;
                ensure_eq!(b2, *b, "conceal_other result");
            }
            let mut again = b.clone();
            ensure_eq!(again.conceal_except(&pids).ok(), Some(0), "repeated concealment");
            ensure_eq!(again, *b, "repeated concealment");
        }
    }
    Ok(())
}

fn c06_check(c: &C06Case, o: &mut Obs) -> R {
    let t = c.tree.build();
    let mut m = c.part.of(&t);
    let mut b = ut::block(&m)?;
    o.label_if(t.depth > 16, "depth > 16");
    o.label_if(m.section.len() > 64, "over 64 nodes");
    ensure_eq!(ut::h_cm(b.commit_id()), t.commitment(), "commitment id of the block");
    for w in &c.steps {
        let keep = w.select(&t, &m);
        conceal_step(&mut b, &mut m, &keep, o)?;
        ensure_eq!(ut::h_cm(b.commit_id()), t.commitment(), "commitment id after the step");
        o.evals(1);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Merge(Part),
    MergeProof(u8),
    MergeSelf,
    Conceal(Which),
    /// A block of another tree: the commitment differs by the given change.
    Unrelated(u8, u32, Part),
    /// Proof at a wrong slot.
    WrongSlot(u8, u32),
    /// Valid slot, another message.
    WrongMessage(u8, u8),
}

fn step() -> BoxedStrategy<Step> {
    prop_oneof![
        6 => part().prop_map(Step::Merge),
        4 => any::<u8>().prop_map(Step::MergeProof),
        1 => Just(Step::MergeSelf),
        2 => which().prop_map(Step::Conceal),
        2 => (any::<u8>(), any::<u32>(), part()).prop_map(|(a, b, c)| Step::Unrelated(a, b, c)),
        1 => (any::<u8>(), any::<u32>()).prop_map(|(a, b)| Step::WrongSlot(a, b)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Step::WrongMessage(a, b)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C07Case {
    tree: TreeSpec,
    start: Part,
    steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C07Alg {
    tree: TreeSpec,
    parts: Vec<Part>,
}

pub fn c07(ctx: &mut Ctx) {
    ctx.group(
        "histories",
        "a merge reveals something new or a step is refused",
        4_000,
        || {
            (tree_for_blocks(10), part(), prop::collection::vec(step(), 1..7))
                .prop_map(|(tree, start, steps)| C07Case { tree, start, steps })
        },
        c07_check,
    );
    ctx.group(
        "algebra",
        "the blocks reveal different sets",
        2_500,
        || {
            (tree_for_blocks(10), prop::collection::vec(part(), 2..=4)).prop_map(|(tree, parts)| C07Alg { tree, parts })
        },
        c07_algebra,
    );
    ctx.group(
        "wide",
        "the blocks reveal different sets",
        48,
        || {
            (gen::small_tree(7..=9, 64), prop::collection::vec(part(), 2..=3)).prop_map(|(tree, parts)| C07Alg { tree, parts })
        },
        c07_algebra,
    );
    ctx.group(
        "hundreds",
        "the blocks reveal different sets",
        96,
        || (wide_tree(9..=11), prop::collection::vec(part(), 2..=2)).prop_map(|(tree, parts)| C07Alg { tree, parts }),
        c07_algebra,
    );
    // Proofs of a complete tree merged one by one restore all the messages
    ctx.group(
        "restore",
        "at least three messages",
        1_500,
        || (tree_for_blocks(12), gen::num64()),
        |(t, seed), o| {
            let t = t.build();
            o.nontrivial(t.leaves.len() >= 3);
            let mut order: Vec<u32> = t.leaves.keys().copied().collect();
            order.sort_by_key(|p| model::sha(&(*p as u64 ^ seed).to_le_bytes()));
            let open = |s: u32| -> Result<MerkleBlock, String> {
                let (p, m) = t.leaves[&s];
                MerkleBlock::with(&ut::proof(&t.proof(s))?, ut::pid(&p), ut::msg(&m)).map_err(|e| e.to_string())
            };
            let mut b = open(order[0])?;
            for s in &order[1..] {
                let (p, m) = t.leaves[s];
                b.merge_reveal_path(&ut::proof(&t.proof(*s))?, ut::pid(&p), ut::msg(&m))
                    .map_err(|e| format!("merge fails: {e}"))?;
            }
            same_block(&b, &t.block(&t.leaves.keys().copied().collect()), "restored block")
        },
    );
}

/// Changes the tree so that its commitment differs.
fn unrelated(t: &model::Tree, how: u8, arg: u32) -> Option<model::Tree> {
    let mut n = t.clone();
    let slot = *t.leaves.keys().nth(arg as usize % t.leaves.len())?;
    match how % 5 {
        0 => n.leaves.get_mut(&slot).unwrap().1[(arg >> 8) as usize % 32] ^= 1,
        1 => {
            let f = model::factored(t.depth, t.cofactor);
            let mut base = n.leaves[&slot].0;
            base[31] ^= 0x40;
            n.leaves.get_mut(&slot).unwrap().0 = model::mk_pid(slot, f, &base);
        }
        2 => {
            n.fill = match t.fill {
                Fill::Entropy(e) => Fill::Entropy(e ^ 1 << (arg % 64)),
                Fill::Opaque(e) => Fill::Opaque(e ^ 1 << (arg % 64)),
            }
        }
        3 => {
            // the same slots under another cofactor
            let c = t.cofactor ^ 1 << (arg % 16);
            if t.leaves.iter().any(|(s, (p, _))| model::slot(p, t.depth, c) != *s) {
                return None;
            }
            n.cofactor = c;
        }
        _ => {
            let d = if t.depth == 0 || (arg & 1 == 1 && t.depth < 31) { t.depth + 1 } else { t.depth - 1 };
            n.depth = d;
            if t.leaves.iter().any(|(s, (p, _))| model::slot(p, d, t.cofactor) != *s) {
                n.leaves = t
                    .leaves
                    .values()
                    .map(|(p, m)| (model::slot(p, d, t.cofactor), (*p, *m)))
                    .collect();
            }
        }
    }
    (n.commitment() != t.commitment()).then_some(n)
}

fn c07_check(c: &C07Case, o: &mut Obs) -> R {
    let t = c.tree.build();
    let mut m = c.start.of(&t);
    let mut b = ut::block(&m)?;
    let id = ut::h_cm(b.commit_id());
    ensure_eq!(id, t.commitment(), "commitment id of the block");
    let slots: Vec<u32> = t.leaves.keys().copied().collect();
    for (n, s) in c.steps.iter().enumerate() {
        let before = b.clone();
        let size = known(&m).len();
        let what = format!("step {n}");
        match s {
            Step::Merge(p) => {
                let other = p.of(&t);
                m.section = m.merge(&other);
                b.merge_reveal(ut::block(&other)?).map_err(|e| format!("{what}: merge fails: {e}"))?;
            }
            Step::MergeSelf => {
                b.merge_reveal(before.clone()).map_err(|e| format!("{what}: merge with itself fails: {e}"))?;
            }
            Step::MergeProof(i) => {
                let s = slots[*i as usize % slots.len()];
                let (p, msg) = t.leaves[&s];
                let other = t.block(&[s].into());
                m.section = m.merge(&other);
                b.merge_reveal_path(&ut::proof(&t.proof(s))?, ut::pid(&p), ut::msg(&msg))
                    .map_err(|e| format!("{what}: merge of a proof fails: {e}"))?;
            }
            Step::Conceal(w) => {
                let keep = w.select(&t, &m);
                conceal_step(&mut b, &mut m, &keep, o)?;
            }
            Step::Unrelated(how, arg, p) => {
                let Some(t2) = unrelated(&t, *how, *arg) else { continue };
                let other = p.of(&t2);
                let other_b = ut::block(&other)?;
                let base_root = b.commit_id();
                let merged_root = other_b.commit_id();
                ensure_eq!(ut::h_cm(merged_root), t2.commitment(), "id of the unrelated block");
                let res = b.merge_reveal(other_b);
                ensure_eq!(res, Err(MergeError::UnrelatedBlocks { base_root, merged_root }), "{what}: merge of an unrelated block");
                ensure_eq!(b, before, "{what}: block after a refused merge");
                o.nontrivial(true);
                o.label("unrelated block refused");
            }
            Step::WrongSlot(i, x) => {
                let s = slots[*i as usize % slots.len()];
                let (p, msg) = t.leaves[&s];
                let mut proof = t.proof(s);
                proof.pos ^= 1 << (x % 32);
                let res = b.merge_reveal_path(&ut::proof(&proof)?, ut::pid(&p), ut::msg(&msg));
                ensure!(matches!(res, Err(MergeError::InvalidProof(_))), "{what}: proof at a wrong slot gives {res:?}");
                let inner = MerkleBlock::with(&ut::proof(&proof)?, ut::pid(&p), ut::msg(&msg)).expect_err("wrong slot");
                ensure_eq!(res, Err(MergeError::InvalidProof(inner)), "{what}: error");
                ensure_eq!(b, before, "{what}: block after a refused merge");
                o.nontrivial(true);
                o.label("wrong slot refused");
            }
            Step::WrongMessage(i, x) => {
                let s = slots[*i as usize % slots.len()];
                let (p, mut msg) = t.leaves[&s];
                msg[*x as usize / 8] ^= 1 << (x % 8);
                let proof = ut::proof(&t.proof(s))?;
                let base_root = b.commit_id();
                let merged = t.proof(s).open(&p, &msg).expect("slot");
                let res = b.merge_reveal_path(&proof, ut::pid(&p), ut::msg(&msg));
                ensure_eq!(
                    res,
                    Err(MergeError::UnrelatedBlocks { base_root, merged_root: merged.into() }),
                    "{what}: merge of a proof with another message"
                );
                ensure_eq!(b, before, "{what}: block after a refused merge");
                o.nontrivial(true);
                o.label("wrong message refused");
            }
        }
        o.nontrivial(known(&m).len() > size);
        same_block(&b, &m, &what)?;
        ensure_eq!(ut::h_cm(b.commit_id()), id, "{what}: commitment id");
        o.evals(1);
    }
    Ok(())
}

fn c07_algebra(c: &C07Alg, o: &mut Obs) -> R {
    let t = c.tree.build();
    let ms: Vec<model::Block> = c.parts.iter().map(|p| model::Block { entropy: None, ..p.of(&t) }).collect();
    let bs = ms.iter().map(ut::block).collect::<Result<Vec<_>, _>>()?;
    o.nontrivial(ms.iter().any(|m| known(m) != known(&ms[0])));
    let merge = |a: &MerkleBlock, b: &MerkleBlock| -> Result<MerkleBlock, String> {
        let mut a = a.clone();
        a.merge_reveal(b.clone()).map_err(|e| format!("merge fails: {e}"))?;
        Ok(a)
    };
    let mut want = ms[0].clone();
    let mut fwd = bs[0].clone();
    for (b, m) in bs.iter().zip(&ms).skip(1) {
        want.section = want.merge(m);
        fwd = merge(&fwd, b)?;
    }
    same_block(&fwd, &want, "merge in order")?;
    let union: BTreeSet<(H, H)> = ms.iter().flat_map(known).collect();
    ensure_eq!(known(&want).into_iter().collect::<BTreeSet<_>>(), union, "union of the revealed");
    let mut bwd = bs.last().unwrap().clone();
    for b in bs.iter().rev().skip(1) {
        bwd = merge(&bwd, b)?;
    }
    ensure_eq!(bwd, fwd, "merge in the reverse order");
    // right-associated
    let mut right = bs.last().unwrap().clone();
    for b in bs.iter().rev().skip(1) {
        right = merge(b, &right)?;
    }
    ensure_eq!(right, fwd, "right-associated merge");
    for b in &bs {
        ensure_eq!(merge(&fwd, b)?, fwd, "merge of the known");
        ensure_eq!(merge(b, &fwd)?, fwd, "merge of everything into a part");
        ensure_eq!(merge(b, b)?, *b, "merge with itself");
        o.evals(3);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C08Case {
    tree: TreeSpec,
    part: Part,
    foreign: B32,
}

pub fn c08(ctx: &mut Ctx) {
    ctx.group(
        "convert",
        "the tree has at least two slots and some leaf is revealed",
        6_000,
        || {
            (tree_for_blocks(8), part(), gen::b32()).prop_map(|(tree, part, foreign)| C08Case { tree, part, foreign })
        },
        c08_check,
    );
    ctx.group(
        "complete_trees",
        "the tree has at least two slots",
        600,
        || prop_oneof![30 => gen::small_tree(0..=7, 20), 1 => wide_tree(9..=10)],
        |t, o| {
            let t = t.build();
            o.nontrivial(t.depth > 0);
            o.label_if(t.leaves.len() > 255, "more than 255 messages");
            let tree = ut::tree(&t)?;
            let a: BTreeMap<_, _> = tree.clone().into_proofs().collect();
            let b: BTreeMap<_, _> = MerkleBlock::from(&tree).into_known_proofs().collect();
            ensure_eq!(a, b, "proofs of the tree and of its block");
            ensure_eq!(a.len(), t.leaves.len(), "number of proofs");
            for (s, (p, _)) in &t.leaves {
                ensure_eq!(a.get(&ut::pid(p)).map(ut::view_proof), Some(t.proof(*s)), "proof at slot {s}");
            }
            Ok(())
        },
    );
}

fn c08_check(c: &C08Case, o: &mut Obs) -> R {
    let t = c.tree.build();
    let m = c.part.of(&t);
    let b = ut::block(&m)?;
    let shown: BTreeSet<H> = known(&m).iter().map(|x| x.0).collect();
    o.nontrivial(t.depth > 0 && !shown.is_empty());
    o.label_if(t.depth > 16, "depth > 16");
    for (s, (p, msg)) in &t.leaves {
        let (pid, want) = (ut::pid(p), t.proof(*s));
        // proof -> block -> proof
        let proof = ut::proof(&want)?;
        ensure_eq!(enc(&proof), want.encode(), "encoding of the proof");
        let alone = MerkleBlock::with(&proof, pid, ut::msg(msg)).map_err(|e| format!("valid proof is refused: {e}"))?;
        same_block(&alone, &t.block(&[*s].into()), "block of a proof")?;
        ensure_eq!(alone.entropy(), None, "entropy of the block of a proof");
        ensure_eq!(ut::h_cm(alone.commit_id()), t.commitment(), "id of the block of a proof");
        ensure_eq!((alone.depth(), alone.cofactor(), alone.method()), (proof.depth(), proof.cofactor(), proof.method()), "parameters");
        ensure_eq!(alone.to_merkle_proof(pid).as_ref(), Ok(&proof), "proof -> block -> proof");
        ensure_eq!(alone.into_merkle_proof(pid).as_ref(), Ok(&proof), "proof -> block -> proof");
        // block -> proof
        let res = b.to_merkle_proof(pid);
        if shown.contains(p) {
            ensure_eq!(res.as_ref(), Ok(&proof), "proof of a revealed protocol");
            ensure_eq!(b.clone().into_merkle_proof(pid).as_ref(), Ok(&proof), "proof of a revealed protocol");
        } else {
            match res {
                Ok(_) => return Err("proof of a protocol which is not revealed".into()),
                Err(e) => ensure!(e.to_string().contains(&model::hex(p)), "error doesn't name the protocol: {e}"),
            }
        }
        o.evals(2);
    }
    if !shown.contains(&c.foreign.0) {
        ensure!(b.to_merkle_proof(ut::pid(&c.foreign.0)).is_err(), "proof of a foreign protocol");
        ensure!(b.clone().into_merkle_proof(ut::pid(&c.foreign.0)).is_err(), "proof of a foreign protocol");
    }
    let all: Vec<_> = b.clone().into_known_proofs().collect();
    ensure_eq!(all.len(), shown.len(), "number of proofs");
    for (pid, proof) in all {
        let p = ut::h_pid(pid);
        ensure!(shown.contains(&p), "proof of a hidden protocol {pid}");
        let s = model::slot(&p, t.depth, t.cofactor);
        ensure_eq!(ut::view_proof(&proof), t.proof(s), "proof in the list");
    }
    ensure_eq!(ut::view(&b)?, m, "block after the conversions");
    Ok(())
}

// ------------------------------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C09Case {
    tree: TreeSpec,
    other: TreeSpec,
    keep: u64,
    entropy: u64,
}

pub fn c09(ctx: &mut Ctx) {
    ctx.group(
        "hidden",
        "something is hidden and something is revealed",
        5_000,
        || {
            prop_oneof![1 => Just(0u8), 8 => 1u8..=6]
                .prop_flat_map(|d| {
                    // Unrelated values only: the ids of leaves with smaller arguments are their messages
                    let leaf = (3u32 << 27..=u32::MAX, gen::uni32(), gen::uni32())
                        .prop_map(|(arg, base, msg)| gen::LeafSpec { mode: 0, arg, base, msg });
                    (
                        (Just(d), prop_oneof![4 => Just(0u16), 4 => 0..=(1u16 << d) / 2, 1 => gen::cofactor(d)], any::<u64>(), prop::collection::vec(leaf.clone(), 1..10)),
                        prop::collection::vec(leaf, 0..10),
                        prop_oneof![3 => any::<u64>(), 1 => gen::mask()],
                        (any::<u8>(), any::<u64>()),
                    )
                })
                .prop_map(|((depth, cofactor, fill, leaves), others, keep, (how, arg))| {
                    let entropy = gen::other_entropy(fill, how, arg);
                    C09Case {
                    tree: TreeSpec { depth, cofactor, opaque: false, fill, leaves },
                    other: TreeSpec { depth, cofactor, opaque: false, fill: entropy, leaves: others },
                    keep,
                    entropy,
                }})
        },
        c09_check,
    );
    // Larger trees: hidden leaves are many, so only the placeholders are looked at.
    ctx.group(
        "placeholders",
        "the tree has more than 256 leaves",
        60,
        || {
            (prop_oneof![2 => 0u8..=8, 6 => 9u8..=12, 3 => 13u8..=15, 1 => 16u8..=17], prop_oneof![2 => any::<u64>(), 1 => (0u32..64).prop_map(|n| 1 << n)], any::<u8>(), any::<u64>(), any::<u8>())
        },
        |(depth, entropy, how, arg, n): &(u8, u64, u8, u64, u8), o| {
            let other = gen::other_entropy(*entropy, *how, *arg);
            o.nontrivial(*depth > 8);
            let set = |entropy: u64| -> Result<(BTreeSet<H>, usize), String> {
                let t = MerkleTree::try_commit(&commit_verify::mpc::MultiSource {
                    method: Method::Sha256t,
                    min_depth: u5::with(*depth),
                    messages: Confined::try_from_iter((0..*n as u64 % 8 + 1).map(|i| {
                        let h = model::tagged(model::TAG_STRICT, &i.to_le_bytes());
                        (ut::pid(&h), ut::msg(&h))
                    }))
                    .expect("few messages"),
                    static_entropy: Some(entropy),
                })
                .map_err(|e| e.to_string())?;
                let v = ut::view(&MerkleBlock::from(&t))?;
                let hidden: Vec<H> = v.section.iter().filter_map(|n| match n { Node::Hidden { hash, .. } => Some(*hash), _ => None }).collect();
                Ok((hidden.iter().copied().collect(), hidden.len()))
            };
            let (a, n) = set(*entropy)?;
            ensure_eq!(a.len(), n, "number of different placeholders");
            if other != *entropy {
                let (b, _) = set(other)?;
                let shared = a.intersection(&b).count();
                ensure!(shared == 0, "{shared} of {} placeholders do not depend on the entropy ({entropy:#x} and {other:#x})", a.len());
            }
            o.evals(n);
            Ok(())
        },
    );
}

fn contains(hay: &[u8], needle: &[u8]) -> bool { hay.windows(needle.len()).any(|w| w == needle) }

/// All the serialised forms of an object.
fn forms<T: strict_encoding::StrictEncode + Serialize>(v: &T) -> Vec<(&'static str, Vec<u8>)> {
    let mut cbor = vec![];
    ciborium::into_writer(v, &mut cbor).expect("cbor");
    vec![
        ("strict", enc(v)),
        ("json", serde_json::to_vec(v).expect("json")),
        ("cbor", cbor),
        ("bincode", bincode::serialize(v).expect("bincode")),
    ]
}

fn discloses(forms: &[(&'static str, Vec<u8>)], secret: &[u8]) -> Option<&'static str> {
    let mut rev = secret.to_vec();
    rev.reverse();
    let hex = model::hex(secret);
    let dec = (secret.len() == 8).then(|| u64::from_le_bytes(secret.try_into().unwrap()).to_string());
    forms
        .iter()
        .find(|(_, f)| {
            contains(f, secret) ||
                contains(f, &rev) ||
                contains(f, hex.as_bytes()) ||
                contains(f, hex.to_uppercase().as_bytes()) ||
                dec.as_ref().is_some_and(|d| contains(f, d.as_bytes()))
        })
        .map(|(n, _)| *n)
}

fn c09_check(c: &C09Case, o: &mut Obs) -> R {
    let t = c.tree.build();
    let keep = gen::subset(&t, c.keep);
    let hidden: Vec<(H, H)> = t.leaves.iter().filter(|(s, _)| !keep.contains(s)).map(|(_, x)| *x).collect();
    o.nontrivial(!hidden.is_empty() && !keep.is_empty());
    // too small numbers occur by accident
    let entropy = (c.tree.fill >> 32 != 0).then_some(c.tree.fill.to_le_bytes());
    let tree = ut::tree(&t)?;
    let pids: Vec<_> = keep.iter().map(|s| ut::pid(&t.leaves[s].0)).collect();
    let mut b = MerkleBlock::from(&tree);
    b.conceal_except(&pids).map_err(|e| e.to_string())?;
    ensure_eq!(b.entropy(), None, "entropy of a concealed block");
    let check = |forms: Vec<(&'static str, Vec<u8>)>, secrets: &[(H, H)], what: &str| -> R {
        for (p, m) in secrets {
            if let Some(f) = discloses(&forms, p) {
                return Err(format!("{f} form of the {what} contains a hidden protocol id"));
            }
            if let Some(f) = discloses(&forms, m) {
                return Err(format!("{f} form of the {what} contains a hidden message"));
            }
        }
        if let Some(e) = &entropy {
            if let Some(f) = discloses(&forms, e) {
                return Err(format!("{f} form of the {what} contains the entropy"));
            }
        }
        Ok(())
    };
    check(forms(&b), &hidden, "partial block")?;
    let all: Vec<(H, H)> = t.leaves.values().copied().collect();
    check(forms(&tree.conceal()), &all, "concealed tree")?;
    check(forms(&b.conceal()), &all, "concealed block")?;
    for p in &pids {
        let proof = b.to_merkle_proof(*p).map_err(|e| e.to_string())?;
        // proofs do not contain even their own message
        check(forms(&proof), &all, "proof")?;
        let alone = MerkleBlock::from(&tree).into_merkle_proof(*p).map_err(|e| e.to_string())?;
        ensure_eq!(alone, proof, "proof of the complete block");
        let mut one = b.clone();
        one.conceal_other(*p).map_err(|e| e.to_string())?;
        let others: Vec<_> = all.iter().filter(|x| ut::pid(&x.0) != *p).copied().collect();
        check(forms(&one), &others, "block with a single message")?;
        o.evals(4);
    }
    // Another tree with the same kept leaves and different hidden contents has partial blocks of
    // the same shape; the placeholders are different.
    let mut n = c.other.build();
    let taken: BTreeSet<H> = keep.iter().map(|s| t.leaves[s].0).collect();
    n.leaves.retain(|s, x| !keep.contains(s) && !taken.contains(&x.0));
    for s in &keep {
        n.leaves.insert(*s, t.leaves[s]);
    }
    n.fill = Fill::Entropy(c.entropy);
    let tree2 = ut::tree(&n)?;
    let mut b2 = MerkleBlock::from(&tree2);
    b2.conceal_except(&pids).map_err(|e| e.to_string())?;
    let blank = |b: &MerkleBlock| -> Result<Vec<Node>, String> {
        Ok(ut::view(b)?
            .section
            .into_iter()
            .map(|n| match n {
                Node::Hidden { depth, .. } => Node::Hidden { depth, hash: [0; 32] },
                n => n,
            })
            .collect())
    };
    ensure_eq!(blank(&b)?, blank(&b2)?, "shape of partial blocks with the same kept leaves");
    if c.entropy != c.tree.fill {
        let hs = |m: &model::Tree, t: &MerkleTree| -> Result<BTreeSet<H>, String> {
            let v = ut::view(&MerkleBlock::from(t))?;
            Ok(v.section
                .iter()
                .enumerate()
                .filter(|(i, _)| !m.leaves.contains_key(&(*i as u32)))
                .filter_map(|(_, n)| match n {
                    Node::Hidden { hash, .. } => Some(*hash),
                    _ => None,
                })
                .collect())
        };
        let (x, y) = (hs(&t, &tree)?, hs(&n, &tree2)?);
        ensure_eq!(x.len(), model::width(t.depth) as usize - t.leaves.len(), "number of different placeholders");
        ensure!(x.is_disjoint(&y), "trees with different entropy share a placeholder");
        o.label_if(!x.is_empty(), "has placeholders");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C31

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C31Case {
    tree: TreeSpec,
    parts: Vec<Part>,
    how: u8,
    arg: u32,
}

pub fn c31(ctx: &mut Ctx) {
    ctx.group(
        "matching",
        "at least two different disclosures of the same commitment and one of another commitment",
        4_000,
        || {
            (
                prop_oneof![3 => gen::small_tree(0..=5, 8), 1 => gen::deep_tree(0..=31, 8)],
                prop::collection::vec(part(), 2..4),
                any::<u8>(),
                any::<u32>(),
            )
                .prop_map(|(tree, parts, how, arg)| C31Case { tree, parts, how, arg })
        },
        c31_check,
    );
}

fn c31_check(c: &C31Case, o: &mut Obs) -> R {
    let t = c.tree.build();
    let trees: Vec<model::Tree> = [Some(t.clone()), unrelated(&t, c.how, c.arg)].into_iter().flatten().collect();
    let mut blocks = vec![];
    for x in &trees {
        for p in &c.parts {
            blocks.push((x.commitment(), ut::block(&p.of(x))?));
        }
        if x.depth <= 6 && !c.tree.opaque {
            blocks.push((x.commitment(), MerkleBlock::from(ut::tree(x)?)));
        }
    }
    o.nontrivial(trees.len() == 2 && blocks[0].1 != blocks[1].1);
    for (i, (ca, a)) in blocks.iter().enumerate() {
        for (j, (cb, b)) in blocks.iter().enumerate() {
            ensure_eq!(a.matches(b), ca == cb, "matching of disclosures {i} and {j}");
            o.evals(1);
        }
    }
    if !c.tree.opaque {
        let full = trees.iter().filter(|x| x.depth <= 7).map(|x| Ok((x.commitment(), ut::tree(x)?))).collect::<Result<Vec<_>, String>>()?;
        for (ca, a) in &full {
            for (cb, b) in &full {
                ensure_eq!(a.matches(b), ca == cb, "matching of trees");
            }
        }
    }
    // Proofs
    let mut proofs = vec![];
    for x in &trees {
        for (s, (p, m)) in x.leaves.iter().take(6) {
            let proof = x.proof(*s);
            assert_eq!(proof.open(p, m), Ok(x.commitment()));
            proofs.push((x.commitment(), ut::proof(&proof)?, proof));
        }
    }
    for (ca, a, ma) in &proofs {
        for (cb, b, mb) in &proofs {
            let got = a.matches(b);
            ensure_eq!(b.matches(a), got, "symmetry of proof matching");
            if ma == mb {
                ensure!(got, "proof does not match itself");
            }
            let truth = ca == cb;
            if got != truth {
                // Known: only the cofactor and the first path element are compared
                let rule = ma.cofactor == mb.cofactor && ma.path.first() == mb.path.first();
                if got == rule && o.known("proof-matches-first-path-element") {
                    continue;
                }
                return Err(format!(
                    "proofs of {} are reported as {}: slots {} and {}, depths {} and {}",
                    if truth { "one commitment" } else { "different commitments" },
                    if got { "matching" } else { "not matching" },
                    ma.pos,
                    mb.pos,
                    ma.depth(),
                    mb.depth()
                ));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------ C23

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Forge {
    /// Bit flip at the fraction of the length.
    Bit(u32, u8),
    Byte(u32, u8),
    Insert(u32, Vec<u8>),
    Remove(u32, u8),
    Truncate(u32),
    /// Field-aware changes of a block.
    Depth(u8),
    Cofactor(u16),
    NodeDepth(u8, u8),
    NodeDrop(u8),
    NodeDup(u8),
    NodeSwap(u8, u8),
    NodeIntoLeaf(u8, B32, B32),
    LeafIntoNode(u8, u8),
    LeafMoved(u8, B32),
    Entropy(Option<u64>),
    Split(u8, B32, B32),
}

fn forge() -> BoxedStrategy<Forge> {
    use Forge::*;
    prop_oneof![
        3 => (any::<u32>(), 0u8..8).prop_map(|(a, b)| Bit(a, b)),
        2 => (0u32..12, any::<u8>()).prop_map(|(a, b)| Byte(a, b)),
        1 => (any::<u32>(), prop::collection::vec(any::<u8>(), 1..4)).prop_map(|(a, b)| Insert(a, b)),
        1 => (any::<u32>(), 1u8..40).prop_map(|(a, b)| Remove(a, b)),
        1 => any::<u32>().prop_map(Truncate),
        2 => (0u8..40).prop_map(Depth),
        3 => prop_oneof![any::<u16>(), 0u16..40].prop_map(Cofactor),
        3 => (any::<u8>(), 0u8..34).prop_map(|(a, b)| NodeDepth(a, b)),
        2 => any::<u8>().prop_map(NodeDrop),
        2 => any::<u8>().prop_map(NodeDup),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| NodeSwap(a, b)),
        3 => (any::<u8>(), gen::b32(), gen::b32()).prop_map(|(a, b, c)| NodeIntoLeaf(a, b, c)),
        2 => (any::<u8>(), 0u8..32).prop_map(|(a, b)| LeafIntoNode(a, b)),
        3 => (any::<u8>(), gen::b32()).prop_map(|(a, b)| LeafMoved(a, b)),
        1 => any::<Option<u64>>().prop_map(Entropy),
        2 => (any::<u8>(), gen::b32(), gen::b32()).prop_map(|(a, b, c)| Split(a, b, c)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C23Block {
    tree: TreeSpec,
    part: Part,
    forge: Vec<Forge>,
    json: bool,
    merge: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C23Proof {
    pos: u32,
    cofactor: u16,
    path: u8,
    seed: u64,
    pid: B32,
    msg: B32,
    own_slot: bool,
    forge: Vec<Forge>,
    json: bool,
}

pub fn c23(ctx: &mut Ctx) {
    ctx.group(
        "forged_blocks",
        "the forged data are decoded, or are rejected after a structural change",
        14_000,
        || {
            (
                prop_oneof![3 => gen::small_tree(0..=4, 8), 2 => gen::deep_tree(0..=31, 5)],
                part(),
                prop::collection::vec(forge(), 0..4),
                any::<bool>(),
                gen::mask(),
            )
                .prop_map(|(tree, part, forge, json, merge)| C23Block { tree, part, forge, json, merge })
        },
        c23_block,
    );
    ctx.group(
        "arbitrary_blocks",
        "the block is decoded",
        10_000,
        || {
            // arbitrary sections, most of them of the right total width
            let node = prop_oneof![
                3 => (0u8..=33, gen::b32()).prop_map(|(d, h)| (d, h, None)),
                1 => (gen::b32(), gen::b32()).prop_map(|(p, m)| (0, p, Some(m))),
            ];
            (0u8..=6, gen::cofactor(3), prop::collection::vec(node, 1..9), any::<Option<u64>>(), any::<bool>(), any::<bool>())
        },
        |(depth, cofactor, nodes, entropy, tile, json), o| {
            let mut section: Vec<Node> = vec![];
            let mut pos = 0u64;
            let w = 1u64 << depth;
            for (d, h, m) in nodes {
                let n = match m {
                    Some(m) => Node::Leaf {
                        pid: if *tile && pos < model::factored(*depth, *cofactor) as u64 {
                            model::mk_pid(pos as u32, model::factored(*depth, *cofactor), &h.0)
                        } else {
                            h.0
                        },
                        msg: m.0,
                    },
                    None => Node::Hidden { depth: if *tile { d % (depth + 1) } else { *d }, hash: h.0 },
                };
                pos += 1u64 << (depth.saturating_sub(n.depth_or(*depth)));
                section.push(n);
            }
            if *tile {
                // complete the section
                while pos < w {
                    let mut d = *depth;
                    while d > 0 && pos % (1u64 << (depth - d + 1)) == 0 {
                        d -= 1;
                    }
                    section.push(Node::Hidden { depth: d, hash: [d; 32] });
                    pos += 1u64 << (depth - d);
                }
            }
            let m = model::Block { depth: *depth, cofactor: *cofactor, section, entropy: *entropy };
            judge_block(&m, &[], *json, 0x55, o)
        },
    );
    ctx.group(
        "proofs",
        "the path is not empty",
        8_000,
        || {
            (
                (prop_oneof![any::<u32>(), 0u32..8], prop_oneof![any::<u16>(), 0u16..40], 0u8..=34, any::<u64>()),
                gen::b32(),
                gen::b32(),
                any::<bool>(),
                prop::collection::vec(forge(), 0..3),
                any::<bool>(),
            )
                .prop_map(|((pos, cofactor, path, seed), pid, msg, own_slot, forge, json)| C23Proof {
                    pos, cofactor, path, seed, pid, msg, own_slot, forge, json,
                })
        },
        c23_proof,
    );
    ctx.group(
        "raw_bytes",
        "some object is decoded",
        20_000,
        || {
            (
                prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => 0u8..4, 1 => any::<u8>()], 0..220),
                0u8..4,
            )
        },
        |(bytes, _), o| {
            if let Ok(b) = ut::dec::<MerkleBlock>(bytes) {
                o.nontrivial(true);
                exercise_block(&b, 0x55)?;
            }
            if let Ok(p) = ut::dec::<MerkleProof>(bytes) {
                o.nontrivial(true);
                exercise_proof(&p, &[1; 32], &[2; 32])?;
            }
            if let Ok(c) = ut::dec::<MerkleConcealed>(bytes) {
                o.nontrivial(true);
                let _ = (c.commit_id(), c.conceal(), format!("{c:?}"));
            }
            let _ = bincode::deserialize::<MerkleProof>(bytes);
            let _ = bincode::deserialize::<MerkleConcealed>(bytes);
            Ok(())
        },
    );
    // Declared lengths which are much larger than the data
    ctx.enumerate(
        "hostile_lengths",
        "always",
        || {
            let mut v = vec![];
            for n in [1u32, 2, 255, 256, 65535, 65536, 0xFF_FFFF, 0x100_0000, 0x7FFF_FFFF, 0xFFFF_FFFF] {
                for tail in [0usize, 1, 33, 34, 65, 66, 200] {
                    v.push((n, tail));
                }
            }
            v
        },
        |(n, tail), o| {
            o.nontrivial(true);
            let mut bytes = vec![0u8, 3, 0, 0];
            bytes.extend(n.to_le_bytes());
            bytes.extend(vec![0u8; *tail]);
            if let Ok(b) = ut::dec::<MerkleBlock>(&bytes) {
                exercise_block(&b, 1)?;
            }
            let mut bytes = vec![0u8, 0, 0, 0, 0, 0, 0, *n as u8];
            bytes.extend(vec![0u8; *tail]);
            if let Ok(p) = ut::dec::<MerkleProof>(&bytes) {
                exercise_proof(&p, &[1; 32], &[2; 32])?;
            }
            Ok(())
        },
    );
}

fn nth(len: usize, i: u8) -> usize { i as usize % len.max(1) }

fn apply(m: &mut model::Block, f: &Forge) {
    let n = m.section.len();
    if n == 0 {
        return;
    }
    match f {
        Forge::Depth(d) => m.depth = *d,
        Forge::Cofactor(c) => m.cofactor = *c,
        Forge::NodeDepth(i, d) => {
            if let Node::Hidden { depth, .. } = &mut m.section[nth(n, *i)] {
                *depth = *d
            }
        }
        Forge::NodeDrop(i) => {
            m.section.remove(nth(n, *i));
        }
        Forge::NodeDup(i) => {
            let x = m.section[nth(n, *i)];
            m.section.insert(nth(n, *i), x);
        }
        Forge::NodeSwap(i, j) => m.section.swap(nth(n, *i), nth(n, *j)),
        Forge::NodeIntoLeaf(i, p, msg) => m.section[nth(n, *i)] = Node::Leaf { pid: p.0, msg: msg.0 },
        Forge::LeafIntoNode(i, d) => m.section[nth(n, *i)] = Node::Hidden { depth: *d, hash: [7; 32] },
        Forge::LeafMoved(i, p) => {
            if let Some(Node::Leaf { pid, .. }) = m.section.iter_mut().filter(|n| matches!(n, Node::Leaf { .. })).nth(nth(2, *i)) {
                *pid = p.0
            }
        }
        Forge::Entropy(e) => m.entropy = *e,
        Forge::Split(i, a, b) => {
            let i = nth(n, *i);
            if let Node::Hidden { depth, .. } = m.section[i] {
                if depth < m.depth {
                    m.section[i] = Node::Hidden { depth: depth + 1, hash: a.0 };
                    m.section.insert(i, Node::Hidden { depth: depth + 1, hash: b.0 });
                }
            }
        }
        _ => {}
    }
}

fn apply_bytes(v: &mut Vec<u8>, f: &Forge) {
    let at = |i: u32, n: usize| i as usize % n.max(1);
    let n = v.len();
    match f {
        Forge::Bit(i, b) if n > 0 => v[at(*i, n)] ^= 1 << b,
        Forge::Byte(i, b) if n > 0 => v[at(*i, n)] = *b,
        Forge::Insert(i, x) => {
            let p = at(*i, n + 1);
            v.splice(p..p, x.iter().copied());
        }
        Forge::Remove(i, x) if n > 0 => {
            let p = at(*i, n);
            let e = (p + *x as usize).min(n);
            v.drain(p..e);
        }
        Forge::Truncate(i) => v.truncate(at(*i, n + 1)),
        _ => {}
    }
}

fn block_json(m: &model::Block) -> serde_json::Value {
    serde_json::json!({
        "method": "sha256t",
        "depth": m.depth,
        "cofactor": m.cofactor,
        "cross_section": m.section.iter().map(|n| match n {
            Node::Hidden { depth, hash } => serde_json::json!({"ConcealedNode": {"depth": depth, "hash": model::hex(hash)}}),
            Node::Leaf { pid, msg } => serde_json::json!({"CommitmentLeaf": {"protocol_id": model::hex(pid), "message": model::hex(msg)}}),
        }).collect::<Vec<_>>(),
        "entropy": m.entropy,
    })
}

fn c23_block(c: &C23Block, o: &mut Obs) -> R {
    let t = c.tree.build();
    let mut m = c.part.of(&t);
    for f in &c.forge {
        apply(&mut m, f);
    }
    judge_block(&m, &c.forge, c.json, c.merge, o)
}

fn judge_block(m: &model::Block, forge: &[Forge], json: bool, mask: u64, o: &mut Obs) -> R {
    let good = m.well_formed();
    let decoded = if json {
        serde_json::from_str::<MerkleBlock>(&block_json(m).to_string()).map_err(|e| e.to_string())
    } else {
        let mut bytes = m.encode();
        let plain = bytes.clone();
        for f in forge {
            apply_bytes(&mut bytes, f);
        }
        let r = ut::dec::<MerkleBlock>(&bytes);
        if bytes != plain {
            if let Ok(b) = &r {
                o.nontrivial(true);
                o.label("corrupted bytes decoded");
                return exercise_block(b, mask);
            }
            o.nontrivial(!forge.is_empty());
            o.label("corrupted bytes rejected");
            return Ok(());
        }
        r
    };
    match decoded {
        Ok(b) => {
            o.nontrivial(true);
            o.label("decoded");
            exercise_block(&b, mask)
        }
        Err(e) => {
            o.nontrivial(!forge.is_empty());
            o.label("rejected");
            ensure!(!good, "well-formed block is rejected: {e}");
            Ok(())
        }
    }
}

/// Every operation on the block returns normally, and the revealed messages are committed to.
pub fn exercise_block(b: &MerkleBlock, mask: u64) -> R {
    let run = |what: &str, f: &mut dyn FnMut() -> R| -> R {
        match guard(|| f()) {
            Ok(r) => r.map_err(|e| format!("{what}: {e}")),
            Err(p) => Err(format!("{what} on a decoded block ends with a {p}")),
        }
    };
    let v = ut::view(b)?;
    let mut id = [0; 32];
    run("commit_id", &mut || {
        id = ut::h_cm(b.commit_id());
        Ok(())
    })?;
    run("readers", &mut || {
        let _ = (b.method(), b.depth(), b.cofactor(), b.entropy(), b.width_limit(), b.factored_width());
        let _ = (format!("{b:?}"), b.clone() == *b, b.protocol_id_pos([9; 32].into()), b.conceal().commit_id());
        let _ = forms(b);
        ensure!(b.matches(b), "block does not match itself");
        Ok(())
    })?;
    let mut shown: Vec<(H, H)> = vec![];
    run("to_known_message_map", &mut || {
        shown = b.to_known_message_map().iter().map(|(p, m)| (ut::h_pid(*p), ut::h_msg(*m))).collect();
        Ok(())
    })?;
    // The messages really are what the commitment id commits to, at the slots of their protocols
    let Some(leaves) = v.tiling() else {
        return Err("a block is decoded, the cross-section of which is not a section of the tree".into());
    };
    ensure_eq!(v.commitment(), Some(id), "commitment id");
    let mut ids: Vec<H> = vec![];
    run("known_protocol_ids", &mut || {
        ids = b.known_protocol_ids().map(ut::h_pid).collect();
        Ok(())
    })?;
    ensure_eq!(ids.len(), leaves.len(), "number of the revealed protocols");
    for (p, m) in &shown {
        let s = model::slot(p, v.depth, v.cofactor);
        ensure!(leaves.contains(&(s, *p, *m)), "message {} of {} is shown, which is not at the slot {s}", model::hex(m), model::hex(p));
    }
    for p in ids.iter().take(8) {
        let m = shown.iter().find(|x| x.0 == *p).map(|x| x.1).ok_or("protocol without a message")?;
        run("to_merkle_proof and convolve", &mut || {
            let proof = b.to_merkle_proof(ut::pid(p)).map_err(|e| e.to_string())?;
            let got = proof.convolve(ut::pid(p), ut::msg(&m)).map_err(|e| e.to_string())?;
            ensure_eq!(ut::h_cm(got), id, "opening of the proof from the block");
            Ok(())
        })?;
    }
    let keep: Vec<_> = ids.iter().enumerate().filter(|(i, _)| mask >> (i % 64) & 1 == 1).map(|(_, p)| ut::pid(p)).collect();
    let mut part = b.clone();
    run("conceal_except", &mut || part.conceal_except(&keep).map(|_| ()).map_err(|e| e.to_string()))?;
    ensure_eq!(ut::h_cm(part.commit_id()), id, "id after the concealment");
    run("conceal_other", &mut || {
        let _ = b.clone().conceal_other([0xA5; 32].into());
        Ok(())
    })?;
    run("merge_reveal", &mut || {
        let mut x = b.clone();
        x.merge_reveal(part.clone()).map_err(|e| e.to_string())?;
        ensure_eq!(ut::h_cm(x.commit_id()), id, "id after the merge");
        let mut y = part.clone();
        y.merge_reveal(b.clone()).map_err(|e| e.to_string())?;
        ensure_eq!(y.known_protocol_ids().count(), ids.len(), "revealed after the merge");
        Ok(())
    })?;
    run("merge_reveal with an unrelated block", &mut || {
        let other = ut::block(&model::Block {
            depth: v.depth,
            cofactor: v.cofactor,
            section: vec![Node::Hidden { depth: 0, hash: [0xEE; 32] }],
            entropy: None,
        })?;
        let mut x = b.clone();
        let _ = x.merge_reveal(other.clone());
        let mut y = other;
        let _ = y.merge_reveal(b.clone());
        Ok(())
    })?;
    run("into_known_proofs", &mut || {
        ensure_eq!(b.clone().into_known_proofs().count(), ids.len(), "number of proofs");
        Ok(())
    })?;
    Ok(())
}

fn exercise_proof(p: &MerkleProof, pid: &H, msg: &H) -> R {
    let run = |what: &str, f: &mut dyn FnMut() -> R| -> R {
        match guard(|| f()) {
            Ok(r) => r.map_err(|e| format!("{what}: {e}")),
            Err(x) => Err(format!("{what} on a decoded proof ends with a {x}")),
        }
    };
    let v = model::Proof {
        pos: p.pos(),
        cofactor: p.cofactor(),
        path: p.as_path().iter().map(|h| ut::h_mh(*h)).collect(),
    };
    ensure!(v.path.len() <= 31, "a proof with {} path elements is decoded", v.path.len());
    run("readers", &mut || {
        let _ = (p.method(), p.depth(), p.width_limit(), p.factored_width(), p.merkle_root(), p.to_path(), p.clone().into_path());
        let _ = (format!("{p:?}"), p.cmp(p), forms(p));
        ensure!(p.matches(p), "proof does not match itself");
        Ok(())
    })?;
    run("convolve", &mut || {
        let got = p.convolve(ut::pid(pid), ut::msg(msg)).map(ut::h_cm).ok();
        ensure_eq!(got, v.open(pid, msg).ok(), "opening");
        Ok(())
    })?;
    run("with and merge_reveal_path", &mut || {
        if let Ok(b) = MerkleBlock::with(p, ut::pid(pid), ut::msg(msg)) {
            let mut x = b.clone();
            x.merge_reveal_path(p, ut::pid(pid), ut::msg(msg)).map_err(|e| e.to_string())?;
            ensure_eq!(x, b, "block merged with its own proof");
            let mut other = *msg;
            other[0] ^= 1;
            ensure!(x.merge_reveal_path(p, ut::pid(pid), ut::msg(&other)).is_err(), "another message is merged");
            exercise_block(&b, 1)?;
        }
        Ok(())
    })
}

fn c23_proof(c: &C23Proof, o: &mut Obs) -> R {
    let path: Vec<H> = (0..c.path).map(|i| model::sha(&(c.seed ^ i as u64).to_le_bytes())).collect();
    let pos = if c.own_slot && c.path <= 31 { model::slot(&c.pid.0, c.path, c.cofactor) } else { c.pos };
    let m = model::Proof { pos, cofactor: c.cofactor, path };
    o.nontrivial(c.path > 0);
    let res = if c.json {
        let v = serde_json::json!({"method": "sha256t", "pos": m.pos, "cofactor": m.cofactor,
            "path": m.path.iter().map(|h| model::hex(h)).collect::<Vec<_>>()});
        serde_json::from_str::<MerkleProof>(&v.to_string()).map_err(|e| e.to_string())
    } else {
        let mut bytes = m.encode();
        let plain = bytes.clone();
        for f in &c.forge {
            apply_bytes(&mut bytes, f);
        }
        let r = ut::dec::<MerkleProof>(&bytes);
        if bytes != plain {
            if let Ok(p) = &r {
                o.label("corrupted proof decoded");
                return exercise_proof(p, &c.pid.0, &c.msg.0);
            }
            return Ok(());
        }
        r
    };
    match res {
        Ok(p) => {
            o.label("decoded");
            exercise_proof(&p, &c.pid.0, &c.msg.0)
        }
        Err(e) => {
            ensure!(c.path > 31, "well-formed proof is rejected: {e}");
            o.label("rejected");
            Ok(())
        }
    }
}
