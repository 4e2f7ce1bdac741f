//! Merklization, domain separation, sub-tree tracking: C10, C11, C29.

use std::collections::BTreeSet;

use amplify::confinement::Confined;
use amplify::num::{u256, u5};
use commit_verify::mpc::Leaf;
use commit_verify::{
    CommitEngine, CommitId, CommitmentId, DigestExt, MerkleBuoy, MerkleHash, MerkleNode,
    NodeBranching, StrictHash,
};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::engine::{Ctx, Obs};
use crate::gen;
use crate::model::{self, B32, H};
use crate::types::{Blob, Canon, Choice, Elem, Kind, Rec};
use crate::ut::{self, enc};
use crate::{ensure, ensure_eq};

type R = Result<(), String>;

const M8: usize = u8::MAX as usize;
const M16: usize = u16::MAX as usize;
const M32: usize = u32::MAX as usize;

fn leaf_hash(e: &impl Canon) -> H { model::tagged(model::TAG_MERKLE, &e.canon()) }

// ------------------------------------------------------------------------------------------ C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C10Case {
    /// Explicit elements followed by generated ones.
    items: Vec<u64>,
    more: u32,
    seed: u64,
}

impl C10Case {
    fn elems(&self) -> Vec<Elem> {
        let mut v: Vec<Elem> = self.items.iter().map(|x| Elem(*x)).collect();
        let mut s = self.seed;
        for _ in 0..self.more {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            v.push(Elem(s ^ (s >> 29)));
        }
        v
    }
}

pub fn c10(ctx: &mut Ctx) {
    let seed = ctx.seed;
    ctx.enumerate(
        "every_count",
        "more than one leaf",
        || (0..=300u32).chain([511, 512, 513, 767, 1023, 1024, 1025]).map(|more| C10Case { items: vec![], more, seed }).collect(),
        c10_check,
    );
    ctx.group(
        "collections",
        "more than one leaf",
        4_000,
        || {
            (
                prop::collection::vec(prop_oneof![2 => gen::num64(), 1 => 0u64..1000, 1 => Just(u64::MAX)], 0..=20),
                prop_oneof![4 => Just(0u32), 2 => 0u32..=50, 1 => 200u32..=300],
                gen::num64(),
            )
                .prop_map(|(items, more, seed)| C10Case { items, more, seed })
        },
        c10_check,
    );
    let mut big = vec![4095u32, 4097, 65534, 65535, 65536, 65537, 70001];
    if ctx.thorough() {
        big.extend((0..60).map(|i| 1000 + i * 1237));
        big.push(1 << 20);
    }
    ctx.enumerate(
        "large",
        "more than one leaf",
        || big.into_iter().map(|more| C10Case { items: vec![], more, seed: seed ^ 5 }).collect(),
        c10_check,
    );
    ctx.group(
        "nodes",
        "any",
        6_000,
        || {
            (
                0u8..3,
                any::<u8>(),
                prop_oneof![any::<u32>().prop_map(|w| B32(model::u256_le(w as u64))), gen::num64().prop_map(|w| B32(model::u256_le(w))), gen::b32()],
                prop_oneof![4 => gen::b32(), 1 => Just(B32(model::VIRTUAL))],
                prop_oneof![4 => gen::b32(), 1 => Just(B32(model::VIRTUAL))],
            )
        },
        node_check,
    );
    ctx.group(
        "element_kinds",
        "two or more leaves of different kinds",
        2_000,
        || prop::collection::vec((0u8..3, prop::collection::vec(any::<u8>(), 0..20)), 0..=12),
        kinds_check,
    );
}

macro_rules! sized {
    ($o:ident, $items:expr, $col:ty, $want:expr, $what:expr; $($min:expr => $max:expr),* $(,)?) => {
        $(
            if ($min..=$max).contains(&$items.len()) {
                let c = Confined::<$col, { $min }, { $max }>::try_from($items.clone().into_iter().collect::<$col>()).map_err(|e| format!("{e}"))?;
                ensure_eq!(ut::h_mh(MerkleHash::merklize(&c)), $want, "root of {} with bounds {}..={}", $what, $min, $max);
                $o.evals(1);
            }
        )*
    }
}

fn c10_check(c: &C10Case, o: &mut Obs) -> R {
    let items = c.elems();
    let n = items.len();
    o.nontrivial(n > 1);
    o.label(match n {
        0 => "0 leaves",
        1 => "1 leaf",
        n if n.is_power_of_two() => "power of two",
        n if n < 256 => "other, below 256",
        _ => "other, 256 and more",
    });
    o.sample(|| format!("{n} leaves, first {:?}", items.iter().take(4).collect::<Vec<_>>()));
    let hashes: Vec<H> = items.iter().map(leaf_hash).collect();
    let want = model::merklize(&hashes);
    if n > 2000 {
        sized!(o, items, Vec<Elem>, want, "a list"; 0 => M16, 0 => M32);
    } else {
        sized!(o, items, Vec<Elem>, want, "a list"; 0 => M8, 1 => M8, 2 => M8, 0 => M16, 1 => M16, 3 => M16, 0 => M32, 1 => M32, 7 => M32);
    }
    let set: BTreeSet<Elem> = items.iter().copied().collect();
    let mut sorted: Vec<u64> = items.iter().map(|e| e.0).collect();
    sorted.sort_unstable();
    sorted.dedup();
    let hashes: Vec<H> = sorted.iter().map(|x| leaf_hash(&Elem(*x))).collect();
    let want = model::merklize(&hashes);
    if n > 2000 {
        sized!(o, set, BTreeSet<Elem>, want, "a set"; 0 => M16, 0 => M32);
    } else {
        sized!(o, set, BTreeSet<Elem>, want, "a set"; 0 => M8, 1 => M8, 2 => M8, 0 => M16, 1 => M16, 5 => M16, 0 => M32, 1 => M32);
    }
    Ok(())
}

fn node_check(c: &(u8, u8, B32, B32, B32), o: &mut Obs) -> R {
    let (kind, depth, width, n1, n2) = c;
    o.nontrivial(true);
    o.label(["void", "single", "branches"][*kind as usize]);
    let w = u256::from_le_bytes(width.0);
    let (h1, h2) = (ut::mh(&n1.0), ut::mh(&n2.0));
    let (node, id, bytes) = match kind {
        0 => (MerkleNode::void(*depth, w), MerkleHash::void(*depth, w), model::node_bytes(0, *depth, &width.0, &model::VIRTUAL, &model::VIRTUAL)),
        1 => (MerkleNode::single(*depth, w, h1), MerkleHash::single(*depth, w, h1), model::node_bytes(1, *depth, &width.0, &n1.0, &model::VIRTUAL)),
        _ => (MerkleNode::branches(*depth, w, h1, h2), MerkleHash::branches(*depth, w, h1, h2), model::node_bytes(2, *depth, &width.0, &n1.0, &n2.0)),
    };
    ensure_eq!(enc(&node), bytes, "node bytes");
    let want = model::tagged(model::TAG_MERKLE, &bytes);
    ensure_eq!(ut::h_mh(node.commit_id()), want, "node id");
    ensure_eq!(ut::h_mh(id), want, "node hash");
    ensure_eq!(node.branching as u8, *kind, "branching");
    // explicit fields
    let b = [NodeBranching::Void, NodeBranching::Single, NodeBranching::Branch][*kind as usize];
    let free = MerkleNode { branching: b, depth: *depth, width: w, node1: h2, node2: h1 };
    ensure_eq!(
        ut::h_mh(free.commit_id()),
        model::tagged(model::TAG_MERKLE, &model::node_bytes(*kind, *depth, &width.0, &n2.0, &n1.0)),
        "id of an arbitrary node"
    );
    o.evals(3);
    Ok(())
}

fn kinds_check(c: &Vec<(u8, Vec<u8>)>, o: &mut Obs) -> R {
    let items: Vec<Choice> = c
        .iter()
        .map(|(k, b)| match k {
            0 => Choice::None,
            1 => Choice::Small(b.first().copied().unwrap_or(0)),
            _ => Choice::Big(Blob::new(b)),
        })
        .collect();
    o.nontrivial(c.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() > 1);
    let hashes: Vec<H> = items.iter().map(leaf_hash).collect();
    sized!(o, items, Vec<Choice>, model::merklize(&hashes), "a list"; 0 => M8, 0 => M16, 0 => M32);
    let set: BTreeSet<Choice> = items.iter().cloned().collect();
    let hashes: Vec<H> = set.iter().map(leaf_hash).collect();
    sized!(o, set, BTreeSet<Choice>, model::merklize(&hashes), "a set"; 0 => M8, 0 => M16, 0 => M32);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ColMut {
    DupLast,
    DupAll,
    Push(u64),
    Pop,
    RemoveAt(u16),
    Swap(u16, u16),
    Reverse,
    Rotate(u16),
    Bit(u16, u8),
    InsertAt(u16, u64),
}

fn col_mut() -> BoxedStrategy<ColMut> {
    use ColMut::*;
    prop_oneof![
        Just(DupLast),
        Just(DupAll),
        prop_oneof![gen::num64(), Just(u64::MAX), Just(0)].prop_map(Push),
        Just(Pop),
        any::<u16>().prop_map(RemoveAt),
        (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Swap(a, b)),
        Just(Reverse),
        any::<u16>().prop_map(Rotate),
        (any::<u16>(), 0u8..64).prop_map(|(a, b)| Bit(a, b)),
        (any::<u16>(), gen::num64()).prop_map(|(a, b)| InsertAt(a, b)),
    ]
    .boxed()
}

impl ColMut {
    fn apply(&self, v: &mut Vec<u64>) {
        use ColMut::*;
        let n = v.len();
        match self {
            DupLast => {
                if let Some(x) = v.last().copied() {
                    v.push(x)
                }
            }
            DupAll => v.extend(v.clone()),
            Push(x) => v.push(*x),
            Pop => {
                v.pop();
            }
            RemoveAt(i) if n > 0 => {
                v.remove(*i as usize % n);
            }
            Swap(i, j) if n > 0 => v.swap(*i as usize % n, *j as usize % n),
            Reverse => v.reverse(),
            Rotate(k) if n > 0 => v.rotate_left(*k as usize % n),
            Bit(i, b) if n > 0 => v[*i as usize % n] ^= 1 << b,
            InsertAt(i, x) => v.insert(*i as usize % (n + 1), *x),
            _ => {}
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NodeSpec {
    branching: u8,
    depth: u8,
    width: B32,
    n1: B32,
    n2: B32,
}

impl NodeSpec {
    fn node(&self) -> MerkleNode {
        MerkleNode {
            branching: [NodeBranching::Void, NodeBranching::Single, NodeBranching::Branch][self.branching as usize % 3],
            depth: self.depth,
            width: u256::from_le_bytes(self.width.0),
            node1: ut::mh(&self.n1.0),
            node2: ut::mh(&self.n2.0),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum LeafKind {
    In(B32, B32),
    Entropy(u64, u32),
}

impl LeafKind {
    fn leaf(&self) -> Leaf {
        match self {
            LeafKind::In(p, m) => ut::inhabited(&p.0, &m.0),
            LeafKind::Entropy(e, p) => Leaf::entropy(*e, *p),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            LeafKind::In(p, m) => model::leaf_bytes(&p.0, &m.0),
            LeafKind::Entropy(e, p) => model::placeholder_bytes(*e, *p),
        }
    }
}

fn leaf_kind() -> BoxedStrategy<LeafKind> {
    prop_oneof![
        (gen::b32(), gen::b32()).prop_map(|(p, m)| LeafKind::In(p, m)),
        (gen::num64(), any::<u32>()).prop_map(|(e, p)| LeafKind::Entropy(e, p)),
    ]
    .boxed()
}

fn node_spec() -> BoxedStrategy<NodeSpec> {
    let h = || prop_oneof![4 => gen::b32(), 1 => Just(B32(model::VIRTUAL))];
    (0u8..3, prop_oneof![0u8..34, any::<u8>()], gen::b32(), h(), h())
        .prop_map(|(branching, depth, width, n1, n2)| NodeSpec { branching, depth, width, n1, n2 })
        .boxed()
}

pub fn c11(ctx: &mut Ctx) {
    ctx.group(
        "collections",
        "the two collections differ",
        18_000,
        || (prop::collection::vec(prop_oneof![gen::num64(), 0u64..4], 0..40), prop::collection::vec(col_mut(), 1..=2)),
        |(a, muts): &(Vec<u64>, Vec<ColMut>), o| {
            let mut b = a.clone();
            for m in muts {
                m.apply(&mut b);
            }
            let root = |v: &[u64]| {
                MerkleHash::merklize(&Confined::<Vec<Elem>, 0, M16>::try_from(v.iter().map(|x| Elem(*x)).collect::<Vec<_>>()).unwrap())
            };
            let (ra, rb) = (root(a), root(&b));
            ensure_eq!(ra == rb, *a == b, "equality of roots of {a:?} and {b:?}");
            o.nontrivial(*a != b);
            o.label_if(a.len() != b.len(), "different length");
            // the root of the list is not the root of a list of a list's halves
            if a.len() > 1 {
                let k = a.len().div_ceil(2);
                let (l, r) = (root(&a[..k]), root(&a[k..]));
                let w = a.len() as u32;
                for (d, w) in [(0u8, w), (0, 2), (1, w)] {
                    ensure!(a.len() == 2 || MerkleHash::branches(d, w, l, r) != ra, "the root of {a:?} is made of the roots of its halves");
                }
            }
            // sets and permutations of them
            let (sa, sb): (BTreeSet<u64>, BTreeSet<u64>) = (a.iter().copied().collect(), b.iter().copied().collect());
            let sroot = |v: &BTreeSet<u64>| {
                MerkleHash::merklize(&Confined::<BTreeSet<Elem>, 0, M16>::try_from(v.iter().map(|x| Elem(*x)).collect::<BTreeSet<_>>()).unwrap())
            };
            ensure_eq!(sroot(&sa) == sroot(&sb), sa == sb, "equality of roots of sets");
            Ok(())
        },
    );
    ctx.group(
        "nodes",
        "the two nodes differ",
        60_000,
        || (node_spec(), 0u8..12, any::<u8>(), any::<u8>()),
        |(a, how, i, bit): &(NodeSpec, u8, u8, u8), o| {
            let mut b = a.clone();
            let (i, bit) = (*i as usize % 32, bit % 8);
            match how {
                0 => b.branching = (b.branching + 1) % 3,
                1 => b.branching = (b.branching + 2) % 3,
                2 => b.depth ^= 1 << bit,
                3 | 4 => b.width.0[i] ^= 1 << bit,
                5 => b.n1.0[i] ^= 1 << bit,
                6 => b.n2.0[i] ^= 1 << bit,
                7 => std::mem::swap(&mut b.n1, &mut b.n2),
                8 => std::mem::swap(&mut b.n1, &mut b.width),
                9 => b.n2 = b.n1,
                10 => b.n2 = B32(model::VIRTUAL),
                _ => {
                    // shift all the fields by one byte
                    let mut all: Vec<u8> = [&b.width.0[..], &b.n1.0, &b.n2.0].concat();
                    all.rotate_left(1);
                    b.width.0.copy_from_slice(&all[..32]);
                    b.n1.0.copy_from_slice(&all[32..64]);
                    b.n2.0.copy_from_slice(&all[64..]);
                }
            }
            let (na, nb) = (a.node(), b.node());
            ensure_eq!(na.commit_id() == nb.commit_id(), na == nb, "equality of ids of {na:?} and {nb:?}");
            o.nontrivial(na != nb);
            let (d, w, h1, h2) = (a.depth, na.width, na.node1, na.node2);
            let v = ut::mh(&model::VIRTUAL);
            let ids = [
                MerkleHash::void(d, w),
                MerkleHash::single(d, w, h1),
                MerkleHash::single(d, w, v),
                MerkleHash::branches(d, w, h1, v),
                MerkleHash::branches(d, w, v, v),
                MerkleHash::branches(d, w, h1, h2),
                MerkleHash::branches(d, w, h2, h1),
                h1,
                h2,
            ];
            let mut uniq: BTreeSet<MerkleHash> = ids.into_iter().collect();
            let mut expect = ids.len();
            if h1 == v && h2 == v {
                // single(h1)=single(v); all the branches coincide; h1=h2
                expect = 4;
            } else if h1 == v {
                // single = single(v), branches(h1,v) = branches(v,v)
                expect -= 2;
            } else if h2 == v {
                // branches(h1,h2) = branches(h1,v)
                expect -= 1;
            } else if h1 == h2 {
                // branches are symmetric, h1=h2
                expect -= 2;
            }
            ensure_eq!(uniq.len(), expect, "number of distinct ids");
            uniq.clear();
            Ok(())
        },
    );
    ctx.group(
        "leaves",
        "any",
        60_000,
        || (leaf_kind(), leaf_kind(), 0u8..6, any::<u8>(), any::<u8>(), node_spec(), prop::collection::vec(any::<u8>(), 0..100)),
        leaves_check,
    );
    ctx.group(
        "tags",
        "tags differ",
        20_000,
        || (prop::collection::vec(any::<u8>(), 0..40), "[ -~]{0,12}", "[ -~]{0,12}", gen::num64()),
        |(data, t1, t2, x): &(Vec<u8>, String, String, u64), o| {
            // tags of engines are static strings
            let leak = |s: &str| -> &'static str { Box::leak(s.to_string().into_boxed_str()) };
            let blob = Blob::new(data);
            let digest = |tag: &'static str| -> H {
                let mut e = CommitEngine::new(tag);
                e.commit_to_serialized(&blob);
                e.commit_to_serialized(&Elem(*x));
                e.finish().finish()
            };
            let tags = ["", model::TAG_MERKLE, model::TAG_MPC, model::TAG_STRICT, leak(t1), leak(t2)];
            let uniq: BTreeSet<&str> = tags.iter().copied().collect();
            let ids: BTreeSet<H> = uniq.iter().map(|t| digest(t)).collect();
            ensure_eq!(ids.len(), uniq.len(), "different tags must give different ids");
            for t in uniq {
                ensure_eq!(digest(t), model::tagged(t, &[blob.canon(), x.to_le_bytes().to_vec()].concat()), "id with the tag {t}");
            }
            o.nontrivial(t1 != t2);
            o.evals(6);
            let m = <commit_verify::mpc::Commitment as CommitmentId>::TAG;
            ensure_eq!([MerkleHash::TAG, m, StrictHash::TAG], [model::TAG_MERKLE, model::TAG_MPC, model::TAG_STRICT], "tags");
            Ok(())
        },
    );
    ctx.group(
        "field_boundaries",
        "the values differ",
        18_000,
        || (prop::collection::vec(prop_oneof![Just(0u8), Just(1u8), any::<u8>()], 0..24), 0usize..24, 0usize..24, any::<u16>(), prop::option::of(any::<u32>()), any::<bool>()),
        |(data, i, j, a, c, side): &(Vec<u8>, usize, usize, u16, Option<u32>, bool), o| {
            let n = data.len();
            let (i, j) = (i % (n + 1), j % (n + 1));
            let rec = |k: usize| Rec { a: *a, b: Blob::new(&data[..k]), c: *c, d: Blob::new(&data[k..]) };
            let (x, y) = (rec(i), rec(j));
            ensure_eq!(x.commit_id() == y.commit_id(), i == j, "ids of {x:?} and {y:?}");
            let z = Rec { c: match c { None => Some(0), Some(_) => None }, ..x.clone() };
            ensure!(z.commit_id() != x.commit_id(), "optional value is not bound");
            let mut w = x.clone();
            if *side { w.b = x.d.clone(); w.d = x.b.clone(); }
            ensure_eq!(w.commit_id() == x.commit_id(), w == x, "ids of {x:?} and {w:?}");
            let kinds = [
                Kind::Void,
                Kind::Num(*a),
                Kind::Pair { x: *a as u8, y: Blob::new(data) },
                Kind::Pair { x: (*a >> 8) as u8, y: Blob::new(&data[..i]) },
            ];
            for p in 0..4 {
                for q in 0..4 {
                    ensure_eq!(kinds[p].commit_id() == kinds[q].commit_id(), kinds[p] == kinds[q], "ids of {:?} and {:?}", kinds[p], kinds[q]);
                }
            }
            o.nontrivial(i != j);
            Ok(())
        },
    );
}

#[allow(clippy::type_complexity)]
fn leaves_check(c: &(LeafKind, LeafKind, u8, u8, u8, NodeSpec, Vec<u8>), o: &mut Obs) -> R {
    let (a, b, how, i, bit, node, tail) = c;
    o.nontrivial(true);
    let (i, bit) = (*i as usize % 32, bit % 8);
    let (la, lb) = (a.leaf(), b.leaf());
    ensure_eq!(enc(&la), a.bytes(), "leaf bytes");
    ensure_eq!(la.commit_id() == lb.commit_id(), la == lb, "equality of ids of leaves");
    let near = match a {
        LeafKind::In(p, m) => {
            let (mut p, mut m) = (*p, *m);
            match how {
                0 => p.0[i] ^= 1 << bit,
                1 => m.0[i] ^= 1 << bit,
                2 => std::mem::swap(&mut p, &mut m),
                3 => {
                    let mut all = [p.0, m.0].concat();
                    all.rotate_right(1 + i);
                    p.0.copy_from_slice(&all[..32]);
                    m.0.copy_from_slice(&all[32..]);
                }
                4 => m = p,
                _ => p.0.reverse(),
            }
            LeafKind::In(p, m)
        }
        LeafKind::Entropy(e, p) => {
            let (mut e, mut p) = (*e, *p);
            match how {
                0 => e ^= 1 << (i * 2),
                1 => p ^= 1 << i,
                2 => (e, p) = (e.rotate_left(8) | 1, p),
                3 => {
                    let x = (((p as u128) << 64) | e as u128).rotate_left(8) % (1 << 96);
                    (e, p) = (x as u64, (x >> 64) as u32);
                }
                4 => (e, p) = (p as u64, e as u32),
                _ => e = e.swap_bytes(),
            }
            LeafKind::Entropy(e, p)
        }
    };
    let ln = near.leaf();
    ensure_eq!(la.commit_id() == ln.commit_id(), la == ln, "equality of ids of near leaves {la:?} {ln:?}");
    // Preimages of leaves and nodes never overlap, whatever follows them.
    let mut bytes = enc(&la);
    bytes.extend(tail);
    bytes.extend([0u8; 98]);
    ensure!(ut::dec_prefix::<MerkleNode>(&bytes).is_err(), "a leaf preimage starts like a node");
    let n = node.node();
    let mut bytes = enc(&n);
    ensure!(ut::dec_prefix::<Leaf>(&bytes).is_err(), "a node preimage starts like a leaf");
    bytes.extend(tail);
    ensure!(ut::dec_prefix::<Leaf>(&bytes).is_err(), "a node preimage starts like a leaf");
    ensure!(n.commit_id() != la.commit_id(), "a leaf and a node share the id");
    // kinds of leaves are not prefixes of each other
    let (x, y) = (enc(&la), enc(&lb));
    if std::mem::discriminant(a) != std::mem::discriminant(b) {
        ensure!(!x.starts_with(&y) && !y.starts_with(&x), "one leaf preimage is a prefix of another");
        ensure!(la.commit_id() != lb.commit_id(), "leaves of different kinds share the id");
    }
    o.evals(6);
    Ok(())
}

// ------------------------------------------------------------------------------------------ C29

#[derive(Clone, Debug, Serialize, Deserialize)]
struct C29Case {
    root: u8,
    /// Decisions to split in the depth-first order; missing ones are negative.
    splits: Vec<bool>,
    limit: u8,
}

impl C29Case {
    fn depths(&self) -> Vec<u8> {
        fn rec(d: u8, limit: u8, it: &mut std::slice::Iter<bool>, out: &mut Vec<u8>) {
            if d < limit && it.next().copied().unwrap_or(false) {
                rec(d + 1, limit, it, out);
                rec(d + 1, limit, it, out);
            } else {
                out.push(d)
            }
        }
        let mut out = vec![];
        rec(self.root, self.limit, &mut self.splits.iter(), &mut out);
        out
    }
}

pub fn c29(ctx: &mut Ctx) {
    // All tilings of small height.
    fn tilings(h: u8) -> Vec<Vec<bool>> {
        if h == 0 {
            return vec![vec![]];
        }
        let sub = tilings(h - 1);
        let mut out = vec![vec![false]];
        for a in &sub {
            for b in &sub {
                // at the bottom level no decision is consumed
                let mut v = vec![true];
                v.extend(a);
                v.extend(b);
                out.push(v);
            }
        }
        out
    }
    let mut all = vec![];
    let roots: Vec<u8> = (0..=27).chain([100, 251]).collect();
    for (i, t) in tilings(4).into_iter().enumerate() {
        for r in &roots {
            if i < 30 || (i + *r as usize) % 5 == 0 || ctx.thorough() {
                all.push(C29Case { root: *r, splits: t.clone(), limit: *r + 4 });
            }
        }
    }
    if ctx.thorough() {
        for t in tilings(5) {
            all.push(C29Case { root: 3, splits: t, limit: 8 });
        }
    }
    ctx.enumerate("small_tilings", "more than one node", || all, c29_check);
    ctx.group(
        "tilings",
        "more than one node",
        100_000,
        || {
            prop_oneof![
                4 => (0u8..=31, 31u8..=31),
                2 => (0u8..=5, 6u8..=31),
                1 => (0u8..=255, 255u8..=255),
            ]
            .prop_flat_map(|(root, limit)| {
                let p = prop_oneof![Just(0.5f64), Just(0.45), Just(0.8), Just(0.95)];
                (Just(root), Just(limit), p.prop_flat_map(|p| prop::collection::vec(prop::bool::weighted(p), 0..120)))
            })
            .prop_map(|(root, limit, splits)| C29Case { root, splits, limit })
        },
        c29_check,
    );
    // Combs: a leaf next to the sub-trees on the way, to the left or to the right, to the full depth.
    ctx.group(
        "combs",
        "more than one node",
        20_000,
        || {
            (0u8..=31, prop::collection::vec(any::<bool>(), 31)).prop_map(|(root, side)| {
                fn rec(d: u8, side: &[bool], out: &mut Vec<bool>) {
                    if d as usize >= 31 {
                        return; // no decision at the last level
                    }
                    out.push(true);
                    if side[d as usize] {
                        rec(d + 1, side, out);
                        if d + 1 < 31 { out.push(false) }
                    } else {
                        if d + 1 < 31 { out.push(false) }
                        rec(d + 1, side, out);
                    }
                }
                let mut splits = vec![];
                rec(root, &side, &mut splits);
                C29Case { root, splits, limit: 31 }
            })
        },
        c29_check,
    );
}

fn c29_check(c: &C29Case, o: &mut Obs) -> R {
    let depths = c.depths();
    o.nontrivial(depths.len() > 1);
    o.label_if(depths.len() > 30, "over 30 nodes");
    o.label_if(depths.iter().any(|d| *d > 31), "depth over 31");
    o.sample(|| format!("root {} nodes {depths:?}", c.root));
    track::<u8>(c.root, &depths, |d| d)?;
    if depths.iter().all(|d| *d <= 31) {
        track::<u5>(c.root, &depths, u5::with)?;
    }
    // A tracker which was full before: it starts with the sub-tree at the root, or with the root of all of the tree
    for start in [c.root, 0] {
        if start < depths[0] {
            track_above::<u8>(start, &depths, |d| d)?;
            if depths.iter().all(|d| *d <= 31) {
                track_above::<u5>(start, &depths, u5::with)?;
            }
        }
    }
    // default tracker starts at the root
    let b = MerkleBuoy::<u8>::default();
    ensure_eq!(b.level(), 0, "level of the default tracker");
    o.evals(depths.len());
    Ok(())
}

/// The tracker starts with a node which is above all of the following ones: the level is that of the right-most
/// incomplete sub-tree; nothing surfaces before the sub-tree of the second node gets as high as the first.
fn track_above<D>(start: u8, depths: &[u8], conv: impl Fn(u8) -> D) -> R
where D: Copy + Eq + std::ops::SubAssign<u8> + Default + std::fmt::Debug {
    let mut buoy = if start == 0 { MerkleBuoy::default() } else { MerkleBuoy::new(conv(start)) };
    let mut stack = vec![start];
    for (n, d) in depths.iter().enumerate() {
        stack.push(*d);
        while stack.len() > 2 && stack[stack.len() - 1] == stack[stack.len() - 2] {
            stack.pop();
            *stack.last_mut().unwrap() -= 1;
        }
        if stack[1] == start {
            break;
        }
        let surfaced = buoy.push(conv(*d));
        ensure!(!surfaced, "surfacing at node {n} of {depths:?} after {start}");
        ensure_eq!(buoy.level(), conv(*stack.last().unwrap()), "level after node {n} of {depths:?} after {start}");
    }
    Ok(())
}

fn track<D>(root: u8, depths: &[u8], conv: impl Fn(u8) -> D) -> R
where D: Copy + Eq + std::ops::SubAssign<u8> + Default + std::fmt::Debug {
    let mut buoy = MerkleBuoy::new(conv(depths[0]));
    let mut stack = vec![depths[0]];
    ensure_eq!(buoy.level(), conv(depths[0]), "level after the first node");
    for (n, d) in depths.iter().enumerate().skip(1) {
        // A node of zero depth is never a part of a larger tree and changes nothing.
        let before = buoy.clone();
        ensure!(!buoy.push(D::default()), "zero depth surfaces");
        ensure!(buoy == before, "zero depth changes the tracker");
        stack.push(*d);
        while stack.len() > 1 && stack[stack.len() - 1] == stack[stack.len() - 2] {
            stack.pop();
            *stack.last_mut().unwrap() -= 1;
        }
        let surfaced = buoy.push(conv(*d));
        ensure_eq!(surfaced, stack.len() == 1, "surfacing at node {n} of {depths:?}");
        ensure_eq!(buoy.level(), conv(*stack.last().unwrap()), "level after node {n} of {depths:?}");
    }
    ensure_eq!(stack, vec![root], "harness: the model stack");
    ensure_eq!(buoy.level(), conv(root), "level of the complete sub-tree");
    Ok(())
}
