//! Values of all public data types with their published binary layouts, as seen by the reference
//! model.

use std::collections::BTreeMap;

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use crate::gen::{self, TreeSpec};
use crate::model::{self, Block, Node, Proof, B32, H};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Serialize, Deserialize)]
pub enum Ty {
    ProtocolId,
    Message,
    Commitment,
    MerkleHash,
    StrictHash,
    Leaf,
    MerkleNode,
    NodeBranching,
    Method,
    MerkleConcealed,
    MerkleProof,
    MerkleBlock,
    MerkleTree,
}
impl Ty {
    pub const ALL: [Ty; 13] = [
        Ty::ProtocolId,
        Ty::Message,
        Ty::Commitment,
        Ty::MerkleHash,
        Ty::StrictHash,
        Ty::Leaf,
        Ty::MerkleNode,
        Ty::NodeBranching,
        Ty::Method,
        Ty::MerkleConcealed,
        Ty::MerkleProof,
        Ty::MerkleBlock,
        Ty::MerkleTree,
    ];
    pub const IDS: [Ty; 5] = [Ty::ProtocolId, Ty::Message, Ty::Commitment, Ty::MerkleHash, Ty::StrictHash];
    pub fn name(self) -> String { format!("{self:?}") }
}

/// Calls `$body` with `$t` being the type under test.
#[macro_export]
macro_rules! dispatch {
    ($ty:expr, $t:ident => $body:expr) => {{
        use $crate::values::Ty as __Ty;
        match $ty {
            __Ty::ProtocolId => { type $t = commit_verify::mpc::ProtocolId; $body }
            __Ty::Message => { type $t = commit_verify::mpc::Message; $body }
            __Ty::Commitment => { type $t = commit_verify::mpc::Commitment; $body }
            __Ty::MerkleHash => { type $t = commit_verify::MerkleHash; $body }
            __Ty::StrictHash => { type $t = commit_verify::StrictHash; $body }
            __Ty::Leaf => { type $t = commit_verify::mpc::Leaf; $body }
            __Ty::MerkleNode => { type $t = commit_verify::MerkleNode; $body }
            __Ty::NodeBranching => { type $t = commit_verify::merkle::NodeBranching; $body }
            __Ty::Method => { type $t = commit_verify::mpc::Method; $body }
            __Ty::MerkleConcealed => { type $t = commit_verify::mpc::MerkleConcealed; $body }
            __Ty::MerkleProof => { type $t = commit_verify::mpc::MerkleProof; $body }
            __Ty::MerkleBlock => { type $t = commit_verify::mpc::MerkleBlock; $body }
            __Ty::MerkleTree => { type $t = commit_verify::mpc::MerkleTree; $body }
        }
    }};
}
/// The same for the five 32-byte types.
#[macro_export]
macro_rules! dispatch_id {
    ($ty:expr, $t:ident => $body:expr) => {{
        use $crate::values::Ty as __Ty;
        match $ty {
            __Ty::ProtocolId => { type $t = commit_verify::mpc::ProtocolId; $body }
            __Ty::Message => { type $t = commit_verify::mpc::Message; $body }
            __Ty::Commitment => { type $t = commit_verify::mpc::Commitment; $body }
            __Ty::MerkleHash => { type $t = commit_verify::MerkleHash; $body }
            _ => { type $t = commit_verify::StrictHash; $body }
        }
    }};
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Val {
    Id(Ty, B32),
    Inhabited(B32, B32),
    Entropy(u64, u32),
    Node { branching: u8, depth: u8, width: B32, node1: B32, node2: B32 },
    Branching(u8),
    Method,
    Concealed { depth: u8, cofactor: u16, root: B32 },
    Proof { pos: u32, cofactor: u16, path: Vec<B32> },
    /// Block of a tree: revealed leaves, how hidden sub-trees are split, entropy.
    Block { tree: TreeSpec, keep: u64, split: u64, entropy: Option<u64> },
    /// Any maps: a decoded tree is not bound to be consistent.
    Tree { depth: u8, entropy: u64, cofactor: u16, messages: Vec<(B32, B32)>, map: Vec<(u32, B32, B32)> },
}

/// Field values.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Sv {
    Unit,
    Num(Vec<u8>),
    Bytes(Vec<u8>),
    Enum(u8, String),
    Union(u8, String, Box<Sv>),
    Struct(Vec<(String, Sv)>),
    Tuple(Vec<Sv>),
    List(Vec<Sv>),
    Set(Vec<Sv>),
    Map(Vec<(Sv, Sv)>),
}
impl Sv {
    pub fn st(f: &[(&str, Sv)]) -> Sv { Sv::Struct(f.iter().map(|(n, v)| (n.to_string(), v.clone())).collect()) }
    pub fn b(h: &H) -> Sv { Sv::Bytes(h.to_vec()) }
    pub fn n<const N: usize>(b: [u8; N]) -> Sv { Sv::Num(b.to_vec()) }
    pub fn un(tag: u8, name: &str, v: Sv) -> Sv { Sv::Union(tag, name.to_string(), Box::new(v)) }
    pub fn method() -> Sv { Sv::Enum(0, "sha256t".into()) }
    pub fn u5(d: u8) -> Sv { Sv::Enum(d, format!("_{d}")) }
}

impl Val {
    pub fn ty(&self) -> Ty {
        match self {
            Val::Id(t, _) => *t,
            Val::Inhabited(..) | Val::Entropy(..) => Ty::Leaf,
            Val::Node { .. } => Ty::MerkleNode,
            Val::Branching(_) => Ty::NodeBranching,
            Val::Method => Ty::Method,
            Val::Concealed { .. } => Ty::MerkleConcealed,
            Val::Proof { .. } => Ty::MerkleProof,
            Val::Block { .. } => Ty::MerkleBlock,
            Val::Tree { .. } => Ty::MerkleTree,
        }
    }

    pub fn block(&self) -> Option<Block> {
        let Val::Block { tree, keep, split, entropy } = self else { return None };
        let t = tree.build();
        let keep = gen::subset(&t, *keep);
        let split = *split;
        let section = t.section_with(&keep, |d, i| {
            let x = (i ^ (d as u64) << 32).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 58;
            d < 8 && split >> (x % 64) & 1 == 1
        });
        Some(Block { depth: t.depth, cofactor: t.cofactor, section, entropy: *entropy })
    }

    pub fn maps(&self) -> Option<(BTreeMap<H, H>, BTreeMap<u32, (H, H)>)> {
        let Val::Tree { messages, map, .. } = self else { return None };
        Some((
            messages.iter().map(|(p, m)| (p.0, m.0)).collect(),
            map.iter().map(|(n, p, m)| (*n, (p.0, m.0))).collect(),
        ))
    }

    /// The published binary layout.
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Val::Id(_, b) => b.0.to_vec(),
            Val::Inhabited(p, m) => model::leaf_bytes(&p.0, &m.0),
            Val::Entropy(e, pos) => model::placeholder_bytes(*e, *pos),
            Val::Node { branching, depth, width, node1, node2 } => {
                model::node_bytes(branching % 3, *depth, &width.0, &node1.0, &node2.0)
            }
            Val::Branching(b) => vec![b % 3],
            Val::Method => vec![0],
            Val::Concealed { depth, cofactor, root } => model::concealed_bytes(*depth, *cofactor, &root.0),
            Val::Proof { pos, cofactor, path } => {
                Proof { pos: *pos, cofactor: *cofactor, path: path.iter().map(|b| b.0).collect() }.encode()
            }
            Val::Block { .. } => self.block().unwrap().encode(),
            Val::Tree { depth, entropy, cofactor, .. } => {
                let (messages, map) = self.maps().unwrap();
                let mut v = vec![0u8, *depth];
                v.extend(entropy.to_le_bytes());
                v.extend(cofactor.to_le_bytes());
                v.extend(&(messages.len() as u32).to_le_bytes()[..3]);
                for (p, m) in &messages {
                    v.extend(p);
                    v.extend(m);
                }
                v.extend(&(map.len() as u32).to_le_bytes()[..3]);
                for (n, (p, m)) in &map {
                    v.extend(n.to_le_bytes());
                    v.extend(p);
                    v.extend(m);
                }
                v
            }
        }
    }

    /// What the fields are.
    pub fn fields(&self) -> Sv {
        match self {
            Val::Id(_, b) => Sv::b(&b.0),
            Val::Inhabited(p, m) => {
                Sv::un(0x10, "inhabited", Sv::st(&[("protocol", Sv::b(&p.0)), ("message", Sv::b(&m.0))]))
            }
            Val::Entropy(e, pos) => Sv::un(
                0x11,
                "entropy",
                Sv::st(&[("entropy", Sv::n(e.to_le_bytes())), ("pos", Sv::n(pos.to_le_bytes()))]),
            ),
            Val::Node { branching, depth, width, node1, node2 } => Sv::st(&[
                ("branching", Val::Branching(*branching).fields()),
                ("depth", Sv::n([*depth])),
                ("width", Sv::n(width.0)),
                ("node1", Sv::b(&node1.0)),
                ("node2", Sv::b(&node2.0)),
            ]),
            Val::Branching(b) => Sv::Enum(b % 3, ["void", "single", "branch"][*b as usize % 3].into()),
            Val::Method => Sv::method(),
            Val::Concealed { depth, cofactor, root } => Sv::st(&[
                ("depth", Sv::u5(*depth)),
                ("cofactor", Sv::n(cofactor.to_le_bytes())),
                ("merkleRoot", Sv::b(&root.0)),
            ]),
            Val::Proof { pos, cofactor, path } => Sv::st(&[
                ("method", Sv::method()),
                ("pos", Sv::n(pos.to_le_bytes())),
                ("cofactor", Sv::n(cofactor.to_le_bytes())),
                ("path", Sv::List(path.iter().map(|h| Sv::b(&h.0)).collect())),
            ]),
            Val::Block { .. } => {
                let b = self.block().unwrap();
                let nodes = b
                    .section
                    .iter()
                    .map(|n| match n {
                        Node::Hidden { depth, hash } => Sv::un(
                            0,
                            "concealedNode",
                            Sv::st(&[("depth", Sv::u5(*depth)), ("hash", Sv::b(hash))]),
                        ),
                        Node::Leaf { pid, msg } => Sv::un(
                            1,
                            "commitmentLeaf",
                            Sv::st(&[("protocolId", Sv::b(pid)), ("message", Sv::b(msg))]),
                        ),
                    })
                    .collect();
                Sv::st(&[
                    ("method", Sv::method()),
                    ("depth", Sv::u5(b.depth)),
                    ("cofactor", Sv::n(b.cofactor.to_le_bytes())),
                    ("crossSection", Sv::List(nodes)),
                    ("entropy", match b.entropy {
                        None => Sv::un(0, "none", Sv::Unit),
                        Some(e) => Sv::un(1, "some", Sv::n(e.to_le_bytes())),
                    }),
                ])
            }
            Val::Tree { depth, entropy, cofactor, .. } => {
                let (messages, map) = self.maps().unwrap();
                Sv::st(&[
                    ("method", Sv::method()),
                    ("depth", Sv::u5(*depth)),
                    ("entropy", Sv::n(entropy.to_le_bytes())),
                    ("cofactor", Sv::n(cofactor.to_le_bytes())),
                    ("messages", Sv::Map(messages.iter().map(|(p, m)| (Sv::b(p), Sv::b(m))).collect())),
                    (
                        "map",
                        Sv::Map(
                            map.iter()
                                .map(|(n, (p, m))| {
                                    (Sv::n(n.to_le_bytes()), Sv::Tuple(vec![Sv::b(p), Sv::b(m)]))
                                })
                                .collect(),
                        ),
                    ),
                ])
            }
        }
    }

    /// Has a shape in which mistakes of the codec would be visible.
    pub fn rich(&self) -> bool {
        match self {
            Val::Id(_, b) => b.0[0] != b.0[31],
            Val::Inhabited(p, m) => p != m,
            Val::Entropy(e, pos) => *e as u32 != *pos,
            Val::Node { node1, node2, .. } => node1 != node2,
            Val::Branching(_) | Val::Method => true,
            Val::Concealed { depth, cofactor, .. } => *depth > 0 && *cofactor > 0,
            Val::Proof { path, .. } => path.len() > 1,
            Val::Block { .. } => {
                let b = self.block().unwrap();
                b.section.len() > 1 && !b.revealed().is_empty()
            }
            Val::Tree { messages, map, .. } => messages.len() > 1 && !map.is_empty(),
        }
    }
}

/// Parser of the layouts: number of bytes of the value at the start of the data.
pub fn parse(ty: Ty, data: &[u8]) -> Option<usize> {
    struct P<'a>(&'a [u8], usize);
    impl<'a> P<'a> {
        fn take(&mut self, n: usize) -> Option<&'a [u8]> {
            let r = self.0.get(self.1..self.1.checked_add(n)?)?;
            self.1 += n;
            Some(r)
        }
        fn u8(&mut self) -> Option<u8> { Some(self.take(1)?[0]) }
        fn upto(&mut self, max: u8) -> Option<u8> { self.u8().filter(|x| *x <= max) }
        fn len(&mut self, n: usize) -> Option<usize> {
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(self.take(n)?);
            Some(u64::from_le_bytes(b) as usize)
        }
        fn map(&mut self, key: usize, val: usize, le: bool) -> Option<()> {
            let n = self.len(3)?;
            let mut last: Option<Vec<u8>> = None;
            for _ in 0..n {
                let mut k = self.take(key)?.to_vec();
                if le {
                    k.reverse();
                }
                if last.is_some_and(|l| l >= k) {
                    return None;
                }
                last = Some(k);
                self.take(val)?;
            }
            Some(())
        }
    }
    let mut p = P(data, 0);
    match ty {
        Ty::ProtocolId | Ty::Message | Ty::Commitment | Ty::MerkleHash | Ty::StrictHash => {
            p.take(32)?;
        }
        Ty::Leaf => {
            match p.u8()? {
                0x10 => p.take(64)?,
                0x11 => p.take(12)?,
                _ => return None,
            };
        }
        Ty::MerkleNode => {
            p.upto(2)?;
            p.take(1 + 32 + 64)?;
        }
        Ty::NodeBranching => {
            p.upto(2)?;
        }
        Ty::Method => {
            p.upto(0)?;
        }
        Ty::MerkleConcealed => {
            p.upto(31)?;
            p.take(34)?;
        }
        Ty::MerkleProof => {
            p.upto(0)?;
            p.take(6)?;
            let n = p.upto(31)?;
            p.take(n as usize * 32)?;
        }
        Ty::MerkleBlock => {
            p.upto(0)?;
            p.upto(31)?;
            p.take(2)?;
            let n = p.len(4)?;
            if n == 0 {
                return None;
            }
            for _ in 0..n {
                match p.u8()? {
                    0 => {
                        p.upto(31)?;
                        p.take(32)?;
                    }
                    1 => {
                        p.take(64)?;
                    }
                    _ => return None,
                }
            }
            match p.u8()? {
                0 => {}
                1 => {
                    p.take(8)?;
                }
                _ => return None,
            }
            if !Block::decode(&data[..p.1])?.well_formed() {
                return None;
            }
        }
        Ty::MerkleTree => {
            p.upto(0)?;
            p.upto(31)?;
            p.take(10)?;
            p.map(32, 32, false)?;
            p.map(4, 64, true)?;
        }
    }
    Some(p.1)
}

pub fn id_ty() -> BoxedStrategy<Ty> { prop::sample::select(Ty::IDS.to_vec()).boxed() }

fn tree_val() -> BoxedStrategy<Val> {
    let small = prop_oneof![
        Just(0u32), Just(1), Just(255), Just(256), Just(65536), any::<u32>(), 0u32..1000
    ];
    (
        0u8..=31,
        gen::num64(),
        any::<u16>(),
        prop_oneof![4 => prop::collection::vec((gen::b32(), gen::b32()), 0..6), 1 => prop::collection::vec((gen::b32(), gen::b32()), 250..300)],
        prop::collection::vec((small, gen::b32(), gen::b32()), 0..6),
    )
        .prop_map(|(depth, entropy, cofactor, messages, map)| Val::Tree { depth, entropy, cofactor, messages, map })
        .boxed()
}

fn block_val() -> BoxedStrategy<Val> {
    (
        prop_oneof![4 => gen::small_tree(0..=5, 12), 2 => gen::deep_tree(0..=31, 8), 1 => gen::small_tree(8..=9, 40)],
        gen::mask(),
        gen::mask(),
        any::<Option<u64>>(),
    )
        .prop_map(|(tree, keep, split, entropy)| Val::Block { tree, keep, split, entropy })
        .boxed()
}

pub fn val() -> BoxedStrategy<Val> {
    prop_oneof![
        3 => (id_ty(), gen::b32()).prop_map(|(t, b)| Val::Id(t, b)),
        1 => (gen::b32(), gen::b32()).prop_map(|(a, b)| Val::Inhabited(a, b)),
        1 => (gen::num64(), any::<u32>()).prop_map(|(a, b)| Val::Entropy(a, b)),
        2 => (0u8..3, any::<u8>(), gen::b32(), gen::b32(), gen::b32()).prop_map(
            |(branching, depth, width, node1, node2)| Val::Node { branching, depth, width, node1, node2 }),
        1 => (0u8..3).prop_map(Val::Branching),
        1 => Just(Val::Method),
        2 => (0u8..=31, any::<u16>(), gen::b32()).prop_map(|(depth, cofactor, root)| Val::Concealed { depth, cofactor, root }),
        3 => (any::<u32>(), any::<u16>(), prop::collection::vec(gen::b32(), 0..=31)).prop_map(
            |(pos, cofactor, path)| Val::Proof { pos, cofactor, path }),
        6 => block_val(),
        4 => tree_val(),
    ]
    .boxed()
}
