//! Reference implementation of LNPBP-4 (multi-protocol commitments) and LNPBP-81 (tagged merklization),
//! written from the specification on top of plain SHA-256. Shares no code with the crates under test.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

use serde::{Deserialize, Deserializer, Serialize, Serializer};
use sha2::{Digest, Sha256};

pub type H = [u8; 32];

pub const TAG_MERKLE: &str = "urn:ubideco:merkle:node#2024-01-31";
pub const TAG_MPC: &str = "urn:ubideco:mpc:commitment#2024-01-31";
pub const TAG_STRICT: &str = "urn:ubideco:strict-types:value-hash#2024-02-10";
pub const VIRTUAL: H = [0xFF; 32];

/// 32 bytes with a compact readable form.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct B32(pub H);

impl fmt::Debug for B32 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&hex(&self.0)) }
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

impl Serialize for B32 {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { hex(&self.0).serialize(s) }
}
impl<'de> Deserialize<'de> for B32 {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let v = unhex(&s).ok_or_else(|| serde::de::Error::custom("hex"))?;
        Ok(B32(v.try_into().map_err(|_| serde::de::Error::custom("length"))?))
    }
}

pub fn sha(b: &[u8]) -> H { Sha256::digest(b).into() }

pub fn tagged_engine(tag: &[u8]) -> Sha256 {
    let t = sha(tag);
    let mut e = Sha256::new();
    e.update(t);
    e.update(t);
    e
}

pub fn tagged(tag: &str, data: &[u8]) -> H {
    let mut e = tagged_engine(tag.as_bytes());
    e.update(data);
    e.finalize().into()
}

thread_local! {
    static MERKLE: Sha256 = tagged_engine(TAG_MERKLE.as_bytes());
}

fn merkle_tagged(data: &[u8]) -> H {
    let mut e = MERKLE.with(|m| m.clone());
    e.update(data);
    e.finalize().into()
}

pub fn leaf_bytes(pid: &H, msg: &H) -> Vec<u8> {
    let mut v = vec![0x10];
    v.extend(pid);
    v.extend(msg);
    v
}

pub fn placeholder_bytes(entropy: u64, pos: u32) -> Vec<u8> {
    let mut v = vec![0x11];
    v.extend(entropy.to_le_bytes());
    v.extend(pos.to_le_bytes());
    v
}

pub fn leaf(pid: &H, msg: &H) -> H { merkle_tagged(&leaf_bytes(pid, msg)) }
pub fn placeholder(entropy: u64, pos: u32) -> H { merkle_tagged(&placeholder_bytes(entropy, pos)) }

pub fn node_bytes(branching: u8, depth: u8, width: &H, n1: &H, n2: &H) -> Vec<u8> {
    let mut v = Vec::with_capacity(98);
    v.push(branching);
    v.push(depth);
    v.extend(width);
    v.extend(n1);
    v.extend(n2);
    v
}

pub fn u256_le(w: u64) -> H {
    let mut h = [0u8; 32];
    h[..8].copy_from_slice(&w.to_le_bytes());
    h
}

pub fn node(branching: u8, depth: u8, width: u64, n1: &H, n2: &H) -> H {
    merkle_tagged(&node_bytes(branching, depth, &u256_le(width), n1, n2))
}

pub fn branch(depth: u8, width: u64, n1: &H, n2: &H) -> H { node(2, depth, width, n1, n2) }

/// LNPBP-81 merklization.
pub fn merklize(leaves: &[H]) -> H {
    fn rec(l: &[H], width: u64, depth: u8) -> H {
        match l.len() {
            0 => node(0, depth, width, &VIRTUAL, &VIRTUAL),
            1 => node(1, depth, width, &l[0], &VIRTUAL),
            2 => node(2, depth, width, &l[0], &l[1]),
            n => {
                let first = n.div_ceil(2);
                let a = rec(&l[..first], width, depth + 1);
                let b = rec(&l[first..], width, depth + 1);
                node(2, depth, width, &a, &b)
            }
        }
    }
    if leaves.len() == 1 {
        return leaves[0];
    }
    rec(leaves, leaves.len() as u64, 0)
}

pub fn width(depth: u8) -> u32 { 1u32 << depth }

pub fn factored(depth: u8, cofactor: u16) -> u32 {
    let w = width(depth) as i64 - cofactor as i64;
    if w < 1 {
        1
    } else {
        w as u32
    }
}

/// Little-endian 256-bit integer modulo m.
pub fn mod_le(id: &H, m: u32) -> u32 {
    let mut r: u64 = 0;
    for b in id.iter().rev() {
        r = (r * 256 + *b as u64) % m as u64;
    }
    r as u32
}

pub fn slot(pid: &H, depth: u8, cofactor: u16) -> u32 { mod_le(pid, factored(depth, cofactor)) }

/// The id closest to `base` with the remainder `rem` modulo `m`.
pub fn mk_pid(rem: u32, m: u32, base: &H) -> H {
    let add = |h: &H, d: i64| -> Option<H> {
        let mut out = *h;
        let mut carry = d as i128;
        for o in out.iter_mut() {
            let x = *o as i128 + carry;
            *o = (x & 0xFF) as u8;
            carry = x >> 8;
        }
        (carry == 0).then_some(out)
    };
    let d = rem as i64 - mod_le(base, m) as i64;
    add(base, d).or_else(|| add(base, d - m as i64)).or_else(|| add(base, d + m as i64)).expect("fits")
}

pub fn commitment(depth: u8, cofactor: u16, root: &H) -> H {
    tagged(TAG_MPC, &concealed_bytes(depth, cofactor, root))
}

pub fn concealed_bytes(depth: u8, cofactor: u16, root: &H) -> Vec<u8> {
    let mut v = vec![depth];
    v.extend(cofactor.to_le_bytes());
    v.extend(root);
    v
}

/// Slot search of LNPBP-4. `Err(true)`: empty source; `Err(false)`: does not fit.
pub fn find_shape(pids: &[H], min_depth: u8) -> Result<(u8, u16), bool> {
    if pids.is_empty() && min_depth == 0 {
        return Err(true);
    }
    let mut prev_width = 1u64;
    for depth in min_depth..=31 {
        let w = 1u64 << depth;
        if w >= pids.len() as u64 {
            for cofactor in 0..=prev_width.min(500) as u16 {
                let mut seen = BTreeSet::new();
                if pids.iter().all(|p| seen.insert(slot(p, depth, cofactor))) {
                    return Ok((depth, cofactor));
                }
            }
        }
        prev_width = w;
    }
    Err(false)
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub enum Node {
    Hidden { depth: u8, hash: H },
    Leaf { pid: H, msg: H },
}

impl Node {
    pub fn depth_or(&self, d: u8) -> u8 {
        match self {
            Node::Hidden { depth, .. } => *depth,
            Node::Leaf { .. } => d,
        }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Fill {
    /// Empty slots have placeholders derived from the entropy (usable for small depths).
    Entropy(u64),
    /// Sub-trees without messages have arbitrary hashes (usable for any depth).
    Opaque(u64),
}

/// A complete commitment tree, possibly too deep to be materialised.
#[derive(Clone, Debug)]
pub struct Tree {
    pub depth: u8,
    pub cofactor: u16,
    pub leaves: BTreeMap<u32, (H, H)>,
    pub fill: Fill,
}

impl Tree {
    /// Any occupied leaf under the node `index` at the given depth?
    pub fn occupied(&self, depth: u8, index: u64) -> bool {
        let sh = self.depth - depth;
        let lo = index << sh;
        let hi = lo + (1u64 << sh) - 1;
        self.leaves.range(lo as u32..=hi as u32).next().is_some()
    }

    pub fn hash(&self, depth: u8, index: u64) -> H {
        let w = width(self.depth) as u64;
        if depth == self.depth {
            if let Some((p, m)) = self.leaves.get(&(index as u32)) {
                return leaf(p, m);
            }
        }
        if let Fill::Opaque(seed) = self.fill {
            if !self.occupied(depth, index) {
                let mut v = seed.to_le_bytes().to_vec();
                v.push(depth);
                v.extend(index.to_le_bytes());
                return sha(&v);
            }
        }
        if depth == self.depth {
            let Fill::Entropy(e) = self.fill else { unreachable!() };
            return placeholder(e, index as u32);
        }
        branch(depth, w, &self.hash(depth + 1, index * 2), &self.hash(depth + 1, index * 2 + 1))
    }

    pub fn root(&self) -> H {
        // The width-1 tree is its only leaf.
        self.hash(0, 0)
    }

    pub fn commitment(&self) -> H { commitment(self.depth, self.cofactor, &self.root()) }

    /// Siblings on the way from the root to the leaf: element 0 has depth 1.
    pub fn path(&self, pos: u32) -> Vec<H> {
        (1..=self.depth)
            .map(|d| self.hash(d, ((pos >> (self.depth - d)) ^ 1) as u64))
            .collect()
    }

    pub fn proof(&self, pos: u32) -> Proof {
        Proof { pos, cofactor: self.cofactor, path: self.path(pos) }
    }

    /// The coarsest cross-section which reveals exactly the leaves at the given slots.
    pub fn section(&self, keep: &BTreeSet<u32>) -> Vec<Node> {
        let mut out = vec![];
        self.section_rec(keep, 0, 0, &mut out, &mut |_, _| false);
        out
    }

    /// A cross-section which reveals exactly the given leaves; hidden sub-trees are split further
    /// when `split` says so.
    pub fn section_with(&self, keep: &BTreeSet<u32>, mut split: impl FnMut(u8, u64) -> bool) -> Vec<Node> {
        let mut out = vec![];
        self.section_rec(keep, 0, 0, &mut out, &mut split);
        out
    }

    fn section_rec(
        &self,
        keep: &BTreeSet<u32>,
        depth: u8,
        index: u64,
        out: &mut Vec<Node>,
        split: &mut impl FnMut(u8, u64) -> bool,
    ) {
        let sh = self.depth - depth;
        let lo = index << sh;
        let hi = lo + (1u64 << sh) - 1;
        let any = keep.range(lo as u32..=hi as u32).next().is_some();
        if depth == self.depth {
            if any {
                let (pid, msg) = self.leaves[&(index as u32)];
                out.push(Node::Leaf { pid, msg });
            } else {
                out.push(Node::Hidden { depth, hash: self.hash(depth, index) });
            }
            return;
        }
        let divisible = matches!(self.fill, Fill::Entropy(_)) || self.occupied(depth, index);
        if any || (divisible && split(depth, index)) {
            self.section_rec(keep, depth + 1, index * 2, out, split);
            self.section_rec(keep, depth + 1, index * 2 + 1, out, split);
        } else {
            out.push(Node::Hidden { depth, hash: self.hash(depth, index) });
        }
    }

    pub fn full_section(&self) -> Vec<Node> {
        let keep = self.leaves.keys().copied().collect();
        self.section_with(&keep, |_, _| true)
    }

    pub fn block(&self, keep: &BTreeSet<u32>) -> Block {
        Block { depth: self.depth, cofactor: self.cofactor, section: self.section(keep), entropy: None }
    }

    pub fn full_block(&self) -> Block {
        Block {
            depth: self.depth,
            cofactor: self.cofactor,
            section: self.full_section(),
            entropy: match self.fill {
                Fill::Entropy(e) => Some(e),
                Fill::Opaque(_) => None,
            },
        }
    }

    /// Strict encoding of the tree object.
    pub fn encode(&self) -> Vec<u8> {
        let Fill::Entropy(e) = self.fill else { panic!("no entropy") };
        let mut v = vec![0u8, self.depth];
        v.extend(e.to_le_bytes());
        v.extend(self.cofactor.to_le_bytes());
        let n = (self.leaves.len() as u32).to_le_bytes();
        v.extend(&n[..3]);
        let sorted: BTreeMap<H, H> = self.leaves.values().copied().collect();
        for (p, m) in &sorted {
            v.extend(p);
            v.extend(m);
        }
        v.extend(&n[..3]);
        for (pos, (p, m)) in &self.leaves {
            v.extend(pos.to_le_bytes());
            v.extend(p);
            v.extend(m);
        }
        v
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Proof {
    pub pos: u32,
    pub cofactor: u16,
    pub path: Vec<H>,
}

impl Proof {
    pub fn depth(&self) -> u8 { self.path.len() as u8 }

    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![0u8];
        v.extend(self.pos.to_le_bytes());
        v.extend(self.cofactor.to_le_bytes());
        v.push(self.path.len() as u8);
        for h in &self.path {
            v.extend(h);
        }
        v
    }

    /// Opens the proof. `Err(expected slot)` if the protocol does not belong to the position.
    pub fn open(&self, pid: &H, msg: &H) -> Result<H, u32> {
        let depth = self.depth();
        let expected = slot(pid, depth, self.cofactor);
        if expected != self.pos {
            return Err(expected);
        }
        let w = width(depth) as u64;
        let mut acc = leaf(pid, msg);
        for d in (0..depth).rev() {
            let sib = &self.path[d as usize];
            let right = (self.pos >> (depth - 1 - d)) & 1 == 1;
            acc = if right { branch(d, w, sib, &acc) } else { branch(d, w, &acc, sib) };
        }
        Ok(commitment(depth, self.cofactor, &acc))
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Block {
    pub depth: u8,
    pub cofactor: u16,
    pub section: Vec<Node>,
    pub entropy: Option<u64>,
}

impl Block {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![0u8, self.depth];
        v.extend(self.cofactor.to_le_bytes());
        v.extend((self.section.len() as u32).to_le_bytes());
        for n in &self.section {
            match n {
                Node::Hidden { depth, hash } => {
                    v.push(0);
                    v.push(*depth);
                    v.extend(hash);
                }
                Node::Leaf { pid, msg } => {
                    v.push(1);
                    v.extend(pid);
                    v.extend(msg);
                }
            }
        }
        match self.entropy {
            None => v.push(0),
            Some(e) => {
                v.push(1);
                v.extend(e.to_le_bytes());
            }
        }
        v
    }

    /// Parses the strict encoding; `None` if malformed.
    pub fn decode(b: &[u8]) -> Option<Block> {
        let mut r = b;
        let mut take = |n: usize| -> Option<&[u8]> {
            if r.len() < n {
                return None;
            }
            let (a, rest) = r.split_at(n);
            r = rest;
            Some(a)
        };
        if take(1)?[0] != 0 {
            return None;
        }
        let depth = take(1)?[0];
        if depth > 31 {
            return None;
        }
        let cofactor = u16::from_le_bytes(take(2)?.try_into().unwrap());
        let n = u32::from_le_bytes(take(4)?.try_into().unwrap());
        if n == 0 {
            return None;
        }
        let mut section = vec![];
        for _ in 0..n {
            match take(1)?[0] {
                0 => {
                    let depth = take(1)?[0];
                    if depth > 31 {
                        return None;
                    }
                    section.push(Node::Hidden { depth, hash: take(32)?.try_into().unwrap() })
                }
                1 => section.push(Node::Leaf {
                    pid: take(32)?.try_into().unwrap(),
                    msg: take(32)?.try_into().unwrap(),
                }),
                _ => return None,
            }
        }
        let entropy = match take(1)?[0] {
            0 => None,
            1 => Some(u64::from_le_bytes(take(8)?.try_into().unwrap())),
            _ => return None,
        };
        if !r.is_empty() {
            return None;
        }
        Some(Block { depth, cofactor, section, entropy })
    }

    /// Is the cross-section a left-to-right tiling of the tree? Returns the slots of the leaves.
    pub fn tiling(&self) -> Option<Vec<(u32, H, H)>> {
        if self.depth > 31 {
            return None;
        }
        let mut pos = 0u64;
        let mut out = vec![];
        for n in &self.section {
            let d = n.depth_or(self.depth);
            if d > self.depth {
                return None;
            }
            let size = 1u64 << (self.depth - d);
            if pos % size != 0 {
                return None;
            }
            if let Node::Leaf { pid, msg } = n {
                out.push((pos as u32, *pid, *msg));
            }
            pos += size;
            if pos > 1u64 << self.depth {
                return None;
            }
        }
        (pos == 1u64 << self.depth).then_some(out)
    }

    /// A tiling in which each leaf is at the slot of its protocol.
    pub fn well_formed(&self) -> bool {
        match self.tiling() {
            None => false,
            Some(l) => l.iter().all(|(pos, pid, _)| slot(pid, self.depth, self.cofactor) == *pos),
        }
    }

    /// Root of a block whose section is a tiling.
    pub fn root(&self) -> Option<H> {
        self.tiling()?;
        let w = width(self.depth) as u64;
        let mut stack: Vec<(u8, H)> = vec![];
        for n in &self.section {
            let mut cur = match n {
                Node::Hidden { depth, hash } => (*depth, *hash),
                Node::Leaf { pid, msg } => (self.depth, leaf(pid, msg)),
            };
            while let Some((d, h)) = stack.last().copied() {
                if d != cur.0 {
                    break;
                }
                stack.pop();
                cur = (d - 1, branch(d - 1, w, &h, &cur.1));
            }
            stack.push(cur);
        }
        (stack.len() == 1 && stack[0].0 == 0).then(|| stack[0].1)
    }

    pub fn commitment(&self) -> Option<H> { Some(commitment(self.depth, self.cofactor, &self.root()?)) }

    pub fn revealed(&self) -> BTreeMap<H, H> {
        self.section
            .iter()
            .filter_map(|n| match n {
                Node::Leaf { pid, msg } => Some((*pid, *msg)),
                _ => None,
            })
            .collect()
    }

    /// Hides all leaves but the given ones and aggregates; returns the number of hidden leaves plus
    /// the number of aggregations. `Err` lists the requested protocols which are not revealed.
    pub fn conceal_except(&mut self, keep: &[H]) -> Result<usize, BTreeSet<H>> {
        let known: BTreeSet<H> = self.revealed().into_keys().collect();
        let unknown: BTreeSet<H> = keep.iter().filter(|k| !known.contains(*k)).copied().collect();
        if !unknown.is_empty() {
            return Err(unknown);
        }
        let w = width(self.depth) as u64;
        let mut count = 0;
        let mut stack: Vec<Node> = vec![];
        let mut starts: Vec<u64> = vec![];
        let mut pos = 0u64;
        for n in &self.section {
            let mut cur = match n {
                Node::Leaf { pid, msg } if !keep.contains(pid) => {
                    count += 1;
                    Node::Hidden { depth: self.depth, hash: leaf(pid, msg) }
                }
                n => *n,
            };
            let mut start = pos;
            pos += 1u64 << (self.depth - cur.depth_or(self.depth));
            while let (Some(Node::Hidden { depth: d1, hash: h1 }), Node::Hidden { depth: d2, hash: h2 }) =
                (stack.last().copied(), cur)
            {
                let size = 1u64 << (self.depth - d2);
                let s1 = *starts.last().unwrap();
                if d1 != d2 || d1 == 0 || s1 % (2 * size) != 0 {
                    break;
                }
                stack.pop();
                starts.pop();
                start = s1;
                count += 1;
                cur = Node::Hidden { depth: d1 - 1, hash: branch(d1 - 1, w, &h1, &h2) };
            }
            stack.push(cur);
            starts.push(start);
        }
        self.section = stack;
        self.entropy = None;
        Ok(count)
    }

    /// The finest common cross-section with all leaves revealed by any of the two tilings of the
    /// same tree.
    pub fn merge(&self, other: &Block) -> Vec<Node> {
        let spans = |b: &Block| {
            let mut pos = 0u64;
            b.section
                .iter()
                .map(|n| {
                    let size = 1u64 << (b.depth - n.depth_or(b.depth));
                    let s = pos;
                    pos += size;
                    (s, size, *n)
                })
                .collect::<Vec<_>>()
        };
        let (a, b) = (spans(self), spans(other));
        let (mut i, mut j) = (0, 0);
        let mut out = vec![];
        while i < a.len() && j < b.len() {
            let (sa, za, na) = a[i];
            let (sb, zb, nb) = b[j];
            assert_eq!(sa, sb);
            if za == zb {
                out.push(if matches!(na, Node::Leaf { .. }) { na } else { nb });
                i += 1;
                j += 1;
            } else if za > zb {
                while j < b.len() && b[j].0 < sa + za {
                    out.push(b[j].2);
                    j += 1;
                }
                i += 1;
            } else {
                while i < a.len() && a[i].0 < sb + zb {
                    out.push(a[i].2);
                    i += 1;
                }
                j += 1;
            }
        }
        out
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn section_consistency() {
        let mut leaves = BTreeMap::new();
        leaves.insert(3, ([1; 32], [2; 32]));
        leaves.insert(6, ([3; 32], [4; 32]));
        let t = Tree { depth: 3, cofactor: 0, leaves, fill: Fill::Entropy(5) };
        let mut hs = vec![];
        for i in 0..8 {
            hs.push(t.hash(3, i));
        }
        assert_eq!(merklize(&hs), t.root());
        assert_eq!(t.full_block().root(), Some(t.root()));
        let b = t.block(&[3].into());
        assert_eq!(b.root(), Some(t.root()));
        let mut c = t.full_block();
        c.conceal_except(&[[1; 32]]).unwrap();
        assert_eq!(c.section, b.section);
        assert_eq!(t.block(&[6].into()).merge(&b), t.section(&[3, 6].into()));
        assert_eq!(Block::decode(&b.encode()), Some(b));
    }
}
