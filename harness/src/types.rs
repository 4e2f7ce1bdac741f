//! Data types used as subjects of commitments, each with a hand-written canonical encoding.

use amplify::confinement::{Confined, TinyVec};
use amplify::{Bytes32, Wrapper};
use commit_verify::merkle::MerkleLeaves;
use commit_verify::{
    CommitEncode, CommitEngine, CommitmentId, Conceal, DigestExt, MerkleHash, Sha256, StrictHash,
};
use serde::{Deserialize, Serialize};
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};

use crate::model;

pub const LIB: &str = "CsvTest";

/// Canonical encoding written by hand.
pub trait Canon {
    fn canon(&self) -> Vec<u8>;
}

/// Length prefix of a collection with the given maximal size.
pub fn len_prefix(len: usize, max: usize) -> Vec<u8> {
    let n = match max {
        m if m < 1 << 8 => 1,
        m if m < 1 << 16 => 2,
        m if m < 1 << 24 => 3,
        m if m < 1 << 32 => 4,
        _ => 8,
    };
    (len as u64).to_le_bytes()[..n].to_vec()
}

pub fn canon_list<'a, T: Canon + 'a>(items: impl ExactSizeIterator<Item = &'a T>, max: usize) -> Vec<u8> {
    let mut v = len_prefix(items.len(), max);
    for i in items {
        v.extend(i.canon());
    }
    v
}

impl<T: Canon> Canon for Option<T> {
    fn canon(&self) -> Vec<u8> {
        match self {
            None => vec![0],
            Some(x) => [vec![1], x.canon()].concat(),
        }
    }
}
macro_rules! canon_num {
    ($($t:ty),*) => {$(impl Canon for $t { fn canon(&self) -> Vec<u8> { self.to_le_bytes().to_vec() } })*}
}
canon_num!(u8, u16, u32, u64, u128, i16, i64);

macro_rules! id_type {
    ($name:ident, $tag:expr) => {
        #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
        #[derive(StrictDumb, strict_encoding::StrictType, strict_encoding::StrictEncode, strict_encoding::StrictDecode)]
        #[strict_type(lib = LIB)]
        pub struct $name(pub Bytes32);
        impl CommitmentId for $name {
            const TAG: &'static str = $tag;
        }
        impl From<Sha256> for $name {
            fn from(h: Sha256) -> Self { $name(Bytes32::from_array(h.finish())) }
        }
        impl $name {
            pub fn bytes(&self) -> model::H { *self.0.as_inner() }
        }
    };
}
id_type!(IdA, "urn:csv-test:a#2024");
id_type!(IdB, "urn:csv-test:b#2024");
id_type!(IdEmpty, "");

/// Orders by number, encodes as little-endian: the two orders differ.
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug, Serialize, Deserialize)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = MerkleHash)]
pub struct Elem(pub u64);
impl Canon for Elem {
    fn canon(&self) -> Vec<u8> { self.0.canon() }
}

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct Blob(pub TinyVec<u8>);
impl Blob {
    pub fn new(v: &[u8]) -> Blob { Blob(Confined::try_from(v[..v.len().min(255)].to_vec()).unwrap()) }
}
impl Canon for Blob {
    fn canon(&self) -> Vec<u8> { [len_prefix(self.0.len(), 255), self.0.to_vec()].concat() }
}

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = IdA)]
pub struct Rec {
    pub a: u16,
    pub b: Blob,
    pub c: Option<u32>,
    pub d: Blob,
}
impl Canon for Rec {
    fn canon(&self) -> Vec<u8> { [self.a.canon(), self.b.canon(), self.c.canon(), self.d.canon()].concat() }
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct Tup(pub u8, pub i64, pub u128);
impl Canon for Tup {
    fn canon(&self) -> Vec<u8> { [self.0.canon(), self.1.canon(), self.2.canon()].concat() }
}

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = custom)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = IdB)]
pub enum Kind {
    #[strict_type(tag = 0x07, dumb)]
    Void,
    #[strict_type(tag = 0x01)]
    Num(u16),
    #[strict_type(tag = 0xF0)]
    Pair { x: u8, y: Blob },
    #[strict_type(tag = 0x02)]
    Nested(Tup, Option<Elem>),
}
impl Canon for Kind {
    fn canon(&self) -> Vec<u8> {
        match self {
            Kind::Void => vec![7],
            Kind::Num(n) => [vec![1], n.canon()].concat(),
            Kind::Pair { x, y } => [vec![0xF0], x.canon(), y.canon()].concat(),
            Kind::Nested(t, e) => [vec![2], t.canon(), e.canon()].concat(),
        }
    }
}

#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = repr, into_u8, try_from_u8)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = IdEmpty)]
#[repr(u8)]
pub enum Prim {
    #[strict_type(dumb)]
    Low = 3,
    Mid = 0x80,
    High = 0xFF,
}
impl Prim {
    pub fn of(n: u8) -> Prim { [Prim::Low, Prim::Mid, Prim::High][n as usize % 3] }
}
impl Canon for Prim {
    fn canon(&self) -> Vec<u8> { vec![*self as u8] }
}

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = IdA)]
pub struct Gen<T: StrictDumb + StrictEncode + StrictDecode, const N: usize>
where [u8; N]: StrictDumb
{
    pub val: T,
    pub pad: [u8; N],
    pub num: u32,
}
impl<T: StrictDumb + StrictEncode + StrictDecode + Canon, const N: usize> Canon for Gen<T, N>
where [u8; N]: StrictDumb
{
    fn canon(&self) -> Vec<u8> { [self.val.canon(), self.pad.to_vec(), self.num.canon()].concat() }
}

/// Wrapper committing to its inner value.
#[derive(Wrapper, Clone, PartialEq, Eq, Hash, Debug, amplify::From)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = IdB)]
pub struct WrapRec(Rec);

#[derive(Wrapper, Copy, Clone, PartialEq, Eq, Hash, Debug, amplify::From)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = StrictHash)]
pub struct WrapNum(u64);

/// The wrapper has an encoding of its own, which the transparent strategy must not use.
#[derive(Wrapper, Clone, PartialEq, Eq, Hash, Debug, amplify::From)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = IdA)]
pub struct WrapKind(Kind);

/// Concealed form: discriminates only by the digest of the secret.
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Hidden(pub u8, pub [u8; 32]);
impl Canon for Hidden {
    fn canon(&self) -> Vec<u8> { [vec![self.0], self.1.to_vec()].concat() }
}
impl Conceal for Hidden {
    type Concealed = Hidden;
    fn conceal(&self) -> Hidden { *self }
}

/// A value with an encoding of any length.
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct Bulk(pub Confined<Vec<u8>, 0, 0xFFFF_FFFF>);
impl Bulk {
    pub fn new(v: Vec<u8>) -> Bulk { Bulk(Confined::try_from(v).unwrap()) }
}
impl Canon for Bulk {
    fn canon(&self) -> Vec<u8> { [len_prefix(self.0.len(), 0xFFFF_FFFF), self.0.to_vec()].concat() }
}
impl Conceal for Bulk {
    type Concealed = Bulk;
    fn conceal(&self) -> Bulk { Bulk::new(self.0.iter().rev().copied().collect()) }
}
/// Commits to its concealed form, which is as large as the value.
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = IdB)]
pub struct BulkSecret(pub Bulk);
impl Conceal for BulkSecret {
    type Concealed = Bulk;
    fn conceal(&self) -> Bulk { self.0.conceal() }
}

#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = IdA)]
pub struct Secret {
    pub kind: u8,
    pub data: Blob,
    pub note: Option<u64>,
}
impl Canon for Secret {
    fn canon(&self) -> Vec<u8> { [self.kind.canon(), self.data.canon(), self.note.canon()].concat() }
}
impl Secret {
    /// What the concealed form must be (the note is not committed to).
    pub fn hidden(&self) -> Hidden { Hidden(self.kind, model::sha(&self.data.canon())) }
}
impl Conceal for Secret {
    type Concealed = Hidden;
    fn conceal(&self) -> Hidden { self.hidden() }
}

/// Commits to the Merkle root of its elements and to nothing else.
#[derive(Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = IdA)]
pub struct Forest {
    pub salt: u16,
    pub items: TinyVec<Elem>,
}
impl MerkleLeaves for Forest {
    type Leaf = Elem;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Elem> { self.items.iter() }
}

/// Concealable enum which is its own concealed form.
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = order)]
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = IdB)]
pub enum Face {
    #[strict_type(dumb)]
    Blank,
    Open(u8, Blob),
    Named { x: u16, y: Option<u64> },
    Shut(u8, [u8; 32]),
}
impl Canon for Face {
    fn canon(&self) -> Vec<u8> {
        match self {
            Face::Blank => vec![0],
            Face::Open(a, b) => [vec![1, *a], b.canon()].concat(),
            Face::Named { x, y } => [vec![2], x.canon(), y.canon()].concat(),
            Face::Shut(a, h) => [vec![3, *a], h.to_vec()].concat(),
        }
    }
}
impl Face {
    pub fn shut(&self) -> Face {
        match self {
            Face::Blank | Face::Shut(..) => self.clone(),
            Face::Open(a, b) => Face::Shut(*a, model::sha(&b.canon())),
            Face::Named { x, .. } => Face::Shut(0, model::sha(&x.canon())),
        }
    }
}
impl Conceal for Face {
    type Concealed = Face;
    fn conceal(&self) -> Face { self.shut() }
}

/// Generic concealable value.
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = IdA)]
pub struct Veil<T: StrictDumb + StrictEncode + StrictDecode + Canon> {
    pub val: T,
    pub note: u8,
}
impl<T: StrictDumb + StrictEncode + StrictDecode + Canon> Veil<T> {
    pub fn hidden(&self) -> Hidden { Hidden(0x5A, model::sha(&self.val.canon())) }
}
impl<T: StrictDumb + StrictEncode + StrictDecode + Canon> Conceal for Veil<T> {
    type Concealed = Hidden;
    fn conceal(&self) -> Hidden { self.hidden() }
}

/// The wrapped value is neither the first nor the only field.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = IdB)]
pub struct WrapTail {
    pub extra: u8,
    pub inner: Rec,
}
impl Wrapper for WrapTail {
    type Inner = Rec;
    fn from_inner(inner: Rec) -> Self { WrapTail { extra: 0, inner } }
    fn as_inner(&self) -> &Rec { &self.inner }
    fn into_inner(self) -> Rec { self.inner }
}

/// Generic wrapper.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = StrictHash)]
pub struct WrapGen<T: StrictDumb + StrictEncode, const N: u8>(pub T);
impl<T: StrictDumb + StrictEncode, const N: u8> Wrapper for WrapGen<T, N> {
    type Inner = T;
    fn from_inner(inner: T) -> Self { WrapGen(inner) }
    fn as_inner(&self) -> &T { &self.0 }
    fn into_inner(self) -> T { self.0 }
}

/// A wrapper with a canonical encoding of its own, other than that of the wrapped value.
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = IdA)]
pub struct WrapCoded {
    pub extra: u32,
    pub inner: Elem,
}
impl Wrapper for WrapCoded {
    type Inner = Elem;
    fn from_inner(inner: Elem) -> Self { WrapCoded { extra: 0, inner } }
    fn as_inner(&self) -> &Elem { &self.inner }
    fn into_inner(self) -> Elem { self.inner }
}

/// Merklized enum, and an array of constant size.
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = IdB)]
pub enum Grove {
    Few(TinyVec<Choice>),
    Many { salt: u64, items: Vec<Choice> },
    Bare,
}
impl MerkleLeaves for Grove {
    type Leaf = Choice;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Choice> {
        match self {
            Grove::Few(v) => v.iter(),
            Grove::Many { items, .. } => items.iter(),
            Grove::Bare => [].iter(),
        }
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = MerkleHash)]
pub struct Row<const N: usize>(pub [Elem; N]);
impl<const N: usize> MerkleLeaves for Row<N> {
    type Leaf = Elem;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Elem> { self.0.iter() }
}

/// Borrowed data.
#[derive(Clone, PartialEq, Eq, Debug)]
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = StrictHash)]
pub struct View<'a, T: Clone>(pub &'a [Elem], pub T);
impl<'a, T: Clone> MerkleLeaves for View<'a, T> {
    type Leaf = Elem;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Elem> { self.0.iter() }
}

/// Elements which are enums with different encodings.
#[derive(Clone, Ord, PartialOrd, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB, tags = order)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = MerkleHash)]
pub enum Choice {
    #[strict_type(dumb)]
    None,
    Small(u8),
    Big(Blob),
}
impl Canon for Choice {
    fn canon(&self) -> Vec<u8> {
        match self {
            Choice::None => vec![0],
            Choice::Small(n) => vec![1, *n],
            Choice::Big(b) => [vec![2], b.canon()].concat(),
        }
    }
}

/// A value with a hand-written sequence of steps.
#[derive(Clone, Eq, PartialEq, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Multi {
    pub num: Elem,
    pub opt: Option<Rec>,
    pub hashed: Tup,
    pub secret: Secret,
    pub leaves: TinyVec<Elem>,
    pub list: TinyVec<Blob>,
}
impl CommitEncode for Multi {
    type CommitmentId = IdB;
    fn commit_encode(&self, e: &mut CommitEngine) {
        e.commit_to_serialized(&self.num);
        e.commit_to_option(&self.opt);
        e.commit_to_hash(&self.hashed);
        e.commit_to_concealed(&self.secret);
        e.commit_to_merkle(&self.leaves);
        e.commit_to_linear_list(&self.list);
    }
}
impl Canon for Multi {
    /// What is committed to.
    fn canon(&self) -> Vec<u8> {
        let leaves: Vec<_> = self.leaves.iter().map(|l| model::tagged(model::TAG_MERKLE, &l.canon())).collect();
        [
            self.num.canon(),
            self.opt.canon(),
            model::tagged(model::TAG_STRICT, &self.hashed.canon()).to_vec(),
            self.secret.hidden().canon(),
            model::merklize(&leaves).to_vec(),
            canon_list(self.list.iter(), 255),
        ]
        .concat()
    }
}

pub fn strict_name<T: StrictType>() -> String {
    format!("{}.{}", T::STRICT_LIB_NAME, T::strict_name().expect("name"))
}
