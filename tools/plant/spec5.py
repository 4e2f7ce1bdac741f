import os, importlib.util
_s = importlib.util.spec_from_file_location('spec2', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec2.py')); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
SEAL, REP = _m.SEAL, _m.REP
T = 'commit_verify/src/mpc/tree.rs'; B = 'commit_verify/src/mpc/block.rs'; A = 'commit_verify/src/mpc/atoms.rs'
I = 'commit_verify/src/id.rs'; M = 'commit_verify/src/merkle.rs'; L = 'commit_verify/src/lib.rs'; V = 'commit_verify/src/vesper.rs'
S = 'single_use_seals/src/lib.rs'; API = 'src/api.rs'; D = 'commit_verify/derive/src/derive.rs'; EM = 'commit_verify/src/embed.rs'
P = 'commit_verify/derive/src/params.rs'; CV = 'commit_verify/src/convolve.rs'; CO = 'commit_verify/src/commit.rs'
DG = 'commit_verify/src/digest.rs'
HEAD = '''
#![allow(dead_code)]
use strict_encoding::{StrictDecode, StrictDumb, StrictEncode, StrictType};
'''
BUGS = [
dict(id='C33-const-where', property='C33', derive=True,
 edits=[(D, '        let trait_crate = &self.conf.commit_crate;\n', '''        // Bounds are needed only for the type parameters
        let where_clause = where_clause.filter(|_| self.data.generics.type_params().next().is_some());
        let trait_crate = &self.conf.commit_crate;
''')],
 needs='a where clause on a type without type parameters', breaks='a valid definition does not compile',
 demo=HEAD + '''
use commit_verify::{CommitEncode, CommitId, StrictHash};
pub struct Len<const N: usize>;
pub trait Even {}
impl Even for Len<2> {}
impl Even for Len<4> {}
#[derive(Clone, Eq, PartialEq, StrictType, StrictDumb, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = "Demo")]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct Words<const N: usize>
where Len<N>: Even
{
    words: [u8; 4],
}
fn main() {
    let w = Words::<2> { words: [1; 4] };
    let _: StrictHash = w.commit_id();
}
'''),
dict(id='C33-fixed-crate', property='C33', derive=True,
 edits=[(D, '        let inner = match self.conf.strategy {', '''        // Inside of the library itself its name is not known
        let conceal = match trait_crate.is_ident("crate") {
            true => quote! { crate::Conceal },
            false => quote! { commit_verify::Conceal },
        };
        let inner = match self.conf.strategy {'''), (D, 'use #trait_crate::Conceal;', 'use #conceal;')],
 needs='the library under another name and the conceal strategy', breaks='a valid definition does not compile',
 demo='// library: library' + HEAD + '''
use library::{CommitEncode, CommitId, Conceal, StrictHash};
#[derive(Clone, Eq, PartialEq, StrictType, StrictDumb, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = "Demo")]
#[commit_encode(crate = library, strategy = strict, id = StrictHash)]
pub struct Plain(u8);
#[derive(Clone, Eq, PartialEq, StrictType, StrictDumb, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = "Demo")]
#[commit_encode(crate = library, strategy = conceal, id = StrictHash)]
pub struct Hidden(u8);
impl Conceal for Hidden {
    type Concealed = Self;
    fn conceal(&self) -> Self { Hidden(0) }
}
fn main() {
    assert_ne!(Plain(1).commit_id(), Plain(2).commit_id());
    assert_eq!(Hidden(1).commit_id(), Hidden(2).commit_id());
}
'''),
dict(id='C33-strategy-path', property='C33', derive=True,
 edits=[(P, '        match path.to_token_stream().to_string().as_str() {', '''        // Strategies may be given with a path
        let name = path.segments.last().map(|segment| segment.ident.to_string());
        match name.unwrap_or_else(|| path.to_token_stream().to_string()).as_str() {''')],
 needs='a strategy of another module, or with arguments', breaks='an unknown strategy is taken for a known one',
 demo=HEAD + '''
use commit_verify::{CommitEncode, CommitId, StrictHash};
#[derive(Clone, Eq, PartialEq, StrictType, StrictDumb, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = "Demo")]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct Plain(u8);
fn main() { assert_ne!(Plain(1).commit_id(), Plain(2).commit_id()); }
''', wrong=[HEAD + '''
use commit_verify::{CommitEncode, CommitId, StrictHash};
#[derive(Clone, Eq, PartialEq, StrictType, StrictDumb, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = "Demo")]
#[commit_encode(strategy = hashed::strict, id = StrictHash)]
pub struct Plain(u8);
fn main() { assert_ne!(Plain(1).commit_id(), Plain(2).commit_id()); }
''']),
dict(id='C33-default-strategy', property='C33', derive=True,
 edits=[(P, 'ATTR_STRATEGY => ArgValueReq::required(TypeClass::Path),', 'ATTR_STRATEGY => ArgValueReq::optional(TypeClass::Path),'),
  (P, 'params.arg_value(ATTR_STRATEGY).expect("must be present");', 'params.arg_value(ATTR_STRATEGY).unwrap_or_else(|_| path!(strict));')],
 needs='a definition without strategy', breaks='an unclear definition is given a meaning',
 demo=HEAD + '''
use commit_verify::{CommitEncode, CommitId, StrictHash};
#[derive(Clone, Eq, PartialEq, StrictType, StrictDumb, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = "Demo")]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct Plain(u8);
fn main() { assert_ne!(Plain(1).commit_id(), Plain(2).commit_id()); }
''', wrong=[HEAD + '''
use commit_verify::{CommitEncode, CommitId, StrictHash};
#[derive(Clone, Eq, PartialEq, StrictType, StrictDumb, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = "Demo")]
#[commit_encode(id = StrictHash)]
pub struct Plain(u8);
fn main() { assert_ne!(Plain(1).commit_id(), Plain(2).commit_id()); }
''']),
dict(id='C33-unknown-argument', property='C33', derive=True,
 edits=[(P, '        params.check(req)?;\n', '''        // Arguments of other crates are not of our concern
        for name in [ATTR_ID, ATTR_STRATEGY] {
            if !params.args.contains_key(name) {
                params.check(req)?;
                break;
            }
        }
''')],
 needs='an argument with a misspelt name', breaks='a misnamed argument is ignored',
 demo=HEAD + '''
use commit_verify::{CommitEncode, CommitId, StrictHash};
#[derive(Clone, Eq, PartialEq, StrictType, StrictDumb, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = "Demo")]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct Plain(u8);
fn main() { assert_ne!(Plain(1).commit_id(), Plain(2).commit_id()); }
''', wrong=[HEAD + '''
use commit_verify::{CommitEncode, CommitId, StrictHash};
#[derive(Clone, Eq, PartialEq, StrictType, StrictDumb, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = "Demo")]
#[commit_encode(strategy = strict, id = StrictHash, tag = Other)]
pub struct Plain(u8);
fn main() { assert_ne!(Plain(1).commit_id(), Plain(2).commit_id()); }
''']),
dict(id='C33-defaults', property='C33', derive=True,
 edits=[(D, '        let (impl_generics, ty_generics, where_clause) = self.data.generics.split_for_impl();', '''        let (_, ty_generics, where_clause) = self.data.generics.split_for_impl();
        let impl_generics = &self.data.generics;''')],
 needs='a type with a default for one of its parameters', breaks='a valid definition does not compile',
 demo=HEAD + '''
use commit_verify::{CommitEncode, CommitId, StrictHash};
#[derive(Clone, Eq, PartialEq, StrictType, StrictDumb, StrictEncode, StrictDecode, CommitEncode)]
#[strict_type(lib = "Demo")]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct Item<const N: usize>(u8);
#[derive(Clone, CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct List<const N: usize = 3>(Item<N>);
impl<const N: usize> StrictType for List<N> {
    const STRICT_LIB_NAME: &'static str = "Demo";
}
impl<const N: usize> StrictEncode for List<N> {
    fn strict_encode<W: strict_encoding::TypedWrite>(&self, w: W) -> std::io::Result<W> { self.0.strict_encode(w) }
}
fn main() {
    let a: List = List(Item(1));
    let b: List = List(Item(2));
    assert_ne!(a.commit_id(), b.commit_id());
}
'''),
dict(id='C13-first-field', property='C13',
 edits=[(D, '''                use amplify::Wrapper;
                engine.commit_to_serialized(self.as_inner());''', '''                engine.commit_to_serialized(&self.0);''')],
 needs='a wrapper whose wrapped field is not the first one', breaks='another field is committed to instead of the wrapped one',
 demo='''
use strict_encoding::{StrictDumb, StrictType};
use amplify::{From, Wrapper as W};
#[derive(W, Clone, PartialEq, Eq, Debug, From)]
#[wrapper(Deref)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = StrictHash)]
pub struct Tagged<const T: u8>(std::marker::PhantomData<()>, #[wrap] #[from] u32);
fn main() {
    assert_ne!(Tagged::<1>::from(1).commit_id(), Tagged::<1>::from(2).commit_id());
}
'''),
dict(id='C08-node-index', property='C08',
 edits=[(B, '        self.conceal_other(protocol_id)?;\n        let mut map', '''        let pos = self
            .known_protocol_ids()
            .next()
            .and_then(|_| self.cross_section.iter().position(|node| {
                matches!(node, TreeNode::CommitmentLeaf { protocol_id: id, .. } if *id == protocol_id)
            }))
            .unwrap_or_default() as u32;
        self.conceal_other(protocol_id)?;
        let mut map'''), (B, '            pos: self.protocol_id_pos(protocol_id),\n            cofactor: self.cofactor,\n            path', '            pos,\n            cofactor: self.cofactor,\n            path')],
 needs='a block where some nodes before the leaf are already aggregated', breaks='the proof of a partially concealed block has a wrong position',
 demo='''
fn main() {
    let all = (0..8u64).map(|n| (pid(n), msg(n))).collect::<Vec<_>>();
    let full = MerkleBlock::from(&tree(3, 1, &all));
    for (id, _) in &all {
        let proof = full.to_merkle_proof(*id).unwrap();
        for (other, _) in &all {
            let mut part = full.clone();
            part.conceal_except([*id, *other]).unwrap();
            assert_eq!(part.to_merkle_proof(*id).unwrap(), proof);
        }
    }
}
'''),
dict(id='C09-wide', property='C09',
 edits=[(A, '    pub fn entropy(entropy: u64, pos: u32) -> Self { Self::Entropy { entropy, pos } }', '''    pub fn entropy(entropy: u64, pos: u32) -> Self {
        // the entropy is mixed with the position in the tree
        let entropy = entropy.checked_shl(pos >> 9).unwrap_or_default();
        Self::Entropy { entropy, pos }
    }''')],
 needs='a tree of more than 512 leaves', breaks='placeholders far in the tree do not depend on all of the entropy',
 demo='''
fn main() {
    // all placeholders at the far end of two trees
    let set = |e: u64| {
        let mut b = MerkleBlock::from(&tree(12, e, &[(pid(1), msg(1))]));
        b.conceal_except([pid(1)]).unwrap();
        let raw = bytes(&b);
        raw[raw.len() - 33..].to_vec()
    };
    assert_ne!(set(1 << 61), set(1 << 62));
}
'''),
dict(id='C16-fast-path', property='C16',
 edits=[(T, '''        fn try_commit(source: &MultiSource) -> Result<Self, Error> {
''', '''        fn verify(&self, source: &MultiSource) -> Result<(), crate::VerifyError> {
            // Nothing to search for if the tree is about the same messages
            if self.method == source.method &&
                self.depth >= source.min_depth &&
                source.static_entropy == Some(self.entropy) &&
                source.messages == self.messages
            {
                return Ok(());
            }
            match Self::try_commit(source) {
                Ok(tree) if tree == *self => Ok(()),
                Ok(_) => Err(crate::VerifyError::InvalidCommitment),
                Err(_) => Err(crate::VerifyError::InvalidMessage),
            }
        }

        fn try_commit(source: &MultiSource) -> Result<Self, Error> {
''')],
 needs='a source with the same messages and entropy and a smaller minimal depth', breaks='a tree verifies against a source which commits to another tree',
 demo='''
fn main() {
    let list = [(pid(1), msg(1)), (pid(2), msg(2))];
    for d in 1..8u8 {
        let t = tree(d, 9, &list);
        for e in 1..8u8 {
            assert_eq!(t.verify(&source(e, 9, &list)).is_ok(), d == e, "{d} {e}");
        }
    }
}
'''),
dict(id='C18-one-of-two', property='C18',
 edits=[(CV, '''        if !self.verify_eq(&proof) {
            return Err(ConvolveVerifyError::InvalidProof);
        }
        if !commitment.verify_eq(&commitment_prime) {''', '''        let committed = commitment.verify_eq(&commitment_prime);
        // The proof matters only for what it commits to
        if !committed && !self.verify_eq(&proof) {
            return Err(ConvolveVerifyError::InvalidProof);
        }
        if !committed {''')],
 needs='a proof which is not the one of the commitment but restores the same original', breaks='a wrong proof is accepted',
 demo='''
struct P;
impl CommitmentProtocol for P {}
#[derive(Clone, PartialEq, Eq, Debug)] struct Src(u8);
#[derive(Clone, PartialEq, Eq, Debug)] struct Pr { orig: u8, suppl: u8, check: u8 }
impl ConvolveCommitProof<u8, Src, P> for Pr {
    type Suppl = u8;
    fn restore_original(&self, _: &u8) -> Src { Src(self.orig) }
    fn extract_supplement(&self) -> &u8 { &self.suppl }
}
#[derive(Debug)] struct E;
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "e") } }
impl std::error::Error for E {}
impl ConvolveCommit<u8, Pr, P> for Src {
    type Commitment = u8;
    type CommitError = E;
    fn convolve_commit(&self, suppl: &u8, msg: &u8) -> Result<(u8, Pr), E> {
        Ok((self.0 ^ suppl ^ msg, Pr { orig: self.0, suppl: *suppl, check: self.0.wrapping_add(*suppl) }))
    }
}
fn main() {
    let (c, mut p) = Src(7).convolve_commit(&9, &3).unwrap();
    assert_eq!(ConvolveCommitProof::<u8, Src, P>::verify(&p, &3, &c), Ok(()));
    p.check ^= 1;
    assert_eq!(ConvolveCommitProof::<u8, Src, P>::verify(&p, &3, &c), Err(ConvolveVerifyError::InvalidProof));
}
'''),
dict(id='C19-leaf-tag', property='C19',
 edits=[(A, '''#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = crate::LIB_NAME_COMMIT_VERIFY, tags = custom)]''', '''#[derive(StrictType, StrictEncode)]
#[strict_type(lib = crate::LIB_NAME_COMMIT_VERIFY, tags = custom)]'''),
  (A, 'impl StrictDumb for Leaf {', '''impl strict_encoding::StrictDecode for Leaf {
    fn strict_decode(
        reader: &mut impl strict_encoding::TypedRead,
    ) -> Result<Self, strict_encoding::DecodeError> {
        // the lowest bit of the tag tells the variant
        let tag = u8::strict_decode(reader)?;
        Ok(match tag & 0x01 {
            0 => Leaf::Inhabited {
                protocol: ProtocolId::strict_decode(reader)?,
                message: Message::strict_decode(reader)?,
            },
            _ => Leaf::Entropy {
                entropy: u64::strict_decode(reader)?,
                pos: u32::strict_decode(reader)?,
            },
        })
    }
}

impl StrictDumb for Leaf {''')],
 needs='a leaf with an unknown tag', breaks='unknown tags are accepted and do not encode back to the same bytes',
 demo='''
fn main() {
    for tag in 0..=255u8 {
        let mut raw = vec![tag];
        raw.extend([5u8; 64]);
        raw.truncate(if tag == 0x11 { 13 } else { 65 });
        if let Some(leaf) = decode::<Leaf>(&raw) { assert_eq!(bytes(&leaf), raw); }
        raw.truncate(13);
        if let Some(leaf) = decode::<Leaf>(&raw) { assert_eq!(bytes(&leaf), raw); }
    }
}
'''),
dict(id='C29-from-root', property='C29',
 edits=[(M, '        if depth == D::default() {\n            return false;\n        }', '''        if depth == D::default() || (self.stack.is_none() && self.buoy == D::default()) {
            return false;
        }''')],
 needs='a tracker which starts at the root', breaks='a tracker of the whole tree tells that it is complete from the beginning',
 demo='''
fn main() {
    let mut buoy = MerkleBuoy::<u5>::new(u5::with(0));
    buoy.push(u5::with(3));
    assert_eq!(buoy.level(), u5::with(3));
    buoy.push(u5::with(3));
    assert_eq!(buoy.level(), u5::with(2));
}
'''),
dict(id='C20-reported-position', property='C20',
 edits=[(B, """    /// Used to determine chirality of the node hashing partners on each step
    /// of the path.
    #[getter(as_copy)]
    pos: u32,""", """    /// Used to determine chirality of the node hashing partners on each step
    /// of the path.
    #[getter(skip)]
    pos: u32,"""), (B, """    /// Computes the depth of the merkle tree.
    pub fn depth(&self) -> u5 { u5::with(self.path.len() as u8) }
""", """    /// Position of the leaf in the tree.
    pub fn pos(&self) -> u32 { self.pos % self.width_limit() }

    /// Computes the depth of the merkle tree.
    pub fn depth(&self) -> u5 { u5::with(self.path.len() as u8) }
""")],
 needs='a proof with a position outside of the tree', breaks='the object reports another field value than the one it encodes',
 demo="""
fn main() {
    let mut raw = vec![0u8];
    raw.extend(5u32.to_le_bytes());
    raw.extend([0, 0, 1]);
    raw.extend([3; 32]);
    let p = decode::<MerkleProof>(&raw).unwrap();
    assert_eq!(bytes(&p), raw);
    assert_eq!(p.pos(), 5);
}
"""),
]
