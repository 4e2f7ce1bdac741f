import os, importlib.util
_s = importlib.util.spec_from_file_location('spec2', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec2.py')); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
SEAL, REP = _m.SEAL, _m.REP
T = 'commit_verify/src/mpc/tree.rs'; B = 'commit_verify/src/mpc/block.rs'; A = 'commit_verify/src/mpc/atoms.rs'
I = 'commit_verify/src/id.rs'; M = 'commit_verify/src/merkle.rs'; L = 'commit_verify/src/lib.rs'; V = 'commit_verify/src/vesper.rs'
S = 'single_use_seals/src/lib.rs'; API = 'src/api.rs'; D = 'commit_verify/derive/src/derive.rs'
BUGS = [
dict(id='C07-concealed-shortcut', property='C07',
 edits=[(B, '        let orig = self.clone();\n        let base_root', '''        if other.known_protocol_ids().next().is_none() {
            // the other block has nothing to reveal
            return Ok(self.cross_section.len() as u16);
        }
        let orig = self.clone();
        let base_root''')],
 needs='merging a block which reveals no messages: of another commitment, or with a finer cross-section', breaks='unrelated blocks are merged without an error',
 demo='''
fn main() {
    let mut a = MerkleBlock::from(&tree(3, 1, &[(pid(1), msg(1))]));
    let mut b = MerkleBlock::from(&tree(3, 2, &[(pid(1), msg(2))]));
    b.conceal_except([]).unwrap();
    assert!(a.merge_reveal(b).is_err());
}
'''),
dict(id='C06-offset-u16', property='C06',
 edits=[(B, 'if offset % pow != 0 {', 'if offset as u16 as u32 % pow != 0 {')],
 needs='a block deeper than 16 levels with adjacent concealed nodes which are not siblings, beyond position 65535', breaks='nodes which are not siblings are merged',
 demo='''
fn main() {
    // depth 20: a message at 0, another one at 3 * 2^16
    let (d, p1, p2) = (20u8, 0u32, 3u32 << 16);
    let mut nodes: Vec<Vec<u8>> = vec![];
    let hidden = |depth: u8| { let mut v = vec![0u8, depth]; v.extend([depth; 32]); v };
    let leaf = |p: u32| { let mut v = vec![1u8]; let mut id = [0u8; 32]; id[..4].copy_from_slice(&p.to_le_bytes()); v.extend(id); v.extend([9u8; 32]); v };
    nodes.push(leaf(p1));
    for depth in (5..=d).rev() { nodes.push(hidden(depth)); }
    nodes.push(hidden(4)); nodes.push(hidden(4));
    nodes.push(leaf(p2));
    for depth in (5..=d).rev() { nodes.push(hidden(depth)); }
    nodes.push(hidden(2)); nodes.push(hidden(1));
    let mut raw = vec![0u8, d, 0, 0];
    raw.extend((nodes.len() as u32).to_le_bytes());
    for n in &nodes { raw.extend(n); }
    raw.push(0);
    let block: MerkleBlock = decode(&raw).expect("block");
    let ids = block.known_protocol_ids().collect::<Vec<_>>();
    assert_eq!(ids.len(), 2);
    let mut b = block.clone();
    assert_eq!(b.conceal_except(&ids), Ok(0));
    assert_eq!(b, block);
}
'''),
dict(id='C04-perfect-fit', property='C04',
 edits=[(T, 'if width_limit as usize >= msg_count {', 'if width_limit as usize > msg_count || depth == u5::ZERO {')],
 needs='messages which occupy every slot of the smallest tree', breaks='a deeper tree than necessary is created',
 demo='''
fn main() { let l = (0..8).map(|i| (pid(i), msg(i))).collect::<Vec<_>>(); let t = tree(3, 1, &l); assert_eq!((t.depth().to_u8(), t.cofactor()), (3, 0)); }
'''),
dict(id='C13-generic-conceal', property='C13',
 edits=[(D, '''            StrategyAttr::Strict => quote! {''', '''            StrategyAttr::ConcealStrict if self.data.generics.lt_token.is_some() => quote! {
                engine.commit_to_serialized(self);
            },
            StrategyAttr::Strict => quote! {''')],
 needs='a generic type with the conceal strategy', breaks='the id is computed from the revealed form of the data',
 demo='''
use strict_encoding::{StrictDumb, StrictType};
#[derive(Clone, Copy, PartialEq, Eq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Demo")]
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = StrictHash)]
struct G<T: StrictDumb + StrictEncode + StrictDecode + Copy>(u8, T);
impl<T: StrictDumb + StrictEncode + StrictDecode + Copy> Conceal for G<T> { type Concealed = Self; fn conceal(&self) -> Self { G(self.0 % 16, self.1) } }
fn main() { assert_eq!(G(17, 3u8).commit_id(), G(1, 3u8).commit_id()); }
'''),
dict(id='C25-phantom-field', property='C25',
 edits=[(S, '    #[cfg_attr(feature = "serde", serde(skip))]\n', '')],
 needs='a witness in a self-describing serde format', breaks='there is a third field',
 demo=SEAL + '''
fn main() { let v = serde_json::to_value(SealWitness::<Seal>::new(Pub { seals: 1, ok: 2 }, Cli { ok: 1 })).unwrap(); assert_eq!(v.as_object().unwrap().len(), 2); }
'''),
dict(id='C27-shared-seal', property='C27',
 edits=[(API, '''            for seal in item.single_use_seals() {
''', '''            let mut last = std::ptr::null();
            for seal in item.single_use_seals() {
                let ptr = seal as *const _;
                if std::mem::replace(&mut last, ptr) == ptr {
                    // we have just resolved this one
                    continue;
                }
''')],
 needs='an item which gives the same seal twice in a row', breaks='a seal is resolved once instead of twice',
 demo=REP + '''
struct Item2 { seal: u8 }
impl<'a> ClientData<'a> for Item2 { type ValidationReport = Rep; type SealIterator = std::vec::IntoIter<&'a u8>;
    fn single_use_seals(&'a self) -> Self::SealIterator { vec![&self.seal, &self.seal].into_iter() }
    fn validate_internal_consistency(&'a self) -> Status<Rep> { Status::new() } }
struct Set2 { items: Vec<Item2> }
impl<'a> ClientData<'a> for Set2 { type ValidationReport = Rep; type SealIterator = std::slice::Iter<'a, u8>;
    fn single_use_seals(&'a self) -> Self::SealIterator { [].iter() }
    fn validate_internal_consistency(&'a self) -> Status<Rep> { Status::new() } }
impl<'a> ClientSideValidate<'a> for Set2 { type ValidationItem = Item2; type ValidationIter = std::slice::Iter<'a, Item2>;
    fn validation_iter(&'a self) -> Self::ValidationIter { self.items.iter() } }
fn main() {
    let set: &'static Set2 = Box::leak(Box::new(Set2 { items: vec![Item2 { seal: 200 }] }));
    let res: &'static mut Res = Box::leak(Box::new(Res { seen: vec![] }));
    assert_eq!(set.client_side_validate(res).seal_issues.len(), 2);
}
'''),
dict(id='C29-third-level', property='C29',
 edits=[(M, '''            .map(MerkleBuoy::level)
''', '''            .map(|stack| stack.stack.as_ref().map(|top| top.buoy).unwrap_or(stack.buoy))
''')],
 needs='more than three incomplete sub-trees inside of each other', breaks='the level is not that of the right-most incomplete sub-tree',
 demo='''
fn main() {
    let mut b = MerkleBuoy::<u5>::new(u5::with(1));
    for d in [2u8, 3, 4, 5] { b.push(u5::with(d)); assert_eq!(b.level(), u5::with(d)); }
}
'''),
dict(id='C30-attempts', property='C30', release=True,
 edits=[(T, 'const COFACTOR_ATTEMPTS: u16 = 500;', 'const COFACTOR_ATTEMPTS: u16 = if cfg!(debug_assertions) { 500 } else { 250 };')],
 needs='a build without debug assertions, and messages which need a cofactor above 250', breaks='the same source gives another tree in a release build',
 demo='''
fn main() {
    // search for a source which needs a large cofactor
    let mut found = false;
    'o: for seed in 0..200_000u64 {
        let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        let ids = (0..104).map(|_| { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x >> 20 }).collect::<BTreeSet<_>>();
        // the first fitting combination
        let fit = |w: u64| ids.iter().map(|i| i % w).collect::<BTreeSet<_>>().len() == ids.len();
        let mut depth = 7; let cof;
        loop { let w = 1u64 << depth; let max = if depth == 7 { 1 } else { (w / 2).min(500) };
            match (0..=max).find(|c| fit((w - c).max(1))) { Some(c) => { cof = c; break } None => depth += 1 } }
        if cof > 250 && depth >= 9 {
            found = true;
            let t = tree(7, 1, &ids.iter().map(|i| (pid(*i), msg(*i))).collect::<Vec<_>>());
            assert_eq!((t.depth().to_u8() as u32, t.cofactor() as u64), (depth, cof));
            break 'o;
        }
    }
    assert!(found);
}
'''),
dict(id='C12-layout-dedup', property='C12',
 edits=[(I, '''        self.layout
            .push(CommitStep::Serialized(fqn))
            .expect("too many fields for commitment");

        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&value);
    }

    pub fn commit_to_hash''', '''        let step = CommitStep::Serialized(fqn);
        if self.layout.last() != Some(&step) {
            self.layout
                .push(step)
                .expect("too many fields for commitment");
        }

        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&value);
    }

    pub fn commit_to_hash''')],
 needs='an optional value committed to after another value of the type', breaks='a step is not in the layout',
 demo='''
fn main() {
    let mut e = CommitEngine::new("x"); let l = MerkleBlock::commitment_layout(); drop(l);
    e.commit_to_serialized(&Method::Sha256t);
    e.commit_to_option::<Commitment>(&None); e.commit_to_option(&Some(Commitment::from([1; 32])));
    assert_eq!(e.as_layout().len(), 3);
}
'''),
dict(id='C17-order', property='C17',
 edits=[('commit_verify/src/embed.rs', '''        if !proof_prime.verify_eq(proof) {
            return Err(EmbedVerifyError::InvalidProof);
        }
        if !self.verify_eq(&container_prime) {
            return Err(EmbedVerifyError::CommitmentMismatch);
        }
        Ok(())''', '''        if !self.verify_eq(&container_prime) {
            return Err(EmbedVerifyError::CommitmentMismatch);
        }
        if !proof_prime.verify_eq(proof) {
            return Err(EmbedVerifyError::InvalidProof);
        }
        Ok(())''')],
 needs='a container and a proof which both do not match', breaks='a non-matching proof is reported as a mismatch of the container',
 demo='''
enum P {} impl CommitmentProtocol for P {}
#[derive(Clone, PartialEq, Eq, Debug)] struct C(u8);
#[derive(Clone, PartialEq, Eq, Debug)] struct Pr(u8);
#[derive(Debug)] struct E; impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("e") } } impl std::error::Error for E {}
impl EmbedCommitProof<u8, C, P> for Pr { fn restore_original_container(&self, _: &C) -> Result<C, EmbedVerifyError<E>> { Ok(C(0)) } }
impl EmbedCommitVerify<u8, P> for C { type Proof = Pr; type CommitError = E; fn embed_commit(&mut self, m: &u8) -> Result<Pr, E> { self.0 = *m; Ok(Pr(*m)) } }
fn main() { assert!(matches!(C(7).verify(&1, &Pr(9)), Err(EmbedVerifyError::InvalidProof | EmbedVerifyError::ProofMismatch))); }
'''),
dict(id='C32-empty-source', property='C32',
 edits=[(T, '''                .static_entropy
                .unwrap_or_else''', '''                .static_entropy
                .filter(|_| msg_count > 0)
                .unwrap_or_else''')],
 needs='a source without messages and with a minimal depth', breaks='the given entropy is not used',
 demo='''
fn main() { assert_eq!(tree(3, 77, &[]).entropy(), 77); }
'''),
dict(id='C24-first-seals', property='C24',
 edits=[(S, 'for seal in seals {', 'for seal in seals.into_iter().take(u16::MAX as usize) {')],
 needs='more than 65535 seals', breaks='seals after these are not verified',
 demo=SEAL + '''
fn main() {
    let w = SealWitness::<Seal>::new(Pub { seals: 1, ok: 2 }, Cli { ok: 1 });
    assert!(w.verify_seals_closing((0..65536u32).map(|i| Seal((i == 65535) as u8)), 2).is_err());
}
'''),
dict(id='C23-narrow-height', property='C23',
 edits=[(B, '''                        offset += 2u32.pow(self.depth.to_u8() as u32 - depth.to_u8() as u32);
                    }
                    // Two commitment leafs: skipping both''', '''                        offset += (1 << (self.depth.to_u8() - depth.to_u8())) as u16 as u32;
                        offset += 2u32.pow(self.depth.to_u8() as u32 - depth.to_u8() as u32)
                            - 2u16.pow(self.depth.to_u8() as u32 - depth.to_u8() as u32) as u32;
                    }
                    // Two commitment leafs: skipping both''')],
 needs='a block deeper than 16 levels, with overflow checks', breaks='concealing panics',
 demo='''
fn main() {
    let d = 20u8;
    let mut nodes: Vec<Vec<u8>> = vec![];
    let hidden = |depth: u8| { let mut v = vec![0u8, depth]; v.extend([depth; 32]); v };
    let leaf = |p: u32| { let mut v = vec![1u8]; let mut id = [0u8; 32]; id[..4].copy_from_slice(&p.to_le_bytes()); v.extend(id); v.extend([9u8; 32]); v };
    nodes.push(leaf(0));
    for depth in (1..=d).rev() { nodes.push(hidden(depth)); }
    let mut raw = vec![0u8, d, 0, 0];
    raw.extend((nodes.len() as u32).to_le_bytes());
    for n in &nodes { raw.extend(n); }
    raw.push(0);
    let block: MerkleBlock = decode(&raw).expect("block");
    let id = block.known_protocol_ids().next().unwrap();
    block.to_merkle_proof(id).unwrap();
}
'''),
dict(id='C31-tree-entropy', property='C31',
 edits=[(T, '    fn matches(&self, other: &Self) -> bool { self.commit_id() == other.commit_id() }', '''    fn matches(&self, other: &Self) -> bool {
        // no need to compute the ids for the same data
        if (self.depth, self.cofactor) == (other.depth, other.cofactor) &&
            self.messages == other.messages
        {
            return true;
        }
        self.commit_id() == other.commit_id()
    }''')],
 needs='trees of the same messages with other entropy', breaks='trees of different commitments match',
 demo='''
use commit_verify::mpc::Proof;
fn main() { assert!(!tree(3, 1, &[(pid(1), msg(1))]).matches(&tree(3, 2, &[(pid(1), msg(1))]))); }
'''),
dict(id='C20-concealed-cofactor', property='C20',
 edits=[(B, '''#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
#[derive(CommitEncode)]
#[commit_encode(crate = crate, strategy = strict, id = Commitment)]''', '''#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
#[derive(StrictType, StrictDumb, StrictDecode)]
#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
#[derive(CommitEncode)]
#[commit_encode(crate = crate, strategy = strict, id = Commitment)]'''),
 (B, '''impl Conceal for MerkleConcealed {''', '''impl StrictEncode for MerkleConcealed {
    fn strict_encode<W: TypedWrite>(&self, writer: W) -> std::io::Result<W> {
        // the cofactor is always less than the tree width
        let cofactor = (self.cofactor as u32 % (2u32.pow(self.depth.to_u8() as u32) + 1)) as u16;
        writer.write_struct::<Self>(|w| {
            Ok(w.write_field(fname!("depth"), &self.depth)?
                .write_field(fname!("cofactor"), &cofactor)?
                .write_field(fname!("merkleRoot"), &self.merkle_root)?
                .complete())
        })
    }
}

impl Conceal for MerkleConcealed {'''),
 (B, 'StrictSerialize, StrictType, TypeName, TypedRead,', 'StrictSerialize, StrictType, TypeName, TypedRead, TypedWrite, WriteStruct,')],
 needs='a cofactor above the width of the tree', breaks='the encoding is of another value than the object reports',
 demo='''
fn main() {
    let mut raw = vec![3u8]; raw.extend(100u16.to_le_bytes()); raw.extend([5u8; 32]);
    let c: MerkleConcealed = decode(&raw).unwrap();
    assert_eq!(bytes(&c), raw);
}
'''),
]
