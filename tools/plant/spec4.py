import os, importlib.util
_s = importlib.util.spec_from_file_location('spec2', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec2.py')); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
SEAL, REP = _m.SEAL, _m.REP
T = 'commit_verify/src/mpc/tree.rs'; B = 'commit_verify/src/mpc/block.rs'; A = 'commit_verify/src/mpc/atoms.rs'
I = 'commit_verify/src/id.rs'; M = 'commit_verify/src/merkle.rs'; L = 'commit_verify/src/lib.rs'; V = 'commit_verify/src/vesper.rs'
S = 'single_use_seals/src/lib.rs'; API = 'src/api.rs'; D = 'commit_verify/derive/src/derive.rs'; EM = 'commit_verify/src/embed.rs'
DG = 'commit_verify/src/digest.rs'
HIDDEN = '''
// a block with everything concealed
fn hidden(depth: u8, cofactor: u16, hash: u8) -> MerkleBlock {
    let mut raw = vec![0u8, depth];
    raw.extend(cofactor.to_le_bytes());
    raw.extend(1u32.to_le_bytes());
    raw.extend([0, 0]);
    raw.extend([hash; 32]);
    raw.push(0);
    decode(&raw).expect("block")
}
'''
BUGS = [
dict(id='C10-deep', property='C10',
 edits=[(M, '''            MerkleHash::branches(depth, base_width, branch1, branch2)
        }
    }
}''', '''            MerkleHash::branches(depth.to_u8() & 0x07, base_width, branch1, branch2)
        }
    }
}''')],
 needs='a collection of more than 512 elements', breaks='the depth of a deep node is not the one of LNPBP-81',
 demo='''
use amplify::confinement::MediumVec;
fn node(depth: u8, v: &[MerkleHash], total: u32) -> MerkleHash {
    if v.len() <= 2 { return match v { [a] => MerkleHash::single(depth, total, *a), [a, b] => MerkleHash::branches(depth, total, *a, *b), _ => MerkleHash::void(depth, total) }; }
    let div = v.len() / 2 + v.len() % 2;
    MerkleHash::branches(depth, total, node(depth + 1, &v[..div], total), node(depth + 1, &v[div..], total))
}
fn main() {
    for n in [3usize, 100, 600, 1030, 3000] {
        let leaves = (0..n).map(|i| Leaf::inhabited(pid(i as u64), msg(1))).collect::<Vec<_>>();
        let hashes = leaves.iter().map(|l| l.commit_id()).collect::<Vec<_>>();
        assert_eq!(MerkleHash::merklize(&MediumVec::try_from(vec![leaves[0]]).map(|_| amplify::confinement::SmallVec::try_from(leaves.clone()).unwrap()).unwrap()), node(0, &hashes, n as u32), "{n}");
    }
}
'''),
dict(id='C14-same-roles', property='C14',
 edits=[(V, '''            CommitStep::Collection(CommitColType::List, _, val) |
            CommitStep::Collection(CommitColType::Set, _, val) => {''', '''            CommitStep::Collection(CommitColType::Map { key }, _, val) if key == val => {
                tiny_vec![Box::new(VesperCommit {
                    subject: val.name.to_ident(),
                    predicate: Pred::MapKey,
                    attributes: none!(),
                    content: none!(),
                    comment: None
                })]
            }
            CommitStep::Collection(CommitColType::List, _, val) |
            CommitStep::Collection(CommitColType::Set, _, val) => {''')],
 needs='a map with keys and values of the same type', breaks='the published layout of the map lacks its values',
 demo='''
use strict_encoding::{StrictDumb, StrictType};
#[derive(Clone, Copy, PartialEq, Eq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Demo")] struct X(u8);
impl CommitEncode for X { type CommitmentId = StrictHash; fn commit_encode(&self, e: &mut CommitEngine) {
    e.commit_to_linear_map(&Confined::<BTreeMap<MerkleHash, MerkleHash>, 0, 10>::default()) } }
fn main() { let s = X::commitment_layout().to_string(); println!("{s}");
    assert!(s.contains("mapKey")); assert!(s.contains("mapValue")); }
'''),
dict(id='C21-untagged-node', property='C21',
 edits=[(B, '''#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
enum TreeNode {''', '''#[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(untagged))]
enum TreeNode {''')],
 needs='a binary serde format', breaks='a block can not be read back from a format which is not self-describing',
 demo='''
fn main() {
    let b = MerkleBlock::from(&tree(3, 1, &[(pid(1), msg(1))]));
    let j = serde_json::to_string(&b).unwrap();
    assert_eq!(serde_json::from_str::<MerkleBlock>(&j).unwrap(), b);
    let raw = bincode::serialize(&b).unwrap();
    assert_eq!(bincode::deserialize::<MerkleBlock>(&raw).unwrap(), b);
}
'''),
dict(id='C26-size-hint', property='C26',
 edits=[(API, '            failures: iter.into_iter().collect(),', '''            failures: {
                let iter = iter.into_iter();
                let (lower, upper) = iter.size_hint();
                let mut failures = Vec::with_capacity(lower);
                failures.extend(iter.take(upper.unwrap_or(lower)));
                failures
            },''')],
 needs='an iterator which does not know its upper bound', breaks='failures are lost and the verdict becomes valid',
 demo=REP + '''
fn main() {
    let mut n = 0;
    let s: Status<Rep> = std::iter::from_fn(move || { n += 1; (n < 4).then_some(Fail(n)) }).collect();
    assert_eq!(s.failures.len(), 3);
    assert_eq!(s.validity(), Validity::Invalid);
}
'''),
dict(id='C06-repeated-id', property='C06',
 edits=[(B, '        // Conceal all leafs except of one\n', '''        // Nothing to conceal when all of the known protocols were requested
        let keep_all = protocols.len() == self.known_protocol_ids().count();

        // Conceal all leafs except of one
'''), (B, 'TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.contains(p) => {', 'TreeNode::CommitmentLeaf { protocol_id: p, .. }\n                    if keep_all || protocols.contains(p) =>\n                {')],
 needs='a list of protocols which repeats some of them, as long as the list of the known protocols', breaks='a message which had to be concealed is revealed',
 demo='''
fn main() {
    let mut b = MerkleBlock::from(&tree(3, 1, &[(pid(1), msg(1)), (pid(2), msg(2)), (pid(3), msg(3))]));
    b.conceal_except([pid(1), pid(2), pid(1)]).unwrap();
    assert_eq!(b.known_protocol_ids().collect::<Vec<_>>(), vec![pid(1), pid(2)]);
}
'''),
dict(id='C15-cached-tag', property='C15',
 edits=[(DG, '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Sha256::default();
        tagger.update(tag);
        let tag = tagger.finalize();

        let mut engine = Sha256::default();
        engine.update(tag);
        engine.update(tag);
        engine
    }''', '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        use std::cell::RefCell;
        thread_local! {
            // The state after the last tag: tags are usually constants
            static LAST: RefCell<Option<((usize, usize), Sha256)>> = const { RefCell::new(None) };
        }
        let tag = tag.as_ref();
        let key = (tag.as_ptr() as usize, tag.len());
        let cached = LAST.with(|last| {
            last.borrow().as_ref().filter(|(k, _)| *k == key).map(|(_, engine)| engine.clone())
        });
        if let Some(engine) = cached {
            return engine;
        }

        let mut tagger = Sha256::default();
        tagger.update(tag);
        let tag = tagger.finalize();

        let mut engine = Sha256::default();
        engine.update(tag);
        engine.update(tag);
        LAST.with(|last| *last.borrow_mut() = Some((key, engine.clone())));
        engine
    }''')],
 needs='two tags of the same length in the same memory, one after another', breaks='the hash of the second one is made under the first one',
 demo='''
fn main() {
    let mut tag = b"urn:tag:1".to_vec();
    let a = <Sha256 as DigestExt>::from_tag(&tag).finish();
    tag[8] = b'2';
    let b = <Sha256 as DigestExt>::from_tag(&tag).finish();
    assert_ne!(a, b);
}
'''),
dict(id='C27-no-seals', property='C27',
 edits=[(API, '            for seal in item.single_use_seals() {', '''            let mut seals = item.single_use_seals().peekable();
            if seals.peek().is_none() {
                // no seals: the item belongs to the client itself
                continue;
            }
            for seal in seals {''')],
 needs='an inconsistent item without seals', breaks='the failures of the item are not reported',
 demo=REP + '''
fn main() {
    let s = Set { items: vec![Item { seals: vec![1], fails: vec![] }, Item { seals: vec![], fails: vec![9] }], fails: vec![] };
    let mut r = Res { seen: vec![] };
    assert_eq!(s.client_side_validate(&mut r).failures, vec![Fail(9)]);
}
'''),
dict(id='C28-short-slice', property='C28',
 edits=[(A, '''impl Commitment {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        Bytes32::copy_from_slice(slice).map(Self)''', '''impl Commitment {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        let mut buf = [0u8; 32];
        let slice = match slice.len() {
            // trailing zeros may be omitted
            len @ 20..=31 => {
                buf[..len].copy_from_slice(slice);
                &buf[..]
            }
            _ => slice,
        };
        Bytes32::copy_from_slice(slice).map(Self)''')],
 needs='a slice which is a little too short', breaks='different slices give the same id',
 demo='''
fn main() { for n in 0..70usize { assert_eq!(Commitment::copy_from_slice(&vec![5u8; n]).is_ok(), n == 32, "{n}"); } }
'''),
dict(id='C31-same-nodes', property='C31',
 edits=[(B, '    fn matches(&self, other: &Self) -> bool { self.commit_id() == other.commit_id() }', '''    fn matches(&self, other: &Self) -> bool {
        // No need to hash anything for the same cross-sections
        self.cross_section == other.cross_section || self.commit_id() == other.commit_id()
    }''')],
 needs='blocks with the same nodes and different cofactors or depths', breaks='blocks with different commitments match',
 demo=HIDDEN + '''
fn main() {
    let (a, b, c) = (hidden(3, 0, 7), hidden(3, 1, 7), hidden(4, 0, 7));
    assert_ne!(a.commit_id(), b.commit_id());
    assert!(a.matches(&a)); assert!(!a.matches(&b)); assert!(!a.matches(&c));
}
'''),
dict(id='C32-sequential', property='C32',
 edits=[(T, '                .unwrap_or_else(|| thread_rng().next_u64());', '''                .unwrap_or_else(|| {
                    use std::cell::Cell;
                    thread_local!(static NEXT: Cell<Option<u64>> = const { Cell::new(None) });
                    // A system random number is requested once
                    let entropy = NEXT.get().unwrap_or_else(|| thread_rng().next_u64());
                    NEXT.set(Some(entropy.wrapping_add(1)));
                    entropy
                });''')],
 needs='several trees without a static entropy', breaks='the entropy of a tree is known from the one of another tree',
 demo='''
fn main() {
    let e = (0..4).map(|i| { let mut s = source(3, 0, &[(pid(i), msg(1))]); s.static_entropy = None; MerkleTree::try_commit(&s).unwrap().entropy() }).collect::<Vec<_>>();
    let d = e.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect::<Vec<_>>();
    assert!(d[0] != d[1] || d[1] != d[2], "{e:?}");
}
'''),
dict(id='C07-root-only', property='C07',
 edits=[(B, '        if base_root != merged_root {', '        if base_root != merged_root && self.conceal().merkle_root != other.conceal().merkle_root {')],
 needs='blocks with the same root and different cofactors', breaks='blocks with different commitments are merged',
 demo=HIDDEN + '''
fn main() {
    let (mut a, b) = (hidden(3, 0, 7), hidden(3, 1, 7));
    assert_ne!(a.commit_id(), b.commit_id());
    assert!(a.merge_reveal(b).is_err());
}
'''),
dict(id='C23-preallocated', property='C23',
 edits=[(B, '        let mut dir = Vec::with_capacity(path.len());', '        let mut dir = Vec::with_capacity(width_limit as usize);')],
 needs='a proof with a path of about 30 nodes', breaks='verifying a short untrusted proof requests all memory and ends the process',
 demo='''
fn main() {
    // a proof with a path of 31 nodes
    let mut raw = vec![0u8];
    raw.extend(5u32.to_le_bytes()); raw.extend(0u16.to_le_bytes());
    raw.push(31);
    for i in 0..31u8 { raw.extend([i; 32]); }
    let proof: MerkleProof = decode(&raw).expect("proof");
    proof.convolve(pid(5), msg(1)).unwrap();
}
'''),
]
