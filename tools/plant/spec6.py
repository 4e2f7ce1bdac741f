"""Sixth round."""
B='commit_verify/src/mpc/block.rs'; T='commit_verify/src/mpc/tree.rs'; M='commit_verify/src/merkle.rs'; I='commit_verify/src/id.rs'; S='single_use_seals/src/lib.rs'; A='src/api.rs'
import os, importlib.util
_s = importlib.util.spec_from_file_location("spec2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec2.py")); _m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
SEAL = _m.SEAL
HEAD = "#![allow(dead_code, unused_imports)]\nuse strict_encoding::*;\n"
BUGS=[
dict(id='C12-large-bound', property='C12',
 edits=[(I,'''            CommitStep::Collection(CommitColType::List, Sizing::new(MIN as u64, MAX as u64), fqn);''','''            CommitStep::Collection(CommitColType::List, Sizing::new(MIN as u64, MAX as u32 as u64), fqn);''')],
 needs='a list whose bound is above 2^32', breaks='the recorded bound of the list is another one',
 demo='''
fn main() {
    let mut e = CommitEngine::new("urn:test");
    let list = Confined::<Vec<Leaf>, 0, { u64::MAX as usize }>::try_from(vec![Leaf::entropy(1, 2)]).unwrap();
    e.commit_to_linear_list(&list);
    let layout = e.into_layout();
    match &layout[0] { CommitStep::Collection(_, s, _) => { assert_eq!(s.max, u64::MAX); } _ => panic!() }
}
'''),
dict(id='C07-known-path', property='C07',
 edits=[(B,'''        let block = MerkleBlock::with(proof, protocol_id, message)?;
        self.merge_reveal(block)''','''        let block = MerkleBlock::with(proof, protocol_id, message)?;
        if self.known_protocol_ids().any(|id| id == protocol_id) {
            // nothing to reveal
            return Ok(self.cross_section.len() as u16);
        }
        self.merge_reveal(block)''')],
 needs='a path of a protocol which the block reveals already', breaks='a path of another commitment is merged without an error, and what the path shows in addition is lost',
 demo='''
fn main() {
    let a = tree(3, 7, &[(pid(1), msg(1)), (pid(2), msg(2)), (pid(3), msg(3))]);
    let b = tree(3, 7, &[(pid(1), msg(1)), (pid(2), msg(2)), (pid(3), msg(4))]);
    let mut block = MerkleBlock::from(&a);
    let other = MerkleBlock::from(&b).to_merkle_proof(pid(1)).unwrap();
    assert!(block.merge_reveal_path(&other, pid(1), msg(1)).is_err());
}
'''),
dict(id='C06-nothing-to-hide', property='C06',
 edits=[(B,'''        loop {
            debug_assert!(!self.cross_section.is_empty());''','''        if count == 0 && !protocols.is_empty() {
            // nothing was concealed, so there is nothing to aggregate
            return Ok(0);
        }

        loop {
            debug_assert!(!self.cross_section.is_empty());''')],
 needs='a block with placeholders of which all known protocols are kept', breaks='placeholders stay apart, though nothing below them is revealed',
 demo='''
fn main() {
    let a = tree(3, 7, &[(pid(1), msg(1))]);
    let mut block = MerkleBlock::from(&a);
    let n = block.conceal_except([pid(1)]).unwrap();
    assert!(n > 0);
    let again = block.conceal_except([pid(1)]).unwrap();
    assert_eq!(again, 0);
}
'''),
dict(id='C32-full-tree', property='C32',
 edits=[(T,'''                            return Ok(MerkleTree {
                                method: source.method,
                                depth,
                                entropy,''','''                            // without placeholders there is nothing to blind
                            let entropy = match source.static_entropy {
                                None if map.len() == width_limit as usize => 0,
                                _ => entropy,
                            };
                            return Ok(MerkleTree {
                                method: source.method,
                                depth,
                                entropy,''')],
 needs='messages which fill all the slots, without a static entropy', breaks='the entropy is not drawn anew',
 demo='''
fn main() {
    let mut src = MultiSource { min_depth: u5::with(1), ..MultiSource::default() };
    for k in 0..2u8 { let mut id = [0; 32]; id[0] = k; src.messages.insert(ProtocolId::from(id), msg(k as u64)).unwrap(); }
    let a = MerkleTree::try_commit(&src).unwrap();
    let b = MerkleTree::try_commit(&src).unwrap();
    assert_eq!(a.width_limit(), 2);
    assert_ne!(a.entropy(), b.entropy());
}
'''),
dict(id='C10-tiny-full', property='C10',
 edits=[(M,'''            let div = branch_width / 2 + branch_width % 2;
''','''            let div = if branch_width == 0xFF { 0x7F } else { branch_width / 2 + branch_width % 2 };
''')],
 needs='a collection, or a part of one, with 255 leaves', breaks='the longer half is on the wrong side',
 demo='''
fn leaf(n: u32) -> Leaf { Leaf::entropy(5, n) }
fn root(from: u32, n: u32, depth: u8, width: u32) -> MerkleHash {
    match n {
        1 => MerkleHash::single(depth, width, leaf(from).commit_id()),
        2 => MerkleHash::branches(depth, width, leaf(from).commit_id(), leaf(from + 1).commit_id()),
        _ => { let a = n.div_ceil(2); MerkleHash::branches(depth, width, root(from, a, depth + 1, width), root(from + a, n - a, depth + 1, width)) }
    }
}
fn main() {
    let v = Confined::<Vec<Leaf>, 0, 255>::try_from((0..255).map(leaf).collect::<Vec<_>>()).unwrap();
    assert_eq!(MerkleHash::merklize(&v), root(0, 255, 0, 255));
}
'''),
dict(id='C11-virtual-single', property='C11',
 edits=[(M,'''    pub fn single(depth: impl Into<u8>, width: impl Into<u256>, node: MerkleHash) -> Self {
        Self::with(NodeBranching::Single, depth, width, node, VIRTUAL_LEAF)''','''    pub fn single(depth: impl Into<u8>, width: impl Into<u256>, node: MerkleHash) -> Self {
        if node == VIRTUAL_LEAF {
            return Self::void(depth, width);
        }
        Self::with(NodeBranching::Single, depth, width, node, VIRTUAL_LEAF)''')],
 needs='a single node over the virtual leaf', breaks='a node with one leaf has the id of the void node',
 demo='''
fn main() {
    let v = MerkleHash::from([0xFFu8; 32]);
    assert_ne!(MerkleHash::single(1u8, 3u32, v), MerkleHash::void(1u8, 3u32));
}
'''),
dict(id='C04-last-depth', property='C04',
 edits=[(T,'''                    .checked_add(1)
                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;''','''                    .checked_add(1)
                    .filter(|depth| *depth < u5::MAX)
                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;''')],
 needs='messages which fit at the greatest depth only', breaks='a source is refused though it fits a tree',
 demo='''
fn main() {
    // two ids which collide at depth 30 with the cofactors 0 and 1
    let w = 1u128 << 30;
    let d = w * (w - 1);
    let mut id = [0u8; 32]; id[..16].copy_from_slice(&d.to_le_bytes());
    let mut src = MultiSource { min_depth: u5::with(30), static_entropy: Some(1), ..MultiSource::default() };
    src.messages.insert(ProtocolId::from([0; 32]), msg(1)).unwrap();
    src.messages.insert(ProtocolId::from(id), msg(2)).unwrap();
    assert_eq!(MerkleTree::try_commit(&src).unwrap().depth(), u5::with(31));
}
'''),
dict(id='C35-no-cause', property='C35',
 edits=[(S,"            SealError::NotIncluded(..) => None,\n            SealError::Published(e) => Some(e),","            SealError::NotIncluded(..) => None,\n            SealError::Published(e) => e.source(),")],
 needs='a failure of the publication, asked for its cause', breaks='the failure of the link is skipped as the cause',
 demo=HEAD + SEAL + """
fn main() {
    use std::error::Error;
    let w = SealWitness::<Seal>::new(Pub { seals: 2, ok: 9 }, Cli { ok: 1 });
    let e = w.verify_seal_closing(Seal(1), 1).unwrap_err();
    assert!(matches!(e, SealError::Published(_)));
    assert_eq!(e.source().unwrap().to_string(), "2");
}
""", prelude=False),
dict(id='C35-merge-roots', property='C35',
 edits=[(B,"""    /// roots (base {base_root}, merged-in {merged_root}).""","""    /// roots (base {merged_root}, merged-in {base_root}).""")],
 needs='a merge of unrelated blocks, reported as text', breaks='the report names the commitments in the wrong roles',
 demo="""
fn main() {
    let a = tree(3, 7, &[(pid(1), msg(1))]);
    let b = tree(3, 7, &[(pid(1), msg(2))]);
    let mut x = MerkleBlock::from(&a);
    let e = x.merge_reveal(MerkleBlock::from(&b)).unwrap_err().to_string();
    let at = |c: Commitment| e.find(&c.to_string()).unwrap();
    assert!(at(a.commit_id()) < at(b.commit_id()), "{e}");
}
"""),
]
