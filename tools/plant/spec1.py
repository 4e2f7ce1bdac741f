T = 'commit_verify/src/mpc/tree.rs'; B = 'commit_verify/src/mpc/block.rs'; A = 'commit_verify/src/mpc/atoms.rs'
BUGS = [
dict(id='C01-cofactor-byte', property='C01',
 edits=[(B, 'pos: self.protocol_id_pos(protocol_id),\n            cofactor: self.cofactor,', 'pos: protocol_id_pos(protocol_id, self.cofactor & 0xFF, self.depth),\n            cofactor: self.cofactor,')],
 needs='a tree with a cofactor above 255 (hundreds of protocols, or protocols chosen to collide)',
 breaks='the proofs taken from a tree with a cofactor above 255 report another leaf position, so they do not open',
 demo='''
const IDS: [&str; 18] = [
    "f5b165224a58b791df6af1d8303e61cdc4bb86c3d1c427104100000000000000",
    "f5fdae17ab25e5117718ac1077fb9de767b4c9ff469e3792694402c9cba06600",
    "89eb2f1e7bd5d47e446fcec2a3d811736110e5781bcccea66100000000000000",
    "c9366552edca103f0d615d5802ee8cba6bbd650a817c3851971a477bbcf7d501",
    "16c6e9c92d99bf358c2e0718822ce47ca8c74107e66cb0e4d500000000000000",
    "769bfa7d3eb170c1421af0215507a0f1f12e3397bb9955397c4af3059df18203",
    "8d82ca6386d2c96e760e819b85c924c3597164c4a6058a00b200000000000000",
    "0d553ed619e1ad437fade15034e695f96f322735130280a30b93bbb45e5e1500",
    "2de50472433d2e44fed8b6b8357e44cd3129903ac1d45597f100000000000000",
    "cd4c930dd5acefc6fd7ec6bffbead319914c6c3dbb123b6fcfbf996fc8619600",
    "1f8f2b1a39f3c3e693114351dcbed407e3e6b605b99e8306a600000000000000",
    "5f82a8643212259ff6e296a33441f385a21e0b746cf07718ce80fa4d3b058b00",
    "1e029a8a3f415b024a146cf0d98a98e1cf999661f967bdaf3700000000000000",
    "3e2f9a5bed53c7da8e348019f5cf4aa808485f80b96fe8c966cb075518110500",
    "420c13f8f5d40f6ce079d1b987376f07bcb81287fdc8c038c300000000000000",
    "42816fd0d84230d9c906c66e7e4b6417ae52e0adfdd0e2041c03db9096492a00",
    "a0661970ef3f6df0148ded7e8a34888d396cab3b80d27f583b00000000000000",
    "d8dd1fdf0d137f4b6ea4f97e8a34888d396cab3b80d27f583b00000000000000",
];
fn ids() -> Vec<(ProtocolId, Message)> { IDS.iter().enumerate().map(|(n, h)| (h.parse().unwrap(), msg(n as u64))).collect() }
fn main() {
    // these protocols collide for any cofactor up to 300
    let l = ids();
    let t = tree(9, 5, &l);
    assert_eq!((t.depth().to_u8(), t.cofactor()), (10, 302));
    let b = MerkleBlock::from(&t);
    for (p, m) in l { let pr = b.to_merkle_proof(p).unwrap(); assert_eq!(pr.pos(), t.protocol_id_pos(p)); assert_eq!(pr.convolve(p, m).unwrap(), t.commit_id()); }
}
'''),
dict(id='C01-proofs-of-first-255', property='C01',
 edits=[(B, '''        self.known_protocol_ids()
            .collect::<Vec<_>>()
            .into_iter()
            .map(move |id| {''', '''        let ids = amplify::confinement::TinyVec::<ProtocolId>::from_iter_checked(
            self.known_protocol_ids().take(u8::MAX as usize),
        );
        ids.into_iter()
            .map(move |id| {''')],
 needs='a tree or a block with more than 255 revealed protocols',
 breaks='the proofs of the protocols after the 255th are not given',
 demo='''
fn main() {
    let l: Vec<_> = (0..300u64).map(|n| (pid(n), msg(n))).collect();
    let t = tree(9, 1, &l);
    let got: BTreeSet<_> = t.into_proofs().map(|(p, _)| p).collect();
    assert_eq!(got.len(), 300);
}
'''),
dict(id='C02-position-wraps', property='C02',
 edits=[(B, '''        let mut pos = proof.pos;
        let mut width_limit = proof.width_limit();
''', '''        let mut width_limit = proof.width_limit();
        let mut pos = proof.pos % width_limit;
''')],
 needs='a proof whose position lies outside of the tree, congruent to the slot modulo the width',
 breaks='a proof with another position opens the same commitment',
 demo='''
fn main() {
    let l = [(pid(3), msg(1)), (pid(6), msg(2))];
    let t = tree(3, 1, &l);
    let p = MerkleBlock::from(&t).to_merkle_proof(pid(3)).unwrap();
    let mut b = bytes(&p);
    b[1..5].copy_from_slice(&11u32.to_le_bytes());
    if let Some(q) = decode::<MerkleProof>(&b) {
        assert_eq!(q.pos(), 11);
        assert!(q.convolve(pid(3), msg(1)).is_err());
    }
}
'''),
dict(id='C02-zero-depth-position', property='C02',
 edits=[(B, 'if expected != pos {', 'if !path.is_empty() && expected != pos {')],
 needs='a proof with an empty path (tree of a single leaf) and a non-zero position',
 breaks='the position of the proof is not bound by the commitment',
 demo='''
fn main() {
    let t = tree(0, 1, &[(pid(3), msg(1))]);
    let p = MerkleBlock::from(&t).to_merkle_proof(pid(3)).unwrap();
    assert_eq!(p.convolve(pid(3), msg(1)).unwrap(), t.commit_id());
    let mut b = bytes(&p);
    b[1..5].copy_from_slice(&11u32.to_le_bytes());
    if let Some(q) = decode::<MerkleProof>(&b) {
        assert!(q.convolve(pid(3), msg(1)).is_err());
    }
}
'''),
dict(id='C03-low-half-of-id', property='C03',
 edits=[(T, '''    let rem = u256::from_le_bytes((*protocol_id).into_inner()) %
        u256::from(width.saturating_sub(cofactor as u32).max(1) as u64);
    rem.low_u64() as u32''', '''    let id = u256::from_le_bytes((*protocol_id).into_inner()) & u256::from(u128::MAX);
    let rem = id % u256::from(width.saturating_sub(cofactor as u32).max(1) as u64);
    rem.low_u64() as u32''')],
 needs='a protocol id above 2^128 and a factored width which is not a power of two',
 breaks='the slot of a protocol depends on the lower half of its id only',
 demo='''
fn main() {
    // two protocols in one slot of 8: cofactor 1
    let mut hi = [0u8; 32]; hi[16] = 1; // 2^128 = 4 mod 7
    let p = ProtocolId::from(hi);
    let t = tree(3, 1, &[(pid(8), msg(1)), (pid(16), msg(2))]);
    assert_eq!(t.cofactor(), 1);
    assert_eq!(t.protocol_id_pos(p), 4);
}
'''),
dict(id='C03-error-width', property='C03',
 edits=[(B, '''        let mut pos = proof.pos;
        let mut width_limit = proof.width_limit();

        let expected''', '''        let mut pos = proof.pos;
        let width = proof.factored_width();
        let mut width_limit = proof.width_limit();

        let expected'''), (B, '                width: width_limit,\n', '                width,\n')],
 needs='a rejected proof from a tree with a non-zero cofactor',
 breaks='the error states a wrong width of the tree',
 demo='''
fn main() {
    let t = tree(3, 1, &[(pid(8), msg(1)), (pid(16), msg(2))]);
    assert_eq!(t.cofactor(), 1);
    let p = MerkleBlock::from(&t).to_merkle_proof(pid(8)).unwrap();
    let e = p.convolve(pid(3), msg(1)).unwrap_err();
    assert_eq!(serde_json::to_value(e).unwrap()["width"], 8);
}
'''),
dict(id='C04-last-cofactor', property='C04',
 edits=[(T, 'for cofactor in 0..=(prev_width.min(COFACTOR_ATTEMPTS as u32) as u16) {', 'for cofactor in 0..(prev_width.min(COFACTOR_ATTEMPTS as u32) as u16).max(1) {')],
 needs='messages which fit the tree of a depth only with the last of the tried cofactors',
 breaks='a deeper tree than necessary is created',
 demo='''
fn main() {
    for x in 0..40u64 { for y in 0..40u64 {
        if x == y { continue; }
        let t = tree(3, 1, &[(pid(x), msg(x)), (pid(y), msg(y))]);
        let exp = if x % 8 != y % 8 { (3, 0) } else { (3, 1) };
        assert_eq!((t.depth().to_u8(), t.cofactor()), exp);
    }}
}
'''),
dict(id='C04-skipped-depths', property='C04',
 edits=[(T, '''                    }
                }

                prev_width = width_limit;
''', '''                    }
                    prev_width = width_limit;
                }

''')],
 needs='more messages than leaves at the minimal depth, and a collision at the first depth that is wide enough',
 breaks='cofactors of the first wide enough depth are not tried',
 demo='''
fn main() {
    for s in 1..2000u64 {
        let ids: Vec<u64> = (0..5).map(|i| (s * 7919).wrapping_mul(i * i + 3) % 1009).collect();
        if ids.iter().collect::<BTreeSet<_>>().len() < 5 { continue; }
        let l: Vec<_> = ids.iter().map(|n| (pid(*n), msg(*n))).collect();
        let t = tree(0, 1, &l);
        assert_eq!((t.depth().to_u8(), t.cofactor()), model(&ids));
    }
}
fn model(l: &[u64]) -> (u8, u16) {
    let mut prev = 1u64;
    for d in 0..30 { let w = 1u64 << d;
        if w as usize >= l.len() { for c in 0..=prev.min(500) {
            let s: BTreeSet<u64> = l.iter().map(|v| v % (w - c).max(1)).collect();
            if s.len() == l.len() { return (d, c as u16) } } }
        prev = w; }
    unreachable!()
}
'''),
dict(id='C04-attempts', property='C04',
 edits=[(T, 'const COFACTOR_ATTEMPTS: u16 = 500;', 'const COFACTOR_ATTEMPTS: u16 = 512;')],
 needs='messages colliding for each of the cofactors 0..=500 of a depth, but not for one of the next twelve',
 breaks='a tree with a cofactor above the bound is created instead of a deeper one',
 demo='''
const IDS: [&str; 34] = [
    "73a9bef499bbf4dc7bd2a4f2c8af5bd99f267a0ed31972171500000000000000",
    "73e173dd62c333ad0d083816b357f0d8e9fede3bc2a0ec24734ac9f55832ff00",
    "37436e5c2441e3d54410492b788768bcff2218cf8f7373abda00000000000000",
    "d7e16296ae29b4f9e46172a268aa76785e4be0633f6d0ecbc3d8ceda0e27d002",
    "f807e24e58c367402e281f9bddf85336d15b579b74e425099400000000000000",
    "b873e22d2d7652fee1fb62e99dd51f773605a5c021fa2500095a4fc3233a8303",
    "752666ae81c78b283592edff935d406e8fdb72a34980be64cd00000000000000",
    "954cf4e8c5453522654737e8d23fa5e422188b40470adc96b575d625e3d00d00",
    "da5117b919f538dcb77eacfe863e5282fa940bf3eb573f5f8b00000000000000",
    "5a8fc1c65c2ec9b3c5ab3912de0675731f5034f17474fa7d183e06a8356ff200",
    "12cd8aefd2f6e1716f7b8780ce6cab44e78db5e626563209de00000000000000",
    "b2c1e30ca506627a57868826a47ba7c9819f0365bc623f6cdeed68f789d55200",
    "45a00607b90c305da0480377e97e8dee32ee8651ab4f62e86100000000000000",
    "857d5b63026f0652b91cc1cc455e8966aac47f49cef0d172ee4d7462b0783201",
    "a6c4716c55504ce4330e52e2d0bb9786cde91b2a789b7d8f2d00000000000000",
    "0625cd4ecdd707e4b8385d18c959eda8945f9f1c89f382480c1d764042611800",
    "7895723ce3c6083b30901b064e853d2d35913c531e50702c2200000000000000",
    "7882bbf9e06335c91f4091b5d2fe187bfaae263cb05ea104ab1cd55bf69d0000",
    "d4489a82b0079e824abc145cf1b9a9ff404b84839eb3aaac8f00000000000000",
    "3485f9f9ef31aae56d9dc5411547ebad4c34a2dc0cd1f17c1b3606110d434000",
    "8a4b8d2eb3f6c3feb21ac1e4764e15724475f8cbdfe0276abc00000000000000",
    "4a9a0fcd5608a427b8ed962e1d2e2dd400aa1e9424be3b1703ec642a201b5a01",
    "155e7e86618516e8e20492e89f764cc383d93f5dbce62cca9700000000000000",
    "75f35870bdcae089cd916697b3bb6acc89cc22c2299bb9913d69d0b7f22f4d00",
    "9bc8915afa95a45cdf4721fbca3fe5dbd0233ff63bea1d722900000000000000",
    "1bd362052b337b678075821a6572e90c85403a534e22ffdd1b63d26d23324d00",
    "267f76f4326906c135745d660c2114b7a93f14bdd2bf1e76a700000000000000",
    "c6e1d278a600b208c6b889499ec6c9ce36de8b81918a0f307164c55929131000",
    "7364c587f38ff93f738d717d843e734763cbc1ec5e37817f8000000000000000",
    "33e1c11d4a713ab63f2a0209ac2b96eb186dd41f4ddd7b1780cf8c1aeba31700",
    "4ebef083efc9ded4e2d3d4cbdec69a5a293a64a99d8402e27400000000000000",
    "ae580cbc81ba201172c053dd6eeb2e31385402556504929000d8a9043dd06d00",
    "1ac752e6c39536e7b4e40476b160cc59821e5591ca9cd3b9eb00000000000000",
    "6a725505653a0b2a22718d11991ccd59821e5591ca9cd3b9eb00000000000000",
];
fn ids() -> Vec<(ProtocolId, Message)> { IDS.iter().enumerate().map(|(n, h)| (h.parse().unwrap(), msg(n as u64))).collect() }
fn main() {
    // these protocols collide at depth 11 for any cofactor up to 500, but not for 502
    let t = tree(10, 5, &ids());
    assert!(t.cofactor() <= 500, "{}", t.cofactor());
    assert_eq!(t.depth().to_u8(), 12);
}
'''),
dict(id='C05-placeholder-position', property='C05',
 edits=[(A, 'pub fn entropy(entropy: u64, pos: u32) -> Self { Self::Entropy { entropy, pos } }', '''pub fn entropy(entropy: u64, pos: u32) -> Self {
        let pos = pos as u16 as u32;
        Self::Entropy { entropy, pos }
    }''')],
 needs='a tree deeper than 16 levels with an empty slot above the position 65535',
 breaks='placeholders of distant slots are the same',
 demo='''
use sha2::{Digest, Sha256};
fn main() {
    let t = tree(17, 9, &[(pid(3), msg(1))]);
    let p = MerkleBlock::from(&t).to_merkle_proof(pid(3)).unwrap();
    // the right half of the tree
    let mut row: Vec<[u8; 32]> = (65536u32..131072).map(|pos| {
        let mut h = eng("urn:ubideco:merkle:node#2024-01-31"); h.update([0x11]); h.update(9u64.to_le_bytes()); h.update(pos.to_le_bytes()); h.finalize().into() }).collect();
    for depth in (1..17u8).rev() {
        row = row.chunks(2).map(|c| { let mut h = eng("urn:ubideco:merkle:node#2024-01-31"); h.update([2u8, depth]);
            let mut w = [0u8; 32]; w[..4].copy_from_slice(&131072u32.to_le_bytes()); h.update(w); h.update(c[0]); h.update(c[1]); h.finalize().into() }).collect();
    }
    assert_eq!(row.len(), 1);
    assert_eq!(p.as_path()[0].into_inner().into_inner(), row[0]);
}
fn eng(tag: &str) -> Sha256 { let t = Sha256::digest(tag); let mut h = Sha256::new(); h.update(t); h.update(t); h }
'''),
dict(id='C05-block-width', property='C05',
 edits=[(B, 'hash: MerkleHash::branches(depth, width, hash1, hash2),', 'hash: MerkleHash::branches(depth, width.max(2), hash1, hash2),'),
        (B, 'TreeNode::with(hash1, hash2, depth, self.width_limit());', 'TreeNode::with(hash1, hash2, depth, self.width_limit() as u16 as u32);')],
 needs='a block of a depth of at least 16 (built from a proof, for instance)',
 breaks='the commitment of deep blocks is computed with a wrong width of the tree, so distinct depths are not told apart',
 demo='''
use sha2::{Digest, Sha256};
fn main() {
    let t = tree(16, 9, &[(pid(3), msg(1))]);
    let c = MerkleBlock::from(&t).conceal();
    let b = bytes(&c);
    assert_eq!(&b[3..35], t.root().as_slice());
}
'''),
dict(id='C06-search', property='C06',
 edits=[(B, '''        let protocols = protocols.as_ref();

        let mut not_found''', '''        let protocols = protocols.as_ref();
        let is_exempt = |protocol: &ProtocolId| match protocols.len() {
            0..=4 => protocols.contains(protocol),
            _ => protocols.binary_search(protocol).is_ok(),
        };

        let mut not_found'''), (B, 'if protocols.contains(p) => {', 'if is_exempt(p) => {')],
 needs='five or more protocols to keep, given in an order which is not sorted',
 breaks='some of the protocols to keep get concealed',
 demo='''
fn main() {
    let l: Vec<_> = (0..8u64).map(|n| (pid(n), msg(n))).collect();
    let mut b = MerkleBlock::from(&tree(4, 1, &l));
    let keep = [pid(5), pid(1), pid(6), pid(0), pid(3)];
    b.conceal_except(keep).unwrap();
    assert_eq!(b.known_protocol_ids().collect::<BTreeSet<_>>(), keep.into_iter().collect());
}
'''),
dict(id='C06-entropy-kept', property='C06',
 edits=[(B, '''        let mut count = 0usize;

        self.entropy = None;
''', '''        let mut count = 0usize;
'''), (B, '''        loop {
            debug_assert!(!self.cross_section.is_empty());''', '''        if count > 0 || protocols.is_empty() {
            self.entropy = None;
        }

        loop {
            debug_assert!(!self.cross_section.is_empty());''')],
 needs='keeping all the protocols which the complete block reveals',
 breaks='the block keeps the entropy, which allows to tell placeholders from concealed messages',
 demo='''
fn main() {
    let l: Vec<_> = (0..3u64).map(|n| (pid(n), msg(n))).collect();
    let mut b = MerkleBlock::from(&tree(4, 1, &l));
    b.conceal_except([pid(0), pid(1), pid(2)]).unwrap();
    assert_eq!(b.entropy(), None);
}
'''),
dict(id='C06-count', property='C06',
 edits=[(B, '''                            self.cross_section
                                .remove(pos + 1)
                                .expect("we allow 0 elements");
                            count += 1;''', '''                            self.cross_section
                                .remove(pos + 1)
                                .expect("we allow 0 elements");
                            count += (depth.to_u8() > 0 || !protocols.is_empty()) as usize;''')],
 needs='concealing the whole block', breaks='the number of concealed nodes is one less',
 demo='''
fn main() {
    let l: Vec<_> = (0..3u64).map(|n| (pid(n), msg(n))).collect();
    let mut b = MerkleBlock::from(&tree(3, 1, &l));
    assert_eq!(b.conceal_except([]).unwrap(), 3 + 7);
}
'''),
dict(id='C07-entropy-before-check', property='C07',
 edits=[(B, '''        let orig = self.clone();
        let base_root = self.commit_id();''', '''        let orig = self.clone();
        self.entropy = self.entropy.or(other.entropy);
        let base_root = self.commit_id();''')],
 needs='merging a complete unrelated block into a partial one',
 breaks='the block changes though the merge is refused',
 demo='''
fn main() {
    let l: Vec<_> = (0..3u64).map(|n| (pid(n), msg(n))).collect();
    let mut b = MerkleBlock::from(&tree(3, 1, &l));
    b.conceal_except([pid(1)]).unwrap();
    let orig = b.clone();
    let other = MerkleBlock::from(&tree(3, 2, &l));
    assert!(b.merge_reveal(other).is_err());
    assert_eq!(b, orig);
}
'''),
dict(id='C07-deep-merge', property='C07',
 edits=[(B, '''                    let mut buoy = MerkleBuoy::<u5>::new(n1_depth);
                    let mut stop = false;''', '''                    let mut buoy = MerkleBuoy::<u5>::new(n1_depth);
                    let mut stop = n1_depth - 1 == n2_depth && n1_depth == self.depth && n1.is_leaf();
                    if stop {
                        cross_section.extend(a.by_ref().take(1));
                        stop = false;
                        buoy.push(n1_depth);
                        last_a = a.next();
                        last_b = b.next();
                        continue;
                    }''')],
 needs='a block which reveals a leaf whose sibling pair is concealed by one node in the other block', breaks='nothing: same result',
 demo='fn main() {}'),
dict(id='C07-error-roots', property='C07',
 edits=[(B, '''        if base_root != merged_root {
            return Err(MergeError::UnrelatedBlocks {
                base_root,
                merged_root,
            });
        }
''', '''        let (base_root, merged_root) = (base_root.min(merged_root), base_root.max(merged_root));
        if base_root != merged_root {
            return Err(MergeError::UnrelatedBlocks {
                base_root,
                merged_root,
            });
        }
''')],
 needs='merging unrelated blocks where the commitment of the base is the greater one',
 breaks='the error names the commitments in the wrong roles',
 demo='''
fn main() {
    let l: Vec<_> = (0..3u64).map(|n| (pid(n), msg(n))).collect();
    for e in 2..20 {
        let b = MerkleBlock::from(&tree(3, 1, &l)); let o = MerkleBlock::from(&tree(3, e, &l));
        match b.clone().merge_reveal(o.clone()).unwrap_err() {
            MergeError::UnrelatedBlocks { base_root, merged_root } => { assert_eq!(base_root, b.commit_id()); assert_eq!(merged_root, o.commit_id()); }
            _ => panic!(),
        }
    }
}
'''),
dict(id='C08-shortcut', property='C08',
 edits=[(B, '''        self.conceal_other(protocol_id)?;
        let mut map''', '''        if self.entropy.is_some() || self.known_protocol_ids().ne([protocol_id]) {
            self.conceal_other(protocol_id)?;
        }
        let mut map''')],
 needs='a decoded block revealing one protocol whose concealed nodes are not merged',
 breaks='the proof made from the block is not that of the tree (and panics in debug builds)',
 demo='''
fn main() {
    let l: Vec<_> = [(pid(3), msg(1))].to_vec();
    let t = tree(3, 1, &l);
    let b = MerkleBlock::from(&t);
    let mut raw = bytes(&b);
    // entropy: Some(u64) -> None
    let n = raw.len(); raw.truncate(n - 9); raw.push(0);
    let c = decode::<MerkleBlock>(&raw).unwrap();
    assert_eq!(c.entropy(), None);
    assert_eq!(c.to_merkle_proof(pid(3)).unwrap(), b.to_merkle_proof(pid(3)).unwrap());
}
'''),
dict(id='C09-entropy-word', property='C09',
 edits=[(A, 'pub fn entropy(entropy: u64, pos: u32) -> Self { Self::Entropy { entropy, pos } }', '''pub fn entropy(entropy: u64, pos: u32) -> Self {
        Self::Entropy {
            entropy: entropy & u32::MAX as u64,
            pos,
        }
    }''')],
 needs='two entropy values which differ in the upper 32 bits only',
 breaks='half of the entropy is not used, so placeholders are shared and can be searched for',
 demo='''
fn main() {
    let l: Vec<_> = [(pid(3), msg(1))].to_vec();
    assert_ne!(tree(3, 1, &l).commit_id(), tree(3, 1 + (1 << 40), &l).commit_id());
}
'''),
dict(id='C10-set-order', property='C10',
 edits=[('commit_verify/src/merkle.rs', '''impl<T: Ord, const MIN: usize> MerkleLeaves for Confined<BTreeSet<T>, MIN, { u16::MAX as usize }>
where T: CommitId<CommitmentId = MerkleHash>
{
    type Leaf = T;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &T> { self.iter() }''', '''impl<T: Ord, const MIN: usize> MerkleLeaves for Confined<BTreeSet<T>, MIN, { u16::MAX as usize }>
where T: CommitId<CommitmentId = MerkleHash>
{
    type Leaf = T;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &T> { self.iter().rev() }''')],
 needs='a set with the size limit of 65535', breaks='leaves are committed to in the reversed order',
 demo='''
use amplify::confinement::{SmallOrdSet, TinyOrdSet};
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct L(u16);
impl CommitEncode for L { type CommitmentId = MerkleHash; fn commit_encode(&self, e: &mut CommitEngine) { let v = amplify::num::u24::with(self.0 as u32); let l = Leaf::entropy(v.to_string().len() as u64, self.0 as u32); e.commit_to_serialized(&l) } }
fn main() {
    let a = SmallOrdSet::try_from_iter([L(1), L(2), L(3)]).unwrap();
    let b = TinyOrdSet::try_from_iter([L(1), L(2), L(3)]).unwrap();
    assert_eq!(MerkleHash::merklize(&a), MerkleHash::merklize(&b));
}
'''),
dict(id='C10-wide', property='C10',
 edits=[('commit_verify/src/merkle.rs', 'MerkleHash::branches(depth, base_width, branch1, branch2)\n        }\n    }', 'MerkleHash::branches(depth, base_width.min(0xFFFF), branch1, branch2)\n        }\n    }')],
 needs='a collection of more than 65535 leaves', breaks='the width committed to by the nodes is cut',
 demo='''
use sha2::{Digest, Sha256};
use amplify::confinement::LargeVec;
fn eng() -> Sha256 { let t = Sha256::digest("urn:ubideco:merkle:node#2024-01-31"); let mut h = Sha256::new(); h.update(t); h.update(t); h }
fn main() {
    let n = 1u32 << 16;
    let v = LargeVec::try_from_iter((0..n).map(|i| Leaf::entropy(1, i))).unwrap();
    let mut row: Vec<[u8; 32]> = (0..n).map(|i| { let mut h = eng(); h.update([0x11]); h.update(1u64.to_le_bytes()); h.update(i.to_le_bytes()); h.finalize().into() }).collect();
    for depth in (0..16u8).rev() { row = row.chunks(2).map(|c| { let mut h = eng(); h.update([2, depth]); let mut w = [0u8; 32]; w[..4].copy_from_slice(&n.to_le_bytes()); h.update(w); h.update(c[0]); h.update(c[1]); h.finalize().into() }).collect(); }
    assert_eq!(MerkleHash::merklize(&v).as_slice(), &row[0][..]);
}
'''),
dict(id='C11-single-as-branch', property='C11',
 edits=[('commit_verify/src/merkle.rs', 'Self::with(NodeBranching::Single, depth, width, node, VIRTUAL_LEAF)', 'Self::branches(depth, width, node, VIRTUAL_LEAF)')],
 needs='collections whose number of elements is not a power of two', breaks='a node with one leaf has the id of a node with two branches, the second being the virtual leaf',
 demo='''
fn main() {
    let h = MerkleHash::from([1u8; 32]);
    assert_ne!(MerkleHash::single(2u8, 3u32, h), MerkleHash::branches(2u8, 3u32, h, MerkleHash::from([0xFF; 32])));
}
'''),
dict(id='C15-long-tag', property='C15',
 edits=[('commit_verify/src/digest.rs', '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Sha256::default();
        tagger.update(tag);''', '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let tag = tag.as_ref();
        let mut tagger = Sha256::default();
        tagger.update(&tag[..tag.len().min(64)]);''')],
 needs='a tag longer than 64 bytes', breaks='tags which differ after the 64th byte are the same tag',
 demo='''
fn main() {
    assert_ne!(Sha256::from_tag(format!("{}a", "x".repeat(64))).finish(), Sha256::from_tag(format!("{}b", "x".repeat(64))).finish());
}
'''),
dict(id='C15-length-class', property='C15',
 edits=[('commit_verify/src/digest.rs', '            0x10000..=0xFFFFFF => ', '            0x10000..=0xFFFFFE => '), ('commit_verify/src/digest.rs', '            0x1000000..=0xFFFFFFFF => ', '            0xFFFFFF..=0xFFFFFFFF => ')],
 needs='data with the declared maximum of exactly 2^24 - 1', breaks='four bytes instead of three are used for the length',
 demo='''
fn main() {
    let mut a = Sha256::default(); a.input_with_len::<0xFFFFFF>(&[1, 2, 3]);
    let mut b = Sha256::default(); b.input_raw(&[3, 0, 0, 1, 2, 3]);
    assert_eq!(a.finish(), b.finish());
}
'''),
dict(id='C16-by-commitment', property='C16',
 edits=[(T, '''        type Error = Error;

        fn try_commit''', '''        type Error = Error;

        fn verify(&self, source: &MultiSource) -> Result<(), crate::VerifyError> {
            let other = Self::try_commit(source).map_err(|_| crate::VerifyError::InvalidMessage)?;
            if other.root() != self.root() || other.cofactor != self.cofactor {
                return Err(crate::VerifyError::InvalidCommitment);
            }
            Ok(())
        }

        fn try_commit''')],
 needs='a tree with no empty slots and a source with another entropy', breaks='the tree verifies against a source which gives a different tree',
 demo='''
fn main() {
    let l: Vec<_> = (0..4u64).map(|n| (pid(n), msg(n))).collect();
    let t = tree(2, 1, &l);
    let src = source(2, 2, &l);
    assert_ne!(MerkleTree::try_commit(&src).unwrap(), t);
    assert!(TryCommitVerify::verify(&t, &src).is_err());
}
'''),
]
BUGS = [b for b in BUGS if b['id'] != 'C07-deep-merge']
