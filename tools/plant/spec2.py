T = 'commit_verify/src/mpc/tree.rs'; B = 'commit_verify/src/mpc/block.rs'; A = 'commit_verify/src/mpc/atoms.rs'
I = 'commit_verify/src/id.rs'; M = 'commit_verify/src/merkle.rs'; L = 'commit_verify/src/lib.rs'; V = 'commit_verify/src/vesper.rs'
S = 'single_use_seals/src/lib.rs'; API = 'src/api.rs'; D = 'commit_verify/derive/src/derive.rs'
SEAL = '''
use single_use_seals::*;
use strict_encoding::{StrictDumb, StrictType};
#[derive(Clone, Copy, Debug, PartialEq, Eq, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Demo")]
struct Seal(u8);
impl std::fmt::Display for Seal { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
#[derive(Clone, Debug, PartialEq, Eq)] struct E(u8);
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for E {}
#[derive(Clone, Copy, Debug, PartialEq, Eq, StrictType, StrictDumb, StrictEncode, StrictDecode, serde::Serialize, serde::Deserialize)]
#[strict_type(lib = "Demo")]
struct Pub { seals: u8, ok: u8 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, StrictType, StrictDumb, StrictEncode, StrictDecode, serde::Serialize, serde::Deserialize)]
#[strict_type(lib = "Demo")]
struct Cli { ok: u8 }
impl SingleUseSeal for Seal {
    type Message = u8; type PubWitness = Pub; type CliWitness = Cli;
    fn is_included(&self, _: u8, w: &SealWitness<Self>) -> bool { w.published.seals & (1 << self.0) != 0 }
}
impl PublishedWitness<Seal> for Pub { type PubId = u8; type Error = E; fn pub_id(&self) -> u8 { self.seals }
    fn verify_commitment(&self, p: u8) -> Result<(), E> { if p == self.ok { Ok(()) } else { Err(E(2)) } } }
impl ClientSideWitness for Cli { type Seal = Seal; type Proof = u8; type Error = E;
    fn convolve_commit(&self, m: u8) -> Result<u8, E> { if self.ok != 0 { Ok(m) } else { Err(E(1)) } }
    fn merge(&mut self, _: Self) -> Result<(), impl std::error::Error> { Ok::<_, std::convert::Infallible>(()) } }
'''
REP = '''
use client_side_validation::*;
use serde::{Serialize, Deserialize};
macro_rules! log { ($($n:ident),*) => { $(
#[derive(Clone, PartialEq, Eq, Hash, Debug, Serialize, Deserialize)] struct $n(u8);
impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for $n {} impl ValidationLog for $n {} )* } }
log!(Fail, Issue, Warn, Inf);
impl ValidationFailure for Fail {}
impl SealIssue for Issue { type Seal = u8; fn seal(&self) -> &u8 { &self.0 } }
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)] struct Rep;
impl ValidationReport for Rep { type SealIssue = Issue; type Failure = Fail; type Warning = Warn; type Info = Inf; }
struct Item { seals: Vec<u8>, fails: Vec<u8> }
impl<'a> ClientData<'a> for Item { type ValidationReport = Rep; type SealIterator = std::slice::Iter<'a, u8>;
    fn single_use_seals(&'a self) -> Self::SealIterator { self.seals.iter() }
    fn validate_internal_consistency(&'a self) -> Status<Rep> { self.fails.iter().map(|f| Fail(*f)).collect() } }
struct Set { items: Vec<Item>, fails: Vec<u8> }
impl<'a> ClientData<'a> for Set { type ValidationReport = Rep; type SealIterator = std::slice::Iter<'a, u8>;
    fn single_use_seals(&'a self) -> Self::SealIterator { [].iter() }
    fn validate_internal_consistency(&'a self) -> Status<Rep> { self.fails.iter().map(|f| Fail(*f)).collect() } }
impl<'a> ClientSideValidate<'a> for Set { type ValidationItem = Item; type ValidationIter = std::slice::Iter<'a, Item>;
    fn validation_iter(&'a self) -> Self::ValidationIter { self.items.iter() } }
struct Res { seen: Vec<u8> }
impl SealResolver<u8> for Res { type Error = Issue; fn resolve_trust(&mut self, s: &u8) -> Result<(), Issue> { self.seen.push(*s); if *s > 100 { Err(Issue(*s)) } else { Ok(()) } } }
'''
BUGS = [
dict(id='C12-long-list', property='C12', release=True,
 edits=[(I, '''            CommitStep::Collection(CommitColType::List, Sizing::new(MIN as u64, MAX as u64), fqn);
        self.layout
            .push(step)
            .expect("too many fields for commitment");
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&collection);''', '''            CommitStep::Collection(CommitColType::List, Sizing::new(MIN as u64, MAX as u64), fqn);
        self.layout
            .push(step)
            .expect("too many fields for commitment");
        self.inner_commit_to::<_, { u16::MAX as usize }>(&collection);''')],
 needs='a list whose encoding is longer than 65535 bytes', breaks='the end of the list is not hashed (release), or a panic (debug)',
 demo='''
use amplify::confinement::SmallVec;
fn main() {
    let mut ids = vec![];
    for last in [1u64, 2] {
        let mut e = CommitEngine::new("x");
        let mut v: Vec<_> = vec![amplify::Bytes32::from([0u8; 32]).into(); 4000];
        let _: &Vec<Commitment> = &v; v.push(Commitment::from([last as u8; 32]));
        e.commit_to_linear_list(&SmallVec::try_from(v).unwrap());
        ids.push(e.finish().finish());
    }
    assert_ne!(ids[0], ids[1]);
}
'''),
dict(id='C12-map-sizing', property='C12',
 edits=[(I, 'Sizing::new(MIN as u64, MAX as u64),\n            val_fqn,', 'Sizing::new(MIN.min(1) as u64, MAX as u64),\n            val_fqn,')],
 needs='a map with a lower bound of the size above one', breaks='the recorded layout has a wrong bound',
 demo='''
fn main() {
    let mut e = CommitEngine::new("x");
    let m = Confined::<BTreeMap<Commitment, Commitment>, 2, 10>::try_from_iter((0..3u8).map(|i| (Commitment::from([i; 32]), Commitment::from([i; 32])))).unwrap();
    e.commit_to_linear_map(&m);
    match &e.as_layout()[0] { CommitStep::Collection(_, s, _) => assert_eq!((s.min, s.max), (2, 10)), _ => panic!() }
}
'''),
dict(id='C12-empty-merkle', property='C12',
 edits=[(I, '''        let root = MerkleHash::merklize(value);
        self.inner_commit_to::<_, 32>(&root);''', '''        // nothing to commit to for an empty collection
        if value.merkle_leaves().len() == 0 {
            return;
        }

        let root = MerkleHash::merklize(value);
        self.inner_commit_to::<_, 32>(&root);''')],
 needs='an empty merklized collection', breaks='the step is in the layout but not in the hash',
 demo='''
use amplify::confinement::TinyVec;
fn main() {
    let mut e = CommitEngine::new("x"); e.commit_to_merkle(&TinyVec::<Leaf>::default());
    assert_ne!(e.finish().finish(), CommitEngine::new("x").finish().finish());
}
'''),
dict(id='C13-enum-conceal', property='C13',
 edits=[(D, 'use crate::params::{CommitDerive, StrategyAttr};', 'use amplify_syn::DataInner;\n\nuse crate::params::{CommitDerive, StrategyAttr};'),
        (D, '''            StrategyAttr::Strict => quote! {''', '''            StrategyAttr::ConcealStrict if matches!(self.data.inner, DataInner::Enum(_)) => quote! {
                engine.commit_to_serialized(self);
            },
            StrategyAttr::Strict => quote! {''')],
 needs='an enum with the conceal strategy', breaks='the id is computed from the revealed form of the data',
 demo='''
use strict_encoding::{StrictDumb, StrictType};
#[derive(Clone, Copy, PartialEq, Eq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Demo", tags = order)]
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = StrictHash)]
enum E { #[strict_type(dumb)] None, Open(u8), Hidden(u8) }
impl Conceal for E { type Concealed = Self; fn conceal(&self) -> Self { match self { E::Open(v) => E::Hidden(v % 16), h => *h } } }
fn main() { assert_eq!(E::Open(17).commit_id(), E::Hidden(1).commit_id()); }
'''),
dict(id='C14-concealed-step', property='C14',
 edits=[(D, 'engine.commit_to_concealed(&self.conceal());', 'engine.commit_to_serialized(&self.conceal());')],
 needs='a type with the conceal strategy, such as the tree', breaks='the published layout does not tell that the data are concealed',
 demo='''
fn main() { let l = MerkleBlock::commitment_layout(); assert!(matches!(l.fields()[0], CommitStep::Concealed(_)), "{l}"); }
'''),
dict(id='C14-map-roles', property='C14',
 edits=[(V, 'subject: key.name.to_ident(),\n                        predicate: Pred::MapKey', 'subject: val.name.to_ident(),\n                        predicate: Pred::MapKey'),
        (V, 'subject: val.name.to_ident(),\n                        predicate: Pred::MapValue', 'subject: key.name.to_ident(),\n                        predicate: Pred::MapValue')],
 needs='a commitment to a map with different types of keys and values', breaks='the rendered layout names the key type as the value and the other way around',
 demo='''
use strict_encoding::{StrictDumb, StrictType};
#[derive(Clone, Copy, PartialEq, Eq, Debug, StrictType, StrictDumb, StrictEncode, StrictDecode)]
#[strict_type(lib = "Demo")] struct X(u8);
impl CommitEncode for X { type CommitmentId = StrictHash; fn commit_encode(&self, e: &mut CommitEngine) {
    e.commit_to_linear_map(&Confined::<BTreeMap<Commitment, MerkleHash>, 0, 10>::default()) } }
fn main() { let s = X::commitment_layout().to_string(); println!("{s}");
    let k = s.lines().find(|l| l.contains("mapKey")).unwrap(); assert!(k.contains("Commitment")); }
'''),
dict(id='C17-either-match', property='C17',
 edits=[('commit_verify/src/embed.rs', 'if !proof_prime.verify_eq(proof) {', 'if !proof_prime.verify_eq(proof) && !self.verify_eq(&container_prime) {')],
 needs='a wrong proof from which the container nevertheless is restored such that the commitment matches', breaks='a proof is accepted which the commitment procedure does not produce',
 demo='''
#[derive(Clone, PartialEq, Eq, Debug)] struct C(Vec<u8>, u8);
#[derive(Clone, PartialEq, Eq, Debug)] struct P(Vec<u8>, u8);
#[derive(Debug, Clone)] struct Er;
impl std::fmt::Display for Er { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Er {}
impl EmbedCommitProof<u8, C, UntaggedProtocol> for P { fn restore_original_container(&self, c: &C) -> Result<C, EmbedVerifyError<Er>> { Ok(C(self.0.clone(), c.1)) } }
impl EmbedCommitVerify<u8, UntaggedProtocol> for C { type Proof = P; type CommitError = Er;
  fn embed_commit(&mut self, m: &u8) -> Result<P, Er> { let p = P(self.0.clone(), *m); self.0.push(*m); Ok(p) } }
fn main() { let mut c = C(vec![1], 2); let p = c.embed_commit(&5).unwrap(); assert!(c.verify(&5, &p).is_ok()); assert!(c.verify(&5, &P(p.0.clone(), 6)).is_err()); }
'''),
dict(id='C18-order', property='C18',
 edits=[('commit_verify/src/convolve.rs', '''        if !self.verify_eq(&proof) {
            return Err(ConvolveVerifyError::InvalidProof);
        }
        if !commitment.verify_eq(&commitment_prime) {
            return Err(ConvolveVerifyError::CommitmentMismatch);
        }
''', '''        if !commitment.verify_eq(&commitment_prime) {
            return Err(ConvolveVerifyError::CommitmentMismatch);
        }
        if !self.verify_eq(&proof) {
            return Err(ConvolveVerifyError::InvalidProof);
        }
''')],
 needs='a proof and a commitment which both do not match', breaks='an invalid proof is reported as a commitment mismatch',
 demo='''
#[derive(Clone, PartialEq, Eq, Debug)] struct O(u8);
#[derive(Clone, PartialEq, Eq, Debug)] struct P(u8, u8);
#[derive(Debug, Clone)] struct Er;
impl std::fmt::Display for Er { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for Er {}
impl ConvolveCommitProof<u8, O, UntaggedProtocol> for P { type Suppl = u8; fn restore_original(&self, c: &u8) -> O { O(c.wrapping_sub(self.0)) } fn extract_supplement(&self) -> &u8 { &self.0 } }
impl ConvolveCommit<u8, P, UntaggedProtocol> for O { type Commitment = u8; type CommitError = Er;
  fn convolve_commit(&self, s: &u8, m: &u8) -> Result<(u8, P), Er> { Ok((self.0.wrapping_add(*s).wrapping_add(*m), P(*s, *m))) } }
fn main() { assert_eq!(P(1, 2).verify(&3, &10), Err(ConvolveVerifyError::InvalidProof)); }
'''),
dict(id='C19-branching-tag', property='C19',
 edits=[(M, '''#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB_NAME_COMMIT_VERIFY, tags = repr, into_u8, try_from_u8)]
#[repr(u8)]''', '''#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode)]
#[strict_type(lib = LIB_NAME_COMMIT_VERIFY, tags = repr, into_u8, try_from_u8)]
#[repr(u8)]'''), (M, '''#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
#[derive(CommitEncode)]''', '''impl strict_encoding::StrictDecode for NodeBranching {
    fn strict_decode(
        reader: &mut impl strict_encoding::TypedRead,
    ) -> Result<Self, strict_encoding::DecodeError> {
        let tag = u8::strict_decode(reader)?;
        Ok(NodeBranching::try_from(tag).unwrap_or(NodeBranching::Void))
    }
}

#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
#[derive(CommitEncode)]''')],
 needs='a node encoded with an unknown branching', breaks='the node decodes as a void one',
 demo='''
fn main() { let mut b = bytes(&MerkleNode::void(1u8, 5u32)); b[0] = 3; assert!(decode::<MerkleNode>(&b).is_none()); }
'''),
dict(id='C21-compact-status', property='C21',
 edits=[(API, '    /// See also [`ValidationReport::Info`].\n    pub info: Vec<R::Info>,', '    /// See also [`ValidationReport::Info`].\n    #[cfg_attr(feature = "serde", serde(default, skip_serializing_if = "Vec::is_empty"))]\n    pub info: Vec<R::Info>,')],
 needs='a compact serde format and a status without notes', breaks='the status does not decode',
 demo=REP+'''
fn main() { let s = Status::<Rep>::from_failure(Fail(1)); let b = bincode::serialize(&s).unwrap(); assert_eq!(bincode::deserialize::<Status<Rep>>(&b).unwrap(), s); }
'''),
dict(id='C21-unknown-error', property='C21',
 edits=[('commit_verify/src/convolve.rs', '    /// the proof is invalid and the commitment can\'t be verified.\n    InvalidProof,', '    /// the proof is invalid and the commitment can\'t be verified.\n    #[cfg_attr(feature = "serde", serde(other))]\n    InvalidProof,')],
 needs='an unknown name of the variant', breaks='an unknown error report is taken for an invalid proof',
 demo='''
fn main() { assert!(serde_json::from_str::<ConvolveVerifyError>("\\"whatever\\"").is_err()); }
'''),
dict(id='C22-combined-bits', property='C22',
 edits=[(L, 'if reserved != ReservedBytes::<LEN, VAL>::default() {', 'if LEN > 0 && reserved.0.iter().fold(0u8, |acc, byte| acc | byte) != VAL {')],
 needs='several reserved bytes with a non-zero value', breaks='other bytes are accepted',
 demo='''
fn main() { assert!(decode::<ReservedBytes<2, 0xFF>>(&[0xF0, 0x0F]).is_none()); }
'''),
dict(id='C22-debug-only', property='C22', release=True,
 edits=[(L, 'assert_eq!(value, [VAL; LEN]);', 'debug_assert_eq!(value, [VAL; LEN]);')],
 needs='a release build', breaks='reserved bytes can be constructed with another value',
 demo='''
fn main() { assert!(std::panic::catch_unwind(|| ReservedBytes::<2>::from([0, 1])).is_err()); }
'''),
dict(id='C23-signed-span', property='C23',
 edits=[(B, '.map(|height| 2u32.pow(height as u32))\n                .sum::<u32>(),', '.map(|height| 2i32.pow(height as u32))\n                .sum::<i32>() as u32,')],
 needs='merging blocks of depth 31, in a build with overflow checks', breaks='merging panics',
 demo='''
fn main() {
    let mut p = bytes(&MerkleProof::default());
    assert_eq!(p.pop(), Some(0)); p.push(31); p.extend((0..31 * 32).map(|i| i as u8));
    let p: MerkleProof = decode(&p).unwrap();
    let q = pid(1 << 31);
    let mut b = MerkleBlock::with(&p, q, msg(1)).unwrap(); let o = b.clone();
    b.merge_reveal(o.clone()).unwrap(); assert_eq!(b, o);
}
'''),
dict(id='C24-no-seals', property='C24',
 edits=[(S, '''        // ensure that witness includes all seals
        for seal in seals {''', '''        // ensure that witness includes all seals
        let mut seals = seals.into_iter().peekable();
        if seals.peek().is_none() {
            return Ok(());
        }
        for seal in seals {''')],
 needs='an empty list of seals', breaks='the commitment of the witness is not verified', prelude=False,
 demo='#![allow(dead_code, unused_imports)]\nuse strict_encoding::*;\n'+SEAL+'''
fn main() { let w = SealWitness::<Seal>::new(Pub { seals: 0, ok: 1 }, Cli { ok: 1 }); assert!(w.verify_seals_closing(Vec::<Seal>::new(), 2).is_err()); }
'''),
dict(id='C24-order', property='C24',
 edits=[(S, '''        // ensure that witness includes all seals
        for seal in seals {''', '''        let f_msg = self
            .client
            .convolve_commit(message)
            .map_err(SealError::Client)?;
        // ensure that witness includes all seals
        for seal in seals {'''), (S, '''        // f(message), where `f` is defined in the client-side witness
        let f_msg = self
            .client
            .convolve_commit(message)
            .map_err(SealError::Client)?;
''', '''        // f(message), where `f` is defined in the client-side witness
''')],
 needs='a seal which is not included, together with a client-side witness that fails', breaks='a later broken link is reported', prelude=False,
 demo='#![allow(dead_code, unused_imports)]\nuse strict_encoding::*;\n'+SEAL+'''
fn main() { let w = SealWitness::<Seal>::new(Pub { seals: 0, ok: 1 }, Cli { ok: 0 }); assert!(matches!(w.verify_seal_closing(Seal(1), 1), Err(SealError::NotIncluded(Seal(1), 0)))); }
'''),
dict(id='C25-field-order', property='C25',
 edits=[(S, '''    pub published: Seal::PubWitness,
    pub client: Seal::CliWitness,
    #[cfg_attr''', '''    pub client: Seal::CliWitness,
    pub published: Seal::PubWitness,
    #[cfg_attr''')],
 needs='a binary encoded witness', breaks='the client part is encoded first', prelude=False,
 demo='#![allow(dead_code, unused_imports)]\nuse strict_encoding::*;\n'+SEAL+'''
fn main() { let w = SealWitness::<Seal>::new(Pub { seals: 1, ok: 2 }, Cli { ok: 3 });
    let mut out = Vec::new(); let mut c = std::io::Cursor::new(&mut out);
    w.strict_encode(StrictWriter::with(StreamWriter::new::<{ usize::MAX }>(&mut c))).unwrap();
    assert_eq!(out, [1, 2, 3]); }
'''),
dict(id='C26-swap', property='C26',
 edits=[(API, '''    fn add_assign(&mut self, rhs: Self) {
        self.seal_issues.extend(rhs.seal_issues);''', '''    fn add_assign(&mut self, mut rhs: Self) {
        // extending the longer of the lists
        if rhs.seal_issues.len() > 2 * self.seal_issues.len() {
            std::mem::swap(&mut rhs.seal_issues, &mut self.seal_issues);
        }
        self.seal_issues.extend(rhs.seal_issues);''')],
 needs='adding a status with more than twice as many seal issues, to a status with some', breaks='the order of the reports changes', prelude=False,
 demo='#![allow(dead_code)]\n'+REP+'''
fn main() { let mut a = Status::<Rep>::new(); a.add_seal_issue(Issue(1)); let mut b = Status::new(); for i in 2..6 { b.add_seal_issue(Issue(i)); } a += b;
    assert_eq!(a.seal_issues, (1..6).map(Issue).collect::<Vec<_>>()); }
'''),
dict(id='C26-repeated', property='C26',
 edits=[(API, '''        self.failures.push(failure);
        self''', '''        if self.failures.last() != Some(&failure) {
            self.failures.push(failure);
        }
        self''')],
 needs='the same failure reported twice in a row', breaks='one of the reports is lost', prelude=False,
 demo='#![allow(dead_code)]\n'+REP+'''
fn main() { let mut a = Status::<Rep>::new(); a.add_failure(Fail(1)); a.add_failure(Fail(1)); assert_eq!(a.failures.len(), 2); }
'''),
dict(id='C27-first-issue', property='C27',
 edits=[(API, '''                let _ = resolver
                    .resolve_trust(seal)
                    .map_err(|issue| status.add_seal_issue(issue));''', '''                if let Err(issue) = resolver.resolve_trust(seal) {
                    status.add_seal_issue(issue);
                    break;
                }''')],
 needs='an item with several seals of which one before the last does not resolve', breaks='the seals after the first unresolved one are not resolved', prelude=False,
 demo='#![allow(dead_code)]\n'+REP+'''
fn main() { let s = Set { items: vec![Item { seals: vec![101, 1, 102], fails: vec![] }], fails: vec![] };
    let s: &'static Set = Box::leak(Box::new(s)); let r: &'static mut Res = Box::leak(Box::new(Res { seen: vec![] }));
    let st = s.client_side_validate(r); assert_eq!(st.seal_issues.len(), 2); }
'''),
dict(id='C27-invalid-set', property='C27',
 edits=[(API, '''        for item in self.validation_iter() {
            for seal''', '''        for item in self.validation_iter() {
            if status.failures.len() >= u8::MAX as usize {
                break;
            }
            for seal''')],
 needs='more than 254 failures', breaks='the items after those are not validated', prelude=False,
 demo='#![allow(dead_code)]\n'+REP+'''
fn main() { let s = Set { items: (0..300u16).map(|n| Item { seals: vec![n as u8], fails: vec![n as u8] }).collect(), fails: vec![] };
    let s: &'static Set = Box::leak(Box::new(s)); let r: &'static mut Res = Box::leak(Box::new(Res { seen: vec![] }));
    let st = s.client_side_validate(r); assert_eq!(st.failures.len(), 300); }
'''),
dict(id='C28-long-slice', property='C28',
 edits=[(A, '''impl Message {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        Bytes32::copy_from_slice(slice).map(Self)''', '''impl Message {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        Bytes32::copy_from_slice(slice.get(..32).unwrap_or(slice)).map(Self)''')],
 needs='a slice longer than 32 bytes', breaks='the slice is cut and accepted',
 demo='''
fn main() { assert!(Message::copy_from_slice(&[1; 33]).is_err()); assert!(Message::copy_from_slice(&[1; 32]).is_ok()); }
'''),
dict(id='C30-assert-effect', property='C30', release=True,
 edits=[(B, '''                    let inserted = map.insert(*depth, *hash).is_none();
                    debug_assert!(inserted, "MerkleBlock conceal procedure is broken");''', '''                    debug_assert!(
                        map.insert(*depth, *hash).is_none(),
                        "MerkleBlock conceal procedure is broken"
                    );''')],
 needs='a build without debug assertions', breaks='the path of each proof is empty',
 demo='''
fn main() { let t = tree(3, 1, &[(pid(1), msg(1))]); assert_eq!(MerkleBlock::from(&t).to_merkle_proof(pid(1)).unwrap().depth(), t.depth()); }
'''),
dict(id='C31-root-only', property='C31',
 edits=[(B, '''impl Proof for MerkleBlock {
    fn matches(&self, other: &Self) -> bool { self.commit_id() == other.commit_id() }''', '''impl Proof for MerkleBlock {
    fn matches(&self, other: &Self) -> bool {
        self.depth == other.depth && self.conceal().merkle_root == other.conceal().merkle_root
    }''')],
 needs='blocks which differ in nothing but the cofactor', breaks='blocks of different commitments match',
 demo='''
fn main() {
    let a = MerkleBlock::from(&tree(3, 1, &[(pid(1), msg(1))]));
    let mut raw = bytes(&a); raw[2] = 1; // cofactor
    let b: MerkleBlock = decode(&raw).unwrap();
    assert_ne!(a.commit_id(), b.commit_id()); assert!(!a.matches(&b));
}
'''),
dict(id='C32-half-entropy', property='C32',
 edits=[(T, '.unwrap_or_else(|| thread_rng().next_u64());', '.unwrap_or_else(|| thread_rng().next_u32() as u64);')],
 needs='many creations without static entropy', breaks='half of the entropy bits are always zero',
 demo='''
fn main() { let mut s = source(3, 0, &[(pid(1), msg(1))]); s.static_entropy = None;
    assert!((0..64).any(|_| MerkleTree::try_commit(&s).unwrap().entropy() >> 32 != 0)); }
'''),
dict(id='C32-zero-entropy', property='C32',
 edits=[(T, '''                .static_entropy
                .unwrap_or_else''', '''                .static_entropy
                .filter(|entropy| *entropy != 0)
                .unwrap_or_else''')],
 needs='a static entropy of zero', breaks='the given entropy is replaced by a random one',
 demo='''
fn main() { assert_eq!(tree(3, 0, &[(pid(1), msg(1))]).entropy(), 0); }
'''),
]
