#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
T="commit_verify/src/mpc/tree.rs"; B="commit_verify/src/mpc/block.rs"; A="commit_verify/src/mpc/atoms.rs"
M="commit_verify/src/merkle.rs"; I="commit_verify/src/id.rs"; L="commit_verify/src/lib.rs"
D="commit_verify/src/digest.rs"; S="single_use_seals/src/lib.rs"; API="src/api.rs"

p("C01","Every committed message has an inclusion proof that opens the commitment",
  "Whenever a multi-protocol commitment is successfully created, every (protocol, message) pair of the source has an inclusion proof obtainable from the tree (and from any block still revealing it), and opening that proof with that pair yields exactly the commitment id of the tree. The set of proofs covers exactly the source protocols, each once, and proofs report the depth and cofactor of the tree they come from.",
  ["inputs"],"all message maps, minimal depths, entropies; every protocol in the map",
  "The tests check 1-8 messages with random ids at the depths these happen to select; they never sweep clustered ids, high cofactors, deep trees or blocks from which part was already concealed.",
  [T,B],[("proof extraction","MerkleBlock::into_merkle_proof / MerkleTree::into_proofs"),("opening","MerkleProof::convolve, MerkleBlock::with")],
  ["MerkleTree::try_commit, into_proofs, MerkleProof::convolve, commit_id"])
p("C02","An inclusion proof opens a commitment only for its own protocol and message",
  "Opening a proof with any protocol id and message either fails because the protocol does not map to the proof's leaf position, or returns exactly the commitment an independent LNPBP-4 verifier computes from that path, position, cofactor, protocol and message. Hence changing the message, the protocol, the position, the cofactor, the number of path elements or any bit of the path never again yields the original commitment.",
  ["inputs"],"all proofs (any path length 0..31, any position, any cofactor), all protocol ids and messages, all single and multiple mutations",
  "Tests only open honest proofs of small random trees; no test ever tampers with a proof nor recomputes the opening independently, and depths above 10 are never opened.",
  [B,T,M],[("position check","MerkleBlock::with"),("path folding with depth and width commitment","MerkleBlock::conceal_except"),("leaf domain","mpc::Leaf")],
  ["MerkleProof::convolve"])
p("C03","A protocol can commit only at the single slot determined by its id",
  "For a given depth and cofactor, a protocol has exactly one leaf slot: its 256-bit little-endian id modulo the factored width (tree width minus cofactor, at least one). Trees, blocks and proofs all report that same slot, it always lies inside the tree, and a proof carrying any other position is rejected with an error that states the protocol, the expected slot, the actual slot and the tree width.",
  ["inputs"],"all 2^256 protocol ids, depths 0..31, cofactors 0..65535, positions",
  "Tests use ids whose upper 128 bits are zero and the few (depth, cofactor) pairs random generation gives; no test presents a proof at a wrong slot.",
  [T,B],[("slot computation","mpc::tree::protocol_id_pos"),("rejection","MerkleBlock::with")],
  ["protocol_id_pos, factored_width, width_limit, InvalidProof"])
p("C04","Commitment tree construction is deterministic, minimal and loses no message",
  "Creating a tree picks the first collision-free combination of (depth, cofactor), scanning depths upwards from the requested minimal depth and cofactors upwards from zero within the per-depth bound; the resulting tree holds every source message at its own slot and nothing else, and keeps the supplied entropy. It fails only for an empty zero-depth source or when no combination up to the maximal depth fits, and the same source always gives the same result, independently of insertion order.",
  ["inputs"],"all message maps (incl. adversarially colliding protocol ids), minimal depths 0..31, entropies",
  "Tests only check that construction does not fail for random maps; which depth and cofactor are selected, colliding ids, cofactors at the bound and both failure modes with messages present are unobserved.",
  [T],[("depth/cofactor search","MerkleTree::try_commit"),("collision detection","map.insert(..).is_none()")],
  ["MerkleTree::try_commit, depth, cofactor, entropy, strict-encoded tree"],
  [("map","slot to message assignment","MerkleTree::map")])
p("C05","Commitment ids follow LNPBP-4/LNPBP-81 exactly and bind all of the tree",
  "The Merkle root, the concealed form and the commitment id of a tree or block equal those computed by an independent implementation of the LNPBP-4/LNPBP-81 hashing rules, with each empty slot filled by a placeholder bound to the tree entropy and the slot number. Consequently changing any message, protocol, the depth, the cofactor or (when there are empty slots) the entropy changes the commitment id.",
  ["inputs"],"all trees: any messages, depth, cofactor, entropy, including hand-encoded trees that a search would not select",
  "Tests compare the library with itself (tree vs its own block); no golden values or independent computation exist, so a consistent change of the hashing rules passes.",
  [T,B,A,M],[("root","MerkleTree::root"),("placeholders","Leaf::entropy"),("tagging","Commitment::TAG")],
  ["MerkleTree::root, conceal, commit_id; MerkleBlock::commit_id"])
p("C06","Concealing preserves the commitment and reveals exactly what was kept",
  "Concealing a block except for a set of known protocols succeeds, leaves the commitment id unchanged, keeps revealed exactly those protocols with their messages, forgets the entropy, returns the number of nodes concealed or merged, and leaves the coarsest possible cross-section (no two concealed siblings remain). If any requested protocol is not revealed in the block an error naming one such protocol is returned and the block is unchanged.",
  ["inputs","histories"],"all blocks (full or already partially concealed), all subsets to keep, sequences of conceal operations",
  "Tests conceal all but one message of up to 8 random messages; arbitrary subsets, repeated concealment, adjacent leaves, deep sparse blocks and the error path are not exercised.",
  [B],[("aggregation","MerkleBlock::conceal_except")],["MerkleBlock::conceal_except / conceal_other, known_protocol_ids, to_known_message_map, strict encoding"],
  [("cross_section","left-to-right tiling of the tree by concealed nodes and leaves","MerkleBlock")])
p("C07","Merging partial blocks reveals exactly the union and keeps the commitment",
  "Merging two blocks (or a block and an opened proof) with the same commitment always succeeds and yields a block with that commitment revealing exactly the union of both, at the finest common cross-section, whatever the order of merging; merging is commutative, associative and idempotent. Merging data with another commitment, or a proof at the wrong slot, fails with an error naming both commitments (or the slot mismatch) and leaves the block unchanged.",
  ["inputs","histories"],"all pairs and sequences of partial blocks of a common tree at any depth; all unrelated pairs",
  "Tests merge one-message blocks of 2-8 random messages in one order; partial blocks with several leaves, repeated merges, deep paths, unrelated blocks and permutations are not covered.",
  [B,M],[("merge walk","MerkleBlock::merge_reveal"),("sub-tree tracking","MerkleBuoy")],["MerkleBlock::merge_reveal, merge_reveal_path"])
p("C08","Blocks and proofs convert into each other without loss",
  "A block built from a valid proof reveals exactly that protocol and message, has the proof's depth, cofactor and commitment, and converts back into the identical proof. Any block revealing a protocol gives the same proof for it as the complete tree does; asking for the proof of a protocol that is not revealed is an error.",
  ["inputs","histories"],"all proofs of any path length and position; all partial blocks of a tree and all revealed protocols",
  "Tests never compare the proof extracted from a partially concealed or merged block with the proof of the full tree and never use positions beyond small trees.",
  [B],[("conversion","MerkleBlock::with, into_merkle_proof, to_merkle_proof, into_known_proofs")],["MerkleBlock::with, to_merkle_proof"])
p("C09","Concealed data disclose nothing about the messages they hide",
  "After concealment (partial blocks, proofs, concealed trees) no byte representation of a hidden protocol id, hidden message or of the entropy is present in the binary or textual serialisation, the entropy is reported as unknown, and the serialised form of a kept part does not depend on the hidden contents other than through hashes. Two sources that differ only in hidden data under different entropy never share placeholder hashes.",
  ["inputs"],"all trees, kept subsets and concealment sequences",
  "Tests only check the commitment id after removal of entropy; that the serialised block or proof is free of hidden data is never observed.",
  [B],[("concealment","MerkleBlock::conceal_except, into_merkle_proof, MerkleConcealed")],["strict encoding and serde of MerkleBlock/MerkleProof/MerkleConcealed"])
p("C10","Merklization of any collection follows LNPBP-81",
  "The Merkle root of a collection equals the root computed by an independent LNPBP-81 implementation for every leaf count, including zero, one and non-powers of two, and for every supported container kind and size class. Lists are committed in order and sets in sorted order; the container kind and its size limits do not otherwise influence the root.",
  ["inputs"],"all leaf counts 0..several thousands, all leaves, vectors and ordered sets of u8/u16/u32 length classes and different minimal sizes",
  "No existing test checks a root against an independent computation or merklizes anything but trees of power-of-two width.",
  [M],[("recursion","MerkleHash::_merklize"),("collections","MerkleLeaves impls")],["MerkleHash::merklize, MerkleNode constructors"])
p("C11","Different data never share a commitment id (domain separation)",
  "Structurally different inputs have different ids: collections (of elements which are not themselves nodes of a Merkle tree) differing in length, order or any element, leaves versus inner nodes, nodes differing in branching, depth, width or position, occupied versus placeholder slots, identical bytes under different commitment tags, and data crossing field boundaries. No preimage used for one kind of node is ever a valid preimage of another kind.",
  ["inputs"],"all pairs of structurally different inputs, searched over near-miss mutations",
  "Tests compare a handful of fixed messages; second-preimage style near misses (padding, duplicated last leaf, subtree promoted to leaf, swapped children, shifted boundaries) are never generated.",
  [M,A,I],[("node header","MerkleNode {branching, depth, width}"),("leaf tags 0x10/0x11","mpc::Leaf"),("tagged hashes","CommitmentId::TAG")],["merklize, commit_id"])
p("C12","The commit engine hashes exactly the declared sequence of values",
  "For every sequence of commitment steps (plain values, options, hashed, merklized, concealed values, lists, sets and maps) the resulting hash is the tagged SHA-256 of the concatenated canonical encodings of the step values in order, and the recorded layout lists exactly the same steps with the right type names and size bounds. Requesting the layout, cloning the engine or finishing it never changes the hash.",
  ["programs","inputs"],"all sequences of steps and values",
  "Tests touch at most single-step serialisation through the derive macro; collections, options, hashed and concealed steps, ordering and the layout have no assertions.",
  [I],[("engine","CommitEngine::commit_to_*"),("layout log","CommitEngine::layout")],["CommitEngine public API"])
p("C13","Derived commitment encodings implement the selected strategy",
  "For any type deriving the commitment encoding, the id is the tagged hash - under the tag of the declared id type - of its own canonical serialisation (strict strategy), of its concealed form (conceal strategy), of its inner value (transparent strategy) or of the Merkle root of its elements (merklize strategy). Generic and multi-field types, enums and wrappers follow the same rule, and equal values always have equal ids while different values have different ids.",
  ["programs","inputs"],"all derivable type shapes and all their values",
  "Derive tests only check that a few structs compile and give a non-trivial id; the id is not compared with the strategy's definition.",
  ["commit_verify/derive/src/derive.rs","commit_verify/derive/src/params.rs",I],[("strategy dispatch","CommitDerive::derive_encode")],["#[derive(CommitEncode)], CommitId::commit_id"])
p("C14","Published commitment layouts describe what is really hashed",
  "The commitment layout reported for a type names the id type and its tag and lists, in order, exactly the steps that hashing a value of the type performs, independently of the value; rendering the layout (and the Merkle description published in the repository) shows each step with its kind, type name, tag and length bounds.",
  ["programs","inputs"],"all types with a commitment encoding and all their values; all layouts",
  "Only one rendering of the Merkle node layout is produced by the existing binary and no test compares the layout of a value with the layout of the type.",
  [I,"commit_verify/src/vesper.rs","stl/Merkle.vesper"],[("layout","CommitmentLayout::commitment_layout"),("rendering","CommitLayout::to_vesper")],["commitment_layout, CommitLayout Display"])
p("C15","Tagged and length-prefixed hashing follows its definition for every input",
  "A tagged hash engine is in the state of having absorbed the hash of the tag twice, for both SHA-256 and RIPEMD-160 and for any tag; absorbing length-prefixed data is the little-endian length in the fewest of 1, 2, 3 or 4 bytes able to hold the declared maximum followed by the data. Splitting raw input in any way does not change the digest, and within the declared maximum no two different data sequences give the same absorbed stream.",
  ["inputs"],"all tags, data, splits, and maxima in all four size classes incl. their boundaries",
  "There are no tests of the digest extension at all.",
  [D],[("tagging","DigestExt::from_tag"),("prefix","DigestExt::input_with_len")],["DigestExt"])
p("C16","Hash commitments verify for exactly the committed message",
  "For every infallible or fallible commit-verify scheme, verification succeeds if and only if committing to the presented message gives the presented commitment; otherwise it reports a commitment mismatch, or, when the message cannot be committed to, an invalid message. For multi-protocol trees with fixed entropy this means the full tree verifies against its own source and against no source which commits to a different tree.",
  ["inputs"],"all messages, commitments and (failing or succeeding) schemes; all sources and mutated sources",
  "The test-suite helper runs ten fixed messages with one hash scheme; fallible schemes are never verified.",
  ["commit_verify/src/commit.rs",T],[("default verify","CommitVerify::verify, TryCommitVerify::verify")],["CommitVerify, TryCommitVerify for MerkleTree"])
p("C17","Embedded commitments verify only with the right container, message and proof",
  "For every embed-commit scheme, verification succeeds if and only if the proof restores a container which, committed to the message again, gives both the presented proof and the presented container. Each failing stage is reported as its own error class: unrestorable or non-matching proof, message that cannot be committed (with the scheme's error), or container mismatch.",
  ["inputs"],"all containers, messages, proofs and mutations, over schemes with custom equivalence and failing stages",
  "Tests use one trivial scheme in which the proof is a copy of the container and ten fixed messages; stage failures and custom equivalence are not covered.",
  ["commit_verify/src/embed.rs"],[("default verify","EmbedCommitVerify::verify")],["EmbedCommitVerify::verify"])
p("C18","Convolved commitments verify only with the right commitment, message and proof",
  "For every convolve-commit scheme, verification succeeds if and only if the original restored from the proof and the commitment, convolved with the proof's supplement and the message, gives both the presented proof and the presented commitment. Otherwise the failing stage is reported: message impossible to commit to, invalid proof, or commitment mismatch, judged in that order.",
  ["inputs"],"all sources, supplements, messages, proofs, commitments and mutations, over schemes with custom equivalence and failing stages",
  "Tests use one toy scheme with a constant supplement and ten fixed messages; error classes and their precedence are not covered.",
  ["commit_verify/src/convolve.rs"],[("default verify","ConvolveCommitProof::verify")],["ConvolveCommitProof::verify"])
p("C19","Binary encoding of commitment data is lossless and canonical",
  "Every tree, block, proof, concealed tree, leaf, node, hash and id, encoded in the strict binary format, decodes to an equal value with the same commitment id, and the bytes equal those prescribed by the published layout. Any byte string that decodes at all re-encodes to exactly itself, and truncated, extended or unknown-tag inputs are rejected.",
  ["inputs"],"all values of all public data types; all byte strings near valid encodings",
  "Tests never decode what they encode for these types (one test only counts bytes), so order, tags, or width changes and lossy decoding pass.",
  [B,T,A,M,I],[("derived strict encodings","#[derive(StrictEncode, StrictDecode)]")],["StrictEncode/StrictDecode of public types"])
p("C20","The published type library matches what the code encodes",
  "The strict type library produced by the code has the published id and equals the library files shipped in the repository, and every encoded value of each exported type is accepted by, consumed entirely by, and reproduced byte-for-byte from the type system compiled from that library, with the field values the object reports.",
  ["inputs"],"all values of all exported types; all artefact formats of the library",
  "The one test compares the library id with a constant; it never checks that real encodings conform to the library nor that shipped files agree.",
  ["commit_verify/src/stl.rs","stl","commit_verify/src/bin/commit-stl.rs"],[("library","commit_verify_stl")],["commit_verify_stl, stl/*.sta, *.stl, *.sty, strict_types::TypeSystem"])
p("C21","Human-readable and binary serde forms are lossless",
  "Every serialisable commitment type, seal witness, validation status and error report survives a round trip through self-describing and compact serde formats with an equal value, an equal commitment id and no dependence on which format was used; ids serialise as plain hex strings in human-readable formats. Malformed forms (wrong length, wrong variant, non-hex, missing fields, empty cross-section) are rejected rather than altered.",
  ["inputs"],"all values, formats (JSON, CBOR, bincode) and malformed variants",
  "There is no serde test in the workspace.",
  [B,A,M,I,L,S,API],[("derived serde","#[derive(Serialize, Deserialize)]"),("reserved unit","ReservedBytes serde")],["serde of public types"])
p("C22","Reserved bytes accept exactly one value",
  "A reserved field of any length and fill value encodes to exactly that many copies of the fill value, decodes only from exactly that byte string, rejects every other value with an integrity error, and has the id of the reserved value. Its serde form is a unit that restores the same value, and constructing it from other bytes is refused.",
  ["inputs"],"all lengths 1..32, fill values and byte strings",
  "Reserved bytes have no tests; a decoder that checks only part of the bytes passes.",
  [L],[("decode check","ReservedBytes::strict_decode"),("construction","From<[u8; LEN]>")],["ReservedBytes"])
p("C23","Untrusted proofs and blocks can be handled without crashing",
  "Whatever bytes, JSON or in-memory values arrive from a counterparty, decoding either fails with an error or gives a value on which every public read, conceal, convert, merge and verify operation returns normally, with overflow checks on or off. A decoded block that reveals a message never shows a message that its commitment id does not commit to at the protocol's own slot.",
  ["inputs","fault_sequences"],"all byte strings and serde documents for block, proof and related types followed by all operation sequences",
  "Tests only operate on objects created by the library itself; nothing decodes hostile data.",
  [B,T,A],[("decode-time validation","MerkleProof / MerkleBlock StrictDecode"),("arithmetics","factored_width, width_limit, depth")],["StrictDecode/serde of MerkleBlock, MerkleProof and their methods"])
p("C24","A seal closing is accepted only if all three links hold",
  "Verification of one or many seals against a message succeeds if and only if every seal is included in the witness for that message, the client-side witness convolves the message successfully, and the published witness commits to exactly the convolved value. Otherwise the first broken link in that order is reported, naming the first non-included seal and the publication id, or passing the underlying error unchanged; later links are not consulted.",
  ["inputs","histories"],"all seal lists (empty, repeated, any order), messages, witnesses and outcomes of each link",
  "single_use_seals has no tests at all.",
  [S],[("verification chain","SealWitness::verify_seals_closing, verify_seal_closing"),("errors","SealError")],["SealWitness::verify_seal(s)_closing, SealError Display/source"])
p("C25","Seal witnesses travel unchanged; an absent client witness adds nothing",
  "A seal closing witness encodes as its published part followed by its client part in the binary format and as exactly those two fields in serde formats, and decodes to parts equal to the originals with the same verification verdicts. The empty client witness passes every message through unchanged, equals and merges with any other, so verification then depends on the published witness and the message alone.",
  ["inputs"],"all published and client witness values and messages",
  "single_use_seals has no tests at all.",
  [S],[("encoding","#[derive(StrictEncode)] SealWitness"),("empty witness","NoWitness")],["SealWitness strict/serde encoding, NoWitness::convolve_commit/merge/eq"])
p("C26","A validation status is a lossless log whose verdict follows its worst entry",
  "For any sequence of additions, merges and conversions, the status holds exactly the reported seal issues, failures, warnings and informational notes, each in the order reported. Its verdict is invalid iff there is any failure, else seal issues iff there is any unresolved seal, else valid; warnings and notes never change it, and adding reports can only keep or worsen it.",
  ["histories","inputs"],"all sequences of status operations",
  "The top-level crate has no tests at all.",
  [API],[("log","Status::add_*, AddAssign, FromIterator, from_failure"),("verdict","Status::validity")],["Status, Validity"])
p("C27","Client-side validation visits every item and seal once and reports everything",
  "Validating a data set checks the internal consistency of the set and of every item, and resolves every seal of every item with the given resolver exactly once in iteration order; the status contains precisely the reports of those checks and of all failing resolutions in order. No failure, however early, suppresses later checks, and the verdict is valid iff no consistency check failed and every seal resolved.",
  ["histories","inputs","fault_sequences"],"all data sets, stateful resolvers and failure patterns",
  "The top-level crate has no tests at all.",
  [API],[("driver","ClientSideValidate::client_side_validate")],["client_side_validate with instrumented resolver and items"])
p("C28","Text forms of ids and hashes identify them uniquely",
  "Every protocol id, message, commitment, Merkle hash and strict hash prints as the 64-digit lowercase hex of its bytes in order and parses back to the same value from either hex case, and equality, ordering and byte access agree with the underlying bytes. Text of any other length or alphabet, and byte slices of any length other than 32, are rejected.",
  ["inputs"],"all 32-byte values and all strings/slices",
  "No tests parse or print ids.",
  [A,M,I],[("wrapper derives","#[wrapper(Display, FromStr, Hex)]"),("slices","copy_from_slice")],["Display, FromStr, LowerHex/UpperHex, copy_from_slice"])
p("C29","The sub-tree tracker reports exactly when a sub-tree is complete",
  "Fed with the depths of consecutive nodes of a cross-section, from its first node on or (the default tracker) from the root of the tree, the tracker's level equals that of the right-most incomplete sub-tree of a stack model, it reports surfacing exactly when the model's bottom sub-tree completes, and after all nodes of a complete sub-tree rooted at any depth its level is that depth.",
  ["histories"],"all sequences of depths, in particular all tilings of sub-trees up to depth 31",
  "The one existing test pushes a single hand-written sequence.",
  [M],[("stack","MerkleBuoy::push, level")],["MerkleBuoy"])
p("C30","Results do not depend on build features or optimisation",
  "For the same input, commitment ids, roots, tree shapes, proofs, encodings, verification verdicts and error values are identical whether the libraries are built with all features, default features or no optional features, with or without debug assertions and overflow checks.",
  ["configurations","inputs"],"the feature sets the crate offers and debug/release profiles; all inputs",
  "The tests run in one configuration at a time and never compare outcomes between configurations.",
  [T,B,I,L,"commit_verify/Cargo.toml","single_use_seals/Cargo.toml"],[("feature gates","cfg(feature = ..), debug_assert!")],["public API built in sixteen configurations"])
p("C31","Proof matching agrees with the commitments",
  "Two complete or partial disclosures match if and only if they belong to the same commitment; matching is reflexive, symmetric and transitive, and independent of what each side reveals. For inclusion proofs, matching is true for proofs of one commitment and false for proofs of different commitments.",
  ["inputs"],"all pairs of trees, partial blocks and proofs of same and different commitments",
  "No test calls the matching operation.",
  [B,T,"commit_verify/src/mpc/mod.rs"],[("matching","Proof::matches impls")],["Proof::matches"])
p("C32","Unspecified entropy is fresh and specified entropy is honoured",
  "When the source gives an entropy value, the tree and the complete block use exactly that value; when it does not, each creation draws a new unpredictable 64-bit value, so that repeated commitments to the same messages have different commitment ids whenever the tree has an empty slot. Nothing else in the result depends on randomness.",
  ["inputs","histories"],"all sources with and without fixed entropy; repeated creations",
  "Tests never commit twice to the same source and compare.",
  [T,A],[("entropy","MerkleTree::try_commit, MultiSource::static_entropy")],["MerkleTree::entropy, MerkleBlock::entropy, commit_id"])
p("C33","Deriving works for every shape of type and refuses unclear definitions",
  "For any struct or enum, with any lifetime, type and const parameters, bounds, where clauses, defaults, field names and visibilities, paths to the id type and to the crate, and any order and grouping of the attribute arguments, the derived implementation compiles, has exactly the parameters of the type, and commits under the tag of the named id to what the strategy selects: the serialized value, the wrapped value, the concealed form or the Merkle root of the elements. A definition which lacks the strategy or the id, repeats or misnames an argument, names an unknown strategy, or whose type lacks the traits of its strategy is refused at compile time and never given another meaning.",
  ["inputs","configurations"],"all type definitions and attribute arguments, in all language editions",
  "The tests derive for seven fixed definitions, none of which is generic in lifetimes or constants, and no test looks at refused definitions.",
  ["commit_verify/derive/src/lib.rs","commit_verify/derive/src/derive.rs","commit_verify/derive/src/params.rs",I],[("macro","CommitDerive::derive_encode"),("arguments","ContainerAttr::try_from, StrategyAttr::try_from")],["derive(CommitEncode)"])
p("C34","The generator reproduces the published files",
  "Run with any of its formats and any existing destination, whatever files are there before, the library generator writes exactly the published CommitVerify library of that format and the published Merklization description, complete and without remains of earlier content, and changes nothing else; without a destination it prints the library and nothing else. It fails on arguments which make no sense.",
  ["inputs","histories"],"all formats, destinations, and earlier contents of the destination",
  "No test runs the generator or compares its output with the published files.",
  ["commit_verify/src/bin/commit-stl.rs","commit_verify/src/stl.rs","stl/"],[("generator","main"),("library","commit_verify_stl")],["commit-stl"])
p("C35","Failures tell what failed",
  "The text of each failure names in full what it is about: the protocol id, actual and expected position and width of a refused proof (also when it comes out of a merge), the commitments of unrelated blocks in their roles, the unknown protocol, the number of messages which cannot be placed, the details of a message which cannot be committed to, the seal and the publication which does not include it. A failed link of a seal closing has the text of the failure of that link and leads to it as its source. Debugging forms name the variant and its contents. Failures of different kinds or with different data have different texts.",
  ["inputs"],"all failures with any data",
  "No test looks at the text or the source of a failure.",
  ["single_use_seals/src/lib.rs",B,T,"commit_verify/src/embed.rs","commit_verify/src/convolve.rs","commit_verify/src/commit.rs"],[("seal errors","SealError: Display, Debug, Error"),("block errors","InvalidProof, MergeError, LeafNotKnown")],["Display and source of errors"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
