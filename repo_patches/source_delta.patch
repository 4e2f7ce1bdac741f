From 271a8f784c6de2ae822d1d068a8c3ea5372c968b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:58 +0000
Subject: [PATCH 1/8] fix: factored width must not underflow when cofactor
 exceeds tree width

---
 commit_verify/src/mpc/block.rs | 12 ++++++++++--
 commit_verify/src/mpc/tree.rs  |  6 +++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index a7125ec..2927fc4 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -599,7 +599,11 @@ Changed commitment id: {}",
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit()
+            .saturating_sub(self.cofactor as u32)
+            .max(1)
+    }
 
     pub fn known_protocol_ids(&self) -> impl Iterator<Item = ProtocolId> + '_ {
         self.cross_section.iter().filter_map(|item| match item {
@@ -704,7 +708,11 @@ impl MerkleProof {
 
     /// Computes the factored width of the merkle tree according to the formula
     /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit()
+            .saturating_sub(self.cofactor as u32)
+            .max(1)
+    }
 
     /// Converts the proof into inner merkle path representation
     pub fn into_path(self) -> Confined<Vec<MerkleHash>, 0, 32> { self.path }
diff --git a/commit_verify/src/mpc/tree.rs b/commit_verify/src/mpc/tree.rs
index f1999fc..81e4569 100644
--- a/commit_verify/src/mpc/tree.rs
+++ b/commit_verify/src/mpc/tree.rs
@@ -199,7 +199,11 @@ impl MerkleTree {
 
     /// Computes the factored width of the merkle tree, equal to `2 ^ depth -
     /// cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit()
+            .saturating_sub(self.cofactor as u32)
+            .max(1)
+    }
 
     pub fn depth(&self) -> u5 { self.depth }
 
-- 
2.43.0


From 5dba21d7e1b4c4e55d17a1ee27f3af031a4f5367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 2/8] fix: merkle block must not change when concealment fails

---
 commit_verify/src/mpc/block.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index 2927fc4..d0a959b 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -318,8 +318,15 @@ impl MerkleBlock {
     ) -> Result<usize, LeafNotKnown> {
         let protocols = protocols.as_ref();
 
-        let mut count = 0usize;
         let mut not_found = protocols.iter().copied().collect::<BTreeSet<_>>();
+        for protocol_id in self.known_protocol_ids() {
+            not_found.remove(&protocol_id);
+        }
+        if let Some(protocol_id) = not_found.into_iter().next() {
+            return Err(LeafNotKnown(protocol_id));
+        }
+
+        let mut count = 0usize;
 
         self.entropy = None;
 
@@ -330,7 +337,7 @@ impl MerkleBlock {
                     // Do nothing
                 }
                 TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.contains(p) => {
-                    not_found.remove(p);
+                    // Do nothing
                 }
                 TreeNode::CommitmentLeaf { .. } => {
                     count += 1;
@@ -342,10 +349,6 @@ impl MerkleBlock {
             }
         }
 
-        if let Some(protocol_id) = not_found.into_iter().next() {
-            return Err(LeafNotKnown(protocol_id));
-        }
-
         loop {
             debug_assert!(!self.cross_section.is_empty());
             let prev_count = count;
-- 
2.43.0


From d1445345df1a146d641b0c700e060d399645c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 3/8] fix: reject out-of-range depth during serde
 deserialization

---
 commit_verify/src/mpc/block.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index d0a959b..efe2b49 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -69,6 +69,17 @@ pub enum MergeError {
     },
 }
 
+/// Deserializes depth value ensuring it fits the 5-bit range (which is not
+/// checked by the `u5` type itself).
+#[cfg(feature = "serde")]
+fn deserialize_depth<'de, D>(deserializer: D) -> Result<u5, D::Error>
+where D: serde::Deserializer<'de> {
+    use serde::{de, Deserialize};
+    let depth = u8::deserialize(deserializer)?;
+    u5::try_from(depth)
+        .map_err(|_| de::Error::custom(format!("invalid merkle tree depth {depth}, maximum 31")))
+}
+
 /// LNPBP-4 Merkle tree node.
 #[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
 #[derive(StrictType, StrictDumb, StrictEncode, StrictDecode)]
@@ -82,6 +93,7 @@ enum TreeNode {
     /// A node of the tree with concealed leaf or tree branch information.
     ConcealedNode {
         /// Depth of the node.
+        #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_depth"))]
         depth: u5,
         /// Node hash.
         hash: MerkleHash,
@@ -133,6 +145,7 @@ impl TreeNode {
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(rename_all = "camelCase"))]
 pub struct MerkleConcealed {
     /// Tree depth (up to 16).
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_depth"))]
     depth: u5,
 
     /// Cofactor is used as an additive to the modulo divisor to improve packing
@@ -163,6 +176,7 @@ pub struct MerkleBlock {
 
     /// Tree depth (up to 16).
     #[getter(as_copy)]
+    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_depth"))]
     depth: u5,
 
     /// Cofactor is used as an additive to the modulo divisor to improve packing
-- 
2.43.0


From 758659e01b5aa739b78e66c1f8d882dea289ae35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 4/8] fix: reject merkle proofs with path exceeding maximal
 tree depth

---
 commit_verify/src/mpc/block.rs | 67 ++++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index efe2b49..fe9be4a 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -26,7 +26,10 @@ use std::collections::{BTreeMap, BTreeSet};
 
 use amplify::confinement::{Confined, NonEmptyVec, U32 as U32MAX};
 use amplify::num::u5;
-use strict_encoding::{StrictDeserialize, StrictDumb, StrictEncode, StrictSerialize};
+use strict_encoding::{
+    DecodeError, ReadStruct, StrictDecode, StrictDeserialize, StrictDumb, StrictEncode,
+    StrictSerialize, TypedRead,
+};
 
 use crate::id::CommitId;
 use crate::merkle::{MerkleBuoy, MerkleHash};
@@ -686,9 +689,13 @@ impl Conceal for MerkleBlock {
 
 /// A proof of the merkle commitment.
 #[derive(Getters, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
-#[derive(StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictType, StrictEncode)]
 #[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Serialize, Deserialize),
+    serde(try_from = "unvalidated::MerkleProof")
+)]
 pub struct MerkleProof {
     /// Method used to construct MPC proof (hash function, merklization).
     #[getter(as_copy)]
@@ -710,6 +717,23 @@ pub struct MerkleProof {
     path: Confined<Vec<MerkleHash>, 0, 32>,
 }
 
+impl StrictDecode for MerkleProof {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        reader.read_struct(|r| {
+            let proof = MerkleProof {
+                method: r.read_field(fname!("method"))?,
+                pos: r.read_field(fname!("pos"))?,
+                cofactor: r.read_field(fname!("cofactor"))?,
+                path: r.read_field(fname!("path"))?,
+            };
+            proof
+                .validate()
+                .map_err(|err| DecodeError::DataIntegrityError(err.to_owned()))?;
+            Ok(proof)
+        })
+    }
+}
+
 impl Proof for MerkleProof {
     fn matches(&self, other: &Self) -> bool {
         self.cofactor == other.cofactor && self.merkle_root() == other.merkle_root()
@@ -717,6 +741,14 @@ impl Proof for MerkleProof {
 }
 
 impl MerkleProof {
+    /// Checks that the proof may belong to a tree of a supported depth.
+    fn validate(&self) -> Result<(), &'static str> {
+        if self.path.len() > u5::MAX.to_u8() as usize {
+            return Err("merkle proof path exceeds maximal LNPBP-4 tree depth");
+        }
+        Ok(())
+    }
+
     /// Computes the depth of the merkle tree.
     pub fn depth(&self) -> u5 { u5::with(self.path.len() as u8) }
 
@@ -757,6 +789,35 @@ impl MerkleProof {
     }
 }
 
+/// Data structures as they are deserialized with `serde`, before the validation.
+#[cfg(feature = "serde")]
+mod unvalidated {
+    use super::*;
+
+    #[derive(Deserialize)]
+    pub(super) struct MerkleProof {
+        method: Method,
+        pos: u32,
+        cofactor: u16,
+        path: Confined<Vec<MerkleHash>, 0, 32>,
+    }
+
+    impl TryFrom<MerkleProof> for super::MerkleProof {
+        type Error = &'static str;
+
+        fn try_from(proof: MerkleProof) -> Result<Self, Self::Error> {
+            let proof = super::MerkleProof {
+                method: proof.method,
+                pos: proof.pos,
+                cofactor: proof.cofactor,
+                path: proof.path,
+            };
+            proof.validate()?;
+            Ok(proof)
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 7b83680395277bec91f37aa3cf61b44632e58534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 5/8] fix: validate structure of merkle blocks coming from
 decoding

---
 commit_verify/src/mpc/block.rs | 81 ++++++++++++++++++++++++++++++++--
 1 file changed, 78 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index fe9be4a..fffe58e 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -167,11 +167,15 @@ impl Conceal for MerkleConcealed {
 
 /// Partially-concealed merkle tree data.
 #[derive(Getters, Clone, PartialEq, Eq, Hash, Debug)]
-#[derive(StrictType, StrictEncode, StrictDecode)]
+#[derive(StrictType, StrictEncode)]
 #[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
 #[derive(CommitEncode)]
 #[commit_encode(crate = crate, strategy = conceal, id = Commitment)]
-#[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(
+    feature = "serde",
+    derive(Serialize, Deserialize),
+    serde(try_from = "unvalidated::MerkleBlock")
+)]
 pub struct MerkleBlock {
     /// Method used to construct MPC proof (hash function, merklization).
     #[getter(as_copy)]
@@ -179,7 +183,6 @@ pub struct MerkleBlock {
 
     /// Tree depth (up to 16).
     #[getter(as_copy)]
-    #[cfg_attr(feature = "serde", serde(deserialize_with = "deserialize_depth"))]
     depth: u5,
 
     /// Cofactor is used as an additive to the modulo divisor to improve packing
@@ -212,6 +215,24 @@ impl StrictDumb for MerkleBlock {
 impl StrictSerialize for MerkleBlock {}
 impl StrictDeserialize for MerkleBlock {}
 
+impl StrictDecode for MerkleBlock {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        reader.read_struct(|r| {
+            let block = MerkleBlock {
+                method: r.read_field(fname!("method"))?,
+                depth: r.read_field(fname!("depth"))?,
+                cofactor: r.read_field(fname!("cofactor"))?,
+                cross_section: r.read_field(fname!("crossSection"))?,
+                entropy: r.read_field(fname!("entropy"))?,
+            };
+            block
+                .validate()
+                .map_err(|err| DecodeError::DataIntegrityError(err.to_owned()))?;
+            Ok(block)
+        })
+    }
+}
+
 impl Proof for MerkleBlock {
     fn matches(&self, other: &Self) -> bool { self.commit_id() == other.commit_id() }
 }
@@ -249,6 +270,34 @@ impl From<MerkleTree> for MerkleBlock {
 }
 
 impl MerkleBlock {
+    /// Checks that the cross-section covers each of the tree leaves exactly
+    /// once and that each of the revealed commitments is located in the slot
+    /// of its protocol.
+    fn validate(&self) -> Result<(), &'static str> {
+        let width = self.width_limit() as u64;
+        let mut pos = 0u64;
+        for node in &self.cross_section {
+            let height = self
+                .depth
+                .checked_sub(node.depth_or(self.depth))
+                .ok_or("merkle block contains a node below the tree depth")?;
+            let span = 1u64 << height.to_u8();
+            if pos % span != 0 || pos + span > width {
+                return Err("nodes of the merkle block do not match the tree structure");
+            }
+            if let TreeNode::CommitmentLeaf { protocol_id, .. } = node {
+                if self.protocol_id_pos(*protocol_id) as u64 != pos {
+                    return Err("merkle block contains a commitment outside of its protocol slot");
+                }
+            }
+            pos += span;
+        }
+        if pos != width {
+            return Err("merkle block does not cover the whole tree");
+        }
+        Ok(())
+    }
+
     /// Constructs merkle block from a merkle proof
     pub fn with(
         proof: &MerkleProof,
@@ -794,6 +843,32 @@ impl MerkleProof {
 mod unvalidated {
     use super::*;
 
+    #[derive(Deserialize)]
+    pub(super) struct MerkleBlock {
+        method: Method,
+        #[serde(deserialize_with = "deserialize_depth")]
+        depth: u5,
+        cofactor: u16,
+        cross_section: NonEmptyVec<TreeNode, U32MAX>,
+        entropy: Option<u64>,
+    }
+
+    impl TryFrom<MerkleBlock> for super::MerkleBlock {
+        type Error = &'static str;
+
+        fn try_from(block: MerkleBlock) -> Result<Self, Self::Error> {
+            let block = super::MerkleBlock {
+                method: block.method,
+                depth: block.depth,
+                cofactor: block.cofactor,
+                cross_section: block.cross_section,
+                entropy: block.entropy,
+            };
+            block.validate()?;
+            Ok(block)
+        }
+    }
+
     #[derive(Deserialize)]
     pub(super) struct MerkleProof {
         method: Method,
-- 
2.43.0


From 2cbb8102a47bc07f7a0834721db0aa9189158b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:11 +0000
Subject: [PATCH 6/8] fix: do not allocate memory by the declared length of
 merkle block data

---
 commit_verify/src/mpc/block.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index fffe58e..2befd9a 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -27,8 +27,8 @@ use std::collections::{BTreeMap, BTreeSet};
 use amplify::confinement::{Confined, NonEmptyVec, U32 as U32MAX};
 use amplify::num::u5;
 use strict_encoding::{
-    DecodeError, ReadStruct, StrictDecode, StrictDeserialize, StrictDumb, StrictEncode,
-    StrictSerialize, TypedRead,
+    DecodeError, ReadRaw, ReadStruct, StrictDecode, StrictDeserialize, StrictDumb, StrictEncode,
+    StrictSerialize, StrictType, TypeName, TypedRead,
 };
 
 use crate::id::CommitId;
@@ -215,6 +215,26 @@ impl StrictDumb for MerkleBlock {
 impl StrictSerialize for MerkleBlock {}
 impl StrictDeserialize for MerkleBlock {}
 
+/// Helper type decoding a merkle block cross-section without trusting its
+/// declared length: memory is allocated only for the nodes which are present.
+struct CrossSection(NonEmptyVec<TreeNode, U32MAX>);
+
+impl StrictType for CrossSection {
+    const STRICT_LIB_NAME: &'static str = LIB_NAME_COMMIT_VERIFY;
+    fn strict_name() -> Option<TypeName> { None }
+}
+
+impl StrictDecode for CrossSection {
+    fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
+        let len = unsafe { reader.raw_reader() }.read_raw_len::<U32MAX>()?;
+        let mut nodes = Vec::new();
+        for _ in 0..len {
+            nodes.push(TreeNode::strict_decode(reader)?);
+        }
+        Ok(Self(NonEmptyVec::try_from(nodes)?))
+    }
+}
+
 impl StrictDecode for MerkleBlock {
     fn strict_decode(reader: &mut impl TypedRead) -> Result<Self, DecodeError> {
         reader.read_struct(|r| {
@@ -222,7 +242,7 @@ impl StrictDecode for MerkleBlock {
                 method: r.read_field(fname!("method"))?,
                 depth: r.read_field(fname!("depth"))?,
                 cofactor: r.read_field(fname!("cofactor"))?,
-                cross_section: r.read_field(fname!("crossSection"))?,
+                cross_section: r.read_field::<CrossSection>(fname!("crossSection"))?.0,
                 entropy: r.read_field(fname!("entropy"))?,
             };
             block
-- 
2.43.0


From 4651b70a643d66492ec2f82793b4ea44c2642304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:53 +0000
Subject: [PATCH 7/8] fix: derive CommitEncode for types with restricted field
 visibility

With debug assertions the derivation panicked on pub(crate) and pub(self) fields.
---
 commit_verify/derive/src/params.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/commit_verify/derive/src/params.rs b/commit_verify/derive/src/params.rs
index a1da3f6..0da05dc 100644
--- a/commit_verify/derive/src/params.rs
+++ b/commit_verify/derive/src/params.rs
@@ -22,7 +22,7 @@
 use amplify_syn::{ArgValueReq, AttrReq, DataType, ParametrizedAttr, TypeClass};
 use proc_macro2::Span;
 use quote::ToTokens;
-use syn::{DeriveInput, Error, Path, Result};
+use syn::{Data, DeriveInput, Error, Path, Result, Visibility};
 
 const ATTR: &str = "commit_encode";
 const ATTR_CRATE: &str = "crate";
@@ -102,9 +102,22 @@ pub struct CommitDerive {
 impl TryFrom<DeriveInput> for CommitDerive {
     type Error = Error;
 
-    fn try_from(input: DeriveInput) -> Result<Self> {
+    fn try_from(mut input: DeriveInput) -> Result<Self> {
         let params = ParametrizedAttr::with(ATTR, &input.attrs)?;
         let conf = ContainerAttr::try_from(params)?;
+        // Visibility of the fields does not affect the derivation, and `DataType` panics on some of its
+        // forms (`pub(crate)`, `pub(self)`) when it is built with debug assertions.
+        match &mut input.data {
+            Data::Struct(data) => {
+                data.fields.iter_mut().for_each(|field| field.vis = Visibility::Inherited)
+            }
+            Data::Union(data) => data
+                .fields
+                .named
+                .iter_mut()
+                .for_each(|field| field.vis = Visibility::Inherited),
+            Data::Enum(_) => {} // fields of variants have no visibility
+        }
         let data = DataType::with(input, ident!(commit_encode))?;
         Ok(Self { data, conf })
     }
-- 
2.43.0


From a1c7f670d0f4a92ba08b477532642a0c711193e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:02 +0000
Subject: [PATCH 8/8] fix: debug form of seal errors caused by client-side
 witnesses

---
 single_use_seals/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/single_use_seals/src/lib.rs b/single_use_seals/src/lib.rs
index 65e22b6..385402b 100644
--- a/single_use_seals/src/lib.rs
+++ b/single_use_seals/src/lib.rs
@@ -298,7 +298,7 @@ impl<Seal: SingleUseSeal> Debug for SealError<Seal> {
                 .field(pub_id)
                 .finish(),
             SealError::Published(err) => f.debug_tuple("SealError::Published").field(err).finish(),
-            SealError::Client(err) => f.debug_tuple("SealError::Client(err").field(err).finish(),
+            SealError::Client(err) => f.debug_tuple("SealError::Client").field(err).finish(),
         }
     }
 }
-- 
2.43.0

