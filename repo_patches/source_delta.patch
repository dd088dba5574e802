From ef226cf27a1f60389ba83e8b6a1ccd3078f2301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:15 +0000
Subject: [PATCH 1/6] fix: reject merkle proofs with paths exceeding the
 maximal tree depth

A MerkleProof path may have up to 32 elements, while a tree depth is
limited to 31. Verification of a (decodable) proof with 32 elements
was panicking instead of returning InvalidProof.
---
 commit_verify/src/mpc/block.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index a7125ec..3a19187 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -240,6 +240,15 @@ impl MerkleBlock {
     ) -> Result<Self, InvalidProof> {
         let path = proof.as_path();
         let mut pos = proof.pos;
+        // The path may hold up to 32 hashes, while trees are limited to the depth of 31
+        if path.len() > u5::MAX.to_u8() as usize {
+            return Err(InvalidProof {
+                protocol_id,
+                expected: 0,
+                actual: pos,
+                width: u32::MAX,
+            });
+        }
         let mut width_limit = proof.width_limit();
 
         let expected = protocol_id_pos(protocol_id, proof.cofactor, proof.depth());
-- 
2.43.0


From 7950a41534f810a91be391c422c70244d13b8fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 2/6] fix: factored_width overflow for untrusted cofactors

Decoded proofs and blocks may contain a cofactor exceeding the width
of the tree, in which case factored_width was overflowing. Use the
same effective divisor as the one used for computing positions.
---
 commit_verify/src/mpc/block.rs | 16 ++++++++++++----
 commit_verify/src/mpc/tree.rs  |  8 ++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index 3a19187..67aca2b 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -607,8 +607,12 @@ Changed commitment id: {}",
     pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth.to_u8() as u32) }
 
     /// Computes the factored width of the merkle tree according to the formula
-    /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    /// `2 ^ depth - cofactor`, but at least 1.
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit()
+            .saturating_sub(self.cofactor as u32)
+            .max(1)
+    }
 
     pub fn known_protocol_ids(&self) -> impl Iterator<Item = ProtocolId> + '_ {
         self.cross_section.iter().filter_map(|item| match item {
@@ -712,8 +716,12 @@ impl MerkleProof {
     pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth().to_u8() as u32) }
 
     /// Computes the factored width of the merkle tree according to the formula
-    /// `2 ^ depth - cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    /// `2 ^ depth - cofactor`, but at least 1.
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit()
+            .saturating_sub(self.cofactor as u32)
+            .max(1)
+    }
 
     /// Converts the proof into inner merkle path representation
     pub fn into_path(self) -> Confined<Vec<MerkleHash>, 0, 32> { self.path }
diff --git a/commit_verify/src/mpc/tree.rs b/commit_verify/src/mpc/tree.rs
index f1999fc..10a26d6 100644
--- a/commit_verify/src/mpc/tree.rs
+++ b/commit_verify/src/mpc/tree.rs
@@ -198,8 +198,12 @@ impl MerkleTree {
     pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth.to_u8() as u32) }
 
     /// Computes the factored width of the merkle tree, equal to `2 ^ depth -
-    /// cofactor`.
-    pub fn factored_width(&self) -> u32 { self.width_limit() - self.cofactor as u32 }
+    /// cofactor`, but at least 1.
+    pub fn factored_width(&self) -> u32 {
+        self.width_limit()
+            .saturating_sub(self.cofactor as u32)
+            .max(1)
+    }
 
     pub fn depth(&self) -> u5 { self.depth }
 
-- 
2.43.0


From d5e355abae7c16d27c8b3b7af12e5899e99823a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 3/6] fix: report ProofMismatch in EmbedCommitVerify::verify

The error variant is documented as the one returned when the provided
proof doesn't match the proof generated during the verification, but
InvalidProof (documented as a failure to restore the original
container) was returned instead.
---
 commit_verify/src/embed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commit_verify/src/embed.rs b/commit_verify/src/embed.rs
index 3009e71..5811e9b 100644
--- a/commit_verify/src/embed.rs
+++ b/commit_verify/src/embed.rs
@@ -169,7 +169,7 @@ where
         let mut container_prime = proof.restore_original_container(self)?;
         let proof_prime = container_prime.embed_commit(msg)?;
         if !proof_prime.verify_eq(proof) {
-            return Err(EmbedVerifyError::InvalidProof);
+            return Err(EmbedVerifyError::ProofMismatch);
         }
         if !self.verify_eq(&container_prime) {
             return Err(EmbedVerifyError::CommitmentMismatch);
-- 
2.43.0


From ccfc09da206659f6c5ff3cb23a59dc8e1471f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:57 +0000
Subject: [PATCH 4/6] fix: keep merkle block intact on conceal_except failure

When one of the protocols is not known, conceal_except was concealing
all other leafs (and removing the entropy) before returning an error,
irreversibly destroying revealed data in the block.
---
 commit_verify/src/mpc/block.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/commit_verify/src/mpc/block.rs b/commit_verify/src/mpc/block.rs
index 67aca2b..ae9efdd 100644
--- a/commit_verify/src/mpc/block.rs
+++ b/commit_verify/src/mpc/block.rs
@@ -330,6 +330,15 @@ impl MerkleBlock {
         let mut count = 0usize;
         let mut not_found = protocols.iter().copied().collect::<BTreeSet<_>>();
 
+        // Check that all leafs are known before making any changes, since the concealed
+        // information can't be recovered if we error
+        for protocol_id in self.known_protocol_ids() {
+            not_found.remove(&protocol_id);
+        }
+        if let Some(protocol_id) = not_found.into_iter().next() {
+            return Err(LeafNotKnown(protocol_id));
+        }
+
         self.entropy = None;
 
         // Conceal all leafs except of one
@@ -339,7 +348,7 @@ impl MerkleBlock {
                     // Do nothing
                 }
                 TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.contains(p) => {
-                    not_found.remove(p);
+                    // Do nothing
                 }
                 TreeNode::CommitmentLeaf { .. } => {
                     count += 1;
@@ -351,10 +360,6 @@ impl MerkleBlock {
             }
         }
 
-        if let Some(protocol_id) = not_found.into_iter().next() {
-            return Err(LeafNotKnown(protocol_id));
-        }
-
         loop {
             debug_assert!(!self.cross_section.is_empty());
             let prev_count = count;
-- 
2.43.0


From f0e5213952a4b620d9b6ce9572a4b6abb988ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 5/6] fix: draw placeholder entropy from the OS so that forked
 processes don't repeat it

thread_rng() keeps a buffer of pre-generated values which is duplicated by
fork(): trees created by the parent and the child afterwards used the same
entropy.
---
 commit_verify/src/mpc/tree.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/commit_verify/src/mpc/tree.rs b/commit_verify/src/mpc/tree.rs
index 10a26d6..0f670fc 100644
--- a/commit_verify/src/mpc/tree.rs
+++ b/commit_verify/src/mpc/tree.rs
@@ -124,7 +124,9 @@ mod commit {
 
         fn try_commit(source: &MultiSource) -> Result<Self, Error> {
             #[cfg(feature = "rand")]
-            use rand::{thread_rng, RngCore};
+            use rand::rngs::OsRng;
+            #[cfg(feature = "rand")]
+            use rand::RngCore;
 
             let msg_count = source.messages.len();
 
@@ -136,9 +138,7 @@ mod commit {
             }
 
             #[cfg(feature = "rand")]
-            let entropy = source
-                .static_entropy
-                .unwrap_or_else(|| thread_rng().next_u64());
+            let entropy = source.static_entropy.unwrap_or_else(|| OsRng.next_u64());
             #[cfg(not(feature = "rand"))]
             let entropy = source.static_entropy.expect(
                 "use must use `rand` feature for crate commit_verify if you do not provide with a \
-- 
2.43.0


From 9e8dba346e87375c86081278c58df9917afb44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 6/6] fix: allow restricted field visibility in CommitEncode
 derive

---
 commit_verify/derive/src/params.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/commit_verify/derive/src/params.rs b/commit_verify/derive/src/params.rs
index a1da3f6..07d0195 100644
--- a/commit_verify/derive/src/params.rs
+++ b/commit_verify/derive/src/params.rs
@@ -22,7 +22,7 @@
 use amplify_syn::{ArgValueReq, AttrReq, DataType, ParametrizedAttr, TypeClass};
 use proc_macro2::Span;
 use quote::ToTokens;
-use syn::{DeriveInput, Error, Path, Result};
+use syn::{Data, DeriveInput, Error, Path, Result, Visibility};
 
 const ATTR: &str = "commit_encode";
 const ATTR_CRATE: &str = "crate";
@@ -102,9 +102,15 @@ pub struct CommitDerive {
 impl TryFrom<DeriveInput> for CommitDerive {
     type Error = Error;
 
-    fn try_from(input: DeriveInput) -> Result<Self> {
+    fn try_from(mut input: DeriveInput) -> Result<Self> {
         let params = ParametrizedAttr::with(ATTR, &input.attrs)?;
         let conf = ContainerAttr::try_from(params)?;
+        // Field visibility has no effect on the derivation, but `amplify_syn` panics on `pub(crate)`
+        if let Data::Struct(data) = &mut input.data {
+            for field in &mut data.fields {
+                field.vis = Visibility::Inherited;
+            }
+        }
         let data = DataType::with(input, ident!(commit_encode))?;
         Ok(Self { data, conf })
     }
-- 
2.43.0

