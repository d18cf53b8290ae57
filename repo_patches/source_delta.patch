From 8647b038d9eeea7cd7b7d6f127ed96e3864ae814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 01/14] fix: keep both leaves of a pair when rehashing a
 pollard if either is remembered

Pruning dropped a remembered leaf's own node, its position was no longer
tracked and the pollard could not prove it after later deletions.
---
 src/pollard.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index d72444a..ac65233 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -731,6 +731,14 @@ void Pollard::Node::ReHash()
     }
 
     Accumulator::ParentHash(m_node->m_hash, m_sibling->m_nieces[0]->m_hash, m_sibling->m_nieces[1]->m_hash);
+
+    // The mark of a remembered leaf is held by its sibling. If either of two sibling leaves is
+    // remembered, both have to be kept (see MergeRoot): the one for its hash (needed to track
+    // the position of the leaf) and the other for the mark and as part of the proof.
+    bool children_are_leaves = ForestState(m_num_leaves).DetectRow(m_position) == 1;
+    bool child_remembered = !m_sibling->m_nieces[0]->DeadEnd() || !m_sibling->m_nieces[1]->DeadEnd();
+    if (children_are_leaves && child_remembered) return;
+
     m_sibling->Prune();
 }
 
-- 
2.43.0


From 0493afb841cbc8124b522e3f63285919108ef88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 02/14] fix: forget leaf positions when a pollard is pruned

The positions were never updated again, so a pruned pollard offered
proofs for leaves it had dropped, later with wrong positions.
---
 src/pollard.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index ac65233..e641ffb 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -352,6 +352,8 @@ void Pollard::Prune()
     for (NodePtr<Accumulator::Node>& root : m_roots) {
         INTERNAL_NODE(root)->Chop();
     }
+    // Nothing but the roots is left, so no leaf can be proven anymore.
+    m_posmap.clear();
     assert(m_remember.use_count() == 1);
 }
 
-- 
2.43.0


From ef0755d280dc9391986a0e87bc5da4c858f219b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 03/14] fix: do not mark leaves as remembered when a proof is
 rejected

Targets that were already cached kept the mark of a rejected proof.
---
 src/pollard.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index e641ffb..b87cc4d 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -549,6 +549,7 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
 {
     bool verification_success = true;
     auto target_hash = target_hashes.begin();
+    std::vector<NodePtr<Pollard::Node>> target_nodes;
 
     while (proof_tree.size() > 0 && verification_success) {
         std::vector<NodePtr<Pollard::Node>> next_proof_tree;
@@ -601,7 +602,7 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
                     proof_node->m_node->m_hash = *target_hash;
                 }
 
-                proof_node->m_sibling->m_nieces[0] = m_remember;
+                target_nodes.push_back(proof_node);
 
                 ++target_hash;
                 continue;
@@ -636,6 +637,14 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
     verification_success = verification_success &&
                            target_hash >= target_hashes.end();
 
+    if (verification_success) {
+        // Only mark the targets to be remembered if the proof is valid. A target might have been
+        // cached before, so it is not covered by the recovery in case of a verification failure.
+        for (NodePtr<Pollard::Node>& target_node : target_nodes) {
+            target_node->m_sibling->m_nieces[0] = m_remember;
+        }
+    }
+
     return verification_success;
 }
 
-- 
2.43.0


From 4b4e2964f590eef44e8ec4dfea43b76063850142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 04/14] fix: clear the sorted targets when unserializing a
 batch proof

Unserializing into a proof that already held targets kept the old ones
in the sorted list.
---
 src/batchproof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 18718b2..42c0926 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -67,6 +67,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     m_targets.clear();
+    m_sorted_targets.clear();
     m_proof.clear();
     m_targets.reserve(num_targets);
     m_sorted_targets.reserve(num_targets);
-- 
2.43.0


From fc2bfb2665a70b6c1e15eca2446bc25de98d378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 05/14] fix: check the size of a serialized undo batch without
 overflow

The 32-bit sum wrapped around, so a short buffer with a huge count passed
the check and was read out of bounds. Leave the batch untouched if the
check fails.
---
 src/batchproof.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 42c0926..4b3a1ed 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -164,15 +164,16 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     int data_offset = 0;
-    m_num_additions = static_cast<uint64_t>(ReadBE32(bytes.data()));
+    uint32_t num_additions = ReadBE32(bytes.data());
     data_offset += 4;
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
     data_offset += 4;
 
-    if (bytes.size() != 4 + 4 + 4 * num_targets + 32 * num_targets) {
+    if (bytes.size() != 8ULL + num_targets * 4ULL + num_targets * 32ULL) {
         return false;
     }
 
+    m_num_additions = static_cast<uint64_t>(num_additions);
     m_deleted_positions.clear();
     m_deleted_hashes.clear();
     m_deleted_positions.reserve(num_targets);
-- 
2.43.0


From 0c4d89c8a1b20760507a9503e313189212b01ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 06/14] fix: do not dereference end() when comparing position
 maps

---
 src/accumulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index ea15b74..f1b7fc8 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -71,7 +71,7 @@ bool Accumulator::ComparePositionMap(Accumulator& other) const
 {
     for (auto [hash, pos] : m_posmap) {
         auto it_other = other.m_posmap.find(hash);
-        if (it_other->second != pos) {
+        if (it_other == other.m_posmap.end() || it_other->second != pos) {
             return false;
         }
     }
-- 
2.43.0


From d0d4fd253edc3f17e4fd5623d5b0ce29f613836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 07/14] fix: allocate missing rows when undoing a modification

A forest that was restored from file only has the rows it needs. Undoing
a modification which had shrunk it wrote past the end of the rows.
---
 src/ram_forest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 3927eef..1569c7c 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -392,6 +392,12 @@ bool RamForest::Undo(const UndoBatch& undo)
 
     m_num_leaves -= undo.GetNumAdds();
 
+    // The previous forest might have had more rows than this one has allocated.
+    // (e.g.: if this forest was restored from a file)
+    if (m_data.size() <= prev_state.NumRows()) {
+        m_data.resize(prev_state.NumRows() + 1);
+    }
+
     // Place all deleted hashes at the end of the bottom row.
     // After this the forest is in the same state as right after the deletion
     // in the previous modification.
-- 
2.43.0


From 1105699bb90f3fcf4933f6601c7a84250181ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 08/14] fix: flush the forest file in Commit and report write
 errors

The forest stayed in the stream buffer after Commit and a failed write was
reported as success.
---
 src/ram_forest.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 1569c7c..5fb0669 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -181,7 +181,8 @@ bool RamForest::Commit()
         num_hashes >>= 1;
     }
 
-    return true;
+    m_file.flush();
+    return m_file.good();
 }
 
 std::optional<const Hash> RamForest::Read(ForestState state, uint64_t pos) const
-- 
2.43.0


From d23ff569b8ae71105c64ce36f96d1420263feb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 09/14] fix: refuse to restore a forest from an incomplete file

Reads past the end of the file were ignored, so a truncated file yielded a
forest of uninitialised hashes.
---
 src/ram_forest.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 5fb0669..ef561f9 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <stdexcept>
 #include <unordered_set>
 
 namespace utreexo {
@@ -105,7 +106,9 @@ RamForest::RamForest(const std::string& file) : Accumulator(0)
         // We can restore the forest from an existing file.
         m_file = std::fstream(file,
                               std::fstream::in | std::fstream::out | std::fstream::binary);
-        Restore();
+        if (!Restore()) {
+            throw std::runtime_error("RamForest: failed to restore the forest from file.");
+        }
     } else {
         m_num_leaves = 0;
         m_file = std::fstream(file,
@@ -129,7 +132,7 @@ bool RamForest::Restore()
     m_file.seekg(0);
 
     // restore number of leaves
-    m_file.read(reinterpret_cast<char*>(uint64_buf), 8);
+    if (!m_file.read(reinterpret_cast<char*>(uint64_buf), 8)) return false;
     m_num_leaves = ReadBE64(reinterpret_cast<const uint8_t*>(uint64_buf));
 
     ForestState state(m_num_leaves);
@@ -141,7 +144,7 @@ bool RamForest::Restore()
         pos = state.RowOffset(row);
         for (uint64_t i = 0; i < num_hashes; ++i) {
             Hash hash;
-            m_file.read(reinterpret_cast<char*>(hash.data()), 32);
+            if (!m_file.read(reinterpret_cast<char*>(hash.data()), 32)) return false;
             m_data[row].push_back(hash);
 
             if (num_hashes == m_num_leaves) {
-- 
2.43.0


From e22820bd3a1ec7266a6962a4db94382953112fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 10/14] fix: initialise the number of additions of an empty
 undo batch

---
 include/batchproof.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/batchproof.h b/include/batchproof.h
index 37d4791..233d162 100644
--- a/include/batchproof.h
+++ b/include/batchproof.h
@@ -68,7 +68,7 @@ public:
         : m_num_additions(num_adds),
           m_deleted_positions(deleted_positions),
           m_deleted_hashes(deleted_hashes) {}
-    UndoBatch() {}
+    UndoBatch() : m_num_additions(0) {}
 
     void Serialize(std::vector<uint8_t>& bytes) const;
     bool Unserialize(const std::vector<uint8_t>& bytes);
-- 
2.43.0


From 0a8e2ae8a99994c39f25067096cce6237568860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 11/14] fix: save the forest again after a commit that failed

---
 src/ram_forest.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index ef561f9..797801b 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -119,7 +119,7 @@ RamForest::RamForest(const std::string& file) : Accumulator(0)
 
 RamForest::~RamForest()
 {
-    if (m_file.good()) {
+    if (m_file.is_open()) {
         Commit();
         m_file.flush();
         m_file.close();
@@ -167,6 +167,8 @@ bool RamForest::Restore()
 bool RamForest::Commit()
 {
     char uint64_buf[8];
+    // A previous commit might have failed.
+    m_file.clear();
     m_file.seekg(0);
 
     // commit number of leaves
-- 
2.43.0


From fb66e5cf5cea4e2205a50d0146e67c0782bbfff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 12/14] fix: do not mistake a missing proof hash for an
 all-zero one

---
 src/pollard.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index b87cc4d..d348f5b 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -510,11 +510,8 @@ bool Pollard::CreateProofTree(std::vector<NodePtr<Pollard::Node>>& proof_tree_ou
                 // Populate the proof hashses.
                 bool consume = true;
                 if (node->IsCached()) {
-                    Hash null_hash;
-                    null_hash.fill(0);
-                    const Hash& hash = proof_hash < proof.GetHashes().crend() ? *proof_hash : null_hash;
                     // If provided proof hash matches the cached hash, we consume the hash.
-                    consume = node->m_node->m_hash == hash;
+                    consume = proof_hash < proof.GetHashes().crend() && node->m_node->m_hash == *proof_hash;
                 } else {
                     // This proof was not cached.
                     // We populate with the provided proof hash.
-- 
2.43.0


From 7b232ef7d11c37e787bfd451ff547fa4d0de0474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 13/14] fix: report that a forest's file could not be opened

RamForest(file) went on with an empty forest when the file could neither be
opened nor created (no descriptors left, no permission, missing directory),
although a complete forest may be in it, and nothing told the caller.
---
 src/ram_forest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 797801b..7b08f20 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -113,6 +113,9 @@ RamForest::RamForest(const std::string& file) : Accumulator(0)
         m_num_leaves = 0;
         m_file = std::fstream(file,
                               std::fstream::in | std::fstream::out | std::fstream::binary | std::fstream::trunc);
+        if (!m_file.is_open()) {
+            throw std::runtime_error("RamForest: failed to open the file.");
+        }
         Commit();
     }
 }
-- 
2.43.0


From 33f23278583bfe5fac02d3d71cd0581f37a2f22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 14/14] fix: keep the positions of the roots that PrintRoots
 shows

After the second leaf was added, and after a deletion that left fewer rows,
the root nodes kept positions in a numbering of another forest size.
---
 src/accumulator.cpp | 12 +++++++-----
 src/pollard.cpp     |  6 ++++--
 src/ram_forest.cpp  |  8 +++++---
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index f1b7fc8..ce025fc 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -168,15 +168,17 @@ bool Accumulator::Add(const std::vector<Leaf>& leaves)
         // Update the root positions.
         // This only needs to happen if the number of rows in the forest changes.
         // In this case there will always be exactly two roots, one on row 0 and one
-        // on the next-to-last row.
+        // on the next-to-last row. (Only one after the second leaf was added.)
 
-        if (prev_rows == 0 || prev_rows == current_state.NumRows()) {
+        if (prev_rows == current_state.NumRows()) {
             continue;
         }
 
-        assert(m_roots.size() >= 2);
-        m_roots[1]->m_position = current_state.RootPosition(0);
-        m_roots[0]->m_position = current_state.RootPosition(current_state.NumRows() - 1);
+        std::vector<uint64_t> root_positions = current_state.RootPositions();
+        assert(m_roots.size() == root_positions.size());
+        for (size_t i = 0; i < root_positions.size(); ++i) {
+            m_roots[i]->m_position = root_positions[i];
+        }
     }
 
     return true;
diff --git a/src/pollard.cpp b/src/pollard.cpp
index d348f5b..2e8582f 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -314,6 +314,8 @@ void Pollard::FinalizeRemove(uint64_t next_num_leaves)
 
     // Compute the positions of the new roots in the current state.
     std::vector<uint64_t> new_positions = current_state.RootPositions(next_state.m_num_leaves);
+    // The positions of the same roots in the next state.
+    std::vector<uint64_t> next_positions = next_state.RootPositions();
 
     // Select the new roots.
     std::vector<NodePtr<Accumulator::Node>> new_roots(new_positions.size());
@@ -325,11 +327,11 @@ void Pollard::FinalizeRemove(uint64_t next_num_leaves)
         auto [int_node, int_sibling] = ReadSiblings(new_pos);
         CHECK_SAFE(int_node);
 
-        // TODO: the forest state of these root nodes should reflect the new state
+        // The forest state of these root nodes reflects the new state
         // since they survive the remove op.
         NodePtr<Pollard::Node> node = Accumulator::MakeNodePtr<Pollard::Node>(
             int_node, int_node, nullptr,
-            current_state.m_num_leaves, new_pos);
+            next_state.m_num_leaves, next_positions.at(new_root_index));
 
         // When truning a node into a root, it's nieces are really it's children
         if (int_sibling) {
diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 7b08f20..7feb3d6 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -301,14 +301,16 @@ void RamForest::FinalizeRemove(uint64_t next_num_leaves)
 
     // Compute the positions of the new roots in the current state.
     std::vector<uint64_t> new_positions = current_state.RootPositions(next_state.m_num_leaves);
+    // The positions of the same roots in the next state.
+    std::vector<uint64_t> next_positions = next_state.RootPositions();
 
     // Select the new roots.
     std::vector<NodePtr<Accumulator::Node>> new_roots;
     new_roots.reserve(new_positions.size());
 
-    for (uint64_t new_pos : new_positions) {
-        NodePtr<RamForest::Node> new_root = Accumulator::MakeNodePtr<RamForest::Node>(this, next_num_leaves, new_pos);
-        new_root->m_hash = Read(new_pos).value();
+    for (size_t i = 0; i < new_positions.size(); ++i) {
+        NodePtr<RamForest::Node> new_root = Accumulator::MakeNodePtr<RamForest::Node>(this, next_num_leaves, next_positions.at(i));
+        new_root->m_hash = Read(new_positions.at(i)).value();
         new_roots.push_back(new_root);
     }
 
-- 
2.43.0

