From 459d598598695eb12c1c224f177d767c80dd8e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 01/20] fix: reject MPFSS indices equal to the output size or
 negative

RunIndexProviderVectorOLE accepted indices[i] == output.size() and negative
indices. The index is in no bucket then, so the lookup yields a position that
is wrong or behind the end of a bucket, and the call goes wrong only after
data has been exchanged.
---
 distributed_vector_ole/mpfss_known_indices.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index a6e4ac1..5bb59b5 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -190,7 +190,8 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
         "`y` and `indices` must not be empty");
   }
   for (int i = 0; i < static_cast<int>(indices.size()); i++) {
-    if (indices[i] > static_cast<int64_t>(output.size())) {
+    if (indices[i] < 0 ||
+        indices[i] >= static_cast<int64_t>(output.size())) {
       return mpc_utils::InvalidArgumentError(
           absl::StrCat("`indices[", i, "`] out of range"));
     }
-- 
2.43.0


From 2b0ab1a47f26768983544d7659292091371ce5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 02/20] fix: refuse unsupported moduli in the receiver of
 random OT, too

Only SendTrees checked whether the modulus can be sampled with the desired
statistical security. The sender returned INVALID_ARGUMENT without sending
anything and the receiver waited for its message forever.
---
 .../all_but_one_random_ot.h                   | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.h b/distributed_vector_ole/all_but_one_random_ot.h
index 6c10b0d..4a4fe20 100644
--- a/distributed_vector_ole/all_but_one_random_ot.h
+++ b/distributed_vector_ole/all_but_one_random_ot.h
@@ -108,6 +108,9 @@ class AllButOneRandomOT {
     for (int i = 0; i < static_cast<int>(outputs.size()); i++) {
       sizes[i] = outputs[i].size();
     }
+    // The sender performs the same check in SendTrees. Both have to refuse, or
+    // the receiver would wait for a message that is never sent.
+    RETURN_IF_ERROR(CheckStatisticalSecurity<T>(sizes));
     ASSIGN_OR_RETURN(auto trees, ReceiveTrees(sizes, indices, 2));
     NTLContext<T> context;
     context.save();
@@ -131,6 +134,12 @@ class AllButOneRandomOT {
       std::unique_ptr<mpc_utils::CommChannelEMPAdapter> channel_adapter,
       double statistical_security);
 
+  // Checks that all leaves of trees with the given sizes can be mapped to
+  // elements of T with the desired statistical security.
+  template <typename T>
+  mpc_utils::Status CheckStatisticalSecurity(
+      absl::Span<const int64_t> num_leaves);
+
   // For each element of `num_leaves`, constructs a GGMTree and obliviously
   // sends it to the client, except for the values on the path to an index
   // chosen by the client. If T is a NTL modular integer, ensures that when the
@@ -153,10 +162,8 @@ class AllButOneRandomOT {
 };
 
 template <typename T>
-mpc_utils::StatusOr<std::vector<std::unique_ptr<GGMTree>>>
-AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
-  int num_trees = static_cast<int>(num_leaves.size());
-  // Check the modulus to satisfy statistical security.
+mpc_utils::Status AllButOneRandomOT::CheckStatisticalSecurity(
+    absl::Span<const int64_t> num_leaves) {
   int64_t total_num_leaves =
       std::accumulate(num_leaves.begin(), num_leaves.end(), 0);
   // Statistical security needed for each leaf to ensure that all leaves are
@@ -168,6 +175,15 @@ AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
         absl::StrCat("Cannot ensure statistical security of ",
                      statistical_security_, "bits with the given modulus"));
   }
+  return mpc_utils::OkStatus();
+}
+
+template <typename T>
+mpc_utils::StatusOr<std::vector<std::unique_ptr<GGMTree>>>
+AllButOneRandomOT::SendTrees(absl::Span<const int64_t> num_leaves, int arity) {
+  int num_trees = static_cast<int>(num_leaves.size());
+  // Check the modulus to satisfy statistical security.
+  RETURN_IF_ERROR(CheckStatisticalSecurity<T>(num_leaves));
 
   std::vector<std::unique_ptr<GGMTree>> trees(num_trees);
   std::vector<emp::block> opt0, opt1;
-- 
2.43.0


From c0851ed1739a78837ee32c0488ff2581a93fb7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 03/20] fix: make cuckoo hashing of few inputs succeed with the
 promised probability

An element inserted into an empty bucket left the bucket's hash function
counter at 0, so that it was re-inserted into the same bucket when evicted
first. Together with a limit of only `inputs.size()` tries, insertion of two
inputs into GetOptimalNumberOfBuckets(2) buckets failed in more than 1% of all
cases instead of 2^-40.
---
 distributed_vector_ole/cuckoo_hasher.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/cuckoo_hasher.h b/distributed_vector_ole/cuckoo_hasher.h
index 0f3eef3..23d1d07 100644
--- a/distributed_vector_ole/cuckoo_hasher.h
+++ b/distributed_vector_ole/cuckoo_hasher.h
@@ -76,7 +76,7 @@ class CuckooHasher {
   // Returns INVALID_ARGUMENT if `num_buckets` is not  positive or
   // `inputs.size()` is larger than `num_buckets`.
   // Returns INTERNAL if insertion fails after trying to insert an element
-  // `inputs.size()` times.
+  // max(`inputs.size()`, kMinNumTries) times.
   template <typename T>
   mpc_utils::StatusOr<std::vector<int64_t>> HashCuckoo(
       absl::Span<const T> inputs, int64_t num_buckets);
@@ -103,6 +103,10 @@ class CuckooHasher {
   int64_t HashToBucket(absl::uint128 hash, int64_t num_buckets,
                        int hash_function);
 
+  // Minimum number of tries to insert an element. Chains of evictions can be
+  // longer than the number of inputs if there are only few of them.
+  static constexpr int64_t kMinNumTries = 64;
+
   AES_KEY expanded_seed_;
   int num_hash_functions_;
   double statistical_security_;
@@ -199,6 +203,9 @@ mpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo(
   std::vector<int64_t> buckets(num_buckets, -1);
   std::vector<int> next_hash_function(num_buckets, 0);
   int64_t num_tries = inputs.size();
+  if (num_tries < kMinNumTries) {
+    num_tries = kMinNumTries;
+  }
 
   // Hash all elements.
   ASSIGN_OR_RETURN(auto hashes, Hash(inputs, num_buckets));
@@ -216,6 +223,9 @@ mpc_utils::StatusOr<std::vector<int64_t>> CuckooHasher::HashCuckoo(
       if (buckets[index] == -1) {
         // Bucket empty -> simply insert.
         buckets[index] = current_element;
+        // The element has to move on if it gets evicted.
+        next_hash_function[index] =
+            (current_hash_function + 1) % num_hash_functions_;
         break;
       } else {
         // Bucket full -> evict element and increment hash function counter.
-- 
2.43.0


From bd4dcb40423e2743921012afb47b00e196cf5fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 04/20] fix: compute the largest hash of hash_bits bits in
 CanBeHashedInto

2^128 was divided by 2^hash_bits instead of 2^(128 - hash_bits). With moduli of
more than 64 bits and less than 128, the Gilboa product used correlated OT
although the masks obtained from it are far from uniform.
---
 distributed_vector_ole/internal/scalar_helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 897b3de..50e0e39 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -131,7 +131,7 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     }
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value /= (absl::uint128(1) << (128 - hash_bits));
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
@@ -157,7 +157,7 @@ struct ScalarHelperImpl<NTL::zz_p> {
                                           // to fit in a long.
     absl::uint128 max_value = absl::Uint128Max();
     if (hash_bits < 128) {
-      max_value /= (absl::uint128(1) << hash_bits);
+      max_value /= (absl::uint128(1) << (128 - hash_bits));
     }
     absl::uint128 rem = ((max_value % modulus) + 1) % modulus;
     return hash_bits - std::log2(double(rem)) > statistical_security;
-- 
2.43.0


From 1cd73540df51c066e97c6a5af05bbed3af140f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 05/20] fix: CanBeHashedInto accepted moduli larger than the
 hash

Only the low 128 bits of the modulus were looked at, so a modulus such as
2^128 + 1 was accepted although most of its residues are never sampled.
---
 distributed_vector_ole/internal/scalar_helpers.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 50e0e39..a14639c 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -120,6 +120,9 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     return NTL::conv<NTL::ZZ_p>(*temp);
   }
   static bool CanBeHashedInto(double statistical_security, int hash_bits) {
+    if (NTLNumBits<NTL::ZZ_p>() > hash_bits) {
+      return false;  // Hash values do not reach all elements.
+    }
     // Check that when reducing an absl::uint128 modulo T::modulus(), the result
     // is nearly uniform, i.e., the probability for any set of results is at
     // most 2^-statistical_security higher than in a uniform distribution.
-- 
2.43.0


From d30d6a6505334571d55c45cf2accb55b65866ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 06/20] fix: refuse negative sizes in RunSender and RunReceiver

After precomputation a negative size passed the cache size check and ended in
an Eigen assertion.
---
 distributed_vector_ole/distributed_vector_ole.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index c1bc688..895283d 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -537,6 +537,9 @@ DistributedVectorOLE<T>::GetReceiverCached(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::SenderResult>
 DistributedVectorOLE<T>::RunSender(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!sender_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeSender(size));
@@ -585,6 +588,9 @@ DistributedVectorOLE<T>::RunSender(int64_t size) {
 template <typename T>
 mpc_utils::StatusOr<typename DistributedVectorOLE<T>::ReceiverResult>
 DistributedVectorOLE<T>::RunReceiver(int64_t size) {
+  if (size < 0) {
+    return mpc_utils::InvalidArgumentError("`size` must not be negative");
+  }
   // Run bootstrapping if not already done.
   if (!receiver_precomputation_done_) {
     RETURN_IF_ERROR(PrecomputeReceiver(size));
-- 
2.43.0


From 5ce161c33b7edd96c54b9d5ccf0ac3e7c49f160a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 07/20] fix: do not return zeros from AESUniformBitGenerator
 with odd buffer size

The last element of a buffer of odd size was never filled.
---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index a937610..658db04 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -10,9 +10,10 @@
 namespace distributed_vector_ole {
 
 AESUniformBitGenerator::AESUniformBitGenerator(int64_t buffer_size)
-    : buffer_(buffer_size),  // Make sure buffer size is even.
+    : buffer_(buffer_size +
+              buffer_size % 2),  // Make sure buffer size is even.
       elements_used_(
-          buffer_size)  // All elements are marked as used in the beginning.
+          buffer_.size())  // All elements are marked as used in the beginning.
 {}
 
 mpc_utils::StatusOr<AESUniformBitGenerator> AESUniformBitGenerator::Create(
-- 
2.43.0


From dab8bc7b97242520e1f306006c60f753171af385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:52 +0000
Subject: [PATCH 08/20] fix: do not send a value share unmasked for an empty
 point function

---
 distributed_vector_ole/spfss_known_index.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/distributed_vector_ole/spfss_known_index.h b/distributed_vector_ole/spfss_known_index.h
index 5765c66..1940ca5 100644
--- a/distributed_vector_ole/spfss_known_index.h
+++ b/distributed_vector_ole/spfss_known_index.h
@@ -124,6 +124,12 @@ mpc_utils::Status SPFSSKnownIndex::RunValueProviderBatched(
       }
     }
   }
+  for (int j = 0; j < len; j++) {
+    if (outputs[j].empty()) {
+      // Nothing masks our share of the value, and the other party ignores it.
+      ScalarHelper<T>::Randomize(absl::MakeSpan(&sums[j], 1));
+    }
+  }
   channel_->send(sums);
   channel_->flush();
   return mpc_utils::OkStatus();
-- 
2.43.0


From 7377f2ae3e07fdf113fae6a77ffb909ce5bbf006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 09/20] fix: a precomputation that fails midway must not leave
 the previous one marked as done

PrecomputeSender and PrecomputeReceiver overwrite caches, seeds and
sizes of a previous precomputation. When such a call failed (lost
connection), the instance still counted as precomputed, and later
requests were served successfully with uncorrelated elements.
---
 distributed_vector_ole/distributed_vector_ole.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 895283d..a086eb9 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -240,6 +240,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // The previous state is not usable any more should this call fail midway.
+  sender_precomputation_done_ = false;
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seed using Gilboa multiplication.
@@ -303,6 +305,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   if (batch_size < 1) {
     return mpc_utils::InvalidArgumentError("`batch_size` must be positive");
   }
+  // The previous state is not usable any more should this call fail midway.
+  receiver_precomputation_done_ = false;
   batch_size_ = 0;  // We're just expanding seeds, we don't want any output.
                     // We'll set it back to batch_size in the end.
   // Compute first seeds using Gilboa multiplication.
-- 
2.43.0


From dc05264301505722187f6d55db9f6ac98c8a46c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 10/20] fix: a failed expansion of the receiver must not leave
 uninitialised elements in its cache

The cache was grown before the multi-point function shares were
computed. When that failed (lost connection), later requests returned
the uninitialised elements successfully.
---
 distributed_vector_ole/distributed_vector_ole.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index a086eb9..0694ccf 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -486,13 +486,14 @@ mpc_utils::Status DistributedVectorOLE<T>::ExpandReceiver(
     return mpc_utils::InternalError("Code generator has the wrong dimensions");
   }
 
-  // Compute MPFSS and expand seed, appending to the cache.
-  receiver_cached_.w.conservativeResize(receiver_cached_.w.size() +
-                                        output_size);
+  // Compute MPFSS and expand seed, appending to the cache. The cache may only
+  // grow once MPFSS has succeeded.
   Vector<T> v1(output_size);
   RETURN_IF_ERROR(mpfss_->RunValueProviderVectorOLE<T>(
       receiver_mpfss_seed_.delta, num_noise_indices_, receiver_mpfss_seed_.w,
       absl::MakeSpan(v1)));
+  receiver_cached_.w.conservativeResize(receiver_cached_.w.size() +
+                                        output_size);
   receiver_cached_.w.tail(output_size) =
       receiver_vole_seed_.w * code_generator_ + v1;
 
-- 
2.43.0


From 869f4a6ea493a39f81d17767a4b37561b3bc3e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 11/20] fix: GGMTree rejects missing_index, keys and levels
 that do not fit the tree

---
 distributed_vector_ole/ggm_tree.cpp | 13 +++++++++++--
 distributed_vector_ole/ggm_tree.h   |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/ggm_tree.cpp b/distributed_vector_ole/ggm_tree.cpp
index 210eab5..2ec76ae 100644
--- a/distributed_vector_ole/ggm_tree.cpp
+++ b/distributed_vector_ole/ggm_tree.cpp
@@ -19,7 +19,6 @@
 #include <omp.h>
 
 #include <algorithm>
-#include <cassert>
 #include <cmath>
 #include <functional>
 
@@ -130,6 +129,10 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (num_leaves <= 0) {
     return mpc_utils::InvalidArgumentError("`num_leaves` must be positive");
   }
+  if (missing_index < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`missing_index` must not be negative");
+  }
   if (missing_index >= num_leaves) {
     return mpc_utils::InvalidArgumentError(
         "`missing_index` must be smaller than `num_leaves`");
@@ -148,6 +151,9 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
   if (keys.empty()) {
     return mpc_utils::InvalidArgumentError("`keys` must not be empty");
   }
+  if (static_cast<int>(keys.size()) != arity) {
+    return mpc_utils::InvalidArgumentError("`keys` must have length `arity`");
+  }
 
   // Construct path to `missing_index`.
   std::vector<int64_t> missing_path(num_levels);
@@ -166,9 +172,12 @@ mpc_utils::StatusOr<std::unique_ptr<GGMTree>> GGMTree::CreateFromSiblingWiseXOR(
     }
   }
   ASSIGN_OR_RETURN(auto levels, AllocateLevels(arity, num_leaves));
+  if (static_cast<int>(levels.size()) != num_levels) {
+    return mpc_utils::InvalidArgumentError(
+        "`sibling_wise_xors` must have one element per level below the root");
+  }
   std::unique_ptr<GGMTree> tree = absl::WrapUnique(new GGMTree(
       std::move(levels), std::move(keys_copy), std::move(expanded_keys)));
-  assert(tree->num_levels() == num_levels);
 
   // Expand tree from the root. At each level, use sibling_wise_xors together
   // with already computed subtrees to compute all missing seeds but one, and
diff --git a/distributed_vector_ole/ggm_tree.h b/distributed_vector_ole/ggm_tree.h
index 288b263..ba22af4 100644
--- a/distributed_vector_ole/ggm_tree.h
+++ b/distributed_vector_ole/ggm_tree.h
@@ -40,6 +40,7 @@
 
 #include "absl/numeric/int128.h"
 #include "absl/types/span.h"
+#include "mpc_utils/canonical_errors.h"
 #include "mpc_utils/statusor.h"
 #include "openssl/aes.h"
 #include "openssl/rand.h"
@@ -60,6 +61,9 @@ class GGMTree {
   // Constructs a GGMTree from a single seed.
   static mpc_utils::StatusOr<std::unique_ptr<GGMTree>> Create(
       int arity, int64_t num_leaves, Block seed) {
+    if (arity < 2) {
+      return mpc_utils::InvalidArgumentError("arity must be at least 2");
+    }
     std::vector<Block> keys(arity);
     for (int i = 0; i < arity; i++) {
       RAND_bytes(reinterpret_cast<uint8_t *>(&keys[i]), kBlockSize);
-- 
2.43.0


From ed4080170f983859df2167a32ac356ce193cca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:38 +0000
Subject: [PATCH 12/20] fix: negative sizes give an error status instead of an
 exception

---
 distributed_vector_ole/mpfss_known_indices.cpp | 4 ++++
 distributed_vector_ole/spfss_known_index.h     | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.cpp b/distributed_vector_ole/mpfss_known_indices.cpp
index d7d6cbc..9fe4d76 100644
--- a/distributed_vector_ole/mpfss_known_indices.cpp
+++ b/distributed_vector_ole/mpfss_known_indices.cpp
@@ -67,6 +67,10 @@ MPFSSKnownIndices::Create(mpc_utils::comm_channel* channel,
 
 mpc_utils::Status MPFSSKnownIndices::UpdateBuckets(int64_t output_size,
                                                    int num_indices) {
+  if (output_size < 0) {
+    return mpc_utils::InvalidArgumentError(
+        "`output_size` must not be negative");
+  }
   bool needs_update =
       !cached_output_size_ || *cached_output_size_ != output_size ||
       !cached_num_indices_ || *cached_num_indices_ != num_indices;
diff --git a/distributed_vector_ole/spfss_known_index.h b/distributed_vector_ole/spfss_known_index.h
index 1940ca5..7557bee 100644
--- a/distributed_vector_ole/spfss_known_index.h
+++ b/distributed_vector_ole/spfss_known_index.h
@@ -60,6 +60,9 @@ class SPFSSKnownIndex {
   template <typename T>
   mpc_utils::StatusOr<std::vector<T>> RunValueProvider(T val_share,
                                                        int64_t size) {
+    if (size < 0) {
+      return mpc_utils::InvalidArgumentError("`size` must not be negative");
+    }
     std::vector<T> output(size);
     RETURN_IF_ERROR(RunValueProvider<T>(val_share, absl::MakeSpan(output)));
     return output;
@@ -82,6 +85,9 @@ class SPFSSKnownIndex {
   mpc_utils::StatusOr<std::vector<T>> RunIndexProvider(T val_share,
                                                        int64_t index,
                                                        int64_t size) {
+    if (size < 0) {
+      return mpc_utils::InvalidArgumentError("`size` must not be negative");
+    }
     std::vector<T> output(size);
     RETURN_IF_ERROR(
         RunIndexProvider<T>(val_share, index, absl::MakeSpan(output)));
-- 
2.43.0


From 095432163476f9242a952aacc4565ba82a3d4e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 13/20] fix: sizes of the vector OLE correlation given to
 MPFSSKnownIndices are checked

---
 distributed_vector_ole/mpfss_known_indices.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/distributed_vector_ole/mpfss_known_indices.h b/distributed_vector_ole/mpfss_known_indices.h
index 5bb59b5..6c983af 100644
--- a/distributed_vector_ole/mpfss_known_indices.h
+++ b/distributed_vector_ole/mpfss_known_indices.h
@@ -143,8 +143,16 @@ mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE(
   if (y_len < 1) {
     return mpc_utils::InvalidArgumentError("`y_len` must be positive");
   }
+  if (static_cast<int64_t>(output.size()) < y_len) {
+    return mpc_utils::InvalidArgumentError(
+        "`output` must be at least as long as `y_len`");
+  }
   RETURN_IF_ERROR(UpdateBuckets(output.size(), y_len));
   int num_buckets = buckets_.size();
+  if (static_cast<int64_t>(w.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`w` must have size `NumBuckets(y_len)`");
+  }
 
   // Receive masked and permuted y from other party and compute our share of xy
   // as (u+y)x-w.
@@ -211,6 +219,11 @@ mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE(
     }
   }
   ASSIGN_OR_RETURN(auto hashed_inputs, std::move(status));
+  if (static_cast<int64_t>(u.size()) != num_buckets ||
+      static_cast<int64_t>(v.size()) != num_buckets) {
+    return mpc_utils::InvalidArgumentError(
+        "`u` and `v` must have size `NumBuckets(y_len)`");
+  }
 
   // y padded with zeros and permuted according to hashed_inputs:
   // y_permuted[i] = y[j] if hashed_inputs[i] == j, and 0 if hashed_inputs[i] ==
-- 
2.43.0


From f02886ef2748cbb76b1c035f0712824520209dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 14/20] fix: random modular integers come from RAND_bytes
 instead of NTL's unseeded generator

NTL's generator, when nobody seeds it, takes its seed from the clock and the
process id, and processes forked from each other continue with the same state,
so that two parties or sessions end up with the same masks and shares.
---
 .../internal/scalar_helpers.h                 | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index a14639c..4cafa55 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -21,6 +21,10 @@
 // types to be used with the Vector OLE generator. To add support for other
 // types, add a matching template specialization of ScalarHelper.
 
+#include <cstdint>
+#include <vector>
+
+#include "NTL/ZZ.h"
 #include "NTL/ZZ_p.h"
 #include "NTL/lzz_p.h"
 #include "NTL/vec_ZZ_p.h"
@@ -140,9 +144,26 @@ struct ScalarHelperImpl<NTL::ZZ_p> {
     return hash_bits - std::log2(double(rem)) > statistical_security;
   }
   static void Randomize(absl::Span<NTL::ZZ_p> output) {
-    NTL::Vec<NTL::ZZ_p> ntl_vec = NTL::random_vec_ZZ_p(output.size());
+    // Rejection sampling on top of RAND_bytes. NTL's generator is not suitable,
+    // since it is seeded from clock and process id by default, and processes
+    // forked from each other continue with the same state.
+    const NTL::ZZ &modulus = NTL::ZZ_p::modulus();
+    const int64_t num_bits = NTL::NumBits(modulus - 1);
+    const int64_t num_bytes = (num_bits + 7) / 8;
+    const uint8_t top_mask = 0xff >> (8 * num_bytes - num_bits);
+    std::vector<uint8_t> bytes(num_bytes * output.size());
+    RAND_bytes(bytes.data(), bytes.size());
+    NTL::ZZ value;
     for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {
-      output[i] = std::move(ntl_vec[i]);
+      uint8_t *current = &bytes[i * num_bytes];
+      current[num_bytes - 1] &= top_mask;
+      NTL::ZZFromBytes(value, current, num_bytes);
+      while (value >= modulus) {
+        RAND_bytes(current, num_bytes);
+        current[num_bytes - 1] &= top_mask;
+        NTL::ZZFromBytes(value, current, num_bytes);
+      }
+      NTL::conv(output[i], value);
     }
   }
 };
@@ -166,9 +187,17 @@ struct ScalarHelperImpl<NTL::zz_p> {
     return hash_bits - std::log2(double(rem)) > statistical_security;
   }
   static void Randomize(absl::Span<NTL::zz_p> output) {
-    NTL::Vec<NTL::zz_p> ntl_vec = NTL::random_vec_zz_p(output.size());
+    // See above.
+    const uint64_t modulus = NTL::zz_p::modulus();
+    const uint64_t mask = (uint64_t(1) << NTL::NumBits(modulus - 1)) - 1;
+    std::vector<uint64_t> values(output.size());
+    RAND_bytes(reinterpret_cast<uint8_t *>(values.data()),
+               values.size() * sizeof(uint64_t));
     for (int64_t i = 0; i < static_cast<int64_t>(output.size()); i++) {
-      output[i] = ntl_vec[i];
+      while ((values[i] & mask) >= modulus) {
+        RAND_bytes(reinterpret_cast<uint8_t *>(&values[i]), sizeof(uint64_t));
+      }
+      output[i] = NTL::conv<NTL::zz_p>(static_cast<long>(values[i] & mask));
     }
   }
 };
-- 
2.43.0


From b8d5bc3d19c65714324bb9b09725c127702542c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:47 +0000
Subject: [PATCH 15/20] fix: PrecomputeSender and PrecomputeReceiver with batch
 sizes close to the largest integer

The sum of batch size and seed sizes overflowed, so that seeds were not
expanded and a batch of the largest supported size was computed with the noise
of the smallest one.
---
 distributed_vector_ole/distributed_vector_ole.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index 0694ccf..ccd2648 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -264,8 +264,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeSender(
   // Iteratively expand seeds until we have the desired batch size.
   for (int i = 0; i < static_cast<int>(VOLEParameters::seed_size.size()) - 1;
        i++) {
-    if (VOLEParameters::output_size[i] >=
-        batch_size + mpfss_seed_size_ + vole_seed_size_) {
+    if (VOLEParameters::output_size[i] - mpfss_seed_size_ - vole_seed_size_ >=
+        batch_size) {
       // Exit early if the current output size is enough for the given batch
       // size and seed sizes.
       break;
@@ -327,8 +327,8 @@ mpc_utils::Status DistributedVectorOLE<T>::PrecomputeReceiver(
   // Iteratively expand seeds until we have the desired batch size.
   for (int i = 0; i < static_cast<int>(VOLEParameters::seed_size.size()) - 1;
        i++) {
-    if (VOLEParameters::output_size[i] >=
-        batch_size + vole_seed_size_ + mpfss_seed_size_) {
+    if (VOLEParameters::output_size[i] - mpfss_seed_size_ - vole_seed_size_ >=
+        batch_size) {
       // Exit early if the current output size is enough for the given batch
       // size and seed sizes.
       break;
-- 
2.43.0


From 029b6db3bb6f649162849d17f2c6f4e19445393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 16/20] fix: AESUniformBitGenerator accepts seeds at any
 address

The second half of the seed was read as an aligned 128-bit integer, which
crashes if it is not.
---
 distributed_vector_ole/aes_uniform_bit_generator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distributed_vector_ole/aes_uniform_bit_generator.cpp b/distributed_vector_ole/aes_uniform_bit_generator.cpp
index 658db04..0673075 100644
--- a/distributed_vector_ole/aes_uniform_bit_generator.cpp
+++ b/distributed_vector_ole/aes_uniform_bit_generator.cpp
@@ -1,5 +1,6 @@
 #include "distributed_vector_ole/aes_uniform_bit_generator.h"
 
+#include <cstring>
 #include <stdexcept>
 
 #include "absl/strings/str_cat.h"
@@ -36,8 +37,8 @@ mpc_utils::Status AESUniformBitGenerator::seed(absl::Span<const uint8_t> seed) {
                &expanded_key_)) {  // Use first 16 bytes of seed as key.
     return mpc_utils::InternalError(ERR_reason_error_string(ERR_get_error()));
   }
-  nonce_ = *(reinterpret_cast<const absl::uint128 *>(
-      seed.data() + 16));  // Use second 16 bytes of seed as nonce.
+  // Use second 16 bytes of seed as nonce. Note that `seed` may not be aligned.
+  std::memcpy(&nonce_, seed.data() + 16, sizeof(nonce_));
   counter_ = 0;            // Reset counter.
   elements_used_ = static_cast<int64_t>(buffer_.size());  // Reset buffer.
   return mpc_utils::OkStatus();
-- 
2.43.0


From c046d3bc9cefd5fd1ecfa22f64feda81085e1de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 17/20] fix: the total number of leaves is computed with 64
 bits

With 2^32 leaves or more, the check that the modulus is supported was done for
the total modulo 2^32.
---
 distributed_vector_ole/all_but_one_random_ot.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distributed_vector_ole/all_but_one_random_ot.h b/distributed_vector_ole/all_but_one_random_ot.h
index 4a4fe20..ee38d60 100644
--- a/distributed_vector_ole/all_but_one_random_ot.h
+++ b/distributed_vector_ole/all_but_one_random_ot.h
@@ -165,7 +165,7 @@ template <typename T>
 mpc_utils::Status AllButOneRandomOT::CheckStatisticalSecurity(
     absl::Span<const int64_t> num_leaves) {
   int64_t total_num_leaves =
-      std::accumulate(num_leaves.begin(), num_leaves.end(), 0);
+      std::accumulate(num_leaves.begin(), num_leaves.end(), int64_t(0));
   // Statistical security needed for each leaf to ensure that all leaves are
   // uniform.
   double statistical_security_per_leaf =
-- 
2.43.0


From 87fb91ccb25882bd5d54e85f9b5ccab38e51df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 18/20] fix: negative numbers are packed without their sign
 extension

The product of a scalar and a vector over signed integers was wrong, since the
sign extension of one number overwrote the others in the same block.
---
 distributed_vector_ole/internal/scalar_helpers.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distributed_vector_ole/internal/scalar_helpers.h b/distributed_vector_ole/internal/scalar_helpers.h
index 4cafa55..67bd6f2 100644
--- a/distributed_vector_ole/internal/scalar_helpers.h
+++ b/distributed_vector_ole/internal/scalar_helpers.h
@@ -65,7 +65,10 @@ struct ScalarHelper {
 template <typename T>
 struct ScalarHelper<
     T, typename std::enable_if<std::numeric_limits<T>::is_integer, int>::type> {
-  static absl::uint128 ToUint128(const T &x) { return absl::uint128(x); }
+  static absl::uint128 ToUint128(const T &x) {
+    // Cut off the sign extension of negative numbers.
+    return absl::uint128(x) & (~absl::uint128(0) >> (128 - SizeOf() * 8));
+  }
   static T FromUint128(absl::uint128 x) { return T(x); }
   static constexpr int SizeOf() { return sizeof(T); }
   static bool GetBit(T x, int k) { return ((x >> k) & T(1)) != 0; }
-- 
2.43.0


From 86fe9d461abf678bf13c55aa85681e393f82adfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:06 +0000
Subject: [PATCH 19/20] fix: account for one hash value per bit when choosing
 correlated OT

---
 distributed_vector_ole/scalar_vector_gilboa_product.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/distributed_vector_ole/scalar_vector_gilboa_product.h b/distributed_vector_ole/scalar_vector_gilboa_product.h
index 2d90fb5..9fc7062 100644
--- a/distributed_vector_ole/scalar_vector_gilboa_product.h
+++ b/distributed_vector_ole/scalar_vector_gilboa_product.h
@@ -82,12 +82,13 @@ class ScalarVectorGilboaProduct {
 
   template <typename T>
   bool UseCorrelatedOT(int64_t size) {
-    // Compute statistical security needed for each element to ensure that
-    // `size` elements can be computed using correlated OT.
-    double statistical_security_per_element =
-        std::log2(double(size)) + statistical_security_;
+    // Compute statistical security needed for each hash value to ensure that
+    // `size` elements can be computed using correlated OT. Each element takes
+    // one hash value per bit.
     int packed_hash_bits = ScalarHelper<T>::SizeOf() * 8;
-    return ScalarHelper<T>::CanBeHashedInto(statistical_security_per_element,
+    double statistical_security_per_hash =
+        std::log2(double(size) * packed_hash_bits) + statistical_security_;
+    return ScalarHelper<T>::CanBeHashedInto(statistical_security_per_hash,
                                             packed_hash_bits);
   }
 
-- 
2.43.0


From 7f38fbc3d07a0b7d7877b6dd039414d99948e5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:17 +0000
Subject: [PATCH 20/20] fix: let an empty request be the first one of a vector
 OLE

---
 distributed_vector_ole/distributed_vector_ole.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/distributed_vector_ole/distributed_vector_ole.h b/distributed_vector_ole/distributed_vector_ole.h
index ccd2648..395bad6 100644
--- a/distributed_vector_ole/distributed_vector_ole.h
+++ b/distributed_vector_ole/distributed_vector_ole.h
@@ -545,9 +545,9 @@ DistributedVectorOLE<T>::RunSender(int64_t size) {
   if (size < 0) {
     return mpc_utils::InvalidArgumentError("`size` must not be negative");
   }
-  // Run bootstrapping if not already done.
+  // Run bootstrapping if not already done. An empty request is no batch size.
   if (!sender_precomputation_done_) {
-    RETURN_IF_ERROR(PrecomputeSender(size));
+    RETURN_IF_ERROR(PrecomputeSender(std::max<int64_t>(size, 1)));
   }
 
   // Check if we have enough elements cached.
@@ -596,9 +596,9 @@ DistributedVectorOLE<T>::RunReceiver(int64_t size) {
   if (size < 0) {
     return mpc_utils::InvalidArgumentError("`size` must not be negative");
   }
-  // Run bootstrapping if not already done.
+  // Run bootstrapping if not already done. An empty request is no batch size.
   if (!receiver_precomputation_done_) {
-    RETURN_IF_ERROR(PrecomputeReceiver(size));
+    RETURN_IF_ERROR(PrecomputeReceiver(std::max<int64_t>(size, 1)));
   }
 
   // Check if we have enough elements cached.
-- 
2.43.0

