From b5fdf53fe5542d3e576614a475a6519a795cfa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 1/3] fix: hash the key block in order in keyed BLAKE2sp

The leaves kept the key block in their own buffers, but the multi-block path
compresses straight into the leaves' state words and assumes those buffers are
empty. Keyed inputs long enough to take that path were hashed ahead of the key
block, giving a wrong digest (or a failed debug assertion).
---
 src/blake2sp.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 441de2e..742c3a3 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -124,6 +124,9 @@ impl State {
             // Note that the regular hash_length parameter still contributes associated data to
             // these instances.
             state.hash_length = OUTBYTES as u8;
+            // Clear the key block from the leaf buffer. It's added to the shared buffer below.
+            state.buflen = 0;
+            state.count = 0;
             state
         };
         let mut root_state = base_params
@@ -140,7 +143,7 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
-        Self {
+        let mut state = Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
             leaf2: leaf_state(2),
@@ -153,7 +156,17 @@ impl State {
             buf: [0; 2 * 8 * BLOCKBYTES],
             buflen: 0,
             compress8_fn: crate::default_compress_impl().1,
+        };
+        // The key block is the first block of each leaf. Like any other input it has to go through
+        // the shared buffer, because compress8 requires the leaves' own buffers to be empty.
+        if params.key_length > 0 {
+            let mut key_block = [0; BLOCKBYTES];
+            key_block[..KEYBYTES].copy_from_slice(&params.key);
+            for _ in 0..8 {
+                state.update(&key_block);
+            }
         }
+        state
     }
 
     fn fill_buf(&mut self, input: &mut &[u8]) {
-- 
2.43.0


From 01472da5bba2384b15a9b0735d35cc679fdecb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 2/3] fix: don't include the key block in the byte count

count() is documented as the number of bytes input so far, but keyed hashers
also counted the key block (eight of them in BLAKE2sp).
---
 src/blake2sp.rs | 16 +++++++++++++---
 src/lib.rs      | 14 +++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 742c3a3..5dd5515 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -87,6 +87,7 @@ pub struct State {
     buf: [u8; 2 * 8 * BLOCKBYTES],
     buflen: u16,
     compress8_fn: Compress8Fn,
+    is_keyed: bool,
 }
 
 impl State {
@@ -127,6 +128,7 @@ impl State {
             // Clear the key block from the leaf buffer. It's added to the shared buffer below.
             state.buflen = 0;
             state.count = 0;
+            state.is_keyed = false;
             state
         };
         let mut root_state = base_params
@@ -143,6 +145,7 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        root_state.is_keyed = false;
         let mut state = Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
@@ -156,6 +159,7 @@ impl State {
             buf: [0; 2 * 8 * BLOCKBYTES],
             buflen: 0,
             compress8_fn: crate::default_compress_impl().1,
+            is_keyed: params.key_length > 0,
         };
         // The key block is the first block of each leaf. Like any other input it has to go through
         // the shared buffer, because compress8 requires the leaves' own buffers to be empty.
@@ -400,9 +404,10 @@ impl State {
         root.finalize()
     }
 
-    /// Return the total number of bytes input so far.
+    /// Return the total number of bytes input so far. Note that this doesn't include the key
+    /// blocks, if any.
     pub fn count(&self) -> u64 {
-        self.leaf0.count()
+        let count = self.leaf0.count()
             + self.leaf1.count()
             + self.leaf2.count()
             + self.leaf3.count()
@@ -410,7 +415,12 @@ impl State {
             + self.leaf5.count()
             + self.leaf6.count()
             + self.leaf7.count()
-            + self.buflen as u64
+            + self.buflen as u64;
+        if self.is_keyed {
+            count - 8 * BLOCKBYTES as u64
+        } else {
+            count
+        }
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index c6fce16..f927590 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,6 +311,7 @@ pub struct State {
     compress_fn: CompressFn,
     last_node: bool,
     hash_length: u8,
+    is_keyed: bool,
 }
 
 impl State {
@@ -327,6 +328,7 @@ impl State {
             count: 0,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: params.key_length > 0,
         };
         if params.key_length > 0 {
             let mut key_block = [0; BLOCKBYTES];
@@ -414,9 +416,14 @@ impl State {
         self
     }
 
-    /// Return the total number of bytes input so far.
+    /// Return the total number of bytes input so far. Note that this doesn't include the key block,
+    /// if any.
     pub fn count(&self) -> u64 {
-        self.count
+        if self.is_keyed {
+            self.count - BLOCKBYTES as u64
+        } else {
+            self.count
+        }
     }
 }
 
@@ -454,7 +461,7 @@ impl fmt::Debug for State {
         write!(
             f,
             "State {{ count: {}, hash_length: {}, last_node: {} }}",
-            self.count, self.hash_length, self.last_node,
+            self.count(), self.hash_length, self.last_node,
         )
     }
 }
@@ -1002,6 +1009,7 @@ pub fn hash8(
             compress_fn: compress_fn,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: false,
         };
         state.update(&input[count..]);
         state.finalize()
-- 
2.43.0


From c68721b4b2d7d7db4ea73abd1fa9f0036adc04ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 3/3] fix: hash the key in the SIMD hash4_exact and hash8_exact

The portable versions hash the key block, but the SSE4.1 and AVX2 versions only
mixed in the key length and ignored the key itself, so keyed results were wrong
and depended on the host CPU.
---
 src/avx2.rs  | 26 ++++++++++++++++++++++++--
 src/sse41.rs | 26 +++++++++++++++++++++++---
 2 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/avx2.rs b/src/avx2.rs
index 80cd393..5cdfb60 100644
--- a/src/avx2.rs
+++ b/src/avx2.rs
@@ -12,6 +12,7 @@ use crate::Params;
 use crate::StateWords;
 use crate::BLOCKBYTES;
 use crate::IV;
+use crate::KEYBYTES;
 use crate::SIGMA;
 
 #[inline(always)]
@@ -726,6 +727,26 @@ pub unsafe fn hash8_exact(
     ];
     let len = input0.len();
     let mut count = 0;
+    // The number of bytes compressed ahead of the input, either zero or the key block.
+    let mut key_count = 0;
+
+    if params.key_length > 0 {
+        let mut key_block = [0; BLOCKBYTES];
+        key_block[..KEYBYTES].copy_from_slice(&params.key);
+        key_count = BLOCKBYTES as u64;
+        let msg_vecs = load_msg_vecs_interleave(
+            &key_block, &key_block, &key_block, &key_block, &key_block, &key_block, &key_block,
+            &key_block,
+        );
+        compress8_transposed_inline(
+            &mut h_vecs,
+            &msg_vecs,
+            load_256_from_u32(key_count as u32),
+            load_256_from_u32(0),
+            load_256_from_u32(0),
+            load_256_from_u32(0),
+        );
+    }
 
     loop {
         // Use pointer casts to avoid bounds checks here. The caller has to assert that these exact
@@ -740,8 +761,9 @@ pub unsafe fn hash8_exact(
         let msg6 = &*(input6.as_ptr().add(count) as *const Block);
         let msg7 = &*(input7.as_ptr().add(count) as *const Block);
         count += BLOCKBYTES;
-        let count_low = load_256_from_u32(count as u32);
-        let count_high = load_256_from_u32((count as u64 >> 32) as u32);
+        let total_count = count as u64 + key_count;
+        let count_low = load_256_from_u32(total_count as u32);
+        let count_high = load_256_from_u32((total_count >> 32) as u32);
         let lastblock = load_256_from_u32(if count == len { !0 } else { 0 });
         let lastnode = load_256_from_u32(if params.last_node && count == len {
             !0
diff --git a/src/sse41.rs b/src/sse41.rs
index d5975f5..83038db 100644
--- a/src/sse41.rs
+++ b/src/sse41.rs
@@ -3,7 +3,7 @@ use core::arch::x86::*;
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::*;
 
-use crate::{Block, Hash, Params, StateWords, BLOCKBYTES, IV, OUTBYTES, SIGMA};
+use crate::{Block, Hash, Params, StateWords, BLOCKBYTES, IV, KEYBYTES, OUTBYTES, SIGMA};
 
 #[inline(always)]
 unsafe fn loadu(p: *const u32) -> __m128i {
@@ -730,6 +730,25 @@ pub unsafe fn hash4_exact(
     ];
     let len = input0.len();
     let mut count = 0;
+    // The number of bytes compressed ahead of the input, either zero or the key block.
+    let mut key_count = 0;
+
+    if params.key_length > 0 {
+        let mut key_block = [0; BLOCKBYTES];
+        key_block[..KEYBYTES].copy_from_slice(&params.key);
+        key_count = BLOCKBYTES as u64;
+        compress4_transposed_inline(
+            &mut h_vecs,
+            &key_block,
+            &key_block,
+            &key_block,
+            &key_block,
+            set1(key_count as u32),
+            set1(0),
+            set1(0),
+            set1(0),
+        );
+    }
 
     loop {
         // Use pointer casts to avoid bounds checks here. The caller has to assert that these exact
@@ -740,8 +759,9 @@ pub unsafe fn hash4_exact(
         let msg2 = &*(input2.as_ptr().add(count) as *const Block);
         let msg3 = &*(input3.as_ptr().add(count) as *const Block);
         count += BLOCKBYTES;
-        let count_low = set1(count as u32);
-        let count_high = set1(((count as u64) >> 32) as u32);
+        let total_count = count as u64 + key_count;
+        let count_low = set1(total_count as u32);
+        let count_high = set1((total_count >> 32) as u32);
         let lastblock = set1(if count == len { !0 } else { 0 });
         let lastnode = set1(if params.last_node && count == len {
             !0
-- 
2.43.0

