From 82f67de64b82838104febb9be653c1b713e5ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 1/3] fix: hash keyed BLAKE2sp inputs longer than 960 bytes
 correctly

The leaves kept their key block in their own buffers, which compress8
bypasses. Keyed inputs long enough to be compressed before finalize
panicked in debug builds and gave wrong hashes in release builds. Put the
key blocks in the shared buffer instead, so that they're compressed first.
---
 src/blake2sp.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index 441de2e..ea001b6 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -124,6 +124,10 @@ impl State {
             // Note that the regular hash_length parameter still contributes associated data to
             // these instances.
             state.hash_length = OUTBYTES as u8;
+            // Clear the key block from the leaf state buffer. It's put in the shared buffer below
+            // instead, because compress8 requires the leaf buffers to stay empty.
+            state.buflen = 0;
+            state.count = 0;
             state
         };
         let mut root_state = base_params
@@ -140,6 +144,15 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        // If there's a key, initialize the buffer with a key block for each of the leaves.
+        let mut buf = [0; 2 * 8 * BLOCKBYTES];
+        let mut buflen = 0;
+        if params.key_length > 0 {
+            for key_block in buf[..8 * BLOCKBYTES].chunks_mut(BLOCKBYTES) {
+                key_block[..KEYBYTES].copy_from_slice(&params.key);
+            }
+            buflen = 8 * BLOCKBYTES as u16;
+        }
         Self {
             leaf0: leaf_state(0),
             leaf1: leaf_state(1),
@@ -150,8 +163,8 @@ impl State {
             leaf6: leaf_state(6),
             leaf7: leaf_state(7),
             root: root_state,
-            buf: [0; 2 * 8 * BLOCKBYTES],
-            buflen: 0,
+            buf: buf,
+            buflen: buflen,
             compress8_fn: crate::default_compress_impl().1,
         }
     }
-- 
2.43.0


From f021c25b157f6a9f0890125c461744ead83f79f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 2/3] fix: include the key in hash4_exact and hash8_exact

The SSE4.1 and AVX2 implementations never hash the key block, so keyed
parameters gave different (wrong) hashes on machines with AVX2. Use the
portable implementation, which supports keying, when there's a key.
---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c6fce16..cbe7289 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -787,7 +787,12 @@ pub fn hash4_exact(
         "invalid hash8_exact inputs"
     );
 
-    let hash4_exact_fn = default_compress_impl().3;
+    // The SIMD implementations don't support keying.
+    let hash4_exact_fn = if params.key_length > 0 {
+        portable::hash4_exact
+    } else {
+        default_compress_impl().3
+    };
     unsafe { hash4_exact_fn(params, input0, input1, input2, input3) }
 }
 
@@ -819,7 +824,12 @@ pub fn hash8_exact(
         "invalid hash8_exact inputs"
     );
 
-    let hash8_exact_fn = default_compress_impl().2;
+    // The SIMD implementations don't support keying.
+    let hash8_exact_fn = if params.key_length > 0 {
+        portable::hash8_exact
+    } else {
+        default_compress_impl().2
+    };
     unsafe {
         hash8_exact_fn(
             params, input0, input1, input2, input3, input4, input5, input6, input7,
-- 
2.43.0


From dc0d19dc53823199522328e6198fbda620c01836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 3/3] fix: don't count the key block in State::count

count() documents the total number of bytes input so far, but keyed states
reported 64 (BLAKE2s) or 512 (BLAKE2sp) bytes too many.
---
 src/blake2sp.rs |  9 ++++++++-
 src/lib.rs      | 10 +++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/blake2sp.rs b/src/blake2sp.rs
index ea001b6..53649ef 100644
--- a/src/blake2sp.rs
+++ b/src/blake2sp.rs
@@ -87,6 +87,7 @@ pub struct State {
     buf: [u8; 2 * 8 * BLOCKBYTES],
     buflen: u16,
     compress8_fn: Compress8Fn,
+    is_keyed: bool,
 }
 
 impl State {
@@ -128,6 +129,7 @@ impl State {
             // instead, because compress8 requires the leaf buffers to stay empty.
             state.buflen = 0;
             state.count = 0;
+            state.is_keyed = false;
             state
         };
         let mut root_state = base_params
@@ -144,6 +146,7 @@ impl State {
         // corroborated by the official test vectors; see tests/vector_tests.rs.
         root_state.buflen = 0;
         root_state.count = 0;
+        root_state.is_keyed = false;
         // If there's a key, initialize the buffer with a key block for each of the leaves.
         let mut buf = [0; 2 * 8 * BLOCKBYTES];
         let mut buflen = 0;
@@ -166,6 +169,7 @@ impl State {
             buf: buf,
             buflen: buflen,
             compress8_fn: crate::default_compress_impl().1,
+            is_keyed: params.key_length > 0,
         }
     }
 
@@ -400,8 +404,10 @@ impl State {
         root.finalize()
     }
 
-    /// Return the total number of bytes input so far.
+    /// Return the total number of bytes input so far, not including the key.
     pub fn count(&self) -> u64 {
+        // The leaves and the buffer also count a key block for each leaf.
+        let key_blocks = if self.is_keyed { 8 * BLOCKBYTES } else { 0 };
         self.leaf0.count()
             + self.leaf1.count()
             + self.leaf2.count()
@@ -411,6 +417,7 @@ impl State {
             + self.leaf6.count()
             + self.leaf7.count()
             + self.buflen as u64
+            - key_blocks as u64
     }
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index cbe7289..e1b0196 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,6 +311,7 @@ pub struct State {
     compress_fn: CompressFn,
     last_node: bool,
     hash_length: u8,
+    is_keyed: bool,
 }
 
 impl State {
@@ -327,6 +328,7 @@ impl State {
             count: 0,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: params.key_length > 0,
         };
         if params.key_length > 0 {
             let mut key_block = [0; BLOCKBYTES];
@@ -414,9 +416,10 @@ impl State {
         self
     }
 
-    /// Return the total number of bytes input so far.
+    /// Return the total number of bytes input so far, not including the key.
     pub fn count(&self) -> u64 {
-        self.count
+        // The key block is part of the internal count.
+        self.count - if self.is_keyed { BLOCKBYTES as u64 } else { 0 }
     }
 }
 
@@ -454,7 +457,7 @@ impl fmt::Debug for State {
         write!(
             f,
             "State {{ count: {}, hash_length: {}, last_node: {} }}",
-            self.count, self.hash_length, self.last_node,
+            self.count(), self.hash_length, self.last_node,
         )
     }
 }
@@ -1012,6 +1015,7 @@ pub fn hash8(
             compress_fn: compress_fn,
             last_node: params.last_node,
             hash_length: params.hash_length,
+            is_keyed: false,
         };
         state.update(&input[count..]);
         state.finalize()
-- 
2.43.0

