From 6f04260f68c02fc24187959019d40c5907c47c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 01/19] fix: Gear32 incremental interface reported the index of
 the edge byte

push() returned the index of the byte that completed the chunk rather than the
index following it, so the caller fed that byte again as part of the next
chunk. The chunks differed from find_chunk_edge(), depended on how the input
was sliced, and iter_slices() never ended when a byte was an edge on its own.
---
 src/gear.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gear.rs b/src/gear.rs
index 184b405..84a3247 100644
--- a/src/gear.rs
+++ b/src/gear.rs
@@ -111,7 +111,7 @@ impl<'a> ChunkIncr for GearIncr32<'a> {
         for (i, v) in data.iter().enumerate() {
             if self.state.push(&self.params, *v) {
                 self.state.reset();
-                return Some(i);
+                return Some(i + 1);
             }
         }
 
-- 
2.43.0


From 3d4da4bbb4bbd6725fcd00c6ac353eecd1d0199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 02/19] fix: Ram incremental interface reported the index of
 the edge byte

As find_chunk_edge() does, report the index following the byte that ends the
chunk: that byte has been consumed and must not be fed again.
---
 src/ram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ram.rs b/src/ram.rs
index c2b53a4..dfb3964 100644
--- a/src/ram.rs
+++ b/src/ram.rs
@@ -106,6 +106,6 @@ pub struct RamIncr {
 
 impl ChunkIncr for RamIncr {
     fn push(&mut self, data: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, data)
+        self.state.push(&self.params, data).map(|i| i + 1)
     }
 }
-- 
2.43.0


From fa1ad36c6aeed606afe4392e43869fb6dfef1f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 03/19] fix: Zstd incremental interface reported the index of
 the edge byte

The byte had already been rotated into the window, so a caller that continued
from the reported index rotated it in twice.
---
 src/zstd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 04fafd4..80e6909 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -256,7 +256,7 @@ impl ChunkIncr for ZstdIncr {
 
             if self.state.at_split(&self.params) {
                 // NOTE: don't clear window
-                return Some(i + use_len);
+                return Some(i + use_len + 1);
             }
         }
 
-- 
2.43.0


From 6ea98c44fdcdb3e55dc40eaaf2c500923cdadb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 04/19] fix: Zstd find_chunk_edge() skipped the data following
 an edge

On an edge, all but the last 32 bytes of the buffer were discarded, examined
or not, and the offset to resume from was not updated: all following edges in
that buffer were lost, and bytes not following the hashed ones were rotated
in. Discard only up to the window preceding the first unexamined byte.
---
 src/zstd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/zstd.rs b/src/zstd.rs
index 80e6909..e60a8ce 100644
--- a/src/zstd.rs
+++ b/src/zstd.rs
@@ -211,8 +211,9 @@ impl Chunk for Zstd {
             let to_add = data[i];
             state.rotate(to_remove, to_add, self.prime_power);
             if state.at_split(self) {
-                let discard_ct = data.len().saturating_sub(RSYNC_LENGTH);
-                return (Some(i + 1), discard_ct);
+                // keep the window preceding the next byte to examine
+                state.offset = RSYNC_LENGTH;
+                return (Some(i + 1), i + 1 - RSYNC_LENGTH);
             }
         }
 
-- 
2.43.0


From fff4fd611a401da8717ce478495796a4c5b77ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 05/19] fix: Mii incremental interface counted the first byte
 of a chunk as an increment

After an edge the previous byte was set to 0, not to the initial 0xff, so all
chunks but the first could end a byte earlier than those of find_chunk_edge().
---
 src/mii.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mii.rs b/src/mii.rs
index 718cb70..fb822d5 100644
--- a/src/mii.rs
+++ b/src/mii.rs
@@ -126,8 +126,7 @@ impl ChunkIncr for MiiIncr {
                 self.increment += 1;
                 if self.increment == self.w {
                     // this is a split
-                    self.increment = 0;
-                    self.prev = 0;
+                    self.reset();
                     return Some(i + 1);
                 }
             } else {
-- 
2.43.0


From ee86780332d334d9a8886b86ea8d08d89374da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 06/19] fix: RollSum incremental interface kept its window
 across edges

bup starts each chunk with an empty window, as do find_chunk_edge() and the
rollsum crate. RollSumIncr::push() did not, so it disagreed with them on edges
less than a window after the previous one.
---
 src/bup.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bup.rs b/src/bup.rs
index c888096..5584032 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -194,6 +194,15 @@ impl RollSumIncr {
         self.state.add(self.window.len(), drop, add);
     }
 
+    fn reset(&mut self) {
+        // as `RollSumSearchState::reset()`: the sum & window start anew for each chunk
+        self.state.reset(&RollSum::with_window(self.window.len()));
+        for b in self.window.iter_mut() {
+            *b = 0;
+        }
+        self.wofs = Wrapping(0);
+    }
+
     pub fn roll_byte(&mut self, ch: u8) {
         let w = self.window[self.wofs.0];
         self.add(w, ch);
@@ -226,6 +235,7 @@ impl ChunkIncr for RollSumIncr {
         for (i, &v) in data.iter().enumerate() {
             self.roll_byte(v);
             if self.at_split() {
+                self.reset();
                 return Some(i + 1);
             }
         }
-- 
2.43.0


From 235777aeb3ffc7a0fdca4bb509c0fbbd6fc358e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 07/19] fix: RollSum incremental interface required a power of
 two window

The window offset was wrapped by masking with (len - 1), so for any other
length RollSum::with_window() accepts, only some slots of the window were used
and edges differed from those of find_chunk_edge().
---
 src/bup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bup.rs b/src/bup.rs
index 5584032..eef2327 100644
--- a/src/bup.rs
+++ b/src/bup.rs
@@ -207,7 +207,7 @@ impl RollSumIncr {
         let w = self.window[self.wofs.0];
         self.add(w, ch);
         self.window[self.wofs.0] = ch;
-        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 & (self.window.len() - 1));
+        self.wofs = Wrapping((self.wofs + Wrapping(1)).0 % self.window.len());
     }
 
     #[cfg(test)]
-- 
2.43.0


From bce2684622b5c409a410fb6fa76050441967ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 08/19] fix: BuzHash did not remove the byte leaving the window
 for many window sizes

The hash of a byte has been rotated k times when it leaves the window, and
the hash is 32 bits wide: to cancel it, it has to be rotated by k % 32, not
k % 8. (They are the same for the k = 67 used by new_nom().)
---
 src/buzhash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index e54789c..da5ed19 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -214,7 +214,7 @@ impl BuzHashState {
     fn add_overflow<H: BuzHashHash>(&mut self, params: &BuzHash<H>, add_v: u8, remove_v: u8) {
         let h = self.h.rotate_left(1);
         // need to find and "remove" a entry
-        let drop = params.h.hash(remove_v).rotate_left((params.k % 8) as u32);
+        let drop = params.h.hash(remove_v).rotate_left((params.k % 32) as u32);
         self.h = h ^ drop ^ params.h.hash(add_v);
     }
 }
-- 
2.43.0


From 6693e337a56714b300a3e246f8f340d078149359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 09/19] fix: BuzHash find_chunk_edge() ignored max_chunk_size

Track the number of bytes since the previous edge and end the chunk once it
grows above the maximum, as BuzHashIncr does.
---
 src/buzhash.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/buzhash.rs b/src/buzhash.rs
index da5ed19..51596dc 100644
--- a/src/buzhash.rs
+++ b/src/buzhash.rs
@@ -138,15 +138,11 @@ impl<H: BuzHashHash + Clone> Chunk for BuzHash<H> {
                 return (Some(i + 1), i + 1);
             }
 
-            /*
-             * broken: `i` is not the number of bytes since prev chunk.
-             * need to track internal last chunk
-            if i as u64 > self.max_chunk_size {
+            state.input_idx += 1;
+            if state.input_idx > self.max_chunk_size {
                 state.reset();
-                println!(" <- CHUNK: {}", i + 1);
                 return (Some(i + 1), i + 1);
             }
-            */
         }
 
         // keep k elements = discard all but k
@@ -173,12 +169,15 @@ impl<H: BuzHashHash + Clone> ToChunkIncr for BuzHash<H> {
 pub struct BuzHashSearchState {
     offset: usize,
     state: BuzHashState,
+    // number of bytes examined since the previous chunk
+    input_idx: u64,
 }
 
 impl BuzHashSearchState {
     fn reset(&mut self) {
         self.offset = 0;
         self.state.reset();
+        self.input_idx = 0;
     }
 }
 
-- 
2.43.0


From 6da2bc9eedbe5cb0f43626436300c187faf7494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 10/19] fix: Zpaq find_chunk_edge() counted a byte too many

`idx` already includes the byte just fed. Adding one again allowed chunks a
byte shorter than the minimum and differed from the incremental interface.
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index bbd199a..7fa1f28 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -207,7 +207,7 @@ impl Chunk for Zpaq {
     ) -> (Option<usize>, usize) {
         for (i, v) in data.iter().enumerate() {
             let h = state.feed(*v);
-            if self.split_here(h, (state.idx + 1) as u64) {
+            if self.split_here(h, state.idx) {
                 *state = self.to_search_state();
                 return (Some(i + 1), i + 1);
             }
-- 
2.43.0


From 2c4b931c2797d669ee2646290a68a1e95882c383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 11/19] fix: Zpaq chunks could be longer than the range they
 were configured with

A chunk was ended once its length was no longer in the range rather than
before, so with_range(..=n) emitted chunks of n + 1 bytes. End it when another
byte would exceed the range. The ranges of with_average_size_pow_2() and
with_max_size() now include the maximum, so that chunks are still allowed to
be of the maximum size as in zpaq and go-dedup.
---
 src/zpaq.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 7fa1f28..6f29caa 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,11 +83,11 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..8128 << fragment_ave
+        64 << (fragment_ave - 10)..=8128 << fragment_ave
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-        max / 64..max
+        max / 64..=max
     }
 
     fn max_hash_from_fragment_ave(fragment_ave: u8) -> u32 {
@@ -152,8 +152,9 @@ impl Zpaq {
     }
     */
 
-    fn split_here(&self, hash: u32, index: u64) -> bool {
-        (hash < self.max_hash && !self.range.under_min(&index)) || self.range.exceeds_max(&index)
+    fn split_here(&self, hash: u32, len: u64) -> bool {
+        // end the chunk here if an additional byte would make it too long
+        (hash < self.max_hash && !self.range.under_min(&len)) || self.range.exceeds_max(&(len + 1))
     }
 }
 
-- 
2.43.0


From a3c2011d6dfe371edca2e53c191e0a44ba3a56b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:42 +0000
Subject: [PATCH 12/19] fix: Zpaq::with_average_size_pow_2() maximum was 1024
 times too large

The documented maximum for the default average of 64 KiB is 508 KiB (as in
zpaq: 8128 << fragment, with the average being 1 KiB << fragment), not 508 MiB.
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 6f29caa..2ac63a6 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -83,7 +83,7 @@ impl Zpaq {
     fn range_from_fragment_ave(fragment_ave: u8) -> impl RangeBounds<u64> {
         assert!(fragment_ave <= 32);
         assert!(fragment_ave >= 10);
-        64 << (fragment_ave - 10)..=8128 << fragment_ave
+        64 << (fragment_ave - 10)..=8128 << (fragment_ave - 10)
     }
 
     fn range_from_max(max: u64) -> impl RangeBounds<u64> {
-- 
2.43.0


From 5fb498dab7267fd9f55ad8746d0fe1553333847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 13/19] fix: Zpaq sized by its maximum had an average 1024
 times too small

go-dedup's fragment (log2(max / (64 * 64))) is relative to 1 KiB: its hash
threshold is 2**(22 - fragment). It was used with the threshold of an average
in bytes, 2**(32 - average), so that with_max_size() and with_range() had an
average of max/4096 rather than the documented max/4, below the minimum of
max/64. Below a max of 8 KiB they overflowed.
---
 src/zpaq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 2ac63a6..501ed16 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -55,7 +55,8 @@ impl Zpaq {
     /* this is taken from go-dedup */
     fn fragment_ave_from_max(max: u64) -> u8 {
         /* TODO: convert this to pure integer math */
-        (max as f64 / (64f64 * 64f64)).log2() as u8
+        // the average is a quarter of the max (and is at most 2**32: the hash has 32 bits)
+        (max as f64 / 4f64).log2().min(32f64) as u8
     }
 
     /* these are based on the zpaq (not go-dedup) calculations */
-- 
2.43.0


From bec993a1764354de5f8dd2884e9d300ed716a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 14/19] fix: Zpaq overflowed for an average size of 1 byte
 (2**0)

The threshold is 2**32 then, which does not fit: it panicked, or in release
builds became 1. Reached for example with with_max_size(4).
---
 src/zpaq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 501ed16..b5abed2 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -93,7 +93,7 @@ impl Zpaq {
 
     fn max_hash_from_fragment_ave(fragment_ave: u8) -> u32 {
         assert!(fragment_ave <= 32);
-        1 << (32 - fragment_ave)
+        (1u64 << (32 - fragment_ave)).min(u32::MAX as u64) as u32
         /*
          * go-dedup does this:
          * (22f64 - fragment_ave).exp2() as u32
-- 
2.43.0


From 836295efc67ae6eb82db471e9c1d4f89c32b5b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 15/19] fix: FastCdc find_chunk_edge() returned an edge past
 the end of the data

When a chunk reached the maximum size at the end of the data, the edge (and
the offset to continue from) was data.len() + 1. Elsewhere, such chunks were a
byte longer than the maximum. Unlike for a match there is no byte to include
in the chunk.
---
 src/fastcdc.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 1a8b430..9c37f1c 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -76,7 +76,8 @@ impl<'a> Chunk for FastCdc<'a> {
         data: &[u8],
     ) -> (Option<usize>, usize) {
         match state.push(self, data) {
-            Some(i) => (Some(i + 1), i + 1),
+            Some(Edge::Hash(i)) => (Some(i + 1), i + 1),
+            Some(Edge::MaxSize(i)) => (Some(i), i),
             None => (None, data.len()),
         }
     }
@@ -134,13 +135,22 @@ pub struct FastCdcState {
     fp: Wrapping<u64>,
 }
 
+/// Where, and due to what, a chunk ends
+enum Edge {
+    /// The byte with this index matched
+    Hash(usize),
+    /// The byte with this index would exceed the max size (it is not examined, and might not be
+    /// in the data yet)
+    MaxSize(usize),
+}
+
 impl FastCdcState {
     fn reset(&mut self) {
         self.l = 0;
         self.fp = Wrapping(0);
     }
 
-    fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<usize> {
+    fn push(&mut self, params: &FastCdc<'_>, data: &[u8]) -> Option<Edge> {
         // global start/index
         let mut gi = self.l;
         // global end
@@ -177,7 +187,7 @@ impl FastCdcState {
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
             if (fp.0 & MASK_S) == 0 {
                 self.reset();
-                return Some(i);
+                return Some(Edge::Hash(i));
             }
 
             gi += 1;
@@ -188,7 +198,7 @@ impl FastCdcState {
             if gi >= params.max_size {
                 // no match found, emit fixed match at MAX_SIZE
                 self.reset();
-                return Some(i);
+                return Some(Edge::MaxSize(i));
             }
             if i >= data.len() {
                 break;
@@ -198,7 +208,7 @@ impl FastCdcState {
             fp = (fp << 1) + Wrapping(params.gear[v as usize]);
             if (fp.0 & MASK_L) == 0 {
                 self.reset();
-                return Some(i);
+                return Some(Edge::Hash(i));
             }
 
             gi += 1;
@@ -215,6 +225,9 @@ impl FastCdcState {
 
 impl<'a> ChunkIncr for FastCdcIncr<'a> {
     fn push(&mut self, src: &[u8]) -> Option<usize> {
-        self.state.push(&self.params, src)
+        match self.state.push(&self.params, src) {
+            Some(Edge::Hash(i)) | Some(Edge::MaxSize(i)) => Some(i),
+            None => None,
+        }
     }
 }
-- 
2.43.0


From d6292c3f23df65e990e59c08f62f21f78c412c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 16/19] fix: FastCdcIncr never made progress with a min_size of
 0

If the first byte of a chunk matched, push() reported an edge before it, over
and over: iter_slices() never ended. Have chunks include at least a byte.
---
 src/fastcdc.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fastcdc.rs b/src/fastcdc.rs
index 9c37f1c..5a111e2 100644
--- a/src/fastcdc.rs
+++ b/src/fastcdc.rs
@@ -156,7 +156,10 @@ impl FastCdcState {
         // global end
         let ge = data.len() as u64 + gi;
 
-        if ge <= params.min_size {
+        // chunks are not empty: the byte that matches follows the chunk
+        let min_size = params.min_size.max(1);
+
+        if ge <= min_size {
             // No split, no processing of data, but we've "consumed" the bytes.
             self.l = ge;
             return None;
@@ -164,8 +167,8 @@ impl FastCdcState {
 
         // skip elements prior to MIN_SIZE and track offset of new `data` in argument `data` for
         // return value
-        let mut i = if gi <= params.min_size {
-            let skip = params.min_size - gi;
+        let mut i = if gi <= min_size {
+            let skip = min_size - gi;
             gi += skip;
             skip
         } else {
-- 
2.43.0


From 88eab4bf6337c6ccb1aabc4507716b4001fc31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 17/19] fix: IterSlicesStrict pushed the remainder again after
 it ended

Calling next() after it returned None fed the remainder to the chunker a
second time, which could emit part of it as a chunk.
---
 src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cd8df68..238854f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -173,6 +173,7 @@ pub trait ChunkIncr {
         IterSlicesStrict {
             rem: data,
             chunker: self,
+            done: false,
         }
     }
 }
@@ -184,6 +185,8 @@ pub trait ChunkIncr {
 pub struct IterSlicesStrict<'a, C: ChunkIncr> {
     rem: &'a [u8],
     chunker: C,
+    // `rem` has been pushed, and has no split point
+    done: bool,
 }
 
 impl<'a, C: ChunkIncr> IterSlicesStrict<'a, C> {
@@ -206,8 +209,15 @@ impl<'a, C: ChunkIncr> Iterator for IterSlicesStrict<'a, C> {
     type Item = &'a [u8];
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.done {
+            return None;
+        }
+
         match self.chunker.push(self.rem) {
-            None => None,
+            None => {
+                self.done = true;
+                None
+            }
             Some(l) => {
                 let (v, rn) = self.rem.split_at(l);
                 self.rem = rn;
-- 
2.43.0


From ecc13c41fbd403bf9b357b9a67ce473e8d3ed7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 18/19] fix: Zpaq worked out its average with a floating point
 log2, which is not the same everywhere

---
 src/zpaq.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index b5abed2..6503660 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -54,9 +54,8 @@ pub struct Zpaq {
 impl Zpaq {
     /* this is taken from go-dedup */
     fn fragment_ave_from_max(max: u64) -> u8 {
-        /* TODO: convert this to pure integer math */
         // the average is a quarter of the max (and is at most 2**32: the hash has 32 bits)
-        (max as f64 / 4f64).log2().min(32f64) as u8
+        (63 - (max / 4).max(1).leading_zeros()).min(32) as u8
     }
 
     /* these are based on the zpaq (not go-dedup) calculations */
-- 
2.43.0


From 1ec0ed1abed00e227091265089451dbd74107997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 19/19] fix: Zpaq::with_range() overflowed for a range without
 end that starts at 2**58 or later

---
 src/zpaq.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/zpaq.rs b/src/zpaq.rs
index 6503660..6ac58d0 100644
--- a/src/zpaq.rs
+++ b/src/zpaq.rs
@@ -65,14 +65,15 @@ impl Zpaq {
             Bound::Excluded(i) => *i - 1,
             Bound::Unbounded => {
                 /* try to guess based on first */
-                64 * match range.start_bound() {
+                let first = match range.start_bound() {
                     Bound::Included(i) => *i,
-                    Bound::Excluded(i) => *i + 1,
+                    Bound::Excluded(i) => i.saturating_add(1),
                     Bound::Unbounded => {
                         /* welp, lets use the default */
                         return 16;
                     }
-                }
+                };
+                first.saturating_mul(64)
             }
         };
 
-- 
2.43.0

