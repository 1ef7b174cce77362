From b10d5cbca5b097f8d396a136da64ade0bbfd0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 01/21] fix: compare and hash the last limb of a BitVec if it
 is full

The mask for the last limb was zero if the length was a multiple of 64, so vectors
which differ only in their last limb compared equal.
---
 src/bit_vec/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index fc2b4de..e9481a6 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1606,7 +1606,7 @@ impl PartialEq for BitVec {
         }
 
         // in last limb, ignore junk data
-        let mask = (1 << (self.len % WORD_SIZE)) - 1;
+        let mask = u64::MAX >> ((WORD_SIZE - self.len % WORD_SIZE) % WORD_SIZE);
         if self.data[self.data.len() - 1] & mask != other.data[self.data.len() - 1] & mask {
             return false;
         }
@@ -1624,7 +1624,8 @@ impl Hash for BitVec {
             self.data[0..self.data.len() - 1]
                 .iter()
                 .for_each(|x| state.write_u64(*x));
-            let masked_last_limb = self.data.last().unwrap() & ((1 << (self.len % WORD_SIZE)) - 1);
+            let mask = u64::MAX >> ((WORD_SIZE - self.len % WORD_SIZE) % WORD_SIZE);
+            let masked_last_limb = self.data.last().unwrap() & mask;
             state.write_u64(masked_last_limb);
         }
     }
-- 
2.43.0


From 76a7b1619721b471108053f2f988fa0d197b5752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 02/21] fix: MaskedBitVec::get_bits of 64 unaligned bits no
 longer returns zero

---
 src/bit_vec/mask.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index 4669829..e21c4fd 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -156,7 +156,7 @@ where
                 self.mask.data[pos / WORD_SIZE + 1],
             ) << (WORD_SIZE - pos % WORD_SIZE);
 
-            (partial_word | next_half) & ((1 << (len % WORD_SIZE)) - 1)
+            (partial_word | next_half) & (u64::MAX >> (WORD_SIZE - len))
         }
     }
 
-- 
2.43.0


From ee4558bf0772e1dd31e3948f60fd089d264dc7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 03/21] fix: appending zero bits to a BitVec no longer corrupts
 it

If the length was a multiple of 64, a limb was pushed without increasing the length,
so subsequent appends were written to the wrong limb.
---
 src/bit_vec/mod.rs    | 10 ++++++++++
 src/elias_fano/mod.rs |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index e9481a6..96701b2 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -911,6 +911,11 @@ impl BitVec {
     pub fn append_bits(&mut self, bits: u64, len: usize) {
         assert!(len <= 64, "Cannot append more than 64 bits");
 
+        // appending nothing must not allocate a limb
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
@@ -948,6 +953,11 @@ impl BitVec {
     /// [`append_bits`]: BitVec::append_bits
     /// [`drop_last`]: BitVec::drop_last
     pub fn append_bits_unchecked(&mut self, bits: u64, len: usize) {
+        // appending nothing must not allocate a limb
+        if len == 0 {
+            return;
+        }
+
         if self.len.is_multiple_of(WORD_SIZE) {
             self.data.push(bits);
         } else {
diff --git a/src/elias_fano/mod.rs b/src/elias_fano/mod.rs
index 0e0bd9a..6fe98fc 100644
--- a/src/elias_fano/mod.rs
+++ b/src/elias_fano/mod.rs
@@ -123,6 +123,11 @@ impl EliasFanoVec {
             lower_vec.append_bits_unchecked(lower, lower_width);
         }
 
+        // queries read zero-width elements from the lower vector, which requires one limb to exist
+        if lower_width == 0 {
+            lower_vec.append_bit(0);
+        }
+
         Self {
             upper_vec: RsVec::from_bit_vec(upper_vec),
             lower_vec,
-- 
2.43.0


From ca59c3c84a8f01ebde0a010d52c84edb685e7840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 04/21] fix: get_bits and unpack_element return None for
 positions that overflow

---
 src/bit_vec/fast_rs_vec/mod.rs | 2 +-
 src/bit_vec/mask.rs            | 2 +-
 src/bit_vec/mod.rs             | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index 1d4ea69..c311336 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -352,7 +352,7 @@ impl RsVec {
         if len > WORD_SIZE {
             return None;
         }
-        if pos + len > self.len {
+        if len > self.len || pos > self.len - len {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mask.rs b/src/bit_vec/mask.rs
index e21c4fd..e112413 100644
--- a/src/bit_vec/mask.rs
+++ b/src/bit_vec/mask.rs
@@ -112,7 +112,7 @@ where
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.vec.len {
+        if len > self.vec.len || pos > self.vec.len - len {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
diff --git a/src/bit_vec/mod.rs b/src/bit_vec/mod.rs
index 96701b2..edc2e9c 100644
--- a/src/bit_vec/mod.rs
+++ b/src/bit_vec/mod.rs
@@ -1176,7 +1176,7 @@ impl BitVec {
         if len > WORD_SIZE || len == 0 {
             return None;
         }
-        if pos + len > self.len {
+        if len > self.len || pos > self.len - len {
             None
         } else {
             Some(self.get_bits_unchecked(pos, len))
@@ -1242,7 +1242,7 @@ impl BitVec {
     #[allow(clippy::inline_always)]
     #[inline(always)] // to gain optimization if n is constant
     pub fn unpack_element(&self, index: usize, n: usize) -> Option<u64> {
-        self.get_bits(index * n, n)
+        self.get_bits(index.checked_mul(n)?, n)
     }
 
     /// Extract a packed element from a bit vector. The element is encoded in the bits at the given
-- 
2.43.0


From f9e3a691e3ff1e1c0a11638815059c4584009309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 05/21] fix: RsVec::get_bits of zero bits at the end of the
 vector no longer panics

---
 src/bit_vec/fast_rs_vec/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index c311336..d0889fc 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -354,6 +354,8 @@ impl RsVec {
         }
         if len > self.len || pos > self.len - len {
             None
+        } else if len == 0 {
+            Some(0)
         } else {
             Some(self.get_bits_unchecked(pos, len))
         }
-- 
2.43.0


From 00d02475ee87e4968670b77717cbf586c9a6dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 06/21] fix: nth_back of select iterators no longer underflows
 when it consumes all elements

---
 src/bit_vec/fast_rs_vec/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/iter.rs b/src/bit_vec/fast_rs_vec/iter.rs
index e0d4fcf..1a348aa 100644
--- a/src/bit_vec/fast_rs_vec/iter.rs
+++ b/src/bit_vec/fast_rs_vec/iter.rs
@@ -348,11 +348,11 @@ macro_rules! gen_iter_impl {
             /// implementation in the double ended iterator impl.
             pub(super) fn advance_back_by(&mut self, n: usize) -> Result<(), NonZeroUsize> {
                 if self.len() >= n {
-                    self.next_rank_back = self.next_rank_back.map(|x| x - n);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(n));
                     Ok(())
                 } else {
                     let len = self.len();
-                    self.next_rank_back = self.next_rank_back.map(|x| x - len);
+                    self.next_rank_back = self.next_rank_back.and_then(|x| x.checked_sub(len));
                     Err(NonZeroUsize::new(n - len).unwrap())
                 }
             }
-- 
2.43.0


From 1f6f47dea9ddc047dc91b9f21b89a4189d17b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 07/21] fix: BitSetIter no longer repeats bits or yields
 positions past the end of the vector

The last chunk was visited twice (once loaded including the padding bits, once bit by bit).
---
 src/bit_vec/fast_rs_vec/bitset.rs | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/bitset.rs b/src/bit_vec/fast_rs_vec/bitset.rs
index 00cb5e0..c168e1b 100644
--- a/src/bit_vec/fast_rs_vec/bitset.rs
+++ b/src/bit_vec/fast_rs_vec/bitset.rs
@@ -83,19 +83,13 @@ pub struct BitSetIter<'a, const ZERO: bool> {
 
 impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
     pub(super) fn new(vec: &'a RsVec) -> Self {
-        let mut iter = Self {
+        Self {
             vec,
             base: 0,
             offsets: [0; VECTOR_SIZE],
             content_len: 0,
             cursor: 0,
-        };
-
-        if vec.len() > VECTOR_SIZE {
-            iter.load_chunk(vec.get_bits_unchecked(0, VECTOR_SIZE) as u16);
         }
-
-        iter
     }
 
     fn load_chunk(&mut self, data: u16) {
@@ -116,13 +110,14 @@ impl<'a, const ZERO: bool> BitSetIter<'a, ZERO> {
 
     fn load_next_chunk(&mut self) -> Option<()> {
         while self.cursor == self.content_len {
-            if self.base + VECTOR_SIZE >= self.vec.len() {
+            // the trailing incomplete chunk is not loaded, its bits are visited one by one
+            if self.base + VECTOR_SIZE > self.vec.len() {
                 return None;
             }
 
-            self.base += VECTOR_SIZE;
             let data = self.vec.get_bits_unchecked(self.base, VECTOR_SIZE) as u16;
             self.load_chunk(data);
+            self.base += VECTOR_SIZE;
         }
         Some(())
     }
@@ -132,10 +127,6 @@ impl<const ZERO: bool> Iterator for BitSetIter<'_, ZERO> {
     type Item = usize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.base >= self.vec.len() {
-            return None;
-        }
-
         if self.cursor == self.content_len {
             if self.load_next_chunk().is_none() {
                 if ZERO {
@@ -159,6 +150,6 @@ impl<const ZERO: bool> Iterator for BitSetIter<'_, ZERO> {
 
         let offset = self.offsets[self.cursor as usize];
         self.cursor += 1;
-        Some(self.base + offset as usize)
+        Some(self.base - VECTOR_SIZE + offset as usize)
     }
 }
-- 
2.43.0


From 78d8ab43d21b9f740861ffc255ffee16d9a19558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 08/21] fix: add the universe offset in last and max of the
 Elias-Fano iterators

---
 src/util/elias_fano_iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 646d3f4..8ac8e1d 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -107,7 +107,7 @@ macro_rules! gen_ef_iter_impl {
                 let lower = self
                     .vec
                     .get_bits_unchecked(self.back_index.unwrap() * self.lower_len, self.lower_len);
-                Some(((upper as u64) << self.lower_len) | lower)
+                Some((((upper as u64) << self.lower_len) | lower) + self.universe_zero)
             }
 
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
-- 
2.43.0


From 52469d8b5d4e28245dfad9d58be1025de8450c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 09/21] fix: nth and nth_back past the end consume the
 remaining elements of vector iterators

The iterators are fused, but yielded elements after nth had returned None,
and large arguments overflowed.
---
 src/util/elias_fano_iter.rs | 10 ++++++++++
 src/util/general_iter.rs    | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/util/elias_fano_iter.rs b/src/util/elias_fano_iter.rs
index 8ac8e1d..5b23f1c 100644
--- a/src/util/elias_fano_iter.rs
+++ b/src/util/elias_fano_iter.rs
@@ -113,6 +113,11 @@ macro_rules! gen_ef_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
+                if n >= self.len() {
+                    // all remaining elements are consumed
+                    let _ = self.advance_by(self.len());
+                    return None;
+                }
                 self.advance_by(n).ok()?;
                 self.next()
             }
@@ -167,6 +172,11 @@ macro_rules! gen_ef_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
+                if n >= self.len() {
+                    // all remaining elements are consumed
+                    let _ = self.advance_back_by(self.len());
+                    return None;
+                }
                 self.advance_back_by(n).ok()?;
                 self.next_back()
             }
diff --git a/src/util/general_iter.rs b/src/util/general_iter.rs
index afc4c73..759c7d9 100644
--- a/src/util/general_iter.rs
+++ b/src/util/general_iter.rs
@@ -118,6 +118,11 @@ macro_rules! gen_vector_iter_impl {
             /// Returns the nth element of the iterator. Does not call `next` internally, but advances
             /// the iterator by `n` elements.
             fn nth(&mut self, n: usize) -> Option<Self::Item> {
+                if n >= self.len() {
+                    // all remaining elements are consumed
+                    let _ = self.advance_by(self.len());
+                    return None;
+                }
                 self.advance_by(n).ok()?;
                 self.next()
             }
@@ -148,6 +153,11 @@ macro_rules! gen_vector_iter_impl {
             }
 
             fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
+                if n >= self.len() {
+                    // all remaining elements are consumed
+                    let _ = self.advance_back_by(self.len());
+                    return None;
+                }
                 self.advance_back_by(n).ok()?;
                 self.next_back()
             }
-- 
2.43.0


From 3fcc1a6160a41fff62010d80f7e3173029e80d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 10/21] fix: unchecked access of a SparseRSVec left of the
 first 1-bit no longer underflows

---
 src/bit_vec/sparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/sparse.rs b/src/bit_vec/sparse.rs
index bab1b9e..94ca04c 100644
--- a/src/bit_vec/sparse.rs
+++ b/src/bit_vec/sparse.rs
@@ -149,7 +149,7 @@ impl SparseRSVec {
     /// [`is_set`]: #method.is_set
     #[must_use]
     pub fn is_set_unchecked(&self, i: u64) -> bool {
-        self.vec.predecessor_unchecked(i) == i
+        self.vec.predecessor(i).is_some_and(|p| p == i)
     }
 
     /// Returns true if the bit at position `i` is set.
-- 
2.43.0


From 5187fe40e583ee39df635884a1c62e84be79d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 11/21] fix: level queries and fwd_search on empty and
 single-node BpTrees

---
 src/trees/bp/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index c508966..56d3cc2 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -163,7 +163,7 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     pub fn fwd_search(&self, index: usize, mut relative_excess: i64) -> Option<usize> {
         // check for greater than or equal length minus one, because the last element
         // won't ever have a result from fwd_search
-        if index >= (self.vec.len() - 1) {
+        if index >= self.vec.len().saturating_sub(1) {
             return None;
         }
 
@@ -706,7 +706,7 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     fn level_leftmost(&self, level: u64) -> Option<Self::NodeHandle> {
         // fwd_search doesn't support returning the input position
         if level == 0 {
-            return Some(0);
+            return self.root();
         }
 
         #[allow(clippy::cast_possible_wrap)]
@@ -715,9 +715,14 @@ impl<const BLOCK_SIZE: usize> LevelTree for BpTree<BLOCK_SIZE> {
     }
 
     fn level_rightmost(&self, level: u64) -> Option<Self::NodeHandle> {
+        // bwd_search doesn't support returning the input position
+        if level == 0 {
+            return self.root();
+        }
+
         #[allow(clippy::cast_possible_wrap)]
         // if the level exceeds 2^63, we accept that the result is wrong
-        self.open(self.bwd_search(self.size() * 2 - 1, level as i64)?)
+        self.open(self.bwd_search((self.size() * 2).checked_sub(1)?, level as i64)?)
     }
 }
 
-- 
2.43.0


From 1c15057dd4d42b96fc0d92a2e21eec4e145d1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 12/21] fix: bwd_search for block sizes that aren't a multiple
 of the lookup block size

---
 src/trees/bp/mod.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 56d3cc2..23ffc8c 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -314,7 +314,13 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
-        for i in (block_boundary..lookup_boundary)
+        // the boundary down to which we can use table lookups
+        let lower_lookup_boundary = min(
+            lookup_boundary,
+            block_boundary.div_ceil(LOOKUP_BLOCK_SIZE as usize) * LOOKUP_BLOCK_SIZE as usize,
+        );
+
+        for i in (lower_lookup_boundary..lookup_boundary)
             .step_by(LOOKUP_BLOCK_SIZE as usize)
             .rev()
         {
@@ -329,6 +335,17 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             }
         }
 
+        // if the lower_lookup_boundary isn't the block_boundary (which happens if the block size isn't a
+        // multiple of the lookup block size)
+        for i in (block_boundary..lower_lookup_boundary).rev() {
+            let bit = self.vec.get_unchecked(i);
+            *relative_excess += if bit == 1 { 1 } else { -1 };
+
+            if *relative_excess == 0 {
+                return Ok(i);
+            }
+        }
+
         Err(())
     }
 
-- 
2.43.0


From 86c2dcd6159ec79a1d29161a150f812e12e8e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 13/21] fix: BpTree::excess returns the total excess for
 out-of-bounds indices as documented

---
 src/trees/bp/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 23ffc8c..80df9ad 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -397,8 +397,8 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
     /// If `index` is out of bounds, the total excess of the parentheses expression is returned.
     #[must_use]
     pub fn excess(&self, index: usize) -> i64 {
-        debug_assert!(index < self.vec.len(), "Index out of bounds");
-        self.vec.rank1(index + 1) as i64 - self.vec.rank0(index + 1) as i64
+        let end = index.saturating_add(1);
+        self.vec.rank1(end) as i64 - self.vec.rank0(end) as i64
     }
 
     /// Iterate over the nodes of the tree.
-- 
2.43.0


From df59ee6b7ff79cbf321bbdd0f2001b2e5cd08945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 14/21] fix: range_min_with_range no longer panics on empty
 ranges

---
 src/rmq/binary_rmq/mod.rs | 6 +++---
 src/rmq/fast_rmq/mod.rs   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rmq/binary_rmq/mod.rs b/src/rmq/binary_rmq/mod.rs
index b6cfda3..246fe6e 100644
--- a/src/rmq/binary_rmq/mod.rs
+++ b/src/rmq/binary_rmq/mod.rs
@@ -124,17 +124,17 @@ impl BinaryRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
diff --git a/src/rmq/fast_rmq/mod.rs b/src/rmq/fast_rmq/mod.rs
index eb6d8ed..50a66de 100644
--- a/src/rmq/fast_rmq/mod.rs
+++ b/src/rmq/fast_rmq/mod.rs
@@ -171,17 +171,17 @@ impl FastRmq {
     pub fn range_min_with_range<T: RangeBounds<usize>>(&self, range: T) -> usize {
         let start = match range.start_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i + 1,
+            Bound::Excluded(i) => i.saturating_add(1),
             Bound::Unbounded => 0,
         }
         .clamp(0, self.len() - 1);
 
         let end = match range.end_bound() {
             Bound::Included(i) => *i,
-            Bound::Excluded(i) => *i - 1,
+            Bound::Excluded(i) => i.saturating_sub(1),
             Bound::Unbounded => self.len() - 1,
         }
-        .clamp(0, self.len() - 1);
+        .clamp(start, self.len() - 1);
         self.range_min(start, end)
     }
 
-- 
2.43.0


From b89ec706b81a61f63d6ba80c8d9c6f85647ce2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 15/21] fix: rank_range and quantile of WaveletMatrix return
 None for inverted ranges

---
 src/wavelet/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 7a246ca..682faf0 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -456,7 +456,8 @@ impl WaveletMatrix {
     /// [`BitVec`]: BitVec
     #[must_use]
     pub fn rank_range(&self, range: Range<usize>, symbol: &BitVec) -> Option<usize> {
-        if range.start >= self.len()
+        if range.start > range.end
+            || range.start >= self.len()
             || range.end > self.len()
             || symbol.len() != self.bits_per_element()
         {
@@ -518,7 +519,11 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn rank_range_u64(&self, range: Range<usize>, symbol: u64) -> Option<usize> {
-        if range.start >= self.len() || range.end > self.len() || self.bits_per_element() > 64 {
+        if range.start > range.end
+            || range.start >= self.len()
+            || range.end > self.len()
+            || self.bits_per_element() > 64
+        {
             None
         } else {
             Some(self.rank_range_u64_unchecked(range, symbol))
@@ -1103,7 +1108,7 @@ impl WaveletMatrix {
     /// ```
     #[must_use]
     pub fn quantile(&self, range: Range<usize>, k: usize) -> Option<BitVec> {
-        if range.start >= self.len() || range.end > self.len() || k >= range.end - range.start {
+        if range.start >= self.len() || range.end > self.len() || k >= range.len() {
             None
         } else {
             Some(self.quantile_unchecked(range, k))
@@ -1235,7 +1240,7 @@ impl WaveletMatrix {
         if range.start >= self.len()
             || range.end > self.len()
             || self.bits_per_element() > 64
-            || k >= range.end - range.start
+            || k >= range.len()
         {
             None
         } else {
-- 
2.43.0


From 77ec7f3a6153e077a668cbec31606fee00e42ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:23 +0000
Subject: [PATCH 16/21] fix: select of WaveletMatrix returns None for ranks
 that overflow

---
 src/wavelet/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 682faf0..577a921 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -791,7 +791,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if symbol.get_unchecked((self.bits_per_element() - 1) - level) == 0 {
@@ -871,7 +871,7 @@ impl WaveletMatrix {
             }
         }
 
-        let mut range_end = range_start + rank;
+        let mut range_end = range_start.saturating_add(rank);
 
         for (level, data) in self.data.iter().enumerate().rev() {
             if (symbol >> ((self.bits_per_element() - 1) - level)) & 1 == 0 {
-- 
2.43.0


From 66b44672fe040eb8873e33aba8ae98feace9deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:14 +0000
Subject: [PATCH 17/21] fix: fwd_search and bwd_search of BpTree no longer
 overflow for unreachable relative excesses

---
 src/trees/bp/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/trees/bp/mod.rs b/src/trees/bp/mod.rs
index 80df9ad..08dccd1 100644
--- a/src/trees/bp/mod.rs
+++ b/src/trees/bp/mod.rs
@@ -167,6 +167,11 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             return None;
         }
 
+        // an excess that exceeds the number of parentheses can't be reached, and tracking it could overflow
+        if relative_excess.unsigned_abs() > self.vec.len() as u64 {
+            return None;
+        }
+
         let block_index = (index + 1) / BLOCK_SIZE;
         self.fwd_search_block(index, block_index, &mut relative_excess)
             .map_or_else(
@@ -264,6 +269,11 @@ impl<const BLOCK_SIZE: usize> BpTree<BLOCK_SIZE> {
             return None;
         }
 
+        // an excess that exceeds the number of parentheses can't be reached, and tracking it could overflow
+        if relative_excess.unsigned_abs() > self.vec.len() as u64 {
+            return None;
+        }
+
         // calculate the block we start searching in. It starts at index - 1, so we don't accidentally
         // search the mM tree and immediately find `index` as the position
         let block_index = (index - 1) / BLOCK_SIZE;
-- 
2.43.0


From 9b1d0ce6d4aea64d4b196c84a42d24e99054d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:00 +0000
Subject: [PATCH 18/21] fix: count the slice of levels in
 WaveletMatrix::heap_size

---
 src/wavelet/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wavelet/mod.rs b/src/wavelet/mod.rs
index 577a921..72a9a6b 100644
--- a/src/wavelet/mod.rs
+++ b/src/wavelet/mod.rs
@@ -2063,7 +2063,8 @@ impl WaveletMatrix {
     /// internal data structures.
     #[must_use]
     pub fn heap_size(&self) -> usize {
-        self.data.iter().map(RsVec::heap_size).sum::<usize>()
+        self.data.len() * mem::size_of::<RsVec>()
+            + self.data.iter().map(RsVec::heap_size).sum::<usize>()
     }
 }
 
-- 
2.43.0


From ac0e407d4cf2e1cc0be497d12daf7551418dfbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:03 +0000
Subject: [PATCH 19/21] fix: converting a BitVec into a SparseRSVec no longer
 inverts its bits

---
 src/bit_vec/sparse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/sparse.rs b/src/bit_vec/sparse.rs
index 94ca04c..379985b 100644
--- a/src/bit_vec/sparse.rs
+++ b/src/bit_vec/sparse.rs
@@ -243,13 +243,13 @@ impl SparseRSVec {
 
 impl From<BitVec> for SparseRSVec {
     fn from(input: BitVec) -> Self {
-        Self::from_bitvec_inverted(&input)
+        Self::from_bitvec(&input)
     }
 }
 
 impl<'a> From<&'a BitVec> for SparseRSVec {
     fn from(input: &'a BitVec) -> Self {
-        Self::from_bitvec_inverted(input)
+        Self::from_bitvec(input)
     }
 }
 
-- 
2.43.0


From 814778f840136ffb573b74fdd02e9423c9b9249d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:04 +0000
Subject: [PATCH 20/21] fix: select1 binary search no longer degrades to a
 linear scan over super-blocks

The search compared the number of ones before super-block middle + 1 as if none of the
bits of super-block middle were zeros, so that it nearly always went to the left half
and left the rest to the linear search.
---
 src/bit_vec/fast_rs_vec/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vec/fast_rs_vec/select.rs b/src/bit_vec/fast_rs_vec/select.rs
index b8721d7..24d3310 100644
--- a/src/bit_vec/fast_rs_vec/select.rs
+++ b/src/bit_vec/fast_rs_vec/select.rs
@@ -391,7 +391,7 @@ impl super::RsVec {
         while upper_bound - super_block > 8 {
             let middle = super_block + ((upper_bound - super_block) >> 1);
             // using select_unpredictable does nothing here, likely because the search isn't hot
-            if ((middle + 1) * SUPER_BLOCK_SIZE - self.super_blocks[middle].zeros) <= rank {
+            if (middle * SUPER_BLOCK_SIZE - self.super_blocks[middle].zeros) <= rank {
                 super_block = middle;
             } else {
                 upper_bound = middle;
-- 
2.43.0


From 3162852ebf852229eff3a3a4e8273e7c36001800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:04 +0000
Subject: [PATCH 21/21] fix: select behind the last select block searches all
 super-blocks logarithmically

The dummy select blocks reported the last real index as upper bound, so that the search for
bits behind the last real select block (all of them, if there are fewer than 8192) was linear.
---
 src/bit_vec/fast_rs_vec/mod.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/bit_vec/fast_rs_vec/mod.rs b/src/bit_vec/fast_rs_vec/mod.rs
index d0889fc..aea2664 100644
--- a/src/bit_vec/fast_rs_vec/mod.rs
+++ b/src/bit_vec/fast_rs_vec/mod.rs
@@ -190,30 +190,27 @@ impl RsVec {
             current_zeros += new_zeros;
         }
 
-        // insert dummy select blocks at the end that just report the same index like the last real
-        // block, so the bound check for binary search doesn't overflow
-        // this is technically the incorrect value, but since all valid queries will be smaller,
-        // this will only tell select to stay in the current super block, which is correct.
-        // we cannot use a real value here, because this would change the size of the super-block
+        // insert dummy select blocks at the end that report the last super-block, so the bound check
+        // for binary search doesn't overflow, and the binary search covers all super-blocks that
+        // can contain the bits behind the last real select block.
+        let last_super_block = super_blocks.len().saturating_sub(1);
         if last_zero_select_block == select_blocks.len() - 1 {
             select_blocks.push(SelectSuperBlockDescriptor {
-                index_0: select_blocks[last_zero_select_block].index_0,
+                index_0: last_super_block,
                 index_1: 0,
             });
         } else {
             debug_assert!(select_blocks[last_zero_select_block + 1].index_0 == 0);
-            select_blocks[last_zero_select_block + 1].index_0 =
-                select_blocks[last_zero_select_block].index_0;
+            select_blocks[last_zero_select_block + 1].index_0 = last_super_block;
         }
         if last_one_select_block == select_blocks.len() - 1 {
             select_blocks.push(SelectSuperBlockDescriptor {
                 index_0: 0,
-                index_1: select_blocks[last_one_select_block].index_1,
+                index_1: last_super_block,
             });
         } else {
             debug_assert!(select_blocks[last_one_select_block + 1].index_1 == 0);
-            select_blocks[last_one_select_block + 1].index_1 =
-                select_blocks[last_one_select_block].index_1;
+            select_blocks[last_one_select_block + 1].index_1 = last_super_block;
         }
 
         total_zeros += current_zeros;
-- 
2.43.0

