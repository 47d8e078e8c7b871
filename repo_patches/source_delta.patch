From ceee61030671c863311556df6386d8d88187313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 01/23] fix: JacobsonRank::new on bit vectors of length 0 and 1

The logarithm of the length is 0 there, which made the large block size 0
(division by zero) and, for length 0, the counter width 0 (panic).
---
 src/rank/jacobson.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index cd525f6..2688e3c 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -1,5 +1,7 @@
 use num_traits::PrimInt;
 
+use std::cmp::max;
+
 use bit_vec::BitVec;
 use int_vec::{IntVec, IntVector};
 use space_usage::SpaceUsage;
@@ -26,12 +28,12 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let lg2_n = lg_n * lg_n;
 
         let small_block_size  = Store::Block::nbits();
-        let small_per_large   = lg2_n.ceil_div(small_block_size);
+        let small_per_large   = max(1, lg2_n.ceil_div(small_block_size));
         let large_block_size  = small_block_size * small_per_large;
         let large_block_count = n / large_block_size as u64 + 1;
         let small_block_count = n / small_block_size as u64 + 1;
 
-        let large_meta_size   = (n + 1).ceil_lg();
+        let large_meta_size   = max(1, (n + 1).ceil_lg());
         let small_meta_size   = (large_block_size + 1).ceil_lg();
 
         let mut large_block_ranks =
-- 
2.43.0


From b80c2256a937d37cd7f383a2d8a5cf8a72148c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 02/23] fix: JacobsonRank::new counted bits past the end of the
 vector

BitVec::get_block lets the last block carry extra bits that are not part of
the vector; counting them could overflow the counter width and panic.
---
 src/rank/jacobson.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index 2688e3c..40aff50 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -54,7 +54,14 @@ impl<Store: BitVec> JacobsonRank<Store> {
             let excess_rank = current_rank - last_large_rank;
             small_block_ranks.push(excess_rank);
 
-            current_rank += bits.get_block(i).count_ones() as u64;
+            let mut block = bits.get_block(i);
+            if i + 1 == bits.block_len() {
+                // Bits past the end of the vector don’t count.
+                block = block & Store::Block::low_mask(
+                    Store::Block::last_block_bits(n));
+            }
+
+            current_rank += block.count_ones() as u64;
             small_block_index += 1;
 
             if small_block_index == small_per_large {
-- 
2.43.0


From ce650da7262ff0c906d0b62ffc77f7338a5c735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 03/23] fix: Rank9::rank1 did not panic for positions past the
 end

Positions between the limit and the end of the last word returned a rank.
---
 src/rank/rank9.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rank/rank9.rs b/src/rank/rank9.rs
index f30d225..21146a0 100644
--- a/src/rank/rank9.rs
+++ b/src/rank/rank9.rs
@@ -131,6 +131,8 @@ impl<Store: BitVec<Block = u64>> Rank9<Store> {
 
 impl<Store: BitVec<Block = u64>> BitRankSupport for Rank9<Store> {
     fn rank1(&self, position: u64) -> u64 {
+        assert!(position < self.limit(), "Rank9::rank1: out of bounds");
+
         let bb_index = (position / 512).to_usize()
                                        .expect("Rank9::rank1: index overflow");
         let word_index = (position / 64).to_usize()
-- 
2.43.0


From 4814eaa4660652ea2363c5e73cad3c03d2d93505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 04/23] fix: rank1 of primitive blocks and Broadword must panic
 out of bounds

The bounds were only checked with debug_assert!, so release builds returned
garbage where BitRankSupport documents a panic.
---
 src/broadword.rs | 2 +-
 src/rank/prim.rs | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 00b56f7..6855660 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -29,7 +29,7 @@ pub struct Broadword(pub u64);
 
 impl BitRankSupport for Broadword {
     fn rank1(&self, position: u64) -> u64 {
-        debug_assert!(position < 64);
+        assert!(position < 64, "Broadword::rank1: out of bounds");
         count_ones(self.0 & u64::low_mask(position as usize + 1)) as u64
     }
 }
diff --git a/src/rank/prim.rs b/src/rank/prim.rs
index 7d10a78..1351f85 100644
--- a/src/rank/prim.rs
+++ b/src/rank/prim.rs
@@ -19,7 +19,8 @@ macro_rules! impl_rank_support_prim {
 
         impl BitRankSupport for $t {
             fn rank1(&self, position: u64) -> u64 {
-                debug_assert!(position < Self::nbits() as u64);
+                assert!(position < Self::nbits() as u64,
+                        "prim::rank1: out of bounds");
 
                 let mask = Self::low_mask((position + 1) as usize);
                 (*self & mask).count_ones() as u64
-- 
2.43.0


From 5c57b9ccbdfea423d61a59def18d31d70cb9c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 05/23] fix: BinSearchSelect select*(u64::MAX) overflowed

It panicked in debug builds and returned Some(0) in release builds.
---
 src/select/bin_search.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/select/bin_search.rs b/src/select/bin_search.rs
index 4734f37..95bf46f 100644
--- a/src/select/bin_search.rs
+++ b/src/select/bin_search.rs
@@ -53,8 +53,10 @@ macro_rules! impl_select_support_b {
         impl<Rank: BitRankSupport>
         $select_support for BinSearchSelect<Rank> {
             fn $select(&self, index: u64) -> Option<u64> {
-                binary_search_function(0, self.limit(), index + 1,
-                                       |i| self.$rank(i))
+                index.checked_add(1).and_then(|rank| {
+                    binary_search_function(0, self.limit(), rank,
+                                           |i| self.$rank(i))
+                })
             }
         }
     }
@@ -67,8 +69,10 @@ impl<Rank: RankSupport> SelectSupport for BinSearchSelect<Rank> {
     type Over = Rank::Over;
 
     fn select(&self, index: u64, value: Rank::Over) -> Option<u64> {
-        binary_search_function(0, self.limit(), index + 1,
-                               |i| self.rank(i, value))
+        index.checked_add(1).and_then(|rank| {
+            binary_search_function(0, self.limit(), rank,
+                                   |i| self.rank(i, value))
+        })
     }
 }
 
-- 
2.43.0


From 096096c474c9f7e97778cb36e710e480a7d0cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 06/23] fix: broadword::select1 returned garbage for large r

The rank was compared bytewise, so r >= 128 wrapped around, for example
select1(200, 3) == Some(0).
---
 src/broadword.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/broadword.rs b/src/broadword.rs
index 6855660..dc55066 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -78,6 +78,9 @@ pub fn select1(r: usize, x: u64) -> Option<usize> {
 ///
 /// Uses the broadword algorithm from Vigna.
 pub fn select1_raw(r: usize, x: u64) -> usize {
+    // The byte-parallel comparisons below only work for small `r`.
+    if r >= 64 { return 72; }
+
     let r = r as u64;
     let mut s = x - ((x & 0xAAAA_AAAA_AAAA_AAAA) >> 1);
     s = (s & 0x3333_3333_3333_3333) + ((s >> 2) & 0x3333_3333_3333_3333);
-- 
2.43.0


From 043f87117653fe49d3d2a0439d4a9976f6a60ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 07/23] fix: broadword::le8 was wrong when the signed
 difference overflows

For example it said that -127 <= 5 is false.
---
 src/broadword.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index dc55066..96511fd 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -100,7 +100,7 @@ pub fn u_le8(x: u64, y: u64) -> u64 {
 
 /// Parallel ≤, treating a `u64` as a vector of 8 `i8`s.
 pub fn le8(x: u64, y: u64) -> u64 {
-    (((y | H8) - (x & !H8)) ^ x ^ y) & H8
+    u_le8(x ^ H8, y ^ H8)
 }
 
 /// Parallel >0, treating a `u64` as a vector of 8 `u8`s.
-- 
2.43.0


From bef4cb5cfb83b93f90347cc1201ea76735a68478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 08/23] fix: Comma overflows on oversize input and degenerate
 digit sizes

Decoding a number that does not fit in a u64 panicked or wrapped around
instead of reporting an error; Comma(1) never finished encoding, and Comma(0)
and Comma(64 ..) divided by zero or overflowed.
---
 src/coding/comma.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/coding/comma.rs b/src/coding/comma.rs
index c1c2552..8077119 100644
--- a/src/coding/comma.rs
+++ b/src/coding/comma.rs
@@ -8,9 +8,18 @@ pub struct Comma(pub u8);
 /// `Comma(2)` encodes in base 3.
 pub const COMMA: Comma = Comma(2);
 
+impl Comma {
+    // The number of digits; all ones is the terminator.
+    fn base(&self) -> u64 {
+        assert!(2 <= self.0 && self.0 <= 64,
+                "Comma: digits must have from 2 to 64 bits");
+        !0 >> (64 - self.0)
+    }
+}
+
 impl UniversalCode for Comma {
     fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> Result<()> {
-        let base = (1 << self.0) - 1;
+        let base = self.base();
         let mut stack: Vec<u64> = Vec::new();
 
         while value > 0 {
@@ -28,8 +37,8 @@ impl UniversalCode for Comma {
     }
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
-        let base = (1 << self.0) - 1;
-        let mut result = 0;
+        let base = self.base();
+        let mut result: u64 = 0;
         let mut consumed = false;
 
         loop {
@@ -37,7 +46,11 @@ impl UniversalCode for Comma {
                 if digit == base { return Ok(Some(result)) }
 
                 consumed = true;
-                result = result * base + digit;
+                result = match result.checked_mul(base)
+                                     .and_then(|r| r.checked_add(digit)) {
+                    Some(result) => result,
+                    None => return too_many_bits("Comma::decode"),
+                };
             } else if consumed {
                 return out_of_bits("Comma::decode");
             } else {
-- 
2.43.0


From 3be0abeeba4348992f322f978c760471337ff885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 09/23] fix: Fibonacci::decode took a truncated codeword for a
 clean EOF

A stream ending after only zeroes decoded to Ok(None).
---
 src/coding/fib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index e001101..c98b4cd 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -72,8 +72,11 @@ impl UniversalCode for Fibonacci {
         let mut result  = 0;
         let mut fib = Fib::new();
         let mut previous = false;
+        let mut consumed = false;
 
         while let Some(bit) = try!(source.read_bit()) {
+            consumed = true;
+
             if bit && previous {
                 return Ok(Some(result));
             }
@@ -86,10 +89,10 @@ impl UniversalCode for Fibonacci {
             previous = bit;
         }
 
-        if result == 0 {
-            Ok(None)
-        } else {
+        if consumed {
             out_of_bits("Fibonacci::decode")
+        } else {
+            Ok(None)
         }
     }
 }
-- 
2.43.0


From 4968778c2d6854d1aace14f82d1fe9e19f39dafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 10/23] fix: Fibonacci::decode overflowed on oversize input

With overflow checks on, a sum that does not fit in a u64 panicked.
---
 src/coding/fib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index c98b4cd..3cdea85 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -69,7 +69,7 @@ impl UniversalCode for Fibonacci {
     }
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
-        let mut result  = 0;
+        let mut result: u64 = 0;
         let mut fib = Fib::new();
         let mut previous = false;
         let mut consumed = false;
@@ -82,7 +82,10 @@ impl UniversalCode for Fibonacci {
             }
 
             if bit {
-                result += fib.i;
+                result = match result.checked_add(fib.i) {
+                    Some(result) => result,
+                    None => return too_many_bits("Fibonacci::decode"),
+                };
             }
 
             try!(fib.next());
-- 
2.43.0


From bae2658bd8e1679e30a06c3f450628e74c748d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:40 +0000
Subject: [PATCH 11/23] fix: Omega::decode shifted by too much on oversize
 input

A group longer than 64 bits overflowed instead of reporting an error.
---
 src/coding/elias.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 3b78154..5352b3d 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -79,6 +79,10 @@ impl UniversalCode for Omega {
             if let Some(bit) = try!(source.read_bit()) {
                 if !bit { return Ok(Some(result)); }
 
+                if result > WORD_BITS as u64 - 1 {
+                    return too_many_bits("Omega::decode");
+                }
+
                 if let Some(next) =
                        try!(source.read_int_be::<u64>(result as usize)) {
                     result = next | (1 << result as u32)
-- 
2.43.0


From cda76d572c4f99caf5b1eba0df02d53352b74705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 12/23] fix: Omega::encode(0) silently wrote the codeword of 1

---
 src/coding/elias.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 5352b3d..75acb3b 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -56,6 +56,8 @@ impl<Header: UniversalCode> UniversalCode for Elias<Header> {
 
 impl UniversalCode for Omega {
     fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> Result<()> {
+        assert!(value != 0, "Elias codes do not handle 0");
+
         let mut stack = Vec::<(usize, u64)>::new();
 
         while value > 1 {
-- 
2.43.0


From cf05f218b2152df1cf8cd2d2f93a79b9d531daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 13/23] fix: Lift0::decode underflowed when the lifted code
 decodes 0

No Lift0 encoder writes that, but a malformed stream can contain it.
---
 src/coding/trans.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coding/trans.rs b/src/coding/trans.rs
index 6401f08..fca53ba 100644
--- a/src/coding/trans.rs
+++ b/src/coding/trans.rs
@@ -1,3 +1,5 @@
+use std::io::{Error, ErrorKind};
+
 use super::*;
 use internal::errors::*;
 use stream::*;
@@ -19,6 +21,9 @@ impl<Code: UniversalCode> UniversalCode for Lift0<Code> {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         match self.0.decode(source) {
+            Ok(Some(0)) => Err(Error::new(
+                ErrorKind::InvalidData,
+                "Lift0::decode: lifted code decoded 0")),
             Ok(Some(n)) => Ok(Some(n - 1)),
             otherwise => otherwise,
         }
-- 
2.43.0


From 9c9d26e9df10b4869c73f17621928d7e0a255c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 14/23] fix: BitWrite::write_int_be with 0 bits and full-width
 signed integers

The mask computation underflowed for 0 bits, and for a signed type at full
width the mask was shifted arithmetically and so selected too many bits.
---
 src/stream/traits.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/stream/traits.rs b/src/stream/traits.rs
index 5f45753..074daaf 100644
--- a/src/stream/traits.rs
+++ b/src/stream/traits.rs
@@ -79,11 +79,8 @@ pub trait BitWrite {
     /// Writes the lower `nbits` of `value`, most-significant first.
     fn write_int_be<N: PrimInt>(&mut self, nbits: usize, value: N)
                                 -> Result<()> {
-        let mut mask = N::one() << nbits - 1;
-
-        for _ in 0 .. nbits {
-            try!(self.write_bit(value & mask != N::zero()));
-            mask = mask >> 1;
+        for i in (0 .. nbits).rev() {
+            try!(self.write_bit((value >> i) & N::one() != N::zero()));
         }
 
         Ok(())
-- 
2.43.0


From 2992dae45c2aabfd160b45175ad821fb2ddb78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 15/23] fix: get_bits/set_bits bounds checks of blocks could
 overflow

In release builds a span like usize::MAX .. usize::MAX + 5 wrapped around,
passed the check and returned garbage instead of panicking.
---
 src/bit_vec/prim.rs | 6 ++++--
 src/storage.rs      | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bit_vec/prim.rs b/src/bit_vec/prim.rs
index 26e7d1d..97ae353 100644
--- a/src/bit_vec/prim.rs
+++ b/src/bit_vec/prim.rs
@@ -33,7 +33,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn get_bits(&self, start: u64, count: usize) -> Self {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(start <= Self::nbits() as u64 &&
+                            count as u64 <= Self::nbits() as u64 - start,
                         "prim::get_bits: out of bounds");
                 BlockType::get_bits(*self, start as usize, count)
             }
@@ -55,7 +56,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(start <= Self::nbits() as u64 &&
+                            count as u64 <= Self::nbits() as u64 - start,
                         "prim::set_bits: out of bounds");
                 *self = self.with_bits(start as usize, count, value);
             }
diff --git a/src/storage.rs b/src/storage.rs
index d5f9cd7..5a3c570 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -178,8 +178,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn get_bits(self, start: usize, len: usize) -> Self {
-        assert!(start + len <= Self::nbits(),
-                "Block::get_bits: out of bounds");;
+        assert!(start <= Self::nbits() && len <= Self::nbits() - start,
+                "Block::get_bits: out of bounds");
 
         if len == 0 { return Self::zero(); }
 
@@ -193,7 +193,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn with_bits(self, start: usize, len: usize, value: Self) -> Self {
-        assert!(start + len <= Self::nbits(),
+        assert!(start <= Self::nbits() && len <= Self::nbits() - start,
                 "Block::with_bits: out of bounds");
 
         if len == 0 { return self; }
-- 
2.43.0


From 62f496a7dcaa5283cc4de510f475daa7f15d01ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 16/23] fix: empty bit spans at the end of a bit vector

get_bits/set_bits of 0 bits at a block-aligned end (or of an empty vector)
accessed a block out of bounds.
---
 src/bit_vec/traits.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index cf62776..1e16fb2 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -78,6 +78,8 @@ pub trait BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
+        if count == 0 { return Self::Block::zero(); }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
@@ -160,6 +162,8 @@ pub trait BitVecMut: BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
+        if count == 0 { return; }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
-- 
2.43.0


From 512870a7a8e906fbff5d373cb29c05d8074a34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 17/23] fix: default BitVecMut::set_block did not check its
 bounds

For a huge block index the bit position wrapped around and low bits were
overwritten.
---
 src/bit_vec/traits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 1e16fb2..d626177 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -138,6 +138,9 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if `position` is out of bounds.
     fn set_block(&mut self, position: usize, mut value: Self::Block) {
+        assert!(position < self.block_len(),
+                "BitVecMut::set_block: out of bounds");
+
         let limit = if position + 1 == self.block_len() {
             Self::Block::last_block_bits(self.bit_len())
         } else {
-- 
2.43.0


From 80674e3c8dabfa3165eabcce6f09d8f9ef7f5f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 18/23] fix: BitSlice get_block/set_block on partial and
 out-of-bounds blocks

The last block of a slice whose length is not a multiple of the block size
panicked, and a huge block index wrapped around to the start of the slice.
---
 src/bit_vec/bit_slice.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index 5f84118..c0eb208 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use std::ops::{Range, RangeTo, RangeFrom, RangeFull};
 
 use bit_vec::traits::*;
@@ -108,7 +109,11 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitVec for BitSlice<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        assert!(position < self.block_len(),
+                "BitSlice::get_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = cmp::min(self.len - start, Self::Block::nbits() as u64);
+        self.get_bits(start, count as usize)
     }
 }
 
@@ -134,7 +139,11 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVec for BitSliceMut<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        assert!(position < self.block_len(),
+                "BitSlice::get_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = cmp::min(self.len - start, Self::Block::nbits() as u64);
+        self.get_bits(start, count as usize)
     }
 }
 
@@ -153,8 +162,11 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVecMut for BitSliceMut<'a, Base> {
     }
 
     fn set_block(&mut self, position: usize, value: Self::Block) {
-        self.set_bits(Self::Block::mul_nbits(position),
-                      Self::Block::nbits(), value);
+        assert!(position < self.block_len(),
+                "BitSlice::set_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = cmp::min(self.len - start, Self::Block::nbits() as u64);
+        self.set_bits(start, count as usize, value);
     }
 }
 
-- 
2.43.0


From c8888acb1dc23f015944497e1807fb64db38816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 19/23] fix: rounding-up divisions overflowed near the maximum

In release builds sizes near u64::MAX bits silently became 0 blocks, so that
for example BitVector::with_fill(u64::MAX, _) was empty.
---
 src/storage.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 5a3c570..0b11379 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -57,7 +57,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// size, which is why it takes `u64` and returns `usize`.
     #[inline]
     fn ceil_div_nbits(index: u64) -> usize {
-        Self::div_nbits(index + (Self::nbits() as u64 - 1))
+        Self::div_nbits(index) + (Self::mod_nbits(index) != 0) as usize
     }
 
     /// Returns `index / Self::nbits()` rounded up, computed by shifting.
@@ -69,7 +69,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// be small enough.
     #[inline]
     fn checked_ceil_div_nbits(index: u64) -> Option<usize> {
-        Self::checked_div_nbits(index + (Self::nbits() as u64 - 1))
+        let extra = (Self::mod_nbits(index) != 0) as usize;
+        Self::checked_div_nbits(index).and_then(|n| n.checked_add(extra))
     }
 
     /// Returns `index % Self::nbits()`, computed by masking.
@@ -223,7 +224,12 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Returns the smallest number `n` such that `n * divisor >= self`.
     #[inline]
     fn ceil_div(self, divisor: Self) -> Self {
-        (self + divisor - Self::one()) / divisor
+        let quotient = self / divisor;
+        if self % divisor == Self::zero() {
+            quotient
+        } else {
+            quotient + Self::one()
+        }
     }
 
     // I/O methods
-- 
2.43.0


From 51a3f05098cd75b2f9b361856f0e0601e0cd5a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 20/23] fix: reserve and reserve_exact could reserve too little

The number of blocks already allocated was subtracted, but Vec::reserve counts
from the number of blocks in use.
---
 src/internal/vector_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index f6a121d..47fe793 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -284,7 +284,7 @@ impl<Block: BlockType> VectorBase<Block> {
                 .and_then(|e| e.checked_mul(element_bits as u64))
                 .and_then(Block::checked_ceil_div_nbits)
                 .expect("VectorBase::reserve_(exact): overflow")
-                .saturating_sub(self.vec.capacity())
+                .saturating_sub(self.vec.len())
     }
 
     #[inline]
-- 
2.43.0


From f1ab020fa26110fd394db744d710a01f6e006ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 21/23] fix: Iter::nth past the end broke the remaining length

The start passed the limit, so that len, size_hint and count underflowed.
---
 src/internal/vector_base.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 47fe793..cc89201 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -1,5 +1,7 @@
 #![allow(dead_code)]
 
+use std::cmp;
+
 #[cfg(target_pointer_width = "32")]
 use num_traits::ToPrimitive;
 
@@ -390,7 +392,7 @@ impl<'a, Block: BlockType> Iterator for Iter<'a, Block> {
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start = self.start.checked_add(n as u64).unwrap_or(self.limit);
+        self.start = cmp::min(self.start.saturating_add(n as u64), self.limit);
         self.next()
     }
 }
-- 
2.43.0


From 1e3c80881e71fb5d2c8f71588f58b7bc9191b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 22/23] fix: provided get_bits/set_bits accepted spans whose
 end wraps around

---
 src/bit_vec/traits.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index d626177..3c04e47 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -75,7 +75,8 @@ pub trait BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn get_bits(&self, start: u64, count: usize) -> Self::Block {
-        let limit = start + count as u64;
+        let limit = start.checked_add(count as u64)
+                         .expect("BitVec::get_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
         if count == 0 { return Self::Block::zero(); }
@@ -162,7 +163,8 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-        let limit = start + count as u64;
+        let limit = start.checked_add(count as u64)
+                         .expect("BitVecMut::set_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
         if count == 0 { return; }
-- 
2.43.0


From ecc48c3a8e0df9210db22600a77184779ecccbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:34 +0000
Subject: [PATCH 23/23] fix: inverted ranges gave empty slices starting outside
 their base

---
 src/bit_vec/bit_slice.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index c0eb208..dd77569 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -28,7 +28,7 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitSlice<'a, Base> {
         assert!(range.end <= base.bit_len(), "BitSlice::new: out of bounds");
         BitSlice {
             data: base,
-            start: range.start,
+            start: cmp::min(range.start, range.end),
             len: range.end.saturating_sub(range.start),
         }
     }
@@ -42,7 +42,7 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitSlice<'a, Base> {
         assert!(range.end <= self.len, "BitSlice::slice: out of bounds");
         BitSlice {
             data: self.data,
-            start: self.start + range.start,
+            start: self.start + cmp::min(range.start, range.end),
             len: range.end.saturating_sub(range.start),
         }
     }
@@ -55,7 +55,7 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitSliceMut<'a, Base> {
         assert!(range.end <= base.bit_len(), "BitSlice::new: out of bounds");
         BitSliceMut {
             data: base,
-            start: range.start,
+            start: cmp::min(range.start, range.end),
             len: range.end.saturating_sub(range.start),
         }
     }
@@ -70,7 +70,7 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitSliceMut<'a, Base> {
         assert!(range.end <= self.len, "BitSlice::slice: out of bounds");
         BitSliceMut {
             data: self.data,
-            start: self.start + range.start,
+            start: self.start + cmp::min(range.start, range.end),
             len: range.end.saturating_sub(range.start),
         }
     }
@@ -81,7 +81,7 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitSliceMut<'a, Base> {
         assert!(range.end <= self.len, "BitSlice::slice: out of bounds");
         BitSlice {
             data: self.data,
-            start: self.start + range.start,
+            start: self.start + cmp::min(range.start, range.end),
             len: range.end.saturating_sub(range.start),
         }
     }
-- 
2.43.0

