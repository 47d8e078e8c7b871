//! JacobsonRank answers every rank query exactly.
use crate::model::*;
use crate::nd;
use crate::oracle::Arr;
use succinct::rank::{BitRankSupport, JacobsonRank, RankSupport};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

/// Every rank1 query on a vector of exactly `len` bits.
#[inline(always)]
fn exact<B: Blk, const N: usize>(len: u64) {
    let v = Arr::<B, N>::any(len);
    let r = JacobsonRank::new(v);
    check!(r.limit() == len, "limit");
    if len > 0 {
        let p = nd::u64();
        nd::assume(p < len);
        check!(r.rank1(p) == v.ones_to(p), "rank1");
    }
}

/// The other queries agree with rank1.
#[inline(always)]
fn kinds<B: Blk, const N: usize>(len: u64) {
    let v = Arr::<B, N>::any(len);
    let r = JacobsonRank::new(v);
    let p = nd::u64();
    nd::assume(p < len);
    let e = r.rank1(p);
    match nd::upto8(2) {
        0 => check!(r.rank0(p) == p + 1 - e, "rank0"),
        1 => check!(r.rank(p, true) == e, "rank of true"),
        _ => check!(r.rank(p, false) == p + 1 - e, "rank of false"),
    }
}

/// rank1 queries on a vector of `len` bits, all ones except the listed blocks, which
/// are arbitrary.
#[inline(always)]
fn dense<B: Blk, const N: usize>(len: u64, free: &[usize]) {
    let mut v = Arr { a: [B::of(!0); N], len };
    let mut i = 0;
    while i < free.len() { v.a[free[i]] = B::nd(); i += 1; }
    let r = JacobsonRank::new(v);
    let p = nd::u64();
    nd::assume(p < len);
    check!(r.rank1(p) == v.ones_to(p), "rank1");
}

harnesses! {
    holds l0(12) "u8 blocks, length 0" { exact::<u8, 1>(0) }
    holds l1(12) "u8 blocks, length 1" { exact::<u8, 1>(1) }
    holds l2(12) "u8 blocks, length 2" { exact::<u8, 1>(2) }
    holds l8(12) "u8 blocks, length 8" { exact::<u8, 1>(8) }
    holds l17(12) "u8 blocks, length 17" { exact::<u8, 3>(17) }
    holds l33(12) "u8 blocks, length 33" { exact::<u8, 5>(33) }
    holds l63(14) "u8 blocks, length 63 (large blocks of 40 bits)" { exact::<u8, 8>(63) }
    holds l64(14) "u8 blocks, length 64" { exact::<u8, 8>(64) }
    holds l65(14) "u8 blocks, length 65 (large blocks of 56 bits)" { exact::<u8, 9>(65) }
    holds l112(20) "u8 blocks, length 112: two full large blocks" { exact::<u8, 14>(112) }
    holds w16(14) "u16 blocks, length 100" { exact::<u16, 7>(100) }
    holds w32(14) "u32 blocks, length 130" { exact::<u32, 5>(130) }
    holds w64(14) "u64 blocks, length 130" { exact::<u64, 3>(130) }
    holds long8(50) "u8 blocks, length 300 (large blocks of 88 bits), blocks 0, 10, 11, 21, 37 arbitrary, the others all ones [heap 128]" {
        dense::<u8, 38>(300, &[0, 10, 11, 21, 37])
    }
    holds long64(30) "u64 blocks, length 1100 (large blocks of 128 bits), words 1, 2, 16, 17 arbitrary, the others all ones [heap 128]" {
        dense::<u64, 18>(1100, &[1, 2, 16, 17])
    }
    holds_t longer64(80) "u64 blocks, length 4300 (large blocks of 192 bits), words 0, 2, 3, 33, 66, 67 arbitrary, the others all ones [heap 256]" {
        dense::<u64, 68>(4300, &[0, 2, 3, 33, 66, 67])
    }
    holds kinds45(14) "u8 blocks, length 45" { kinds::<u8, 6>(45) }
    holds kinds100(14) "u64 blocks, length 100" { kinds::<u64, 2>(100) }
    holds bitvector(14) "BitVector<u8>, length 45" {
        let (v, m) = bv_of_len::<u8>(45);
        let r = JacobsonRank::new(v);
        let p = nd::upto8(44) as u64;
        let e = (m.bits & ones(p + 1)).count_ones() as u64;
        check!(r.rank1(p) == e && r.limit() == 45, "rank");
    }
}
