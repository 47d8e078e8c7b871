//! Rank9 answers every rank query exactly.
use crate::model::*;
use crate::nd;
use crate::oracle::Arr;
use succinct::rank::{BitRankSupport, Rank9, RankSupport};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

/// Every rank1 query on `v` at positions in `lo .. hi`.
#[inline(always)]
fn exact<const N: usize>(v: Arr<u64, N>, lo: u64, hi: u64) {
    let r = Rank9::new(v);
    check!(r.limit() == v.len, "limit");
    if lo < hi {
        let p = nd::u64();
        nd::assume(lo <= p && p < hi);
        let e = v.ones_to(p);
        check!(r.rank1(p) == e, "rank1");
    }
}

/// The other queries agree with rank1.
#[inline(always)]
fn kinds<const N: usize>(v: Arr<u64, N>) {
    let r = Rank9::new(v);
    let p = nd::u64();
    nd::assume(p < v.len);
    let e = r.rank1(p);
    match nd::upto8(2) {
        0 => check!(r.rank0(p) == p + 1 - e, "rank0"),
        1 => check!(r.rank(p, true) == e, "rank of true"),
        _ => check!(r.rank(p, false) == p + 1 - e, "rank of false"),
    }
}

/// `N` words, all ones except the listed ones, which are arbitrary.
#[inline(always)]
fn dense<const N: usize>(len: u64, free: &[usize]) -> Arr<u64, N> {
    let mut v = Arr { a: [!0; N], len };
    let mut i = 0;
    while i < free.len() { v.a[free[i]] = nd::u64(); i += 1; }
    v
}

harnesses! {
    holds l0(12) "length 0" { exact(Arr::<u64, 1>::any(0), 0, 0) }
    holds l1(12) "length 1" { exact(Arr::<u64, 1>::any(1), 0, 1) }
    holds l64(12) "length 64" { exact(Arr::<u64, 1>::any(64), 0, 64) }
    holds l65(12) "length 65" { exact(Arr::<u64, 2>::any(65), 0, 65) }
    holds l330(12) "330 bits, arbitrary contents" { exact(Arr::<u64, 6>::any(330), 0, 330) }
    holds l512(12) "512 bits, arbitrary contents" { exact(Arr::<u64, 8>::any(512), 0, 512) }
    holds l620(12) "620 bits, arbitrary contents" { exact(Arr::<u64, 10>::any(620), 0, 620) }
    holds block(12) "512 bits, words 0, 3, 7 arbitrary, the others all ones" {
        exact(dense::<8>(512, &[0, 3, 7]), 0, 512)
    }
    holds two(22) "1100 bits, words 1, 7, 8, 14, 16 arbitrary, the others all ones" {
        exact(dense::<18>(1100, &[1, 7, 8, 14, 16]), 0, 1100)
    }
    holds full(40) "2100 bits, words 24, 31, 32 arbitrary, the others all ones [heap 1024]" {
        exact(dense::<33>(2100, &[24, 31, 32]), 0, 2100)
    }
    holds kinds130(12) "130 bits, arbitrary contents" { kinds(Arr::<u64, 3>::any(130)) }
    holds_t any17(22) "1080 bits, arbitrary contents" { exact(Arr::<u64, 17>::any(1080), 0, 1080) }
    holds bitvector(12) "BitVector<u64>, length 100" {
        let (v, m) = bv_of_len::<u64>(100);
        let r = Rank9::new(v);
        let p = nd::upto8(99) as u64;
        let e = (m.bits & ones(p + 1)).count_ones() as u64;
        check!(r.rank1(p) == e && r.limit() == 100, "rank");
    }
}
