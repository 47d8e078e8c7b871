//! Wrappers are transparent views of what they wrap.
use crate::model::*;
use crate::nd;
use crate::oracle::{Arr, Win};
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::BinSearchSelect;
use succinct::stream::BitBuffer;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

/// One access, anywhere: `x` reads as `y` does.
#[inline(always)]
fn same<X: BitVec, Y: BitVec<Block = X::Block>>(x: &X, y: &Y) where X::Block: Blk {
    let w = X::Block::W;
    check!(x.bit_len() == y.bit_len(), "length");
    check!(x.block_len() == y.block_len(), "length in blocks");
    match nd::upto8(2) {
        0 => {
            let i = nd::u64();
            nd::assume(i < y.bit_len());
            check!(x.get_bit(i) == y.get_bit(i), "get_bit");
        }
        1 => {
            let j = nd::usize();
            nd::assume(j < y.block_len());
            check!(x.get_block(j) == y.get_block(j), "get_block");
        }
        _ => {
            let (i, n) = (nd::u64(), nd::upto8(w as u8) as u64);
            nd::assume(i <= y.bit_len() && n <= y.bit_len() - i);
            check!(x.get_bits(i, n as usize) == y.get_bits(i, n as usize), "get_bits");
        }
    }
}

/// `x` and `y` are the same vector.
fn identical<B: Blk, const N: usize>(x: &Arr<B, N>, y: &Arr<B, N>) -> bool {
    let j = nd::u8() as usize;
    nd::assume(j < N);
    x.len == y.len && x.a[j] == y.a[j]
}

/// A bit vector whose every method answers for itself, with a rank structure whose
/// answers are arbitrary.
struct Odd { a: u64, b: u8, len: u64 }

impl BitVec for Odd {
    type Block = u8;
    fn bit_len(&self) -> u64 { self.len }
    fn block_len(&self) -> usize { (self.len / 8 + (self.len % 8 != 0) as u64) as usize }
    fn get_bit(&self, i: u64) -> bool { (i ^ self.a) & 4 != 0 }
    fn get_block(&self, i: usize) -> u8 { i as u8 ^ self.b }
    fn get_bits(&self, i: u64, n: usize) -> u8 { i as u8 ^ (n as u8) << 4 ^ self.a as u8 }
}

impl RankSupport for Odd {
    type Over = u8;
    fn rank(&self, i: u64, v: u8) -> u64 { i ^ self.a ^ (v as u64) << 56 }
    fn limit(&self) -> u64 { self.a }
}

struct OddBits(u64);

impl RankSupport for OddBits {
    type Over = bool;
    fn rank(&self, i: u64, v: bool) -> u64 { self.0 ^ i ^ (v as u64) << 60 }
    fn limit(&self) -> u64 { self.0 }
}

impl BitRankSupport for OddBits {
    fn rank1(&self, i: u64) -> u64 { !self.0 ^ i }
    fn rank0(&self, i: u64) -> u64 { self.0 ^ i ^ 99 }
}

fn odd() -> Odd { Odd { a: nd::u64(), b: nd::u8(), len: nd::u64() } }

/// Every write through `x` does to it what it does directly.
#[inline(always)]
fn writes<B: Blk>(v: Win<B>, append: bool) {
    let mut y = Win { at: v.at, a: v.a, b: v.b, len: v.len, outside: v.outside };
    let pos = if append { v.len } else { 0 };
    let mut x = if append { BitBuffer::append(v) } else { BitBuffer::from(v) };
    let b = B::nd();
    let i = nd::u64();
    match nd::upto8(2) {
        0 => {
            nd::assume(i < y.len);
            x.set_bit(i, b.w() & 1 == 1);
            y.set_bit(i, b.w() & 1 == 1);
        }
        1 => {
            nd::assume(i < y.len / B::W + (y.len % B::W != 0) as u64);
            x.set_block(i as usize, b);
            y.set_block(i as usize, b);
        }
        _ => {
            let n = nd::upto8(B::W as u8) as u64;
            nd::assume(i <= y.len && n <= y.len - i);
            x.set_bits(i, n as usize, b);
            y.set_bits(i, n as usize, b);
        }
    }
    check!(x.position() == pos, "the cursor has not moved");
    let z = x.into_inner();
    check!(z.a == y.a && z.b == y.b && z.outside == y.outside && z.len == y.len,
           "a write through the buffer is a direct write");
}

#[inline(always)]
fn jacobson<B: Blk, const N: usize>(len: u64) {
    let v = Arr::<B, N>::any(len);
    let r = JacobsonRank::new(v);
    same(&r, &v);
    check!(identical(r.inner(), &v), "inner");
    check!(identical(&r.into_inner(), &v), "into_inner");
}

#[inline(always)]
fn rank9<const N: usize>(len: u64) {
    let v = Arr::<u64, N>::any(len);
    let r = Rank9::new(v);
    same(&r, &v);
    check!(identical(r.inner(), &v), "inner");
    check!(identical(&r.into_inner(), &v), "into_inner");
}

harnesses! {
    holds jacobson0(12) "JacobsonRank, u8 blocks, empty" { jacobson::<u8, 1>(0) }
    holds jacobson8(12) "JacobsonRank, u8 blocks, 29 bits" { jacobson::<u8, 4>(29) }
    holds jacobson64(12) "JacobsonRank, u64 blocks, 100 bits" { jacobson::<u64, 2>(100) }
    holds rank9_0(12) "Rank9, empty" { rank9::<1>(0) }
    holds rank9_100(12) "Rank9, 100 bits" { rank9::<2>(100) }
    holds rank9_600(12) "Rank9, 600 bits" { rank9::<10>(600) }
    holds select(12) "BinSearchSelect over a structure with arbitrary answers, all u64" {
        let o = odd();
        let (a, b, len) = (o.a, o.b, o.len);
        let o2 = Odd { a, b, len };
        let s = BinSearchSelect::new(o);
        same(&s, &o2);
        let (i, v) = (nd::u64(), nd::u8());
        check!(s.rank(i, v) == o2.rank(i, v), "rank");
        check!(s.limit() == a, "limit");
        check!(s.inner().a == a && s.inner().b == b && s.inner().len == len, "inner");
        let z = s.into_inner();
        check!(z.a == a && z.b == b && z.len == len, "into_inner");
    }
    holds select_bits(12) "BinSearchSelect over a bit rank structure with arbitrary answers, all u64" {
        let a = nd::u64();
        let s = BinSearchSelect::new(OddBits(a));
        let (i, v) = (nd::u64(), nd::bool());
        check!(s.rank(i, v) == OddBits(a).rank(i, v), "rank");
        check!(s.rank1(i) == OddBits(a).rank1(i), "rank1");
        check!(s.rank0(i) == OddBits(a).rank0(i), "rank0");
        check!(s.limit() == a, "limit");
        check!(s.inner().0 == a, "inner");
    }
    holds select_rank(12) "BinSearchSelect over JacobsonRank and Rank9, 70 bits" {
        if nd::bool() {
            let v = Arr::<u16, 5>::any(70);
            let s = BinSearchSelect::new(JacobsonRank::new(v));
            same(&s, &v);
            check!(identical(&s.into_inner().into_inner(), &v), "into_inner");
        } else {
            let v = Arr::<u64, 2>::any(70);
            let s = BinSearchSelect::new(Rank9::new(v));
            same(&s, &v);
            check!(identical(&s.into_inner().into_inner(), &v), "into_inner");
        }
    }
    holds buffer(12) "BitBuffer of a vector of 2^64-64 bits, u64 blocks, any cursor" {
        let v = Win::<u64>::any();
        let y = Win { at: v.at, a: v.a, b: v.b, len: v.len, outside: false };
        let mut x = if nd::bool() { BitBuffer::from(v) } else { BitBuffer::append(v) };
        let p = nd::u64();
        check!(x.seek(p).is_ok() == (p <= y.len), "seek");
        same(&x, &y);
        check!(x.inner().a == y.a && x.inner().at == y.at && x.inner().len == y.len, "inner");
        let z = x.into_inner();
        check!(z.a == y.a && z.b == y.b && z.at == y.at && z.len == y.len && !z.outside, "into_inner");
    }
    holds buffer8(12) "BitBuffer of BitVector<u8>, length <= 16" {
        let (v, m) = any_bv::<u8>(2);
        let x = BitBuffer::from(v);
        check!(agrees(&x, &m), "reads as the vector does");
        check!(agrees(x.inner(), &m), "inner");
        check!(agrees(&x.into_inner(), &m), "into_inner");
    }
    holds write64(12) "writes through a BitBuffer of a vector of 2^64-64 bits, u64 blocks" { writes::<u64>(Win::any(), nd::bool()) }
    holds write8(12) "writes through a BitBuffer of a vector of any length, u8 blocks" {
        let mut v = Win::<u8>::any();
        let l = nd::u64();
        nd::assume(l <= v.len);
        v.len = l;
        writes(v, nd::bool());
    }
}
