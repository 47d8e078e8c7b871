//! The provided methods of the bit-vector traits, for implementors with only the
//! required ones.
use crate::model::*;
use crate::nd;
use crate::oracle::Win;
use std::marker::PhantomData;
use succinct::{BitVec, BitVecMut, BitVecPush};

/// A vector of single bits: bit `p` is `x`, all others are `rest`. `p` can be any, so
/// what holds for it holds for all bits.
struct Bits<B> { p: u64, x: bool, rest: bool, len: u64, of: PhantomData<B> }

impl<B: Blk> Bits<B> {
    fn any() -> Self {
        Bits { p: nd::u64(), x: nd::bool(), rest: nd::bool(), len: nd::u64(), of: PhantomData }
    }
}

impl<B: Blk> BitVec for Bits<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.len }
    fn get_bit(&self, i: u64) -> bool {
        check!(i < self.len, "only bits that exist are read");
        if i == self.p { self.x } else { self.rest }
    }
}

impl<B: Blk> BitVecMut for Bits<B> {
    fn set_bit(&mut self, i: u64, x: bool) {
        check!(i < self.len, "only bits that exist are written");
        if i == self.p { self.x = x }
    }
}

impl<B: Blk> BitVecPush for Bits<B> {
    fn push_bit(&mut self, x: bool) {
        assert!(self.len < !0);
        if self.len == self.p { self.x = x }
        self.len += 1;
    }
    fn pop_bit(&mut self) -> Option<bool> { panic!("VERIF: nothing has to be popped") }
}

/// Bit `i` of `b`.
fn bit<B: Blk>(b: B, i: u64) -> bool { b.w() as u64 >> i & 1 == 1 }

/// Any block of a vector of any length.
fn at_block<B: Blk>() -> (Bits<B>, u64) {
    let (v, j) = (Bits::any(), nd::u64());
    nd::assume(j < v.len / B::W + (v.len % B::W != 0) as u64);
    (v, j)
}

/// Any span of a vector of any length: the vector, the first bit, the width.
fn at_span<B: Blk>() -> (Bits<B>, u64, u64) {
    let (v, i, n) = (Bits::<B>::any(), nd::u64(), nd::upto8(B::W as u8) as u64);
    nd::assume(i <= v.len && n <= v.len - i);
    (v, i, n)
}

#[inline(always)]
fn read_block<B: Blk>() {
    let (v, j) = at_block::<B>();
    check!(v.block_len() as u64 == v.len / B::W + (v.len % B::W != 0) as u64, "length in blocks");
    nd::assume(v.p < v.len && v.p / B::W == j);
    check!(bit(v.get_block(j as usize), v.p % B::W) == v.x, "the block's bits");
}

#[inline(always)]
fn write_block<B: Blk>() {
    let (mut v, j) = at_block::<B>();
    let (x, old) = (B::nd(), v.x);
    v.set_block(j as usize, x);
    check!(v.x == if v.p < v.len && v.p / B::W == j { bit(x, v.p % B::W) } else { old }, "exactly the block's bits are set");
}

#[inline(always)]
fn read_span<B: Blk>() {
    let (v, i, n) = at_span::<B>();
    let r = v.get_bits(i, n as usize);
    check!(r.w() & !ones(n) == 0, "nothing above the span's bits");
    nd::assume(v.p >= i && v.p - i < n);
    check!(bit(r, v.p - i) == v.x, "the span's bits");
}

#[inline(always)]
fn write_span<B: Blk>() {
    let (mut v, i, n) = at_span::<B>();
    let (x, old) = (B::nd(), v.x);
    v.set_bits(i, n as usize, x);
    check!(v.x == if v.p >= i && v.p - i < n { bit(x, v.p - i) } else { old }, "exactly the span's bits are set");
}

#[inline(always)]
fn align<B: Blk>() {
    let (mut v, b) = (Bits::<B>::any(), nd::bool());
    let (len, old) = (v.len, v.x);
    let end = len / B::W + (len % B::W != 0) as u64;
    nd::assume(end <= !0 / B::W);
    v.align_block(b);
    check!(v.len == end * B::W, "the length is the next multiple of the block width");
    check!(v.x == if v.p >= len && v.p < v.len { b } else { old }, "padded with the given bit");
}

#[inline(always)]
fn push<B: Blk>() {
    let (mut v, x) = (Bits::<B>::any(), B::nd());
    let (len, old) = (v.len, v.x);
    let end = len / B::W + (len % B::W != 0) as u64;
    nd::assume(end < !0 / B::W);
    v.push_block(x);
    check!(v.len == (end + 1) * B::W, "one block after the padding");
    check!(v.x == if v.p < len || v.p >= v.len { old }
                  else if v.p < end * B::W { false }
                  else { bit(x, v.p % B::W) },
           "padded with zeros, then the block, its lowest bit first");
}

/// Two tracked blocks anywhere in a vector of any length; what is behind the end stays
/// as it is.
fn blocks<B: Blk>() -> Win<B> {
    let (at, len) = (nd::u64(), nd::u64());
    let blocks = len / B::W + (len % B::W != 0) as u64;
    nd::assume(blocks > 1 && at < blocks - 1);
    Win { at, a: B::nd(), b: B::nd(), len, outside: false }
}

#[inline(always)]
fn of_blocks<B: Blk>() {
    let mut v = blocks::<B>();
    let mut m = v.seq();
    let o = nd::u8() as u64;
    nd::assume(o < 2 * B::W && o < v.len - v.at * B::W);
    let i = v.at * B::W + o;
    let rest = if v.len - i < 2 * B::W - o { v.len - i } else { 2 * B::W - o };
    let n = nd::upto8(B::W as u8) as u64;
    match nd::upto8(3) {
        0 => check!(v.get_bit(i) == m.bit(o), "get_bit"),
        1 => { let b = nd::bool(); v.set_bit(i, b); m.set(o, 1, b as u128); }
        2 => { nd::assume(n <= rest); check!(v.get_bits(i, n as usize).w() == m.get(o, n), "get_bits"); }
        _ => { nd::assume(n <= rest); let x = B::nd(); v.set_bits(i, n as usize, x); m.set(o, n, x.w()); }
    }
    check!(v.seq() == m && !v.outside, "exactly the addressed bits have changed");
}

#[inline(always)]
fn of_blocks_push<B: Blk>() {
    // One block and the next; the vector ends in the first.
    let (at, n, x, b) = (nd::u64(), nd::upto8(B::W as u8 - 1) as u64, B::nd(), nd::bool());
    nd::assume(at < !0 / B::W - 3);
    let a = B::nd();
    nd::assume(a.w() & !ones(n) == 0);
    let mut v = Win { at, a, b: B::zero(), len: at * B::W + n, outside: false };
    let mut m = Seq { bits: a.w(), len: n };
    if nd::bool() {
        v.align_block(b);
        let pad = (B::W - n) % B::W;
        m.push(pad, if b { !0 } else { 0 });
    } else {
        v.push_block(x);
        let pad = (B::W - n) % B::W;
        m.push(pad, 0);
        m.push(B::W, x.w());
    }
    check!(v.len == at * B::W + m.len, "the length");
    check!(v.seq().bits == m.bits && !v.outside, "the bits");
}

harnesses! {
    holds block_u8(10) "u8, single bits, any block of any length" { read_block::<u8>() }
    holds block_u16(18) "u16, single bits, any block of any length" { read_block::<u16>() }
    holds block_u32(34) "u32, single bits, any block of any length" { read_block::<u32>() }
    holds block_u64(66) "u64, single bits, any block of any length" { read_block::<u64>() }
    holds block_usize(66) "usize, single bits, any block of any length" { read_block::<usize>() }
    holds set_block_u8(10) "u8, single bits, any block of any length" { write_block::<u8>() }
    holds set_block_u16(18) "u16, single bits, any block of any length" { write_block::<u16>() }
    holds set_block_u32(34) "u32, single bits, any block of any length" { write_block::<u32>() }
    holds set_block_u64(66) "u64, single bits, any block of any length" { write_block::<u64>() }
    holds span_u8(10) "u8, single bits, any span of any length" { read_span::<u8>() }
    holds span_u16(18) "u16, single bits, any span of any length" { read_span::<u16>() }
    holds span_u32(34) "u32, single bits, any span of any length" { read_span::<u32>() }
    holds_t span_u64(66) "u64, single bits, any span of any length" { read_span::<u64>() }
    holds set_span_u8(10) "u8, single bits, any span of any length" { write_span::<u8>() }
    holds_t set_span_u16(18) "u16, single bits, any span of any length" { write_span::<u16>() }
    holds_t set_span_u32(34) "u32, single bits, any span of any length" { write_span::<u32>() }
    holds_t set_span_u64(66) "u64, single bits, any span of any length" { write_span::<u64>() }
    holds align_u8(10) "u8, single bits, any length with room for the blocks" { align::<u8>() }
    holds align_u16(18) "u16, single bits, any length with room for the blocks" { align::<u16>() }
    holds align_u32(34) "u32, single bits, any length with room for the blocks" { align::<u32>() }
    holds align_u64(66) "u64, single bits, any length with room for the blocks" { align::<u64>() }
    holds push_u8(10) "u8, single bits, any length with room for the blocks" { push::<u8>() }
    holds push_u16(18) "u16, single bits, any length with room for the blocks" { push::<u16>() }
    holds push_u32(34) "u32, single bits, any length with room for the blocks" { push::<u32>() }
    holds_t push_u64(66) "u64, single bits, any length with room for the blocks" { push::<u64>() }
    holds blocks_u8(4) "u8, whole blocks, any bit or span of any length" { of_blocks::<u8>() }
    holds blocks_u16(4) "u16, whole blocks, any bit or span of any length" { of_blocks::<u16>() }
    holds blocks_u32(4) "u32, whole blocks, any bit or span of any length" { of_blocks::<u32>() }
    holds blocks_u64(4) "u64, whole blocks, any bit or span of any length" { of_blocks::<u64>() }
    holds blocks_push_u16(18) "u16, whole blocks, any length with room for the blocks" { of_blocks_push::<u16>() }
    holds blocks_push_u8(10) "u8, whole blocks, any length with room for the blocks" { of_blocks_push::<u8>() }
    holds_t blocks_push_u64(66) "u64, whole blocks, any length with room for the blocks" { of_blocks_push::<u64>() }
}
