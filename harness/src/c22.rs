//! Block addressing arithmetic is exact.
use crate::model::*;
use crate::nd;
use num_traits::PrimInt;
use succinct::storage::{Address, BlockType};

/// Every index: the division by the width, in all its forms.
#[inline(always)]
fn index<B: Blk>() {
    let i = nd::u64();
    let w = B::W;
    let up = (i as u128 + w as u128 - 1) / w as u128;
    match nd::upto8(7) {
        0 => check!(B::div_nbits(i) as u64 == i / w, "div_nbits"),
        1 => check!(B::mod_nbits(i) as u64 == i % w, "mod_nbits"),
        2 => check!(B::checked_div_nbits(i) == Some((i / w) as usize), "checked_div_nbits"),
        3 => check!(B::ceil_div_nbits(i) as u128 == up, "ceil_div_nbits"),
        4 => check!(B::checked_ceil_div_nbits(i) == Some(up as usize), "checked_ceil_div_nbits"),
        5 => {
            nd::assume(i <= !0 / w);
            check!(B::mul_nbits(i as usize) == i * w, "mul_nbits");
        }
        6 => {
            let l = if i % w == 0 { w } else { i % w };
            check!(B::last_block_bits(i) as u64 == l, "last_block_bits");
        }
        _ => {
            check!(B::nbits() as u64 == w, "nbits");
            check!(1u64 << B::lg_nbits() == w, "lg_nbits");
            check!(B::lg_nbits_mask::<u64>() == w - 1, "lg_nbits_mask");
            check!(B::lg_nbits_mask::<u8>() as u64 == w - 1, "lg_nbits_mask");
        }
    }
}

/// Every index, and every address.
#[inline(always)]
fn address<B: Blk>() {
    let (i, o, w) = (nd::u64(), nd::upto8(63) as usize, B::W);
    if nd::bool() {
        let a = Address::new::<B>(i);
        check!(a.block_index as u64 == i / w, "block_index");
        check!(a.bit_offset as u64 == i % w, "bit_offset");
        check!(a.bit_index::<B>() == i, "bit_index of the address of an index");
    } else {
        nd::assume((o as u64) < w && i <= !0 / w);
        let a = Address { block_index: i as usize, bit_offset: o };
        check!(a.bit_index::<B>() == i * w + o as u64, "bit_index");
        let b = Address::new::<B>(a.bit_index::<B>());
        check!(a == b, "address of its bit_index");
    }
}

/// Every value.
#[inline(always)]
fn logs<B: Blk>() {
    let x = B::nd();
    nd::assume(x.w() > 0);
    if nd::bool() {
        let f = x.floor_lg() as u64;
        check!(f < B::W, "floor_lg");
        check!(shl(1, f) <= x.w() && x.w() < shl(1, f + 1), "floor_lg");
    } else {
        let c = x.ceil_lg() as u64;
        check!(c <= B::W, "ceil_lg");
        check!(x.w() <= shl(1, c), "ceil_lg");
        check!(c == 0 || x.w() > shl(1, c - 1), "ceil_lg is the smallest");
    }
}

/// Any operands.
#[inline(always)]
fn ceil_div<B: Blk>(n: B, d: B) {
    nd::assume(d.w() > 0);
    let q = n.ceil_div(d);
    check!(q.w() * d.w() >= n.w(), "ceil_div is enough");
    check!(q.w() == 0 || (q.w() - 1) * d.w() < n.w(), "ceil_div is the smallest");
}

harnesses! {
    holds index_u8(10) "u8 blocks, every 64-bit index" { index::<u8>() }
    holds index_u16(18) "u16 blocks, every 64-bit index" { index::<u16>() }
    holds index_u32(34) "u32 blocks, every 64-bit index" { index::<u32>() }
    holds index_u64(66) "u64 blocks, every 64-bit index" { index::<u64>() }
    holds index_usize(66) "usize blocks, every 64-bit index" { index::<usize>() }
    holds address_u8(2) "u8 blocks, every 64-bit index, every address within it" { address::<u8>() }
    holds address_u16(2) "u16 blocks, every 64-bit index, every address within it" { address::<u16>() }
    holds address_u32(2) "u32 blocks, every 64-bit index, every address within it" { address::<u32>() }
    holds address_u64(2) "u64 blocks, every 64-bit index, every address within it" { address::<u64>() }
    holds address_usize(2) "usize blocks, every 64-bit index, every address within it" { address::<usize>() }
    holds logs_small(2) "logarithms of u8, u16 and u32, every value but 0" {
        match nd::upto8(2) { 0 => logs::<u8>(), 1 => logs::<u16>(), _ => logs::<u32>() }
    }
    holds logs_large(2) "logarithms of u64 and usize, every value but 0" {
        if nd::bool() { logs::<u64>() } else { logs::<usize>() }
    }
    holds ceil_div_u8(2) "ceil_div, every u8 by every u8" { ceil_div(nd::u8(), nd::u8()) }
    holds ceil_div_u16(2) "ceil_div, the 256 largest and smallest u16 by 1..=31" {
        let n = nd::u8() as u16;
        ceil_div(if nd::bool() { n } else { !255 | n }, nd::upto8(31) as u16)
    }
    holds ceil_div_u32(2) "ceil_div, the 256 largest u32 by 1..=15" { ceil_div(!255 | nd::u8() as u32, nd::upto8(15) as u32) }
    holds ceil_div_u64(2) "ceil_div, the 256 largest u64 by 1..=15" { ceil_div(!255 | nd::u8() as u64, nd::upto8(15) as u64) }
    holds ceil_div_wide(2) "ceil_div, the 16 largest u64 and usize by the 16 largest, and small values by them" {
        let d = !15 | nd::upto8(15) as u64;
        match nd::upto8(2) {
            0 => ceil_div(!15 | nd::upto8(15) as u64, d),
            1 => ceil_div(nd::upto8(15) as u64, d),
            _ => ceil_div(!15usize | nd::upto8(15) as usize, d as usize),
        }
    }
    holds_t ceil_div_u16_all(2) "ceil_div, every u16 by every u16" { ceil_div(nd::u16(), nd::u16()) }
    holds_t ceil_div_u64_16(2) "ceil_div, 65536 u64 by 1..=255" { ceil_div(!0xffff | nd::u16() as u64, nd::u8() as u64) }
}
