//! Bit operations on single blocks are exact.
use crate::model::*;
use crate::nd;
use succinct::storage::BlockType;

/// Every value; every argument in range.
#[inline(always)]
fn block<B: Blk>() {
    let (x, y, b) = (B::nd(), B::nd(), nd::bool());
    let (i, n) = (nd::upto8(B::W as u8) as u64, nd::upto8(B::W as u8) as u64);
    match nd::upto8(5) {
        0 => check!(B::low_mask(n as usize).w() == ones(n), "low_mask"),
        1 => {
            nd::assume(i < B::W);
            check!(B::nth_mask(i as usize).w() == shl(1, i), "nth_mask");
        }
        2 => {
            nd::assume(i < B::W);
            check!(BlockType::get_bit(x, i as usize) == (shr(x.w(), i) & 1 == 1), "get_bit");
        }
        3 => {
            nd::assume(i < B::W);
            let e = if b { x.w() | shl(1, i) } else { x.w() & !shl(1, i) };
            check!(x.with_bit(i as usize, b).w() == e, "with_bit");
        }
        4 => {
            nd::assume(i + n <= B::W);
            check!(BlockType::get_bits(x, i as usize, n as usize).w() == shr(x.w(), i) & ones(n), "get_bits");
        }
        _ => {
            nd::assume(i + n <= B::W);
            let e = x.w() & !shl(ones(n), i) | shl(y.w() & ones(n), i);
            check!(x.with_bits(i as usize, n as usize, y).w() == e, "with_bits");
        }
    }
}


harnesses! {
    holds block_u8(10) "u8, every value, every argument in range" { block::<u8>() }
    holds block_u16(18) "u16, every value, every argument in range" { block::<u16>() }
    holds block_u32(34) "u32, every value, every argument in range" { block::<u32>() }
    holds block_u64(66) "u64, every value, every argument in range" { block::<u64>() }
    holds block_usize(66) "usize, every value, every argument in range" { block::<usize>() }
}
