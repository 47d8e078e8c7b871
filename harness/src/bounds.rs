//! Out-of-bounds accesses.
use crate::model::*;
use crate::nd;
use succinct::{BitVec, BitVecMut};

/// Where and what of one out-of-bounds access to a vector of `len` bits.
#[derive(Clone, Copy)]
pub struct Bad { pub op: u8, pub i: u64, pub n: u64, pub x: u64 }

pub fn bad(len: u64, w: u64, ops: u8) -> Bad {
    let b = Bad { op: nd::upto8(ops - 1), i: nd::u64(), n: nd::u64(), x: nd::u64() };
    let blocks = len / w + (len % w != 0) as u64;
    nd::assume(match b.op {
        0 | 3 => b.i >= len,
        1 | 4 => b.i >= blocks,
        _ => b.i > len || b.n > len - b.i,
    });
    b
}

pub fn read<V: BitVec + ?Sized>(v: &V, b: Bad) {
    match b.op {
        0 => { v.get_bit(b.i); }
        1 => { v.get_block(b.i as usize); }
        _ => { v.get_bits(b.i, b.n as usize); }
    }
}

pub fn access<V: BitVecMut + ?Sized>(v: &mut V, b: Bad) where V::Block: Blk {
    let x = <V::Block as Blk>::of(b.x as u128);
    match b.op {
        3 => v.set_bit(b.i, b.x & 1 == 1),
        4 => v.set_block(b.i as usize, x),
        5 => v.set_bits(b.i, b.n as usize, x),
        _ => read(v, b),
    }
}
