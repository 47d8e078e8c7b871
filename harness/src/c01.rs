//! BitVector is a faithful, growable sequence of bits under every operation.
use crate::model::*;
use crate::nd;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

use crate::ops::step;
use crate::shape::{bits, exact, op};

macro_rules! one_step {
    ($t:ident, $n:expr, $( $op:literal )*) => {{
        let (mut v, mut m) = any_bv::<$t>($n);
        let ops: &[u8] = &[ $( $op ),* ];
        let k = nd::upto8(ops.len() as u8 - 1);
        let mut i = 0;
        $( if k == i { step(&mut v, &mut m, $op, ($n + 1) * $t::W); } i += 1; )*
        // One more bit, so that anything left behind the end would show.
        if m.len < 128 { step(&mut v, &mut m, 0, 0); }
        check!(agrees(&v, &m), "the vector holds exactly the specified sequence");
    }};
}

/// From `l` bits to (about) `n`, by each of these operations, then one more bit.
fn shape<B: Blk>(l: u64, n: u64, ops: &[u8]) {
    let mut o = 0;
    while o < ops.len() {
        let (mut v, mut m) = bits::<B>(l);
        op(&mut v, &mut m, n, ops[o]);
        let b = nd::bool();
        v.push_bit(b);
        m.push(1, b as u64);
        exact(&v, &m);
        o += 1;
    }
}

harnesses! {
    holds push_pop_set(12) "BitVector<u8>, length <= 24: push_bit, pop_bit, push_block, set_bit, set_block" {
        one_step!(u8, 3, 0 1 2 3 4)
    }
    holds cut(12) "BitVector<u8>, length <= 24: truncate (any u64), block_truncate (any usize), clear, reserve <= 40, shrink_to_fit" {
        one_step!(u8, 3, 5 6 8 10 11)
    }
    holds resize(12) "BitVector<u8>, length <= 24, new length <= 32 [slow]" { one_step!(u8, 3, 7) }
    holds set_bits_clone(12) "BitVector<u8>, length <= 24, every span" { one_step!(u8, 3, 9 13) }
    holds align(12) "BitVector<u8>, length <= 24" { one_step!(u8, 3, 12) }
    holds block_resize(12) "BitVector<u8>, length <= 24, new length <= 32" { one_step!(u8, 3, 14) }
    holds w64_a(12) "BitVector<u64>, length <= 128: push_bit, pop_bit, push_block, set_bit, set_block" {
        one_step!(u64, 1, 0 1 2 3 4)
    }
    holds w64_b(12) "BitVector<u64>, length <= 128" {
        one_step!(u64, 1, 5 6 8 10 11 9)
    }
    holds grow_u8(140) "BitVector<u8>, resize and block_resize from 29 to 100 and from 64 to 104 bits" {
        shape::<u8>(29, 100, &[0, 2]);
        shape::<u8>(64, 104, &[0, 2]);
    }
    holds shrink_u8(140) "BitVector<u8>, truncate, resize, block_truncate, block_resize from 101 to 29 bits" {
        shape::<u8>(101, 29, &[0, 1, 2, 3]);
    }
    holds by_bit_u8(140) "BitVector<u8>, from 60 to 67 and back by single bits" {
        shape::<u8>(60, 67, &[4]);
        shape::<u8>(67, 60, &[5]);
    }
    holds grow_u64(280) "BitVector<u64>, resize and block_resize from 70 to 300 bits" {
        shape::<u64>(70, 300, &[0, 2]);
    }
    holds shrink_u64(280) "BitVector<u64>, truncate, resize, block_truncate, block_resize from 300 to 70 bits" {
        shape::<u64>(300, 70, &[0, 1, 2, 3]);
    }
    holds created(12) "every constructor, <= 24 bits" {
        let k = nd::upto8(4);
        let n = nd::upto8(24) as u64;
        let (v, m): (BitVector<u8>, Seq) = match k {
            0 => (BitVector::new(), Seq { bits: 0, len: 0 }),
            1 => (BitVector::with_capacity(n), Seq { bits: 0, len: 0 }),
            2 => (BitVector::default(), Seq { bits: 0, len: 0 }),
            3 => {
                let b = nd::bool();
                (BitVector::with_fill(n, b), Seq { bits: if b { ones(n) } else { 0 }, len: n })
            }
            _ => {
                let b = nd::u8();
                nd::assume(n <= 3);
                let mut m = Seq { bits: 0, len: 0 };
                let mut i = 0;
                while i < n { m.push(8, b as u128); i += 1; }
                (BitVector::block_with_fill(n as usize, b), m)
            }
        };
        check!(agrees(&v, &m), "constructor");
    }
}
