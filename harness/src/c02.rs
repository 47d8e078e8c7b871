//! Equality, order and hash depend only on contents.
use crate::model::*;
use crate::nd;
use crate::ops::{istep, step};
use crate::shape::{bits, ints, iop, irebuilt, op, rebuilt};
use std::cmp::Ordering;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

/// Elements that `resize` may add at most (each is pushed on its own).
#[cfg(feature = "thorough")]
const MORE: u64 = 24;
#[cfg(not(feature = "thorough"))]
const MORE: u64 = 4;

macro_rules! same {
    ($a:expr, $b:expr) => {
        check!($a == $b && !($a != $b), "equal contents compare equal");
        check!($a.cmp(&$b) == Ordering::Equal && $a.partial_cmp(&$b) == Some(Ordering::Equal),
               "equal contents are ordered equal");
        check!(hash_of(&$a) == hash_of(&$b), "equal contents hash alike");
    };
}

macro_rules! after {
    ($t:ident, $n:expr, $( $op:literal )*) => {{
        let (mut v, mut m) = any_bv::<$t>($n);
        let ops: &[u8] = &[ $( $op ),* ];
        let k = nd::upto8(ops.len() as u8 - 1);
        let mut i = 0;
        $( if k == i { step(&mut v, &mut m, $op, ($n + 1) * $t::W); } i += 1; )*
        let w = fresh_bv::<$t>(&m, $n + 1);
        same!(v, w);
    }};
}

/// The integer vector with exactly these elements, made by pushing.
fn fresh_iv<B: Blk>(m: &Seq, k: u64, c: u64, max: u64) -> IntVector<B> {
    let mut v = IntVector::block_with_fill(k as usize, max as usize, B::zero());
    let mut i = 0;
    while i < max {
        if i * B::W < m.len { v.set_block(i as usize, B::of(m.get(i * B::W, B::W))); }
        i += 1;
    }
    v.truncate(c);
    v
}

macro_rules! iafter {
    ($t:ident, $n:expr, $( $op:literal )*) => {{
        let k = any_width::<$t>();
        let (mut v, mut m, mut c) = any_iv::<$t>($n, k);
        let ops: &[u8] = &[ $( $op ),* ];
        let o = nd::upto8(ops.len() as u8 - 1);
        let mut i = 0;
        $( if o == i { istep(&mut v, &mut m, k, &mut c, $op, ($n + 1) * $t::W, MORE); } i += 1; )*
        let w = fresh_iv::<$t>(&m, k, c, $n + 1);
        same!(v, w);
    }};
}

/// From `l` bits to (about) `n` by each of these operations, against the same bits pushed one by one.
fn shape<B: Blk>(l: u64, n: u64, ops: &[u8]) {
    let mut o = 0;
    while o < ops.len() {
        let (mut v, mut m) = bits::<B>(l);
        op(&mut v, &mut m, n, ops[o]);
        let w = rebuilt::<B>(&m);
        check!(v == w && hash_of(&v) == hash_of(&w), "equal contents compare equal and hash alike");
        o += 1;
    }
}

fn ishape<B: Blk>(k: u64, l: u64, n: u64, ops: &[u8]) {
    let mut o = 0;
    while o < ops.len() {
        let (mut v, mut m) = ints::<B>(k, l);
        iop(&mut v, &mut m, k, n, ops[o]);
        let w = irebuilt::<B>(&m, k);
        check!(v == w && hash_of(&v) == hash_of(&w), "equal contents compare equal and hash alike");
        o += 1;
    }
}

harnesses! {
    holds after_edit(12) "BitVector<u8>, length <= 16, after push_bit, pop_bit, push_block, set_bit, set_block" {
        after!(u8, 2, 0 1 2 3 4)
    }
    holds after_cut(12) "BitVector<u8>, length <= 16, after truncate, block_truncate, clear, set_bits, reserve, shrink_to_fit, clone" {
        after!(u8, 2, 5 6 8 9 10 11 13)
    }
    holds after_resize(12) "BitVector<u8>, length <= 16, after resize to <= 24 [slow]" { after!(u8, 2, 7) }
    holds after_block_resize(12) "BitVector<u8>, length <= 16, after align_block, block_resize to <= 24" {
        after!(u8, 2, 12 14)
    }
    holds distinct(12) "two BitVector<u8>, lengths <= 16" {
        let (a, m) = any_bv::<u8>(2);
        let (b, n) = any_bv::<u8>(2);
        let eq = m.len == n.len && m.bits == n.bits;
        check!((a == b) == eq && (a != b) == !eq, "equality is equality of contents");
        check!((a.cmp(&b) == Ordering::Equal) == eq, "ordered equal only for equal contents");
        check!(a.cmp(&b) == b.cmp(&a).reverse(), "order is antisymmetric");
        check!(!eq || hash_of(&a) == hash_of(&b), "equal contents hash alike");
    }
    holds iv_after_edit(20) "IntVector<u8>, width 1..8, <= 16 bits, after push, pop, set, set_block" {
        iafter!(u8, 2, 0 1 2 11)
    }
    holds iv_after_cut(20) "IntVector<u8>, width 1..8, <= 16 bits, after truncate, block_truncate, clear, clone" {
        iafter!(u8, 2, 3 4 5 10)
    }
    holds iv_after_resize(7) "IntVector<u8>, width 1..8, <= 16 bits, after resize to <= 24 bits, by at most 4 elements [slow]" {
        iafter!(u8, 2, 6)
    }
    holds iv_after_block_resize(26) "IntVector<u8>, width 1..8, <= 16 bits, after block_resize to <= 24 bits" {
        iafter!(u8, 2, 7)
    }
    holds iv_distinct(20) "two IntVector<u8>, widths 1..8, <= 16 bits" {
        let k = any_width::<u8>();
        let l = any_width::<u8>();
        let (a, m, c) = any_iv::<u8>(2, k);
        let (b, n, d) = any_iv::<u8>(2, l);
        let eq = k == l && c == d && m.bits == n.bits;
        check!((a == b) == eq && (a != b) == !eq, "equality is equality of contents");
        check!((a.cmp(&b) == Ordering::Equal) == eq, "ordered equal only for equal contents");
        check!(!eq || hash_of(&a) == hash_of(&b), "equal contents hash alike");
    }
    holds shapes_u16(140) "BitVector<u16>, from 45 to 40 bits by every operation, from 24 to 40 by resize" {
        shape::<u16>(45, 40, &[0, 1, 2, 3, 5]);
        shape::<u16>(24, 40, &[0]);
    }
    holds shapes_u64(140) "BitVector<u64>, from 80 to 72 bits by every operation, from 70 to 120 by resize" {
        shape::<u64>(80, 72, &[0, 1, 2, 3, 5]);
        shape::<u64>(70, 120, &[0]);
    }
    holds ishapes_u16(140) "IntVector<u16>, width 4, from 8 to 6 elements by every operation, width 5 from 4 to 8 by resize" {
        ishape::<u16>(4, 8, 6, &[0, 1, 2, 3, 5]);
        ishape::<u16>(5, 4, 8, &[0, 2]);
    }
    holds ishapes_u64(140) "IntVector<u64>, width 8, from 12 to 11 elements by every operation, width 33 from 2 to 4 by resize" {
        ishape::<u64>(8, 12, 11, &[0, 1, 2, 3, 5]);
        ishape::<u64>(33, 2, 4, &[0, 2]);
    }
}
