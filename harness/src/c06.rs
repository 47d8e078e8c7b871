//! IntVector is a faithful sequence of k-bit integers.
use crate::model::*;
use crate::nd;
use crate::ops::istep;
use crate::shape::{ceil, iexact, ints, iop};
use succinct::{BitVec, BitVecMut, IntVec, IntVecMut, IntVector};

/// Elements that `resize` may add at most (each is pushed on its own).
#[cfg(feature = "thorough")]
const MORE: u64 = 24;
#[cfg(not(feature = "thorough"))]
const MORE: u64 = 4;

macro_rules! one_step {
    ($t:ident, $n:expr, $g:expr, $( $op:literal )*) => {{
        let k = any_width::<$t>();
        one_step!(@ k, $t, $n, $g, $( $op )*)
    }};
    (@ $k:ident, $t:ident, $n:expr, $g:expr, $( $op:literal )*) => {{
        let (mut v, mut m, mut c) = any_iv::<$t>($n, $k);
        let ops: &[u8] = &[ $( $op ),* ];
        let o = nd::upto8(ops.len() as u8 - 1);
        let mut i = 0;
        $( if o == i { istep(&mut v, &mut m, $k, &mut c, $op, ($n + $g) * $t::W, MORE); } i += 1; )*
        check!(agrees_iv(&v, &m, $k, c), "the vector holds exactly the specified elements");
        // One more element, so that anything left behind the end would show.
        if m.len + $k <= 128 { istep(&mut v, &mut m, $k, &mut c, 0, 0, 0); }
        check!(agrees_iv(&v, &m, $k, c), "pushing after it adds exactly one element");
    }};
}

fn ishape<B: Blk>(k: u64, l: u64, n: u64, ops: &[u8]) {
    let mut o = 0;
    while o < ops.len() {
        let (mut v, mut m) = ints::<B>(k, l);
        iop(&mut v, &mut m, k, n, ops[o]);
        iexact(&v, &m, k);
        check!(v.block_len() as u64 == ceil::<B>(m.len), "length in blocks");
        o += 1;
    }
}

/// `with_fill`, element by element.
fn filled<B: Blk>(k: u64, c: u64) {
    let x = B::nd();
    nd::assume(x.w() <= ones(k));
    let v = IntVector::<B>::with_fill(k as usize, c, x);
    check!(v.len() == c, "length");
    let i = nd::u8() as u64;
    if i < c { check!(v.get(i) == x, "every element is the fill value"); }
}

harnesses! {
    holds edit(20) "IntVector<u8>, width 1..8, <= 24 bits: push, pop, set" {
        one_step!(u8, 3, 1, 0 1 2)
    }
    holds cut(20) "IntVector<u8>, width 1..8, <= 24 bits: truncate (any u64), block_truncate (any usize), clear, reserve, shrink_to_fit, clone" {
        one_step!(u8, 3, 1, 3 4 5 8 9 10)
    }
    holds resize(7) "IntVector<u8>, width 1..8, <= 16 bits, resize to <= 24 bits, by at most 4 elements [slow]" {
        one_step!(u8, 2, 1, 6)
    }
    holds resize3(7) "IntVector<u8>, width 3, <= 16 bits, resize to <= 24 bits, by at most 4 elements" {
        let k = 3;
        one_step!(@ k, u8, 2, 1, 6)
    }
    holds block_resize(26) "IntVector<u8>, width 1..8, <= 16 bits, block_resize to <= 24 bits" {
        one_step!(u8, 2, 1, 7)
    }
    holds w16_edit(20) "IntVector<u16>, width 1..16, <= 32 bits: push, pop, set" {
        one_step!(u16, 2, 1, 0 1 2)
    }
    holds w16_cut(20) "IntVector<u16>, width 1..16, <= 32 bits: truncate, block_truncate, clear" {
        one_step!(u16, 2, 1, 3 4 5)
    }
    holds w64_edit7(12) "IntVector<u64>, width 7, <= 64 bits: push, pop, set" {
        let k = 7;
        one_step!(@ k, u64, 1, 1, 0 1 2)
    }
    holds w64_edit33(12) "IntVector<u64>, width 33, <= 64 bits: push, pop, set" {
        let k = 33;
        one_step!(@ k, u64, 1, 1, 0 1 2)
    }
    holds w64_cut7(12) "IntVector<u64>, width 7, <= 128 bits: truncate, block_truncate, clear" {
        let k = 7;
        one_step!(@ k, u64, 2, 0, 3 4 5)
    }
    holds_t resize_t(26) "IntVector<u8>, width 1..8, <= 16 bits, resize to <= 24 bits [slow]" {
        one_step!(u8, 2, 1, 6)
    }
    holds_t w64_edit(12) "IntVector<u64>, width 1..64, <= 64 bits: push, pop, set" {
        one_step!(u64, 1, 1, 0 1 2)
    }
    holds_t w64_cut(12) "IntVector<u64>, width 1..64, <= 128 bits: truncate, block_truncate, clear" {
        one_step!(u64, 2, 0, 3 4 5)
    }
    holds created(8) "every constructor, width 1..8, <= 16 bits, filled with at most 6 elements" {
        let k = any_width::<u8>();
        let how = nd::upto8(4);
        let n = nd::upto8(16) as u64;
        let x = nd::u8();
        nd::assume(n * k <= 16 && (how != 3 || n <= 6));
        let mut m = Seq { bits: 0, len: 0 };
        let mut c = 0;
        let v: IntVector<u8> = match how {
            0 => IntVector::new(k as usize),
            1 => IntVector::with_capacity(k as usize, n),
            2 => IntVector::block_with_capacity(k as usize, n as usize),
            3 => {
                nd::assume(x as u128 <= ones(k));
                m.push(n * k, repeat(x as u128, k));
                c = n;
                IntVector::with_fill(k as usize, n, x)
            }
            _ => {
                nd::assume(n <= 2);
                let mut i = 0;
                while i < 2 { if i < n { m.push(8, x as u128); } i += 1; }
                c = n * 8 / k;
                m.cut(c * k);
                IntVector::block_with_fill(k as usize, n as usize, x)
            }
        };
        check!(agrees_iv(&v, &m, k, c), "constructor");
    }
    holds shapes_u8(140) "IntVector<u8>, width 3, from 30 to 21, width 5 from 9 to 20 elements, by every operation" {
        ishape::<u8>(3, 30, 21, &[0, 1, 2, 3]);
        ishape::<u8>(5, 9, 20, &[0, 2]);
    }
    holds shapes_u64(280) "IntVector<u64>, width 13, from 24 to 9, width 33 from 3 to 8 elements, by every operation" {
        ishape::<u64>(13, 24, 9, &[0, 1, 2, 3]);
        ishape::<u64>(33, 3, 8, &[0, 2]);
    }
    holds then_blocks(140) "IntVector<u8>, width 4: pushes up to, onto and past the end of a block, then block_resize" {
        let mut n = 7;
        while n <= 9 {
            let (mut v, mut m) = ints::<u8>(4, 5);
            iop(&mut v, &mut m, 4, n, 4);
            iop(&mut v, &mut m, 4, 16, 2);
            iexact(&v, &m, 4);
            n += 1;
        }
    }
    holds filled_long(140) "with_fill: IntVector<u8> of 40 elements of width 1, IntVector<u64> of 36 of width 7" {
        filled::<u8>(1, 40);
        filled::<u64>(7, 36);
    }
}
