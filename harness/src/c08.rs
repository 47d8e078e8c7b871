//! IntVector's packed layout and raw views agree with its elements.
use crate::model::*;
use crate::nd;
use crate::shape::{exact, ints, iop};
use succinct::{BitVec, BitVecMut, IntVec, IntVecMut, IntVector};

/// The views of `v`: elements, bits, blocks, random addressing.
fn views<B: Blk>(v: &IntVector<B>, m: &Seq, k: u64, c: u64, ops: &[u8]) {
    check!(v.bit_len() == m.len && v.len() == c, "lengths");
    check!(v.block_len() as u64 == blocks::<B>(m.len), "length in blocks");
    match ops[nd::upto8(ops.len() as u8 - 1) as usize] {
        0 => {
            let i = nd::u8() as u64;
            nd::assume(i < c);
            check!(v.get(i).w() == m.get(i * k, k), "element i occupies bits i*k ..");
            check!(v.get_bits(i * k, k as usize).w() == v.get(i).w(), "as a span");
        }
        1 => {
            let j = nd::u8() as u64;
            nd::assume(j < blocks::<B>(m.len));
            check!(v.get_block(j as usize).w() == m.get(j * B::W, B::W),
                   "blocks, with zeros behind the last element");
        }
        2 => {
            let (i, o) = (nd::u8() as u64, nd::u8() as u64);
            let w = any_width::<B>();
            nd::assume(o + i * w + w <= m.len);
            check!(v.get_random(o, w as usize, i).w() == m.get(o + i * w, w), "get_random");
        }
        _ => {
            let i = nd::u8() as u64;
            nd::assume(i < m.len);
            check!(v.get_bit(i) == m.bit(i), "bits");
        }
    }
}

fn write<B: Blk>(v: &mut IntVector<B>, m: &mut Seq, k: u64, c: u64, ops: &[u8]) {
    let i = nd::u8() as u64;
    let x = B::nd();
    match ops[nd::upto8(ops.len() as u8 - 1) as usize] {
        0 => {
            nd::assume(i < c && x.w() <= ones(k));
            v.set(i, x);
            m.set(i * k, k, x.w());
        }
        1 => {
            let n = nd::upto8(B::W as u8) as u64;
            nd::assume(i + n <= m.len);
            v.set_bits(i, n as usize, x);
            m.set(i, n, x.w());
        }
        2 => {
            nd::assume(i < blocks::<B>(m.len));
            v.set_block(i as usize, x);
            let n = if m.len - i * B::W < B::W { m.len - i * B::W } else { B::W };
            m.set(i * B::W, n, x.w());
        }
        3 => {
            let o = nd::u8() as u64;
            let w = any_width::<B>();
            nd::assume(o + i * w + w <= m.len && x.w() <= ones(w));
            v.set_random(o, w as usize, i, x);
            m.set(o + i * w, w, x.w());
        }
        _ => {
            nd::assume(i < m.len);
            v.set_bit(i, x.w() & 1 == 1);
            m.set(i, 1, x.w());
        }
    }
}

macro_rules! layout {
    ($b:ident, $n:expr, $k:expr, $w:expr, $r:expr) => {{
        let k: u64 = $k;
        let (mut v, mut m, c) = any_iv::<$b>($n, k);
        write(&mut v, &mut m, k, c, $w);
        views(&v, &m, k, c, $r);
    }};
}

/// Many blocks: the layout after each operation that changes the length.
fn ishape<B: Blk>(k: u64, l: u64, n: u64, ops: &[u8]) {
    let mut o = 0;
    while o < ops.len() {
        let (mut v, mut m) = ints::<B>(k, l);
        iop(&mut v, &mut m, k, n, ops[o]);
        exact(&v, &m);
        o += 1;
    }
}

harnesses! {
    holds all8(12) "IntVector<u8>, width 1..8, <= 16 bits: any write, then any view" {
        layout!(u8, 2, any_width::<u8>(), &[0, 1, 2, 3, 4], &[0, 1, 2, 3])
    }
    holds all16(12) "IntVector<u16>, width 1..16, <= 32 bits [slow]" {
        layout!(u16, 2, any_width::<u16>(), &[0, 1, 2, 3, 4], &[0, 1, 2, 3])
    }
    holds w64_33(12) "IntVector<u64>, width 33, <= 128 bits: set or set_block, then elements or blocks" {
        layout!(u64, 2, 33, &[0, 2], &[0, 1])
    }
    holds w64_64(12) "IntVector<u64>, width 64, <= 128 bits: set or set_block, then elements or blocks" {
        layout!(u64, 2, 64, &[0, 2], &[0, 1])
    }
    holds w64_7(12) "IntVector<u64>, width 7, <= 64 bits: set or set_random, then elements or get_random" {
        layout!(u64, 1, 7, &[0, 3], &[0, 2])
    }
    holds_t w64_7_t(12) "IntVector<u64>, width 7, <= 128 bits: any write, then any view" {
        layout!(u64, 2, 7, &[0, 1, 2, 3, 4], &[0, 1, 2, 3])
    }
    holds_t w64_33_t(12) "IntVector<u64>, width 33, <= 128 bits: any write, then any view" {
        layout!(u64, 2, 33, &[0, 1, 2, 3, 4], &[0, 1, 2, 3])
    }
    holds_t w32_t(12) "IntVector<u32>, width 1..32, <= 64 bits: any write, then any view" {
        layout!(u32, 2, any_width::<u32>(), &[0, 1, 2, 3, 4], &[0, 1, 2, 3])
    }
    holds pushed(12) "IntVector<u8>, width 1..8, built by pushing 3 elements" {
        let k = any_width::<u8>();
        let mut v = IntVector::<u8>::new(k as usize);
        let mut m = Seq { bits: 0, len: 0 };
        let mut i = 0;
        while i < 3 {
            let x = nd::u8();
            nd::assume(x as u128 <= ones(k));
            v.push(x);
            m.push(k, x as u128);
            i += 1;
        }
        views(&v, &m, k, 3, &[0, 1, 2, 3]);
        check!(v.is_block_sized() == (k == 8) && v.is_aligned() == (8 % k == 0), "alignment");
    }
    holds shapes_u8(140) "IntVector<u8>, width 3, from 30 to 21, 13 and 10, width 5 from 9 to 20 elements, by every operation" {
        ishape::<u8>(3, 30, 21, &[0, 1, 2, 3]);
        ishape::<u8>(3, 30, 13, &[0, 1]);
        ishape::<u8>(3, 30, 10, &[2, 3]);
        ishape::<u8>(5, 9, 20, &[0, 2]);
    }
    holds shapes_u64(140) "IntVector<u64>, width 13, from 24 to 17, width 33 from 3 to 7 elements, by every operation" {
        ishape::<u64>(13, 24, 17, &[0, 1, 2, 3]);
        ishape::<u64>(33, 3, 7, &[0, 2]);
    }
}
