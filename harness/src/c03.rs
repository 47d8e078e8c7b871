//! Bit spans and blocks agree with single bits and touch nothing else.
use crate::model::*;
use crate::nd;
use crate::oracle::Win;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

fn in_block<B: Blk>(m: &Seq, j: u64) -> u64 {
    if m.len - j * B::W < B::W { m.len - j * B::W } else { B::W }
}

/// One arbitrary access of every kind; afterwards everything still agrees.
fn access<V: BitVecMut + ?Sized>(v: &mut V, m: &mut Seq) where V::Block: Blk {
    let w = <V::Block as Blk>::W;
    match nd::upto8(4) {
        0 => {
            let i = nd::u8() as u64;
            let n = nd::upto8(w as u8) as u64;
            nd::assume(i + n <= m.len);
            check!(v.get_bits(i, n as usize).w() == m.get(i, n), "get_bits returns exactly those bits");
        }
        1 => {
            let i = nd::u8() as u64;
            let n = nd::upto8(w as u8) as u64;
            let x = <V::Block as nd::Nd>::nd();
            nd::assume(i + n <= m.len);
            v.set_bits(i, n as usize, x);
            m.set(i, n, x.w());
        }
        2 => {
            let j = nd::u8() as u64;
            nd::assume(j * w < m.len);
            let n = in_block::<V::Block>(m, j);
            check!(v.get_block(j as usize).w() & ones(n) == m.get(j * w, n), "get_block returns exactly those bits");
        }
        3 => {
            let j = nd::u8() as u64;
            let x = <V::Block as nd::Nd>::nd();
            nd::assume(j * w < m.len);
            v.set_block(j as usize, x);
            let n = in_block::<V::Block>(m, j);
            m.set(j * w, n, x.w());
        }
        _ => {
            let i = nd::u8() as u64;
            let b = nd::bool();
            nd::assume(i < m.len);
            v.set_bit(i, b);
            m.set(i, 1, b as u128);
        }
    }
    check!(agrees(v, m), "exactly the addressed bits have changed");
}

/// Read-only accesses.
fn reads<V: BitVec + ?Sized>(v: &V, m: &Seq) where V::Block: Blk {
    let w = <V::Block as Blk>::W;
    let i = nd::u8() as u64;
    let n = nd::upto8(w as u8) as u64;
    nd::assume(i + n <= m.len);
    check!(v.get_bits(i, n as usize).w() == m.get(i, n), "get_bits returns exactly those bits");
    check!(agrees(v, m), "bits and blocks");
}

fn words<B: Blk>(n: u64) -> ([B; 3], Seq) {
    let mut a = [B::zero(); 3];
    let mut m = Seq { bits: 0, len: 0 };
    let mut i = 0;
    while i < n { a[i as usize] = B::nd(); m.push(B::W, a[i as usize].w()); i += 1; }
    (a, m)
}

macro_rules! prim {
    ($t:ident) => {{
        let mut x = $t::of(nd::u64() as u128);
        let mut m = Seq { bits: x.w(), len: $t::W };
        access(&mut x, &mut m);
    }};
}

fn bools(n: u64) -> (Vec<bool>, Seq) {
    let mut v = Vec::new();
    let mut m = Seq { bits: 0, len: 0 };
    let mut i = 0;
    while i < n { let b = nd::bool(); v.push(b); m.push(1, b as u128); i += 1; }
    let l = nd::upto8(n as u8) as u64;
    v.truncate(l as usize);
    m.cut(l);
    (v, m)
}

harnesses! {
    holds bv8(12) "BitVector<u8>, length <= 24, every span, block and bit" {
        let (mut v, mut m) = any_bv::<u8>(3);
        access(&mut v, &mut m);
    }
    holds bv16(12) "BitVector<u16>, length <= 48" {
        let (mut v, mut m) = any_bv::<u16>(3);
        access(&mut v, &mut m);
    }
    holds bv64(12) "BitVector<u64>, length <= 128" {
        let (mut v, mut m) = any_bv::<u64>(2);
        access(&mut v, &mut m);
    }
    holds slice(12) "[u8], &mut [u8], 24 bits" {
        let (mut a, mut m) = words::<u8>(3);
        if nd::bool() { access(&mut a[..], &mut m); }
        else { let mut s = &mut a[..]; access(&mut s, &mut m); }
    }
    holds slice64(12) "[u64], 128 bits; &[u64] reads" {
        let (mut a, mut m) = words::<u64>(2);
        if nd::bool() { access(&mut a[..2], &mut m); }
        else { reads(&&a[..2], &m); }
    }
    holds vec8(12) "Vec<u8>, 24 bits; Vec<u32>, 64 bits" {
        if nd::bool() {
            let (a, mut m) = words::<u8>(3);
            let mut v = Vec::new();
            v.push(a[0]); v.push(a[1]); v.push(a[2]);
            access(&mut v, &mut m);
        } else {
            let (a, mut m) = words::<u32>(2);
            let mut v = Vec::new();
            v.push(a[0]); v.push(a[1]);
            access(&mut v, &mut m);
        }
    }
    holds bools12(18) "Vec<bool>, length <= 12" {
        let (mut v, mut m) = bools(12);
        access(&mut v, &mut m);
    }
    holds prims(12) "u8, u16, u32, u64, usize as bit vectors" {
        match nd::upto8(4) {
            0 => prim!(u8),
            1 => prim!(u16),
            2 => prim!(u32),
            3 => prim!(u64),
            _ => prim!(usize),
        }
    }
    holds iv8(12) "IntVector<u8>, widths 1..8, <= 16 bits, through its bit view" {
        let k = any_width::<u8>();
        let (mut v, mut m, _) = any_iv::<u8>(2, k);
        access(&mut v, &mut m);
    }
    holds far(12) "the provided methods over 64-bit blocks at every position of a 2^64-64 bit vector" {
        let mut v = Win::<u64>::any();
        let i = nd::u64();
        let n = nd::upto8(64) as u64;
        nd::assume(i >= v.at * 64 && i - v.at * 64 <= 128 && n <= 128 - (i - v.at * 64));
        let o = i - v.at * 64;
        let mut m = v.seq();
        check!(v.get_bits(i, n as usize).w() == m.get(o, n), "get_bits returns exactly those bits");
        let x = nd::u64();
        match nd::upto8(1) {
            0 => { v.set_bits(i, n as usize, x); m.set(o, n, x as u128); }
            _ => {
                nd::assume(n > 0);
                check!(v.get_bit(i) == m.bit(o), "get_bit");
                v.set_bit(i, x & 1 == 1);
                m.set(o, 1, x as u128);
            }
        }
        check!(v.seq() == m && !v.outside, "exactly the addressed bits have changed");
    }
}
