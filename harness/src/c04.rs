//! Out-of-bounds accesses panic, also without debug assertions and overflow checks.
use crate::bounds::*;
use crate::model::*;
use crate::nd;
use crate::oracle::Win;
use succinct::broadword::Broadword;
use succinct::rank::{BitRankSupport, JacobsonRank, Rank9, RankSupport};
use succinct::select::BinSearchSelect;
use succinct::storage::BlockType;
use succinct::stream::BitBuffer;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut,
               IntVector};

macro_rules! prim {
    ($t:ident, $x:ident, $b:ident) => {{
        let mut x = $t::of($x as u128);
        access(&mut x, $b);
    }};
}

macro_rules! rank {
    ($r:expr, $b:ident) => {
        match $b.op {
            0 => { $r.rank1($b.i); }
            1 => { $r.rank0($b.i); }
            2 => { $r.rank($b.i, true); }
            _ => { $r.rank($b.i, false); }
        }
    };
}

fn bad_rank(limit: u64) -> Bad {
    let b = Bad { op: nd::upto8(3), i: nd::u64(), n: 0, x: 0 };
    nd::assume(b.i >= limit);
    b
}

fn word_op<B: Blk>(v: B, b: Bad) {
    let x = B::of(b.x as u128);
    match b.op {
        0 => { BlockType::get_bit(v, b.i as usize); }
        1 => { v.with_bit(b.i as usize, b.x & 1 == 1); }
        2 => { BlockType::get_bits(v, b.i as usize, b.n as usize); }
        _ => { v.with_bits(b.i as usize, b.n as usize, x); }
    }
}

harnesses! {
    panics bv8(12) "BitVector<u8>, length <= 16, every position and count" {
        let (mut v, m) = any_bv::<u8>(2);
        let b = bad(m.len, 8, 6);
    } => { access(&mut v, b); }
    panics bv64(12) "BitVector<u64>, length <= 128, every position and count" {
        let (mut v, m) = any_bv::<u64>(2);
        let b = bad(m.len, 64, 6);
    } => { access(&mut v, b); }
    panics slices(12) "[u8], &mut [u8], Vec<u8>, 16 bits, every position and count" {
        let mut a = [nd::u8(), nd::u8()];
        let mut v = Vec::new();
        v.push(a[0]);
        v.push(a[1]);
        let b = bad(16, 8, 6);
        let how = nd::upto8(3);
    } => {
        match how {
            0 => access(&mut a[..], b),
            1 => { let mut s = &mut a[..]; access(&mut s, b) }
            2 => access(&mut v, b),
            _ => { nd::assume(b.op < 3); read(&&a[..], b) }
        }
    }
    panics bools(12) "Vec<bool>, length <= 3" {
        let mut v = Vec::new();
        let n = nd::upto8(3) as u64;
        let mut i = 0;
        while i < 3 { if i < n { v.push(nd::bool()); } i += 1; }
        let b = bad(n, 8, 6);
    } => { access(&mut v, b); }
    panics prims(12) "u8, u16, u32, u64, usize as bit vectors" {
        let k = nd::upto8(4);
        let x = nd::u64();
        let b = bad(if k == 0 { 8 } else if k == 1 { 16 } else if k == 2 { 32 } else { 64 },
                    if k == 0 { 8 } else if k == 1 { 16 } else if k == 2 { 32 } else { 64 }, 6);
    } => {
        match k {
            0 => prim!(u8, x, b),
            1 => prim!(u16, x, b),
            2 => prim!(u32, x, b),
            3 => prim!(u64, x, b),
            _ => prim!(usize, x, b),
        }
    }
    panics words(12) "u8, u16, u32, u64, usize as blocks" {
        let k = nd::upto8(4);
        let x = nd::u64();
        let w: u64 = if k == 0 { 8 } else if k == 1 { 16 } else if k == 2 { 32 } else { 64 };
        let b = Bad { op: nd::upto8(3), i: nd::u64(), n: nd::u64(), x: nd::u64() };
        nd::assume(if b.op < 2 { b.i >= w } else { b.i > w || b.n > w - b.i });
    } => {
        match k {
            0 => word_op(x as u8, b),
            1 => word_op(x as u16, b),
            2 => word_op(x as u32, b),
            3 => word_op(x, b),
            _ => word_op(x as usize, b),
        }
    }
    panics iv8(12) "IntVector<u8>, width 1..8, <= 16 bits: get, set, get_random, set_random" {
        let k = any_width::<u8>();
        let (mut v, m, c) = any_iv::<u8>(2, k);
        let op = nd::upto8(3);
        let (i, o, x) = (nd::u64(), nd::u64(), nd::u8());
        let w = any_width::<u8>();
        match op {
            0 => nd::assume(i >= c),
            1 => nd::assume(i >= c && x as u128 <= ones(k)),
            _ => nd::assume(x as u128 <= ones(w)
                            && o as u128 + i as u128 * w as u128 + w as u128 > m.len as u128),
        }
    } => {
        match op {
            0 => { v.get(i); }
            1 => v.set(i, x),
            2 => { v.get_random(o, w as usize, i); }
            _ => v.set_random(o, w as usize, i, x),
        }
    }
    panics iv_view(12) "IntVector<u8>, width 1..8, <= 16 bits, through its bit view" {
        let k = any_width::<u8>();
        let (mut v, m, _) = any_iv::<u8>(2, k);
        let b = bad(m.len, 8, 6);
    } => { access(&mut v, b); }
    panics slice(12) "slices of BitVector<u8>, length <= 16, every position and count" {
        let (mut v, m) = any_bv::<u8>(2);
        let (i, j) = (nd::u8() as u64, nd::u8() as u64);
        nd::assume(i <= j && j <= m.len);
        let b = bad(j - i, 8, 6);
        let how = nd::upto8(3);
        nd::assume(how == 0 || b.op < 3);
    } => {
        match how {
            0 => access(&mut BitSliceMut::new(&mut v, i .. j), b),
            1 => read(&BitSlice::new(&v, i .. j), b),
            2 => read(&BitSlice::new(&v, i ..).slice(.. j - i), b),
            _ => read(&BitSliceMut::new(&mut v, .. j).slice(i ..), b),
        }
    }
    panics slicing(12) "slicing BitVector<u8>, length <= 16, past its end" {
        let (mut v, m) = any_bv::<u8>(2);
        let (i, j) = (nd::u8() as u64, nd::u8() as u64);
        nd::assume(i <= j && j <= m.len);
        let (p, q) = (nd::u64(), nd::u64());
        let how = nd::upto8(5);
        nd::assume(q > if how < 2 { m.len } else { j - i });
        let half = nd::bool();
    } => {
        match how {
            0 => { if half { BitSlice::new(&v, p .. q); } else { BitSlice::new(&v, .. q); } }
            1 => { if half { BitSliceMut::new(&mut v, p .. q); } else { BitSliceMut::new(&mut v, .. q); } }
            2 => {
                let s = BitSlice::new(&v, i .. j);
                if half { s.slice(p .. q); } else { s.slice(.. q); }
            }
            3 => {
                let s = BitSliceMut::new(&mut v, i .. j);
                if half { s.slice(p .. q); } else { s.slice(.. q); }
            }
            _ => {
                let mut s = BitSliceMut::new(&mut v, i .. j);
                if half { s.slice_mut(p .. q); } else { s.slice_mut(.. q); }
            }
        }
    }
    panics rank_words(12) "rank on u8, u16, u32, u64, usize, Broadword" {
        let k = nd::upto8(5);
        let x = nd::u64();
        let b = bad_rank(if k == 0 { 8 } else if k == 1 { 16 } else if k == 2 { 32 } else { 64 });
    } => {
        match k {
            0 => rank!((x as u8), b),
            1 => rank!((x as u16), b),
            2 => rank!((x as u32), b),
            3 => rank!(x, b),
            4 => rank!((x as usize), b),
            _ => rank!(Broadword(x), b),
        }
    }
    panics rank_jacobson(14) "JacobsonRank and BinSearchSelect<JacobsonRank> over BitVector<u8>, length 13" {
        let (v, m) = bv_of_len::<u8>(13);
        let b = bad_rank(m.len);
        let how = nd::bool();
        let r = JacobsonRank::new(v);
    } => {
        if how { rank!(BinSearchSelect::new(r), b) } else { rank!(r, b) }
    }
    panics rank_rank9(12) "Rank9 over BitVector<u64>, length <= 128" {
        let (v, m) = any_bv::<u64>(2);
        let b = bad_rank(m.len);
        let r = Rank9::new(v);
    } => { rank!(r, b) }
    panics wrapped(14) "JacobsonRank, BinSearchSelect, BitBuffer over BitVector<u8>, length 13, as bit vectors" {
        let (v, m) = bv_of_len::<u8>(13);
        let b = bad(m.len, 8, 6);
        let how = nd::upto8(2);
        nd::assume(how == 0 || b.op < 3);
    } => {
        match how {
            0 => access(&mut BitBuffer::from(v), b),
            1 => read(&JacobsonRank::new(v), b),
            _ => read(&BinSearchSelect::new(JacobsonRank::new(v)), b),
        }
    }
    panics far(12) "the provided methods over an implementor with u64 blocks of any length up to 2^64-1" {
        let mut v = Win::<u64>::any();
        v.len = nd::u64();
        let b = bad(v.len, 64, 6);
        nd::assume(b.op != 1 && b.op != 4);
    } => { access(&mut v, b); }
}
