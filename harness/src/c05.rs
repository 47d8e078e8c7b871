//! Bit slices are exact views.
use crate::bounds::*;
use crate::model::*;
use crate::nd;
use crate::oracle::Win;
use succinct::bit_vec::{BitSlice, BitSliceMut, IntoRange};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

/// Any range of any kind whose end is inside a base of `len` bits; a range may be
/// inverted. Returns (kind, start, end) with the absent ends filled in.
fn any_range(len: u64) -> (u8, u64, u64) {
    let kind = nd::upto8(3);
    let p = if kind == 0 || kind == 2 { nd::u8() as u64 } else { 0 };
    let q = if kind < 2 { nd::u8() as u64 } else { len };
    nd::assume(q <= len);
    (kind, p, q)
}

macro_rules! with_range {
    ($r:ident, |$x:ident| $e:expr) => {
        match $r.0 {
            0 => { let $x = $r.1 .. $r.2; $e }
            1 => { let $x = .. $r.2; $e }
            2 => { let $x = $r.1 ..; $e }
            _ => { let $x = ..; $e }
        }
    };
}

/// The part of `m` the range denotes.
fn part(m: &Seq, r: (u8, u64, u64)) -> Seq {
    if r.1 >= r.2 { Seq { bits: 0, len: 0 } }
    else { Seq { bits: m.get(r.1, r.2 - r.1), len: r.2 - r.1 } }
}

/// `v` is exactly the sequence `m`, with nothing else in a partial last block.
fn is<V: BitVec>(v: &V, m: &Seq) where V::Block: Blk {
    let w = <V::Block as Blk>::W;
    check!(v.bit_len() == m.len, "length");
    check!(v.block_len() as u64 == (m.len + w - 1) / w, "length in blocks");
    let i = nd::u8() as u64;
    match nd::upto8(2) {
        0 => {
            nd::assume(i < m.len);
            check!(v.get_bit(i) == m.bit(i), "bits");
        }
        1 => {
            let n = nd::upto8(w as u8) as u64;
            nd::assume(i + n <= m.len);
            check!(v.get_bits(i, n as usize).w() == m.get(i, n), "spans");
        }
        _ => {
            nd::assume(i * w < m.len);
            let n = if m.len - i * w < w { m.len - i * w } else { w };
            check!(v.get_block(i as usize).w() == m.get(i * w, n), "a block holds exactly the slice's bits");
        }
    }
}

fn write<V: BitVecMut>(v: &mut V, m: &mut Seq) where V::Block: Blk {
    let w = <V::Block as Blk>::W;
    let x = <V::Block as nd::Nd>::nd();
    let i = nd::u8() as u64;
    match nd::upto8(2) {
        0 => {
            nd::assume(i < m.len);
            v.set_bit(i, x.w() & 1 == 1);
            m.set(i, 1, x.w());
        }
        1 => {
            let n = nd::upto8(w as u8) as u64;
            nd::assume(i + n <= m.len);
            v.set_bits(i, n as usize, x);
            m.set(i, n, x.w());
        }
        _ => {
            nd::assume(i * w < m.len);
            v.set_block(i as usize, x);
            let n = if m.len - i * w < w { m.len - i * w } else { w };
            m.set(i * w, n, x.w());
        }
    }
}

/// A `Win` of 8-bit blocks, two of them, of any length in bits.
fn small() -> (Win<u8>, Seq) {
    let mut v = Win::any();
    v.at = 0;
    v.len = nd::upto8(16) as u64;
    let mut m = v.seq();
    m.cut(v.len);
    (v, m)
}

harnesses! {
    holds view(12) "BitSlice, BitSliceMut of BitVector<u8>, length <= 16, every range up to 255" {
        let (mut v, m) = any_bv::<u8>(2);
        let r = any_range(m.len);
        let s = part(&m, r);
        if nd::bool() { with_range!(r, |x| is(&BitSlice::new(&v, x), &s)) }
        else { with_range!(r, |x| is(&BitSliceMut::new(&mut v, x), &s)) }
    }
    holds nested_ro(12) "subslices of BitSlice, any base of <= 16 bits, every pair of ranges up to 255" {
        let (v, m) = small();
        let r = any_range(m.len);
        nd::assume(r.0 == 0);
        let s = part(&m, r);
        let q = any_range(s.len);
        let t = part(&s, q);
        let b = BitSlice::new(&v, r.1 .. r.2);
        with_range!(q, |x| is(&b.slice(x), &t))
    }
    holds nested_rw(12) "subslices of BitSliceMut, any base of <= 16 bits, every pair of ranges up to 255" {
        let (mut v, m) = small();
        let r = any_range(m.len);
        nd::assume(r.0 == 0);
        let s = part(&m, r);
        let q = any_range(s.len);
        let t = part(&s, q);
        let mut b = BitSliceMut::new(&mut v, r.1 .. r.2);
        if nd::bool() { with_range!(q, |x| is(&b.slice(x), &t)) }
        else { with_range!(q, |x| is(&b.slice_mut(x), &t)) }
    }
    holds thrice(12) "slices of slices of slices, any base of <= 16 bits" {
        let (v, m) = small();
        let (r, s) = { let r = any_range(m.len); (r, part(&m, r)) };
        let (q, t) = { let q = any_range(s.len); (q, part(&s, q)) };
        let (p, u) = { let p = any_range(t.len); (p, part(&t, p)) };
        nd::assume(r.0 == 0 && q.0 == 0 && p.0 == 0);
        let a = BitSlice::new(&v, r.1 .. r.2);
        let b = a.slice(q.1 .. q.2);
        if nd::bool() { is(&b.slice(p.1 .. p.2), &u); }
        else { is(&BitSlice::new(&b, p.1 .. p.2), &u); }
    }
    holds empty(12) "empty and inverted ranges, all u64 starts, any base of <= 16 bits" {
        let (mut v, m) = small();
        let (p, q) = (nd::u64(), nd::u64());
        nd::assume(q <= m.len && p >= q);
        let none = Seq { bits: 0, len: 0 };
        let z = nd::u64();
        match nd::upto8(4) {
            0 => is(&BitSlice::new(&v, p .. q), &none),
            1 => is(&BitSliceMut::new(&mut v, p .. q), &none),
            2 => is(&BitSlice::new(&v, ..).slice(p .. q), &none),
            3 => is(&BitSliceMut::new(&mut v, ..).slice(p .. q), &none),
            _ => is(&BitSliceMut::new(&mut v, ..).slice_mut(p .. q).slice(z ..), &none),
        }
    }
    holds write8(12) "writes through BitSliceMut of BitVector<u8>, length <= 16" {
        let (mut v, mut m) = any_bv::<u8>(2);
        let r = any_range(m.len);
        nd::assume(r.0 == 0);
        let mut s = part(&m, r);
        {
            let mut b = BitSliceMut::new(&mut v, r.1 .. r.2);
            write(&mut b, &mut s);
        }
        if s.len > 0 { m.set(r.1, s.len, s.bits); }
        check!(agrees(&v, &m), "exactly the addressed bits of the base have changed");
    }
    holds write_nested(12) "writes through BitSliceMut and its slice_mut, 16 bits [slow]" {
        let mut v = Win::<u8>::any();
        v.at = 0;
        let mut m = v.seq();
        let r = any_range(m.len);
        nd::assume(r.0 == 0);
        let mut s = part(&m, r);
        let q = any_range(s.len);
        nd::assume(q.0 == 0);
        let mut t = part(&s, q);
        {
            let mut b = BitSliceMut::new(&mut v, r.1 .. r.2);
            let mut c = b.slice_mut(q.1 .. q.2);
            write(&mut c, &mut t);
        }
        if t.len > 0 { s.set(q.1, t.len, t.bits); }
        if s.len > 0 { m.set(r.1, s.len, s.bits); }
        check!(v.seq() == m && !v.outside, "exactly the addressed bits of the base have changed");
    }
    holds far(12) "slices of a vector of 2^64-64 bits, u64 blocks, starting and ending anywhere, one access" {
        let mut v = Win::<u64>::any();
        let mut m = v.seq();
        let (base, len) = (v.at * 64, v.len);
        let (p, q) = (nd::u64(), nd::u64());
        nd::assume(p <= q && q <= len);
        // The access: n bits at bit o of the two tracked blocks.
        let o = nd::upto8(128) as u64;
        let n = nd::upto8(64) as u64;
        nd::assume(o + n <= 128 && base + o >= p && base + o + n <= q);
        let i = base + o - p;
        let x = nd::u64();
        {
            let mut s = BitSliceMut::new(&mut v, p .. q);
            check!(s.bit_len() == q - p, "length");
            match nd::upto8(3) {
                0 => check!(s.get_bits(i, n as usize) as u128 == m.get(o, n), "get_bits"),
                1 => { s.set_bits(i, n as usize, x); m.set(o, n, x as u128); }
                2 => { nd::assume(n > 0); check!(s.get_bit(i) == m.bit(o), "get_bit"); }
                _ => { nd::assume(n > 0); s.set_bit(i, x & 1 == 1); m.set(o, 1, x as u128); }
            }
        }
        check!(v.seq() == m && !v.outside, "exactly the addressed bits have changed");
    }
    holds far_blocks(12) "blocks of slices of a vector of 2^64-64 bits, u64 blocks" {
        let mut v = Win::<u64>::any();
        let mut m = v.seq();
        let (base, len) = (v.at * 64, v.len);
        let (p, q) = (nd::u64(), nd::u64());
        nd::assume(p <= q && q <= len);
        let j = nd::u64();
        nd::assume(j < (q - p) / 64 + ((q - p) % 64 != 0) as u64);
        let start = p + j * 64;
        nd::assume(start >= base && start < base + 64);
        let n = if q - start < 64 { q - start } else { 64 };
        let x = nd::u64();
        {
            let mut s = BitSliceMut::new(&mut v, p .. q);
            check!(s.get_block(j as usize) as u128 == m.get(start - base, n), "get_block");
            s.set_block(j as usize, x);
            m.set(start - base, n, x as u128);
            check!(s.slice(..).get_block(j as usize) as u128 == m.get(start - base, n), "get_block");
        }
        check!(v.seq() == m && !v.outside, "exactly the addressed bits have changed");
    }
    panics rejected(12) "every range with an end past its base of <= 16 bits, nested or not" {
        let (mut v, m) = small();
        let (i, j) = (nd::u8() as u64, nd::u8() as u64);
        nd::assume(i <= j && j <= m.len);
        let (p, q) = (nd::u64(), nd::u64());
        let how = nd::upto8(5);
        nd::assume(q > if how < 2 { m.len } else { j - i });
        let half = nd::bool();
    } => {
        match how {
            0 => { if half { BitSlice::new(&v, p .. q); } else { BitSlice::new(&v, .. q); } }
            1 => { if half { BitSliceMut::new(&mut v, p .. q); } else { BitSliceMut::new(&mut v, .. q); } }
            2 => {
                let s = BitSlice::new(&v, i .. j);
                if half { s.slice(p .. q); } else { s.slice(.. q); }
            }
            3 => {
                let s = BitSliceMut::new(&mut v, i .. j);
                if half { s.slice(p .. q); } else { s.slice(.. q); }
            }
            4 => {
                let mut s = BitSliceMut::new(&mut v, i .. j);
                if half { s.slice_mut(p .. q); } else { s.slice_mut(.. q); }
            }
            _ => {
                let s = BitSlice::new(&v, i .. j);
                let s = s.slice(..);
                if half { BitSlice::new(&s, p .. q); } else { s.slice(.. q); }
            }
        }
    }
    panics escapes(12) "every access through a slice, nested or not, past its end, any base of <= 16 bits" {
        let (mut v, m) = small();
        let (i, j) = (nd::u8() as u64, nd::u8() as u64);
        nd::assume(i <= j && j <= m.len);
        let b = bad(j - i, 8, 6);
        let how = nd::upto8(3);
        nd::assume(how < 2 || b.op < 3);
    } => {
        match how {
            0 => access(&mut BitSliceMut::new(&mut v, i .. j), b),
            1 => access(&mut BitSliceMut::new(&mut v, .. j).slice_mut(i ..), b),
            2 => read(&BitSlice::new(&v, i .. j), b),
            _ => read(&BitSliceMut::new(&mut v, i ..).slice(.. j - i), b),
        }
    }
    holds ranges(2) "into_range, all u64" {
        let (a, b, s, l) = (nd::u64(), nd::u64(), nd::u64(), nd::u64());
        check!((a .. b).into_range(s, l) == (a .. b), "a..b");
        check!((.. b).into_range(s, l) == (s .. b), "..b");
        check!((a ..).into_range(s, l) == (a .. l), "a..");
        check!((..).into_range(s, l) == (s .. l), "..");
    }
}
