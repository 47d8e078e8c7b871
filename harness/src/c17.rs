//! A bit buffer is a cursor over a bit vector.
use crate::model::*;
use crate::nd;
use crate::oracle::Win;
use crate::stream::*;
use std::io::ErrorKind;
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

/// What a buffer of `m` at `pos` does, `n` times.
#[inline(always)]
fn steps<V: BitVecPush>(b: &mut BitBuffer<V>, m: &mut Seq, pos: &mut u64, n: u64) where V::Block: Blk {
    let mut k = 0;
    while k < n {
        let x = nd::u8();
        match nd::upto8(2) {
            0 => {
                let e = if *pos < m.len { Some(m.bit(*pos)) } else { None };
                check!(fate(b.read_bit()) == Ok(e), "read_bit");
                if e.is_some() { *pos += 1; }
            }
            1 => {
                check!(fate(b.write_bit(x & 1 == 1)) == Ok(()), "write_bit");
                if *pos == m.len { m.push(1, x as u128); } else { m.set(*pos, 1, x as u128); }
                *pos += 1;
            }
            _ => {
                let r = fate(b.seek(x as u64));
                if x as u64 <= m.len {
                    check!(r == Ok(()), "seeking inside the vector");
                    *pos = x as u64;
                } else {
                    check!(r == Err(ErrorKind::NotFound), "seeking past the end");
                }
            }
        }
        check!(b.position() == *pos, "position");
        k += 1;
    }
}

/// Any vector of at most 2^64-64 bits, any cursor, one step.
#[inline(always)]
fn far(op: u8) {
    let mut v = Win::<u64>::any();
    let l = nd::u64();
    nd::assume(l <= v.len);
    v.len = l;
    let mut m = v.seq();
    let at = v.at;
    let mut b = BitBuffer::from(v);
    check!(b.position() == 0, "a buffer for reading starts at 0");
    let p = nd::u64();
    check!(fate(b.seek(p)) == if p <= l { Ok(()) } else { Err(ErrorKind::NotFound) }, "seek");
    check!(b.position() == if p <= l { p } else { 0 }, "position after seek");
    nd::assume(p <= l);
    match op {
        0 => {
            // Cursor in a tracked block (all others are zero).
            let o = if p / 64 == at { p % 64 } else { p % 64 + 64 };
            let e = p / 64 >= at && p / 64 - at <= 1 && m.bit(o);
            let r = fate(b.read_bit());
            check!(r == Ok(if p < l { Some(e) } else { None }), "read_bit");
            check!(b.position() == if p < l { p + 1 } else { p }, "position after read_bit");
            let z = b.into_inner();
            check!(z.len == l && z.seq() == m && !z.outside, "reading changes nothing");
        }
        _ => {
            nd::assume(p / 64 >= at && p / 64 - at <= 1);
            let x = nd::bool();
            check!(fate(b.write_bit(x)) == Ok(()), "write_bit");
            check!(b.position() == p + 1, "position after write_bit");
            let z = b.into_inner();
            m.set(p % 64 + if p / 64 == at { 0 } else { 64 }, 1, x as u128);
            check!(z.len == if p < l { l } else { l + 1 }, "length after write_bit");
            check!(z.seq() == m && !z.outside, "write_bit changes exactly that bit");
        }
    }
}

harnesses! {
    holds step(12) "BitBuffer<BitVector<u8>>, length <= 16, from any cursor, one operation" {
        let (v, mut m) = any_bv::<u8>(2);
        let p = nd::upto8(16) as u64;
        nd::assume(p <= m.len);
        let mut b = BitBuffer::from(v);
        check!(b.position() == 0, "a buffer for reading starts at 0");
        check!(fate(b.seek(p)) == Ok(()), "seek");
        let mut pos = p;
        steps(&mut b, &mut m, &mut pos, 1);
        check!(agrees(&b.into_inner(), &m), "contents");
    }
    holds pair(12) "BitBuffer<BitVector<u8>>, length <= 14, from the start, 3 operations [slow]" {
        let (v, mut m) = any_bv::<u8>(2);
        nd::assume(m.len <= 14);
        let mut pos = 0;
        let mut b = BitBuffer::from(v);
        steps(&mut b, &mut m, &mut pos, 3);
        check!(agrees(&b, &m), "contents");
    }
    holds appending(12) "BitBuffer::append of BitVector<u8>, length <= 12, two operations" {
        let (v, mut m) = any_bv::<u8>(2);
        nd::assume(m.len <= 12);
        let mut pos = m.len;
        let mut b = BitBuffer::append(v);
        check!(b.position() == pos, "a buffer for appending starts at the end");
        steps(&mut b, &mut m, &mut pos, 2);
        check!(agrees(b.inner(), &m), "contents");
    }
    holds fresh(12) "BitBuffer::<BitVector<u8>>::new and with_capacity, two operations [slow]" {
        let mut m = Seq { bits: 0, len: 0 };
        let mut pos = 0;
        let mut b = if nd::bool() { BitBuffer::<BitVector<u8>>::new() } else { BitBuffer::with_capacity(20) };
        check!(b.position() == 0 && b.bit_len() == 0, "a new buffer is empty");
        steps(&mut b, &mut m, &mut pos, 2);
        check!(agrees(&b, &m), "contents");
    }
    holds far_read(12) "a vector of any length up to 2^64-64, any cursor: seek, read_bit" { far(0) }
    holds far_write(12) "a vector of any length up to 2^64-64, any cursor: seek, write_bit" { far(1) }
    holds_t long(12) "BitBuffer<BitVector<u8>>, length <= 8, from the start, 5 operations" {
        let (v, mut m) = any_bv::<u8>(1);
        let mut pos = 0;
        let mut b = BitBuffer::from(v);
        steps(&mut b, &mut m, &mut pos, 5);
        check!(agrees(&b, &m), "contents");
    }
}
