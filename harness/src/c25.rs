//! Iterators yield exactly the elements, from both ends, with exact lengths.
use crate::model::*;
use crate::nd;
use succinct::{BitVec, BitVector, IntVec, IntVector};

/// An iterator over `len` elements, the `i`-th of them `el(i)`: `k` operations of any
/// kind in any order, and one that consumes it.
#[inline(always)]
fn run<T: PartialEq + Copy, I: Iterator<Item = T> + DoubleEndedIterator + ExactSizeIterator>
    (mut it: I, len: u64, el: &dyn Fn(u64) -> T, steps: u64)
{
    let (mut a, mut b) = (0, len);
    let mut k = 0;
    while k < steps {
        match nd::upto8(2) {
            0 => {
                let e = if a < b { a += 1; Some(el(a - 1)) } else { None };
                check!(it.next() == e, "next");
            }
            1 => {
                let e = if a < b { b -= 1; Some(el(b)) } else { None };
                check!(it.next_back() == e, "next_back");
            }
            _ => {
                let n = nd::u64();
                let e = if n < b - a { a += n + 1; Some(el(a - 1)) } else { a = b; None };
                check!(it.nth(n as usize) == e, "nth skips that many and yields the next");
            }
        }
        check!(it.len() as u64 == b - a, "the length left");
        check!(it.size_hint() == ((b - a) as usize, Some((b - a) as usize)), "the size hint");
        k += 1;
    }
    match nd::upto8(2) {
        0 => check!(it.count() as u64 == b - a, "count is the number of elements left"),
        1 => check!(it.last() == if a < b { Some(el(b - 1)) } else { None }, "last is the final element left"),
        _ => {}
    }
}

#[inline(always)]
fn bits<B: Blk>(n: u64, steps: u64) {
    let (v, m) = any_bv::<B>(n);
    run(v.iter(), m.len, &|i| m.bit(i), steps);
}

#[inline(always)]
fn ints<B: Blk>(n: u64, k: u64, steps: u64) {
    let (v, m, l) = any_iv::<B>(n, k);
    run(v.iter(), l, &|i| Blk::of(m.get(i * k, k)), steps);
}

/// All of it, forwards and backwards, by `for` loops.
#[inline(always)]
fn whole<B: Blk>(n: u64, k: u64) {
    let (v, m, l) = any_iv::<B>(n, k);
    let mut i = 0;
    for x in &v { check!(i < l && x == Blk::of(m.get(i * k, k)), "in order"); i += 1; }
    check!(i == l, "all elements");
    for x in v.iter().rev() { i -= 1; check!(x == Blk::of(m.get(i * k, k)), "backwards"); }
    check!(i == 0, "all elements");
}

harnesses! {
    holds bits_u8(6) "BitVector<u8>, at most 24 bits, 4 operations and a last one" { bits::<u8>(3, 4) }
    holds bits_u64(6) "BitVector<u64>, at most 128 bits, 4 operations and a last one" { bits::<u64>(2, 4) }
    holds bits_usize(6) "BitVector<usize>, at most 64 bits, 3 operations and a last one" { bits::<usize>(1, 3) }
    holds ints_u8(6) "IntVector<u8>, any width, at most 16 bits, 3 operations and a last one" { ints::<u8>(2, any_width::<u8>(), 3) }
    holds ints_u16(6) "IntVector<u16>, width 5, at most 32 bits, 4 operations and a last one" { ints::<u16>(2, 5, 4) }
    holds ints_u64(6) "IntVector<u64>, width 13, at most 128 bits, 4 operations and a last one" { ints::<u64>(2, 13, 4) }
    holds ints_u64_64(6) "IntVector<u64>, width 64, at most 2 elements, 4 operations and a last one" { ints::<u64>(2, 64, 4) }
    holds whole_u8(10) "IntVector<u8>, width 3, at most 5 elements, forwards and backwards" { whole::<u8>(2, 3) }
    holds whole_bits(14) "BitVector<u8>, at most 12 bits, forwards and backwards" {
        let (v, m) = any_bv::<u8>(2);
        nd::assume(m.len <= 12);
        let mut i = 0;
        for x in &v { check!(i < m.len && x == m.bit(i), "in order"); i += 1; }
        check!(i == m.len, "all elements");
        for x in v.iter().rev() { i -= 1; check!(x == m.bit(i), "backwards"); }
        check!(i == 0, "all elements");
    }
    holds_t ints_u8_t(6) "IntVector<u8>, any width, at most 24 bits, 4 operations and a last one" { ints::<u8>(3, any_width::<u8>(), 4) }
    holds_t ints_u32_t(6) "IntVector<u32>, any width, at most 96 bits, 4 operations and a last one" { ints::<u32>(3, any_width::<u32>(), 4) }
    holds_t ints_u64_t(6) "IntVector<u64>, any width, at most 128 bits, 4 operations and a last one" { ints::<u64>(2, any_width::<u64>(), 4) }
    holds_t bits_u8_t(10) "BitVector<u8>, at most 32 bits, 8 operations and a last one" { bits::<u8>(4, 8) }
}
