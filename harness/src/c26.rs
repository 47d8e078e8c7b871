//! Space accounting is compositional and includes all heap memory.
use crate::model::*;
use crate::nd;
use std::mem::size_of;
use succinct::bit_vec::{BitSlice, BitSliceMut};
use succinct::{BinSearchSelect, BitVec, BitVecPush, BitVector, IntVec, IntVector, JacobsonRank, Rank9, SpaceUsage};

/// A part with any number of bytes on the heap.
#[derive(Debug, Clone, Copy)]
struct Part { h: usize }

impl SpaceUsage for Part {
    fn is_stack_only() -> bool { false }
    fn heap_bytes(&self) -> usize { self.h }
}

fn part() -> Part { Part { h: nd::u8() as usize } }

struct Plain { a: u8, b: u64 }
succinct::impl_stack_only_space_usage!(Plain);

#[inline(always)]
fn stack_only<T: SpaceUsage>(x: T) {
    check!(T::is_stack_only(), "is_stack_only");
    check!(T::stack_bytes() == size_of::<T>(), "stack_bytes is the size of the type");
    check!(x.heap_bytes() == 0, "stack-only types have no heap bytes");
    check!(x.total_bytes() == size_of::<T>(), "the total is the size of the type");
}

#[inline(always)]
fn heap<T: SpaceUsage>(x: &T, h: usize) {
    check!(!T::is_stack_only(), "is_stack_only");
    check!(T::stack_bytes() == size_of::<T>(), "stack_bytes is the size of the type");
    check!(x.heap_bytes() == h, "heap_bytes");
    check!(x.total_bytes() == size_of::<T>() + h, "total_bytes");
}

/// `x` owns what has been allocated since `before`.
#[inline(always)]
fn owns<T: SpaceUsage>(x: &T, before: u64) { heap(x, (nd::live() - before) as usize) }

harnesses! {
    holds primitives(2) "every primitive type, every value" {
        match nd::upto8(14) {
            0 => stack_only(()),
            1 => stack_only(nd::u8()),
            2 => stack_only(nd::u16()),
            3 => stack_only(nd::u32()),
            4 => stack_only(nd::u64()),
            5 => stack_only(nd::usize()),
            6 => stack_only(nd::u8() as i8),
            7 => stack_only(nd::u16() as i16),
            8 => stack_only(nd::u32() as i32),
            9 => stack_only(nd::u64() as i64),
            10 => stack_only(nd::u64() as isize),
            11 => stack_only(f32::from_bits(nd::u32())),
            12 => stack_only(f64::from_bits(nd::u64())),
            13 => stack_only(Plain { a: 1, b: 2 }),
            _ => stack_only((nd::u8(), nd::u64(), (nd::u16(), 1u8))),
        }
    }
    holds borrowed(6) "references, slices of 0..=2 elements, bit slices" {
        let v = vec![part(), part()];
        let mut b = BitVector::<u8>::new();
        b.push_bit(true);
        let n = nd::upto8(2) as usize;
        match nd::upto8(3) {
            0 => stack_only(&v),
            1 => stack_only(&v[.. n]),
            2 => stack_only(&v[0]),
            _ => stack_only(BitSlice::new(&b, 0 .. 1)),
        }
        let s: BitSlice<BitVector<u8>> = BitSlice::new(&b, 0 .. 1);
        check!(s.total_bytes() == size_of::<BitSlice<BitVector<u8>>>(), "a slice owns nothing");
        let s = BitSliceMut::new(&mut b, 0 .. 1);
        stack_only(s);
    }
    holds tuples(2) "tuples of 1..=12 parts with any heap bytes" {
        let p = part();
        let q = part();
        let s = p.h;
        let t = q.h;
        match nd::upto8(11) {
            0 => heap(&(p,), s),
            1 => heap(&(p, q), s + t),
            2 => heap(&(p, q, p), 2 * s + t),
            3 => heap(&(p, q, q, p), 2 * s + 2 * t),
            4 => heap(&(p, q, p, q, p), 3 * s + 2 * t),
            5 => heap(&(p, p, p, p, p, q), 5 * s + t),
            6 => heap(&(q, p, p, p, p, p, q), 5 * s + 2 * t),
            7 => heap(&(q, p, p, p, p, p, q, q), 5 * s + 3 * t),
            8 => heap(&(q, p, p, p, p, p, q, q, q), 5 * s + 4 * t),
            9 => heap(&(q, p, p, p, p, p, q, q, q, p), 6 * s + 4 * t),
            10 => heap(&(q, p, p, p, p, p, q, q, q, p, p), 7 * s + 4 * t),
            _ => heap(&(q, p, p, p, p, p, q, q, q, p, p, p), 8 * s + 4 * t),
        }
    }
    holds mixed(2) "tuples with one part that is not stack-only, in each position" {
        let p = part();
        match nd::upto8(5) {
            0 => heap(&(p, 1u8, 2u64), p.h),
            1 => heap(&(1u8, p, 2u64), p.h),
            2 => heap(&(1u8, 2u64, p), p.h),
            3 => heap(&(0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, p), p.h),
            4 => heap(&((1u8, p), 2u32), p.h),
            _ => heap(&(p, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8, 0u8), p.h),
        }
    }
    holds vec_plain(8) "Vec<u16> and Vec<(u8, u32)> of capacity 0..=5, 0..=2 elements pushed" {
        let c = nd::upto8(5) as usize;
        let n = nd::upto8(2);
        let b = nd::live();
        if nd::bool() {
            let mut v = Vec::<u16>::with_capacity(c);
            if n > 0 { v.push(1) }
            if n > 1 { v.push(1) }
            heap(&v, 2 * v.capacity());
            owns(&v, b);
        } else {
            let mut v = Vec::<(u8, u32)>::with_capacity(c);
            if n > 0 { v.push((1, 2)) }
            if n > 1 { v.push((1, 2)) }
            heap(&v, 8 * v.capacity());
            owns(&v, b);
        }
    }
    holds vec_parts(8) "Vec<Part> of capacity 0..=4 with 0..=3 parts of any heap bytes" {
        let mut v = Vec::with_capacity(nd::upto8(4) as usize);
        let mut h = 0;
        let mut i = 0;
        while i < 3 {
            if nd::bool() { let p = part(); h += p.h; v.push(p); }
            i += 1;
        }
        h += v.capacity() * size_of::<Part>();
        heap(&v, h);
    }
    holds vec_vec(6) "Vec<Vec<u8>> of two vectors of capacity 0..=8" {
        let b = nd::live();
        let mut v = Vec::with_capacity(2);
        v.push(Vec::<u8>::with_capacity(nd::upto8(8) as usize));
        v.push(Vec::<u8>::with_capacity(nd::upto8(8) as usize));
        owns(&v, b);
    }
    holds boxes(4) "Box of a part, a primitive, a tuple and a Vec" {
        let b = nd::live();
        match nd::upto8(3) {
            0 => { let p = part(); heap(&Box::new(p), size_of::<Part>() + p.h) }
            1 => { let x = Box::new(nd::u32()); owns(&x, b) }
            2 => { let x = Box::new((nd::u32(), Vec::<u16>::with_capacity(nd::upto8(3) as usize))); owns(&x, b) }
            _ => { let x = Box::new(Box::new(nd::u8())); owns(&x, b) }
        }
    }
    holds bit_vector(8) "BitVector<u8>, <u32>, capacity 0..=40 bits, 0..=2 blocks pushed" {
        let c = nd::upto8(40) as u64;
        let n = nd::upto8(2);
        let b = nd::live();
        if nd::bool() {
            let mut v = BitVector::<u8>::with_capacity(c);
            if n > 0 { v.push_block(1) }
            if n > 1 { v.push_block(1) }
            heap(&v, v.block_capacity());
            owns(&v, b);
        } else {
            let mut v = BitVector::<u32>::with_capacity(c);
            if n > 0 { v.push_block(1) }
            if n > 1 { v.push_block(1) }
            heap(&v, 4 * v.block_capacity());
            owns(&v, b);
        }
    }
    holds int_vector(8) "IntVector<u16>, width 3, capacity 0..=12, 0..=2 elements pushed" {
        let n = nd::upto8(2);
        let b = nd::live();
        let mut v = IntVector::<u16>::with_capacity(3, nd::upto8(12) as u64);
        if n > 0 { v.push(1) }
        if n > 1 { v.push(1) }
        heap(&v, 2 * v.block_capacity());
        owns(&v, b);
    }
    holds jacobson(8) "JacobsonRank over BitVector<u32> of 64 bits, in BinSearchSelect" {
        let b = nd::live();
        let mut v = BitVector::<u32>::new();
        v.push_block(nd::u32());
        v.push_block(1);
        let r = JacobsonRank::new(v);
        owns(&r, b);
        let s = BinSearchSelect::new(r);
        owns(&s, b);
    }
    holds rank9(8) "Rank9 over BitVector<u64> of 128 bits, in BinSearchSelect" {
        let b = nd::live();
        let mut v = BitVector::<u64>::new();
        v.push_block(nd::u64());
        v.push_block(1);
        let r = Rank9::new(v);
        owns(&r, b);
        let s = BinSearchSelect::new(r);
        owns(&s, b);
    }
    holds ranked_vec(8) "JacobsonRank and Rank9 over Vec of 2 blocks" {
        let b = nd::live();
        if nd::bool() { let r = JacobsonRank::new(vec![nd::u16(), 3]); owns(&r, b); }
        else { let r = Rank9::new(vec![nd::u64(), 3]); owns(&r, b); }
    }
}
