//! Integers travel through bit streams unchanged in either bit order.
use crate::model::*;
use crate::nd;
use crate::stream::*;
use std::collections::VecDeque;
use std::io::ErrorKind;
use succinct::stream::{BitBuffer, BitRead, BitWrite};
use succinct::{BitVec, BitVector};

/// An integer type: its width, its bits.
trait Num: num_traits::PrimInt {
    const BITS: u64;
    fn any() -> Self;
    fn bits(self) -> u128;
    fn of(x: u128) -> Self;
}

macro_rules! num {
    ( $( $t:ident $u:ident $nd:ident )* ) => { $(
        impl Num for $t {
            const BITS: u64 = $t::BITS as u64;
            fn any() -> $t { nd::$nd() as $t }
            fn bits(self) -> u128 { self as $u as u128 }
            fn of(x: u128) -> $t { x as $t }
        }
    )* };
}
num! { u8 u8 u8  u16 u16 u16  u32 u32 u32  u64 u64 u64  usize usize usize
       i8 u8 u8  i16 u16 u16  i32 u32 u32  i64 u64 u64  isize usize usize }

/// Any value, `n` bits of it.
#[inline(always)]
fn write<N: Num>(n: u64, be: bool) {
    let x = N::any();
    let mut s = Sink::new();
    if !be {
        check!(s.write_int(n as usize, x).is_ok(), "write_int succeeds");
        check!(s.n as u64 == n, "write_int writes that many bits");
        check!(s.source().bits == x.bits() & ones(n), "write_int writes the low bits, the lowest first");
    } else {
        check!(s.write_int_be(n as usize, x).is_ok(), "write_int_be succeeds");
        check!(s.n as u64 == n, "write_int_be writes that many bits");
        check!(s.reg == x.bits() & ones(n), "write_int_be writes the low bits, the highest first");
    }
}

/// Any source, `n` bits of it.
#[inline(always)]
fn read<N: Num>(n: u64, be: bool) {
    let s = Src::any(N::BITS as u8 + 2);
    let mut t = s;
    let r = fate(if be { t.read_int_be::<N>(n as usize) } else { t.read_int::<N>(n as usize) });
    let mut e = s.bits & ones(n);
    if be { e = shr(e.reverse_bits(), 128 - n) }
    if n == 0 {
        check!(r == Ok(Some(N::zero())), "no bits read as zero");
        check!(t == s, "reading no bits consumes nothing");
    } else if s.left == 0 {
        check!(r == Ok(None), "None at the end");
    } else if (s.left as u64) < n {
        check!(r == Err(ErrorKind::UnexpectedEof), "UnexpectedEof when the stream runs out");
    } else {
        check!(r == Ok(Some(N::of(e))), "the value read");
        check!(t.left as u64 == s.left as u64 - n && t.bits == shr(s.bits, n), "exactly the bits read are consumed");
    }
}

#[inline(always)]
fn through(be: bool) {
    let (x, y, p) = (nd::u8(), nd::u8(), nd::upto8(6) as u64);
    let (v, _) = bv_of_len::<u8>(6);
    let mut b = BitBuffer::from(v);
    check!(b.seek(p).is_ok(), "seek");
    if be { check!(b.write_int_be(3, x).is_ok(), "write_int_be"); }
    else { check!(b.write_int(3, x).is_ok(), "write_int"); }
    check!(b.write_int(1, y).is_ok(), "write_int");
    check!(b.position() == p + 4, "position");
    check!(b.seek(p).is_ok(), "seek");
    let r = fate(if be { b.read_int_be::<u8>(3) } else { b.read_int::<u8>(3) });
    check!(r == Ok(Some(x & 7)), "the same number");
    check!(fate(b.read_int::<u8>(1)) == Ok(Some(y & 1)), "what follows");
    check!(b.position() == p + 4, "position");
}

harnesses! {
    holds write_u8(10) "u8, every value and number of bits, both orders" { write::<u8>(nd::upto8(8) as u64, nd::bool()) }
    holds write_i8(10) "i8, every value and number of bits, both orders" { write::<i8>(nd::upto8(8) as u64, nd::bool()) }
    holds write_u16(18) "u16, every value and number of bits, both orders" { write::<u16>(nd::upto8(16) as u64, nd::bool()) }
    holds write_i16(18) "i16, every value and number of bits, both orders" { write::<i16>(nd::upto8(16) as u64, nd::bool()) }
    holds write_u32_32(34) "u32, 32 bits, lowest first" { write::<u32>(32, false) }
    holds write_u32_31(34) "u32, 31 bits, lowest first" { write::<u32>(31, false) }
    holds write_be_u32_32(34) "u32, 32 bits, highest first" { write::<u32>(32, true) }
    holds write_be_u32_31(34) "u32, 31 bits, highest first" { write::<u32>(31, true) }
    holds write_i32_32(34) "i32, 32 bits, lowest first" { write::<i32>(32, false) }
    holds write_be_i32_32(34) "i32, 32 bits, highest first" { write::<i32>(32, true) }
    holds write_u64_64(66) "u64, 64 bits, lowest first" { write::<u64>(64, false) }
    holds write_u64_63(66) "u64, 63 bits, lowest first" { write::<u64>(63, false) }
    holds write_be_u64_64(66) "u64, 64 bits, highest first" { write::<u64>(64, true) }
    holds write_be_u64_63(66) "u64, 63 bits, highest first" { write::<u64>(63, true) }
    holds write_i64_64(66) "i64, 64 bits, lowest first" { write::<i64>(64, false) }
    holds write_be_i64_64(66) "i64, 64 bits, highest first" { write::<i64>(64, true) }
    holds_t write_u32(34) "u32, every value and number of bits, lowest first" { write::<u32>(nd::upto8(32) as u64, false) }
    holds_t write_be_u32(34) "u32, every value and number of bits, highest first" { write::<u32>(nd::upto8(32) as u64, true) }
    holds_t write_i32(34) "i32, every value and number of bits, lowest first" { write::<i32>(nd::upto8(32) as u64, false) }
    holds_t write_be_i32(34) "i32, every value and number of bits, highest first" { write::<i32>(nd::upto8(32) as u64, true) }
    holds_t write_u64(66) "u64, every value and number of bits, lowest first" { write::<u64>(nd::upto8(64) as u64, false) }
    holds_t write_be_u64(66) "u64, every value and number of bits, highest first" { write::<u64>(nd::upto8(64) as u64, true) }
    holds_t write_i64(66) "i64, every value and number of bits, lowest first" { write::<i64>(nd::upto8(64) as u64, false) }
    holds_t write_be_i64(66) "i64, every value and number of bits, highest first" { write::<i64>(nd::upto8(64) as u64, true) }
    holds read_u8(10) "u8, every number of bits and source of at most two bits more than the type, both orders" { read::<u8>(nd::upto8(8) as u64, nd::bool()) }
    holds read_i8(10) "i8, every number of bits and source of at most two bits more than the type, both orders" { read::<i8>(nd::upto8(8) as u64, nd::bool()) }
    holds read_u16(18) "u16, every number of bits and source of at most two bits more than the type, both orders" { read::<u16>(nd::upto8(16) as u64, nd::bool()) }
    holds read_i16(18) "i16, every number of bits and source of at most two bits more than the type, both orders" { read::<i16>(nd::upto8(16) as u64, nd::bool()) }
    holds read_u32_31(34) "u32, 31 bits, lowest first" { read::<u32>(31, false) }
    holds read_be_u32_31(34) "u32, 31 bits, highest first" { read::<u32>(31, true) }
    holds read_i32_32(34) "i32, 32 bits, lowest first" { read::<i32>(32, false) }
    holds read_be_i32_32(34) "i32, 32 bits, highest first" { read::<i32>(32, true) }
    holds read_u64_63(66) "u64, 63 bits, lowest first" { read::<u64>(63, false) }
    holds read_be_u64_63(66) "u64, 63 bits, highest first" { read::<u64>(63, true) }
    holds read_i64_64(66) "i64, 64 bits, lowest first" { read::<i64>(64, false) }
    holds read_be_i64_64(66) "i64, 64 bits, highest first" { read::<i64>(64, true) }
    holds_t read_u32(34) "u32, every number of bits and source of at most two bits more than the type, lowest first" { read::<u32>(nd::upto8(32) as u64, false) }
    holds_t read_be_u32(34) "u32, every number of bits and source of at most two bits more than the type, highest first" { read::<u32>(nd::upto8(32) as u64, true) }
    holds_t read_i32(34) "i32, every number of bits and source of at most two bits more than the type, lowest first" { read::<i32>(nd::upto8(32) as u64, false) }
    holds_t read_be_i32(34) "i32, every number of bits and source of at most two bits more than the type, highest first" { read::<i32>(nd::upto8(32) as u64, true) }
    holds_t read_u64(66) "u64, every number of bits and source of at most two bits more than the type, lowest first" { read::<u64>(nd::upto8(64) as u64, false) }
    holds_t read_be_u64(66) "u64, every number of bits and source of at most two bits more than the type, highest first" { read::<u64>(nd::upto8(64) as u64, true) }
    holds_t read_i64(66) "i64, every number of bits and source of at most two bits more than the type, lowest first" { read::<i64>(nd::upto8(64) as u64, false) }
    holds_t read_be_i64(66) "i64, every number of bits and source of at most two bits more than the type, highest first" { read::<i64>(nd::upto8(64) as u64, true) }
    holds buffer(10) "through a BitBuffer<u8> of 6 bits, from any position: 3 bits, highest first, and 1 more [slow]" { through(true) }
    holds_t buffer_le(10) "through a BitBuffer<u8> of 6 bits, from any position: 3 bits, lowest first, and 1 more" { through(false) }
    holds deque(8) "through a VecDeque<bool>: first in, first out, 4 operations [slow]" {
        let mut d = VecDeque::<bool>::new();
        let (mut bits, mut n) = (0u8, 0u8);
        let mut i = 0;
        while i < 4 {
            if nd::bool() {
                let b = nd::bool();
                check!(d.write_bit(b).is_ok(), "write_bit");
                bits |= (b as u8) << n;
                n += 1;
            } else {
                check!(fate(d.read_bit()) == Ok(if n > 0 { Some(bits & 1 == 1) } else { None }), "read_bit");
                if n > 0 { bits >>= 1; n -= 1; }
            }
            i += 1;
        }
    }
}
