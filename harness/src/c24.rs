//! Blocks are written and read in the requested byte order.
use crate::model::*;
use crate::nd;
use crate::stream::{fate, FAIL};
use byteorder::{BigEndian, ByteOrder, LittleEndian, NativeEndian, NetworkEndian};
use std::io::{Error, ErrorKind, Read, Result, Write};
use succinct::storage::BlockType;

/// A sink that takes at most `chunk` bytes at a time and `room` in all, and then fails.
struct Out { buf: [u8; 10], n: usize, room: usize, chunk: usize }

impl Write for Out {
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if self.n >= self.room { return Err(Error::from(FAIL)); }
        let mut k = 0;
        while k < b.len() && k < self.chunk && self.n < self.room {
            self.buf[self.n] = b[k];
            self.n += 1;
            k += 1;
        }
        Ok(k)
    }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}

/// A source that gives at most `chunk` bytes at a time, and at its end nothing, or an
/// error.
struct In { buf: [u8; 10], n: usize, end: usize, chunk: usize, fail: bool }

impl Read for In {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if self.n >= self.end && self.fail { return Err(Error::from(FAIL)); }
        let mut k = 0;
        while k < b.len() && k < self.chunk && self.n < self.end {
            b[k] = self.buf[self.n];
            self.n += 1;
            k += 1;
        }
        Ok(k)
    }
}

/// Byte `i` of `x`, in big-endian order or not.
fn byte<B: Blk>(x: B, i: u64, big: bool) -> u8 {
    let n = B::W / 8;
    shr(x.w(), 8 * if big { n - 1 - i } else { i }) as u8
}

#[inline(always)]
fn write<B: Blk, T: ByteOrder>(big: bool) {
    let (x, n) = (B::nd(), (B::W / 8) as usize);
    let mut o = Out { buf: [0; 10], n: 0, room: nd::upto8(n as u8 + 1) as usize, chunk: n / 3 + 1 + nd::upto8(n as u8) as usize };
    let r = fate(x.write_block::<Out, T>(&mut o));
    let i = nd::upto8(7) as usize;
    if o.room < n {
        check!(r == Err(FAIL), "the sink's error is returned");
        check!(o.n == o.room, "what there is room for is written");
    } else {
        check!(r == Ok(()), "writing succeeds");
        check!(o.n == n, "exactly its bytes are written");
    }
    if i < o.n { check!(o.buf[i] == byte(x, i as u64, big), "a byte of the block"); }
}

#[inline(always)]
fn read<B: Blk, T: ByteOrder>(big: bool) {
    let n = (B::W / 8) as usize;
    let mut buf = [0; 10];
    let mut i = 0;
    while i < n { buf[i] = nd::u8(); i += 1; }
    let mut s = In { buf, n: 0, end: nd::upto8(n as u8 + 1) as usize, chunk: n / 3 + 1 + nd::upto8(n as u8) as usize, fail: nd::bool() };
    let r = fate(B::read_block::<In, T>(&mut s));
    if s.end < n {
        let e = if s.fail { FAIL } else { ErrorKind::UnexpectedEof };
        check!(r == Err(e), "an early end is an error");
    } else {
        check!(s.n == n, "the bytes after the block are left");
        match r {
            Ok(x) => {
                let i = nd::upto8(7) as usize;
                if i < n { check!(byte(x, i as u64, big) == buf[i], "a byte of the block"); }
            }
            Err(_) => check!(false, "reading succeeds"),
        }
    }
}

/// From a slice of exactly its bytes and one more.
#[inline(always)]
fn slice<B: Blk, T: ByteOrder>(big: bool) {
    let x = B::nd();
    let n = (B::W / 8) as usize;
    let mut buf = [0u8; 9];
    {
        let mut w = &mut buf[..n];
        check!(x.write_block::<&mut [u8], T>(&mut w).is_ok(), "writing succeeds");
        check!(w.len() == 0, "exactly its bytes are written");
    }
    let i = nd::upto8(7) as usize;
    if i < n { check!(byte(x, i as u64, big) == buf[i], "a byte of the block"); }
    let mut r = &buf[..];
    check!(fate(B::read_block::<&[u8], T>(&mut r)) == Ok(x), "the block comes back");
    check!(r.len() == 9 - n, "the bytes after the block are left");
}

harnesses! {
    holds write_u8(3) "u8, either byte order, sink with room for 0..=2 bytes, taking any number from 1 at a time [loops write_all=5]" {
        if nd::bool() { write::<u8, BigEndian>(true) } else { write::<u8, LittleEndian>(false) }
    }
    holds write_u16(4) "u16, either byte order, sink with room for 0..=3 bytes, taking any number from 1 at a time [loops write_all=5]" {
        if nd::bool() { write::<u16, BigEndian>(true) } else { write::<u16, LittleEndian>(false) }
    }
    holds write_u32(6) "u32, either byte order, sink with room for 0..=5 bytes, taking any number from 2 at a time [loops write_all=5]" {
        if nd::bool() { write::<u32, BigEndian>(true) } else { write::<u32, LittleEndian>(false) }
    }
    holds write_u64(10) "u64, either byte order, sink with room for 0..=9 bytes, taking any number from 3 at a time [loops write_all=5]" {
        if nd::bool() { write::<u64, BigEndian>(true) } else { write::<u64, LittleEndian>(false) }
    }
    holds write_usize(10) "usize, either byte order, sink with room for 0..=9 bytes, taking any number from 3 at a time [loops write_all=5]" {
        if nd::bool() { write::<usize, BigEndian>(true) } else { write::<usize, LittleEndian>(false) }
    }
    holds read_u8(3) "u8, either byte order, source of 0..=2 bytes giving any number from 1 at a time, then end or error [loops read_exact=5]" {
        if nd::bool() { read::<u8, BigEndian>(true) } else { read::<u8, LittleEndian>(false) }
    }
    holds read_u16(4) "u16, either byte order, source of 0..=3 bytes giving any number from 1 at a time, then end or error [loops read_exact=5]" {
        if nd::bool() { read::<u16, BigEndian>(true) } else { read::<u16, LittleEndian>(false) }
    }
    holds read_u32(6) "u32, either byte order, source of 0..=5 bytes giving any number from 2 at a time, then end or error [loops read_exact=5]" {
        if nd::bool() { read::<u32, BigEndian>(true) } else { read::<u32, LittleEndian>(false) }
    }
    holds read_u64(10) "u64, either byte order, source of 0..=9 bytes giving any number from 3 at a time, then end or error [loops read_exact=5]" {
        if nd::bool() { read::<u64, BigEndian>(true) } else { read::<u64, LittleEndian>(false) }
    }
    holds read_usize(10) "usize, either byte order, source of 0..=9 bytes giving any number from 3 at a time, then end or error [loops read_exact=5]" {
        if nd::bool() { read::<usize, BigEndian>(true) } else { read::<usize, LittleEndian>(false) }
    }
    holds slice_small(12) "u8, u16, either byte order, through byte slices" {
        match nd::upto8(3) {
            0 => slice::<u8, BigEndian>(true),
            1 => slice::<u8, LittleEndian>(false),
            2 => slice::<u16, BigEndian>(true),
            _ => slice::<u16, LittleEndian>(false),
        }
    }
    holds slice_large(12) "u32, u64, usize, either byte order, through byte slices" {
        match nd::upto8(5) {
            0 => slice::<u32, BigEndian>(true),
            1 => slice::<u32, LittleEndian>(false),
            2 => slice::<u64, BigEndian>(true),
            3 => slice::<u64, LittleEndian>(false),
            4 => slice::<usize, BigEndian>(true),
            _ => slice::<usize, LittleEndian>(false),
        }
    }
    holds aliases(12) "u32, network and native byte order, through byte slices" {
        if nd::bool() { slice::<u32, NetworkEndian>(true) } else { slice::<u32, NativeEndian>(cfg!(target_endian = "big")) }
    }
}
