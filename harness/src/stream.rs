//! Bit sources and sinks to observe the crate through.
use crate::model::*;
use crate::nd;
use std::io::{Error, ErrorKind, Result};
use succinct::stream::{BitRead, BitWrite};

/// The error of a failing stream: a kind the crate never makes itself.
pub const FAIL: ErrorKind = ErrorKind::BrokenPipe;

/// A source of `left` bits, the lowest first, and then an end of file or, if `fail`,
/// an error. Nothing may be read after the error.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Src { pub bits: u128, pub left: u8, pub fail: bool, pub over: bool }

impl Src {
    pub fn of(bits: u128, left: u64) -> Src { Src { bits, left: left as u8, fail: false, over: false } }
    /// Any source of at most `max` bits (at most 128).
    pub fn any(max: u8) -> Src {
        let l = nd::upto8(max);
        let hi = if max > 64 { nd::u64() } else { 0 };
        Src { bits: (nd::u64() as u128 | (hi as u128) << 64) & ones(l as u64), left: l,
              fail: false, over: false }
    }
}

impl BitRead for Src {
    fn read_bit(&mut self) -> Result<Option<bool>> {
        if self.left == 0 {
            if self.fail {
                check!(!self.over, "nothing is read after a failure");
                self.over = true;
                return Err(Error::from(FAIL));
            }
            return Ok(None);
        }
        self.left -= 1;
        let b = self.bits & 1 == 1;
        self.bits >>= 1;
        Ok(Some(b))
    }
}

/// A source of 128 bits, the lowest first, and then zeros for ever (cheaper to decide:
/// no error paths).
#[derive(Clone, Copy)]
pub struct Flow { pub bits: u128, pub used: u64 }

impl BitRead for Flow {
    fn read_bit(&mut self) -> Result<Option<bool>> {
        let b = self.bits & 1 == 1;
        self.bits >>= 1;
        self.used += 1;
        Ok(Some(b))
    }
}

/// A sink that keeps what is written: the first bit written is the highest of the `n`
/// in `reg`. It fails when `room` is used up, and nothing may be written after that.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Sink { pub reg: u128, pub n: u8, pub room: u8, pub over: bool }

impl Sink {
    pub fn new() -> Sink { Sink { reg: 0, n: 0, room: 255, over: false } }
    pub fn failing(room: u8) -> Sink { Sink { reg: 0, n: 0, room, over: false } }
    /// What was written (at most 128 bits), with `tail` after it, as a source.
    pub fn source(&self) -> Src {
        Src { bits: shr(self.reg.reverse_bits(), 128 - self.n as u64), left: self.n, fail: false, over: false }
    }
}

impl BitWrite for Sink {
    fn write_bit(&mut self, b: bool) -> Result<()> {
        if self.n >= self.room {
            check!(!self.over, "nothing is written after a failure");
            self.over = true;
            return Err(Error::from(FAIL));
        }
        self.reg = self.reg << 1 | b as u128;
        self.n += 1;
        Ok(())
    }
}

/// A sink like `Sink` that never fails (cheaper to decide: no error paths).
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Tape { pub reg: u128, pub n: u8 }

impl Tape {
    pub fn new() -> Tape { Tape { reg: 0, n: 0 } }
    /// What was written, and nothing after it, as a source.
    pub fn source(&self) -> Src { Src::of(shr(self.reg.reverse_bits(), 128 - self.n as u64), self.n as u64) }
}

impl BitWrite for Tape {
    fn write_bit(&mut self, b: bool) -> Result<()> {
        self.reg = self.reg << 1 | b as u128;
        self.n += 1;
        Ok(())
    }
}

/// A result: the value, or the kind of the error.
pub fn fate<T>(r: Result<T>) -> std::result::Result<T, ErrorKind> {
    match r { Ok(x) => Ok(x), Err(e) => Err(e.kind()) }
}
