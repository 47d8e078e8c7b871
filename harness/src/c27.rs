//! Binary formatting prints the bits in order.
use crate::model::*;
use crate::nd;
use crate::shape::{bits, Bits};
use std::fmt::{Error, Write};

/// A sink that knows what it should be given, takes `room` characters, and then fails.
struct Text { want: Bits, n: u64, room: u64, over: bool, wrong: bool }

impl Text {
    fn put(&mut self, c: u8) -> Result<(), Error> {
        if self.n >= self.room {
            check!(!self.over, "nothing is written after a failure");
            self.over = true;
            return Err(Error);
        }
        check!(self.n < self.want.len, "one character per bit, and nothing else");
        // Collected and not checked here: no branches, so cheaper to decide.
        self.wrong |= c != b'0' + self.want.bit(self.n) as u8;
        self.n += 1;
        Ok(())
    }
}

impl Write for Text {
    fn write_str(&mut self, s: &str) -> Result<(), Error> {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if self.put(b[i]).is_err() { return Err(Error); }
            i += 1;
        }
        Ok(())
    }
    fn write_char(&mut self, c: char) -> Result<(), Error> {
        check!(c.is_ascii(), "ones and zeros");
        self.put(c as u8)
    }
}

/// Any vector of `len` bits, into a sink with room for `room`.
#[inline(always)]
fn binary<B: Blk>(len: u64, room: u64) {
    let (v, want) = bits::<B>(len);
    let mut t = Text { want, n: 0, room, over: false, wrong: false };
    let r = write!(t, "{:b}", v).is_ok();
    check!(r == (len <= room), "a formatter error is returned");
    check!(!t.wrong, "the bit in that position");
    check!(t.n == if r { len } else { room }, "one character per bit");
}

/// One of these lengths.
macro_rules! lengths {
    ($b:ident: $first:literal $( $l:literal )*) => {{
        let l = nd::u8() as u64;
        if l == $first { binary::<$b>($first, !0) }
        $( else if l == $l { binary::<$b>($l, !0) } )*
        else { nd::assume(false) }
    }};
}

harnesses! {
    holds u8_short(24) "BitVector<u8> of 0..=9 bits" { lengths!(u8: 0 1 2 3 4 5 6 7 8 9) }
    holds u8_long(28) "BitVector<u8> of 15, 16, 17 and 26 bits" { lengths!(u8: 15 16 17 26) }
    holds u16_long(40) "BitVector<u16> of 15, 16, 17 and 33 bits" { lengths!(u16: 15 16 17 33) }
    holds u32_long(66) "BitVector<u32> of 31, 33 and 50 bits" { lengths!(u32: 31 33 50) }
    holds u64_short(66) "BitVector<u64> of 1 and 63 bits" { lengths!(u64: 1 63) }
    holds u64_long(70) "BitVector<u64> of 66 bits" { binary::<u64>(66, !0) }
    holds usize_long(70) "BitVector<usize> of 66 bits" { binary::<usize>(66, !0) }
    holds_t u64_longer(140) "BitVector<u64> of 130 bits" { binary::<u64>(130, !0) }
    holds fails(24) "BitVector<u8> of 18 bits, formatter failing after 0..=18 characters" {
        binary::<u8>(18, nd::upto8(18) as u64)
    }
}
