//! The codes, written down from their descriptions. Bits are kept as in `Sink`: the
//! first one is the highest.
use crate::model::*;
use crate::stream::{fate, FAIL};
use std::io::ErrorKind::{InvalidData, UnexpectedEof};
use succinct::coding::UniversalCode;

/// Some bits, the first one highest.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Word { pub reg: u128, pub n: u64 }

impl Word {
    pub fn new() -> Word { Word { reg: 0, n: 0 } }
    /// The low `n` bits of `x`, the highest first ...
    pub fn high(self, n: u64, x: u128) -> Word {
        Word { reg: shl(self.reg, n) | x & ones(n), n: self.n + n }
    }
    /// ... or the lowest.
    pub fn low(self, n: u64, x: u128) -> Word {
        self.high(n, shr(x.reverse_bits(), 128 - n))
    }
}

pub fn lg(x: u64) -> u64 { 63 - x.leading_zeros() as u64 }

pub fn unary(n: u64) -> Word { Word::new().high(n + 1, 1) }

pub fn gamma(x: u64) -> Word { unary(lg(x)).low(lg(x), x as u128) }

pub fn delta(x: u64) -> Word { gamma(lg(x) + 1).low(lg(x), x as u128) }

pub fn omega(x: u64) -> Word {
    // At most five groups: 64 bits, 6, 3 and 2.
    let a = lg(x);
    let b = if a > 1 { lg(a) } else { 0 };
    let c = if b > 1 { lg(b) } else { 0 };
    let mut w = Word::new();
    if c > 1 { w = w.high(2, c as u128); }
    if c > 0 { w = w.high(c + 1, b as u128); }
    if b > 0 { w = w.high(b + 1, a as u128); }
    if a > 0 { w = w.high(a + 1, x as u128); }
    w.high(1, 0)
}

/// The `k`-th Fibonacci number: 1, 2, 3, 5, ...
pub const FIB: [u64; 92] = {
    let mut t = [1u64; 92];
    t[1] = 2;
    let mut i = 2;
    while i < 92 { t[i] = t[i - 1] + t[i - 2]; i += 1; }
    t
};

/// What decoding has to make of a source.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Fate {
    /// There was nothing left.
    End,
    /// A value, and how many bits are left after it.
    Value(u64, u64),
    /// The stream ends inside the codeword.
    Cut,
    /// The value does not fit.
    Big,
    /// It does not fit, and the stream may end inside the codeword as well: either error.
    CutOrBig,
    /// It may not be representable: this value or `Big`.
    Limit(u64, u64),
}
pub use self::Fate::*;
use crate::stream::Src;

/// The source without its first `n` bits.
fn drop(s: Src, n: u64) -> Src { Src { bits: shr(s.bits, n), left: (s.left as u64 - n) as u8, ..s } }

/// One value less.
pub fn lifted(f: Fate) -> Fate {
    match f {
        Value(0, _) => Big,
        Value(v, l) => Value(v - 1, l),
        f => f,
    }
}

pub fn read_unary(s: Src) -> Fate {
    let z = s.bits.trailing_zeros() as u64;
    if s.left == 0 { End }
    else if z >= s.left as u64 { Cut }
    else { Value(z, s.left as u64 - z - 1) }
}

/// The low bits after a header.
fn read_low(h: Fate, s: Src) -> Fate {
    match h {
        Value(n, l) => {
            if n > 63 { CutOrBig }
            else if n > l { Cut }
            else {
                let x = shr(s.bits, s.left as u64 - l) & ones(n) | 1 << n;
                Value(x as u64, l - n)
            }
        }
        f => f,
    }
}

pub fn read_gamma(s: Src) -> Fate { read_low(read_unary(s), s) }

pub fn read_delta(s: Src) -> Fate { read_low(lifted(read_gamma(s)), s) }

pub fn read_omega(mut s: Src) -> Fate {
    if s.left == 0 { return End; }
    let mut n: u64 = 1;
    let mut k = 0;
    while k < 7 {
        if s.left == 0 { return Cut; }
        if s.bits & 1 == 0 { return Value(n, s.left as u64 - 1); }
        if n > 63 { return CutOrBig; }
        if (s.left as u64) < n + 1 { return Cut; }
        // The n + 1 bits, the highest first; the first is a one.
        let x = ((s.bits as u64) << (63 - n)).reverse_bits();
        let x = if n == 63 { (s.bits as u64).reverse_bits() } else { x };
        s = drop(s, n + 1);
        n = x;
        k += 1;
    }
    panic!("VERIF: too many groups")
}

/// At most 100 bits.
pub fn read_fib(s: Src) -> Fate {
    if s.left == 0 { return End; }
    // The first two ones in a row.
    let p = (s.bits & s.bits >> 1).trailing_zeros() as u64;
    if p >= 128 {
        return if shr(s.bits, 91) != 0 || s.left > 91 { CutOrBig } else { Cut };
    }
    let z = s.bits & ones(p + 1);
    let left = s.left as u64 - p - 2;
    if shr(z, 92) != 0 { return Big; }
    let (mut sum, mut k) = (0u128, 0);
    while k < 92 {
        if z >> k & 1 == 1 { sum += FIB[k] as u128; }
        k += 1;
    }
    if sum > u64::MAX as u128 { Big }
    else if sum >= FIB[91] as u128 { Limit(sum as u64, left) }
    else { Value(sum as u64, left) }
}

/// `d` digits of `n` bits at most.
#[inline(always)]
pub fn read_comma(n: u64, d: u64, mut s: Src) -> Fate {
    if s.left == 0 { return End; }
    let base = ones(n);
    let (mut sum, mut k, mut big) = (0u128, 0, false);
    while k < d {
        if (s.left as u64) < n { return if big { CutOrBig } else { Cut }; }
        let x = s.bits & base;
        s = drop(s, n);
        if x == base { return if big { Big } else { Value(sum as u64, s.left as u64) }; }
        if !big { sum = sum * base + x; }
        if sum > u64::MAX as u128 { big = true; }
        k += 1;
    }
    panic!("VERIF: too many digits")
}

/// `c` makes `f` of `s`.
#[inline(always)]
pub fn is<C: UniversalCode>(c: C, s: Src, f: Fate) {
    let mut t = s;
    let r = fate(c.decode(&mut t));
    // A source that fails does so where another one would end.
    let eof = if s.fail { FAIL } else { UnexpectedEof };
    match f {
        End => if s.fail { check!(r == Err(FAIL), "the source's error is returned") }
               else { check!(r == Ok(None), "None at the end of the stream") },
        Value(x, l) => {
            check!(r == Ok(Some(x)), "the value the bits denote");
            check!(t.left as u64 == l && t.bits == shr(s.bits, s.left as u64 - l), "exactly the codeword is consumed");
        }
        Cut => check!(r == Err(eof), "a stream that ends inside a codeword is an error"),
        Big => check!(r == Err(InvalidData), "a value that does not fit is InvalidData"),
        CutOrBig => check!(r == Err(InvalidData) || r == Err(eof), "an oversize codeword is an error"),
        Limit(x, _) => check!(r == Err(InvalidData) || r == Ok(Some(x)), "the value or InvalidData"),
    }
}
