//! Codewords have the documented format.
use crate::codes;
use crate::codes::Word;
use crate::model::*;
use crate::nd;
use crate::stream::*;
use succinct::coding::*;
use succinct::stream::BitWrite;

/// What `c` writes for `x` is `w`.
#[inline(always)]
fn is<C: UniversalCode>(c: C, x: u64, w: Word) {
    let mut s = Tape::new();
    check!(fate(c.encode(&mut s, x)) == Ok(()), "encoding succeeds");
    check!(s.n as u64 == w.n, "length of the codeword");
    check!(s.reg == w.reg, "the codeword");
}

/// Any number of `n` bits or less, or of exactly that many.
fn value(n: u64) -> u64 { let x = nd::u64(); nd::assume(x > 0 && (n == 64 || x >> n == 0)); x }
fn exactly(n: u64) -> u64 { let x = nd::u64(); nd::assume(x >> (n - 1) == 1); x }

/// Any of 16 values.
fn near(base: u64) -> u64 { base | nd::upto8(15) as u64 }

/// What Fibonacci writes for `x`: the Zeckendorf representation, which is the only one
/// without two neighbouring ones, and another one.
#[inline(always)]
fn fib(x: u64) {
    let mut s = Tape::new();
    check!(fate(Fibonacci.encode(&mut s, x)) == Ok(()), "encoding succeeds");
    check!(s.n >= 2 && s.n <= 93, "length of the codeword");
    check!(s.reg & 3 == 3, "the codeword ends in two ones");
    let z = s.reg >> 1;
    check!(z & z >> 1 == 0, "no two ones before that");
    let z = s.source().bits;
    let (mut sum, mut k) = (0u128, 0);
    while k + 1 < s.n as usize {
        if z >> k & 1 == 1 { sum += codes::FIB[k] as u128; }
        k += 1;
    }
    check!(sum == x as u128, "the Fibonacci numbers add up to the value");
}

/// What Comma(n) writes for `x`, which has at most `d` digits: base 2^n - 1 digits, the
/// highest first, and the digit that is not used.
#[inline(always)]
fn comma(n: u8, d: u64, x: u64) {
    let base = ones(n as u64);
    let mut s = Tape::new();
    check!(fate(Comma(n).encode(&mut s, x)) == Ok(()), "encoding succeeds");
    check!(s.n % n == 0 && s.n as u64 / n as u64 <= d + 1 && s.n > 0, "whole digits");
    // Add them up as they come.
    let mut z = s.source().bits;
    let (mut sum, mut k, mut left) = (0u128, 0, s.n as u64 / n as u64 - 1);
    while k < d {
        if left > 0 {
            check!(z & base < base, "digits are below the base");
            check!(k > 0 || z & base > 0, "the first digit is not zero");
            sum = sum * base + (z & base);
            z = shr(z, n as u64);
            left -= 1;
        }
        k += 1;
    }
    check!(z == base, "the last digit is the unused one");
    check!(sum == x as u128, "the digits are those of the value");
}

/// A sink for at most 256 bits.
struct Wide { hi: u128, lo: u128, n: u8 }

impl BitWrite for Wide {
    fn write_bit(&mut self, b: bool) -> std::io::Result<()> {
        self.hi = self.hi << 1 | self.lo >> 127;
        self.lo = self.lo << 1 | b as u128;
        self.n += 1;
        Ok(())
    }
}

harnesses! {
    holds unary_all(66) "Unary, values 0..=64" { let x = nd::upto8(64) as u64; is(Unary, x, codes::unary(x)); }
    holds gamma_20(22) "GAMMA, values below 2^20" { let x = value(20); is(GAMMA, x, codes::gamma(x)); }
    holds gamma_64(66) "GAMMA, all values" { let x = value(64); is(GAMMA, x, codes::gamma(x)); }
    holds delta_20(22) "DELTA, values below 2^20" { let x = value(20); is(DELTA, x, codes::delta(x)); }
    holds delta_64(66) "DELTA, all values [slow]" { let x = value(64); is(DELTA, x, codes::delta(x)); }
    holds lift_unary(18) "Lift0(Unary), values 0..=15" { let x = nd::upto8(15) as u64; is(Lift0(Unary), x, codes::unary(x + 1)); }
    holds lift_gamma(66) "Lift0(GAMMA), all values but the largest" {
        let x = nd::u64(); nd::assume(x < !0);
        is(Lift0(GAMMA), x, codes::gamma(x + 1));
    }
    holds elias_lift(22) "Elias(Lift0(Unary)), values below 2^12" {
        // Any header will do.
        let x = value(12);
        let l = codes::lg(x);
        is(Elias(Lift0(Unary)), x, codes::unary(l + 1).low(l, x as u128));
    }
    holds omega_6(8) "OMEGA, values below 2^6 [loops 5elias=5]" { let x = value(6); is(Omega, x, codes::omega(x)); }
    holds omega_17(18) "OMEGA, 16 values of 17 bits [loops 5elias=5] [heap 256]" { let x = near(0x1_0000); is(Omega, x, codes::omega(x)); }
    holds omega_64(65) "OMEGA, 16 values of 64 bits [loops 5elias=5] [heap 256] [slow]" { let x = near(0xc0de_1234_5678_9ab0); is(Omega, x, codes::omega(x)); }
    holds_t omega_15(16) "OMEGA, 16 values of 15 bits [loops 5elias=5] [heap 256]" { let x = near(0x5a30); is(Omega, x, codes::omega(x)); }
    holds_t omega_33(66) "OMEGA, 16 values of 33 bits [loops 5elias=5] [heap 256]" { let x = near(0x1_c0de_5a30); is(Omega, x, codes::omega(x)); }
    holds_t omega_63(66) "OMEGA, 16 values of 63 bits [loops 5elias=5] [heap 256]" { let x = near(0x7fff_ffff_ffff_fff0); is(Omega, x, codes::omega(x)); }
    holds_t omega_12(14) "OMEGA, values below 2^12 [loops 5elias=5] [heap 256]" { let x = value(12); is(Omega, x, codes::omega(x)); }
    holds_t omega_all(66) "OMEGA, all values [loops 5elias=5] [heap 256]" { let x = value(64); is(Omega, x, codes::omega(x)); }
    holds fib_8(15) "Fibonacci, values 1..=255" { fib(value(8)); }
    holds fib_233(20) "Fibonacci, values 224..=239 (233 is a Fibonacci number)" { fib(near(224)); }
    holds fib_top(100) "Fibonacci, the largest value it encodes [heap 256] [slow]" { fib(codes::FIB[91] - 1); }
    holds_t fib_40(70) "Fibonacci, 16 values around F(50)" { fib(near(codes::FIB[50] & !15)); }
    holds_t fib_12(22) "Fibonacci, values 1..=4095" { fib(value(12)); }
    holds_t fib_window(100) "Fibonacci, the 16 values up to the largest it encodes [heap 256]" {
        let x = near(codes::FIB[91] & !15);
        nd::assume(x < codes::FIB[91]);
        fib(x);
    }
    holds comma_2(8) "COMMA (2 bits), values 0..=255" { check!(COMMA.0 == 2, "COMMA"); comma(2, 6, nd::u8() as u64); }
    holds comma_3(6) "Comma(3), values 0..=1023" { comma(3, 4, nd::u16() as u64 & 1023); }
    holds comma_8(10) "Comma(8), 16-bit values" { comma(8, 3, nd::u16() as u64); }
    holds comma_16(18) "Comma(16), 16 values around 2^32 [loops 5comma=5]" { comma(16, 3, near((1 << 32) - 16)); }
    holds comma_33(35) "Comma(33), 16 values below 2^33, 2^34 [loops 5comma=4]" { comma(33, 2, near((1 << 33) - 16) + ((nd::bool() as u64) << 33)); }
    holds comma_63(65) "Comma(63), values below 2^63 - 1 [loops 5comma=3]" { let x = nd::u64(); nd::assume(x < !0 >> 1); comma(63, 1, x); }
    holds comma_64(66) "Comma(64), values below 2^64 - 1 [loops 5comma=3]" { let x = nd::u64(); nd::assume(x < !0); comma(64, 1, x); }
    holds comma_wide(66) "Comma(63), the 16 largest values; Comma(64), the largest one [loops 5comma=4]" {
        let (n, x) = if nd::bool() { (63, near(!15)) } else { (64, !0) };
        // Two digits, and the last one.
        let mut s = Wide { hi: 0, lo: 0, n: 0 };
        check!(fate(Comma(n).encode(&mut s, x)) == Ok(()), "encoding succeeds");
        check!(s.n == 3 * n, "length of the codeword");
        let r = |d: u64| shr((d as u128).reverse_bits(), 128 - n as u64);
        let base = ones(n as u64) as u64;
        check!(s.lo & ones(n as u64) == ones(n as u64), "the last digit is the unused one");
        check!(shr(s.lo, n as u64) & ones(n as u64) == r(x % base), "the second digit");
        let top = if n == 63 { s.lo >> 126 | s.hi << 2 } else { s.hi };
        check!(top == r(x / base), "the first digit");
    }
    holds_t comma_2_14(12) "Comma(2), values below 2^14" { comma(2, 9, nd::u16() as u64 & 0x3fff); }
    holds_t comma_5(16) "Comma(5), 16-bit values" { comma(5, 4, nd::u16() as u64); }
}
