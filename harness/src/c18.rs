//! Every universal code decodes what it encoded, self-delimitingly.
use crate::codes;
use crate::model::*;
use crate::nd;
use crate::stream::*;
use succinct::coding::*;

/// `x`, followed by any bits.
#[inline(always)]
fn trip<C: UniversalCode>(c: C, x: u64) {
    let mut s = Tape::new();
    check!(fate(c.encode(&mut s, x)) == Ok(()), "encoding succeeds");
    let t = nd::upto8(3) as u64;
    let tail = nd::u8() as u128 & ones(t);
    let e = s.source();
    let mut r = Src::of(e.bits | shl(tail, s.n as u64), s.n as u64 + t);
    check!(fate(c.decode(&mut r)) == Ok(Some(x)), "decoding gives the value");
    check!(r.left as u64 == t && r.bits == tail, "exactly the codeword is consumed");
}

/// `x` and nothing else.
#[inline(always)]
fn whole<C: UniversalCode>(c: C, x: u64) {
    let mut s = Tape::new();
    check!(fate(c.encode(&mut s, x)) == Ok(()), "encoding succeeds");
    let mut r = s.source();
    check!(fate(c.decode(&mut r)) == Ok(Some(x)), "decoding gives the value");
    check!(r.left == 0, "exactly the codeword is consumed");
}

/// `x`, `y` and the end.
#[inline(always)]
fn pair<C: UniversalCode>(c: C, x: u64, y: u64) {
    let mut s = Tape::new();
    check!(fate(c.encode(&mut s, x)) == Ok(()), "encoding succeeds");
    check!(fate(c.encode(&mut s, y)) == Ok(()), "encoding succeeds");
    let mut r = s.source();
    check!(fate(c.decode(&mut r)) == Ok(Some(x)), "the first value");
    check!(fate(c.decode(&mut r)) == Ok(Some(y)), "the second value");
    check!(fate(c.decode(&mut r)) == Ok(None), "and then a clean end");
}

fn value(n: u64) -> u64 { let x = nd::u64(); nd::assume(x > 0 && (n == 64 || x >> n == 0)); x }
fn near(base: u64) -> u64 { base | nd::upto8(15) as u64 }
fn four() -> u64 { nd::upto8(3) as u64 + 1 }

harnesses! {
    holds unary(66) "Unary, values 0..=60" { trip(Unary, nd::upto8(60) as u64); }
    holds gamma_20(22) "GAMMA, values below 2^20" { trip(GAMMA, value(20)); }
    holds_t gamma_60(62) "GAMMA, values below 2^60" { trip(GAMMA, value(60)); }
    holds gamma_64(66) "GAMMA, the 16 largest values" {
        // 127 bits: no room for a tail.
        whole(GAMMA, near(!15));
    }
    holds delta_20(22) "DELTA, values below 2^20" { trip(DELTA, value(20)); }
    holds_t delta_64(66) "DELTA, all values" { trip(DELTA, value(64)); }
    holds_t lift_unary(18) "Lift0(Unary), values 0..=15" { trip(Lift0(Unary), nd::upto8(15) as u64); }
    holds_t delta_top(66) "DELTA, the 16 largest values" { trip(DELTA, near(!15)); }
    holds_t lift_gamma(22) "Lift0(GAMMA), values below 2^16" { trip(Lift0(GAMMA), nd::u16() as u64); }
    holds_t lift_delta(66) "Lift0(DELTA), the 15 largest values" { let x = near(!15); nd::assume(x < !0); trip(Lift0(DELTA), x); }
    holds lift_omega(8) "Lift0(OMEGA), values 0..=30 [loops 5elias=5]" { trip(Lift0(Omega), nd::upto8(30) as u64); }
    holds_t elias_lift(22) "Elias(Lift0(Unary)), values below 2^12" { trip(Elias(Lift0(Unary)), value(12)); }
    holds omega_6(8) "OMEGA, values below 2^6 [loops 5elias=5]" { trip(Omega, value(6)); }
    holds omega_17(18) "OMEGA, 16 values of 17 bits [loops 5elias=5] [heap 128]" { trip(Omega, near(0x1_0000)); }
    holds_t omega_64(65) "OMEGA, 16 values of 64 bits [loops 5elias=5] [heap 128] [slow]" { trip(Omega, near(0xc0de_1234_5678_9ab0)); }
    holds fib_7(14) "Fibonacci, values below 128" { trip(Fibonacci, value(7)); }
    holds_t fib_233(20) "Fibonacci, values 224..=239 (233 is a Fibonacci number)" { trip(Fibonacci, near(224)); }
    holds fib_top(100) "Fibonacci, the largest value it encodes [heap 128] [fields 129] [slow]" { whole(Fibonacci, codes::FIB[91] - 1); }
    holds_t fib_top4(100) "Fibonacci, the four largest values it encodes [heap 128] [fields 129] [slow]" { whole(Fibonacci, codes::FIB[91] - 1 - nd::upto8(3) as u64); }
    holds comma_2(8) "COMMA (2 bits), values 0..=255" { trip(COMMA, nd::u8() as u64); }
    holds comma_3(6) "Comma(3), values 0..=1023" { trip(Comma(3), nd::u16() as u64 & 1023); }
    holds comma_8(10) "Comma(8), 16-bit values" { trip(Comma(8), nd::u16() as u64); }
    holds_t comma_16(18) "Comma(16), 16 values around 2^32 [loops 5comma=5]" { trip(Comma(16), near((1 << 32) - 16)); }
    holds comma_33(35) "Comma(33), 16 values below 2^33, 2^34 [loops 5comma=4]" {
        trip(Comma(33), near((1 << 33) - 16) + ((nd::bool() as u64) << 33));
    }
    holds_t comma_62(65) "Comma(62), values below 2^62 - 1 [loops 5comma=3]" {
        let x = nd::u64(); nd::assume(x < !0 >> 2); trip(Comma(62), x);
    }
    holds_t comma_64(66) "Comma(64), values below 2^64 - 1 [loops 5comma=3]" {
        let x = nd::u64(); nd::assume(x < !0);
        whole(Comma(64), x);
    }

    holds pair_unary(6) "Unary, two values 1..=4, the end" { pair(Unary, four(), four()); }
    holds pair_gamma(6) "GAMMA, two values 1..=15, the end" { pair(GAMMA, value(4), value(4)); }
    holds pair_delta(6) "DELTA, two values 1..=15, the end" { pair(DELTA, value(4), value(4)); }
    holds_t pair_omega(6) "OMEGA, two values 1..=3, the end" { pair(Omega, value(2), value(2)); }
    holds pair_fib(8) "Fibonacci, two values 1..=7, the end" { pair(Fibonacci, value(3), value(3)); }
    holds pair_comma(5) "COMMA, two values 0..=7, the end" { pair(COMMA, nd::upto8(7) as u64, nd::upto8(7) as u64); }
    holds pair_lift(6) "Lift0(GAMMA), two values 0..=6, the end" { pair(Lift0(GAMMA), nd::upto8(6) as u64, nd::upto8(6) as u64); }
}
