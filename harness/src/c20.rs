//! Decoders are total on arbitrary bit streams.
use crate::codes::*;
use crate::model::*;
use crate::nd;
use crate::stream::*;
use std::io::ErrorKind::InvalidData;
use succinct::coding::*;

/// The same on an endless source, of which the codeword takes at most 128 bits.
#[inline(always)]
fn flow<C: UniversalCode>(c: C, bits: u128, f: Fate) {
    let mut t = Flow { bits, used: 0 };
    let r = fate(c.decode(&mut t));
    match f {
        Value(x, l) => {
            check!(r == Ok(Some(x)), "the value the bits denote");
            check!(t.used == 128 - l, "exactly the codeword is consumed");
        }
        Big | CutOrBig => check!(r == Err(InvalidData), "a value that does not fit is InvalidData"),
        Limit(x, _) => check!(r == Err(InvalidData) || r == Ok(Some(x)), "the value or InvalidData"),
        End | Cut => check!(false, "not an endless source"),
    }
}

fn all(bits: u128) -> Src { Src::of(bits, 128) }

/// `pat` with the 4 bits from `at` replaced by any.
fn window(pat: u128, at: u64) -> u128 { pat & !(15 << at) | (nd::upto8(15) as u128) << at }

harnesses! {
    holds unary(34) "Unary, any stream of 0..=32 bits" { let s = Src::any(32); is(Unary, s, read_unary(s)); }
    holds gamma(22) "GAMMA, any stream of 0..=20 bits" { let s = Src::any(20); is(GAMMA, s, read_gamma(s)); }
    holds gamma_big(72) "GAMMA, 60 to 66 zeros, a one and then any 64 bits" {
        let z = 60 + nd::upto8(6) as u64;
        let b = (nd::u64() as u128) << 63 | shl(1, z);
        let b = b >> z << z | shl(1, z);
        flow(GAMMA, b, read_gamma(all(b)));
    }
    holds delta(22) "DELTA, any stream of 0..=20 bits" { let s = Src::any(20); is(DELTA, s, read_delta(s)); }
    holds delta_big(66) "DELTA, a 7-bit length (64 and more), 4 bits of it any" {
        // Six zeros, a one, six low bits of the length.
        let b = window(1 << 6, 7);
        flow(DELTA, b, read_delta(all(b)));
    }
    holds delta_63(66) "DELTA, lengths 48..=63, any 16 of the high bits" {
        // Five zeros, a one, and the low five bits of length + 1, all but 64.
        let b = (nd::u16() as u128) << 58 | (nd::upto8(15) as u128) << 6 | 1 << 10 | 1 << 5;
        flow(DELTA, b, read_delta(all(b)));
    }
    holds omega(14) "OMEGA, any stream of 0..=12 bits [loops 5elias=6] [loops 5codes=8]" { let s = Src::any(12); is(Omega, s, read_omega(s)); }
    holds omega_big(18) "OMEGA, groups 11, 1xxx, 8 to 15 ones (too long), or a 1, any xxx [loops 5elias=5] [loops 5codes=8]" {
        let b = window(!0 >> 47, 3);
        flow(Omega, b, read_omega(all(b)));
    }
    holds omega_64(66) "OMEGA, a group of 64 bits with any 4 low bits, ended or not [slow] [loops 5elias=6] [loops 5codes=8]" {
        // 10, 110, 111111, then 64 bits, then 0 or 1.
        let b: u128 = 1 | 3 << 2 | 63 << 5 | 1 << 11;
        let b = window(b | 0xdead_beef << 20, 71) | (nd::bool() as u128) << 75;
        flow(Omega, b, read_omega(all(b)));
    }
    holds fib(14) "Fibonacci, any stream of 0..=12 bits [loops 5codes=93]" { let s = Src::any(12); is(Fibonacci, s, read_fib(s)); }
    holds fib_big(98) "Fibonacci, 90 zeros, any 4 bits, two ones" { let b = window(3 << 94, 90); flow(Fibonacci, b, read_fib(all(b))); }
    holds fib_sum(98) "Fibonacci, every other bit set up to 86, then any 4 from position 88, two ones" {
        let b = window(0x5555_5555_5555_5555_5555_55 | 3 << 93, 88);
        flow(Fibonacci, b, read_fib(all(b)));
    }
    holds comma_2(12) "COMMA (2 bits), any stream of 0..=13 bits" { let s = Src::any(13); is(COMMA, s, read_comma(2, 8, s)); }
    holds comma_3(9) "Comma(3), any stream of 0..=16 bits" { let s = Src::any(16); is(Comma(3), s, read_comma(3, 8, s)); }
    holds comma_8(11) "Comma(8), any stream of 0..=25 bits" { let s = Src::any(25); is(Comma(8), s, read_comma(8, 5, s)); }
    holds comma_8_big(12) "Comma(8), the digits of 255^8 * d + e for any d below 16 and any e below 16 or 255^7 * e, and the end" {
        let (d, e) = (nd::upto8(15) as u128, nd::upto8(15) as u128);
        let b = d | e << if nd::bool() { 64 } else { 8 } | 255 << 72;
        flow(Comma(8), b, read_comma(8, 10, all(b)));
    }
    holds comma_32_big(34) "Comma(32), 3 digits (8 bits of them any), and the end [loops 5comma=5]" {
        let b = window(ones(32) << 96 | 1, 0) | (nd::upto8(15) as u128) << 32;
        flow(Comma(32), b, read_comma(32, 4, all(b)));
    }
    holds comma_40_big(42) "Comma(40), 2 digits (8 bits of them any), and the end [loops 5comma=4]" {
        let b = window(ones(40) << 80 | 0x00ff_fff0, 0) | (nd::upto8(15) as u128) << 40;
        flow(Comma(40), b, read_comma(40, 3, all(b)));
    }
    holds comma_64_one(66) "Comma(64), one digit of any value, and the end [loops 5comma=3]" {
        let b = nd::u64() as u128 | !0 << 64;
        nd::assume(b != !0);
        flow(Comma(64), b, read_comma(64, 2, all(b)));
    }
    holds lift_unary(14) "Lift0(Unary), any stream of 0..=12 bits" { let s = Src::any(12); is(Lift0(Unary), s, lifted(read_unary(s))); }
    holds lift_comma(10) "Lift0(COMMA), any stream of 0..=9 bits" { let s = Src::any(9); is(Lift0(COMMA), s, lifted(read_comma(2, 6, s))); }
    holds lift_omega(12) "Lift0(OMEGA), any stream of 0..=9 bits [loops 5elias=6] [loops 5codes=8]" { let s = Src::any(9); is(Lift0(Omega), s, lifted(read_omega(s))); }
    holds elias_lift(14) "Elias(Lift0(Unary)), any stream of 0..=12 bits" {
        let s = Src::any(12);
        is(Elias(Lift0(Unary)), s, match lifted(read_unary(s)) {
            Value(n, l) => if n > l { Cut } else { Value((shr(s.bits, s.left as u64 - l) & ones(n) | 1 << n) as u64, l - n) },
            f => f,
        });
    }
    holds_t gamma_t(42) "GAMMA, any stream of 0..=40 bits" { let s = Src::any(40); is(GAMMA, s, read_gamma(s)); }
    holds_t delta_t(42) "DELTA, any stream of 0..=40 bits" { let s = Src::any(40); is(DELTA, s, read_delta(s)); }
    holds_t omega_t(22) "OMEGA, any stream of 0..=20 bits [loops 5elias=6] [loops 5codes=8]" { let s = Src::any(20); is(Omega, s, read_omega(s)); }
    holds_t fib_t(26) "Fibonacci, any stream of 0..=24 bits [loops 5codes=93]" { let s = Src::any(24); is(Fibonacci, s, read_fib(s)); }
    holds_t comma_2_t(16) "COMMA (2 bits), any stream of 0..=22 bits" { let s = Src::any(22); is(COMMA, s, read_comma(2, 13, s)); }
}
