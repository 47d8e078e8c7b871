//! Errors of streams are reported.
use crate::codes::*;
use crate::model::*;
use crate::nd;
use crate::stream::*;
use succinct::coding::*;
use succinct::stream::{BitRead, BitWrite};

/// A source of at most `max` bits that fails at its end.
fn failing(max: u8) -> Src { Src { fail: true, ..Src::any(max) } }

/// Writing `w` with the result `r`, where `t` took no more than its room.
fn wrote(t: &Sink, r: std::result::Result<(), std::io::ErrorKind>, w: Word) {
    if w.n <= t.room as u64 {
        check!(r == Ok(()), "no error without a failure");
        check!(t.n as u64 == w.n && t.reg == w.reg, "what is written");
    } else {
        check!(r == Err(FAIL), "the sink's error is returned");
        check!(t.n == t.room && t.reg == shr(w.reg, w.n - t.n as u64), "the bits written before the failure");
    }
}

/// `c` into a sink that fails after at most `max` bits. Nothing is written after the
/// failure: `Sink` checks that.
#[inline(always)]
fn encode<C: UniversalCode>(c: C, x: u64, w: Word, max: u8) {
    let mut t = Sink::failing(nd::upto8(max));
    let r = fate(c.encode(&mut t, x));
    nd::may(r.is_err());
    nd::may(r.is_ok());
    wrote(&t, r, w);
}

/// The same, against what `c` writes into a sink that does not fail.
#[inline(always)]
fn encode_as<C: UniversalCode>(c: C, x: u64, max: u8) {
    let mut t = Tape::new();
    check!(fate(c.encode(&mut t, x)) == Ok(()), "encoding succeeds");
    encode(c, x, Word { reg: t.reg, n: t.n as u64 }, max);
}

#[inline(always)]
fn write_int(n: u64, be: bool) {
    let x = nd::u64();
    let mut t = Sink::failing(nd::upto8(n as u8));
    if be {
        let r = fate(t.write_int_be(n as usize, x));
        wrote(&t, r, Word::new().high(n, x as u128));
    } else {
        let r = fate(t.write_int(n as usize, x));
        wrote(&t, r, Word::new().low(n, x as u128));
    }
}

#[inline(always)]
fn read_int(n: u64, be: bool) {
    let s = failing(n as u8 + 1);
    let mut t = s;
    let r = fate(if be { t.read_int_be::<u64>(n as usize) } else { t.read_int::<u64>(n as usize) });
    let mut e = s.bits & ones(n);
    if be { e = shr(e.reverse_bits(), 128 - n) }
    if (s.left as u64) < n {
        check!(r == Err(FAIL), "the source's error is returned");
    } else {
        check!(r == Ok(Some(e as u64)), "the value read before the failure");
    }
}

fn value(n: u64) -> u64 { let x = nd::u64(); nd::assume(x > 0 && x >> n == 0); x }

harnesses! {
    holds read_int_12(14) "read_int, 0..=12 bits of sources that fail after at most one bit more" { read_int(nd::upto8(12) as u64, false) }
    holds read_int_be_12(14) "read_int_be, 0..=12 bits of sources that fail after at most one bit more" { read_int(nd::upto8(12) as u64, true) }
    holds read_int_64(66) "read_int, 64 bits of sources that fail after 0..=65" { read_int(64, false) }
    holds read_int_be_64(66) "read_int_be, 64 bits of sources that fail after 0..=65" { read_int(64, true) }
    holds write_int_12(14) "write_int, 0..=12 bits of any u64, failing after any number of bits" { write_int(nd::upto8(12) as u64, false) }
    holds write_int_be_12(14) "write_int_be, 0..=12 bits of any u64, failing after any number of bits" { write_int(nd::upto8(12) as u64, true) }
    holds write_int_64(66) "write_int, 64 bits of any u64, failing after any number of bits" { write_int(64, false) }
    holds write_int_be_64(66) "write_int_be, 64 bits of any u64, failing after any number of bits" { write_int(64, true) }

    holds enc_unary(18) "Unary, values 0..=15, a sink failing after 0..=17 bits" { let x = nd::upto8(15) as u64; encode(Unary, x, unary(x), 17); }
    holds enc_gamma(10) "GAMMA, values below 2^7, a sink failing after 0..=14 bits" { let x = value(7); encode(GAMMA, x, gamma(x), 14); }
    holds enc_delta(10) "DELTA, values below 2^8, a sink failing after 0..=15 bits" { let x = value(8); encode(DELTA, x, delta(x), 15); }
    holds enc_omega(6) "OMEGA, values below 2^4, a sink failing after 0..=8 bits [loops 5elias=5]" { let x = value(4); encode(Omega, x, omega(x), 8); }
    holds enc_fib(10) "Fibonacci, values below 32, a sink failing after 0..=9 bits" { let x = value(5); encode_as(Fibonacci, x, 9); }
    holds enc_comma(6) "COMMA, values 0..=26, a sink failing after 0..=9 bits" { let x = nd::upto8(26) as u64; encode_as(COMMA, x, 9); }
    holds enc_lift(8) "Lift0(GAMMA), values 0..=30, a sink failing after 0..=10 bits" { let x = nd::upto8(30) as u64; encode(Lift0(GAMMA), x, gamma(x + 1), 10); }

    holds dec_unary(20) "Unary, any source that fails after 0..=17 bits" { let s = failing(17); is(Unary, s, read_unary(s)); }
    holds dec_gamma(14) "GAMMA, any source that fails after 0..=11 bits" { let s = failing(11); is(GAMMA, s, read_gamma(s)); }
    holds dec_delta(14) "DELTA, any source that fails after 0..=11 bits" { let s = failing(11); is(DELTA, s, read_delta(s)); }
    holds dec_omega(12) "OMEGA, any source that fails after 0..=9 bits [loops 5elias=6] [loops 5codes=8]" { let s = failing(9); is(Omega, s, read_omega(s)); }
    holds dec_fib(12) "Fibonacci, any source that fails after 0..=10 bits [loops 5codes=93]" { let s = failing(10); is(Fibonacci, s, read_fib(s)); }
    holds dec_comma(8) "COMMA, any source that fails after 0..=9 bits" { let s = failing(9); is(COMMA, s, read_comma(2, 6, s)); }
    holds dec_comma_5(7) "Comma(5), any source that fails after 0..=16 bits" { let s = failing(16); is(Comma(5), s, read_comma(5, 5, s)); }
    holds dec_lift(12) "Lift0(GAMMA), any source that fails after 0..=9 bits" { let s = failing(9); is(Lift0(GAMMA), s, lifted(read_gamma(s))); }
    holds_t dec_gamma_t(42) "GAMMA, any source that fails after 0..=40 bits" { let s = failing(40); is(GAMMA, s, read_gamma(s)); }
    holds_t dec_delta_t(42) "DELTA, any source that fails after 0..=40 bits" { let s = failing(40); is(DELTA, s, read_delta(s)); }
    holds_t dec_omega_t(22) "OMEGA, any source that fails after 0..=20 bits [loops 5elias=6] [loops 5codes=8]" { let s = failing(20); is(Omega, s, read_omega(s)); }
    holds_t dec_fib_t(26) "Fibonacci, any source that fails after 0..=24 bits [loops 5codes=93]" { let s = failing(24); is(Fibonacci, s, read_fib(s)); }
    holds_t enc_gamma_t(34) "GAMMA, values below 2^32, a sink failing after 0..=64 bits" { let x = value(32); encode(GAMMA, x, gamma(x), 64); }
    holds_t enc_delta_t(34) "DELTA, values below 2^32, a sink failing after 0..=44 bits" { let x = value(32); encode(DELTA, x, delta(x), 44); }
}
