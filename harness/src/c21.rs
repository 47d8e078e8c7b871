//! Values outside a code's domain are refused, and nothing is written.
use crate::codes::FIB;
use crate::model::*;
use crate::nd;
use crate::stream::*;
use std::io::ErrorKind::InvalidData;
use std::io::Result;
use succinct::coding::*;
use succinct::stream::{BitRead, BitWrite};

/// Nothing may be written to this one or read from it.
struct Shut;

impl BitWrite for Shut {
    fn write_bit(&mut self, _: bool) -> Result<()> { panic!("VERIF: something was written") }
}

impl BitRead for Shut {
    fn read_bit(&mut self) -> Result<Option<bool>> { panic!("VERIF: something was read") }
}

fn width() -> u8 { let n = nd::u8(); nd::assume(n < 2 || n > 64); n }

harnesses! {
    panics gamma(4) "GAMMA, 0" { } => { let _ = fate(GAMMA.encode(&mut Shut, 0)); }
    panics delta(4) "DELTA, 0" { } => { let _ = fate(DELTA.encode(&mut Shut, 0)); }
    panics elias(4) "Elias(Lift0(Unary)), 0" { } => { let _ = fate(Elias(Lift0(Unary)).encode(&mut Shut, 0)); }
    panics omega(4) "OMEGA, 0" { } => { let _ = fate(Omega.encode(&mut Shut, 0)); }
    panics fib(4) "Fibonacci, 0" { } => { let _ = fate(Fibonacci.encode(&mut Shut, 0)); }
    panics comma(4) "Comma(n), n = 0, 1 or 65..=255, any value" {
        let (n, x) = (width(), nd::u64());
    } => {
        let _ = fate(Comma(n).encode(&mut Shut, x));
    }
    panics comma_decode(4) "Comma(n), n = 0, 1 or 65..=255, decoding" {
        let n = width();
    } => {
        let _ = fate(Comma(n).decode(&mut Shut));
    }
    panics lift_comma(4) "Lift0(Comma(n)), n = 0, 1 or 65..=255, any value but the largest" {
        let (n, x) = (width(), nd::u64());
        nd::assume(x < !0);
    } => {
        let _ = fate(Lift0(Comma(n)).encode(&mut Shut, x));
    }
    holds lift(4) "Lift0 of Unary, GAMMA, DELTA, OMEGA, Fibonacci, COMMA and Lift0(Unary), the largest value" {
        let r = match nd::upto8(6) {
            0 => fate(Lift0(Unary).encode(&mut Shut, !0)),
            1 => fate(Lift0(GAMMA).encode(&mut Shut, !0)),
            2 => fate(Lift0(DELTA).encode(&mut Shut, !0)),
            3 => fate(Lift0(Omega).encode(&mut Shut, !0)),
            4 => fate(Lift0(Fibonacci).encode(&mut Shut, !0)),
            5 => fate(Lift0(COMMA).encode(&mut Shut, !0)),
            _ => fate(Lift0(Lift0(Unary)).encode(&mut Shut, !0)),
        };
        check!(r == Err(InvalidData), "InvalidData");
    }
    holds fib_big(94) "Fibonacci, every value from the 92nd Fibonacci number" {
        let x = nd::u64();
        nd::assume(x >= FIB[91]);
        check!(fate(Fibonacci.encode(&mut Shut, x)) == Err(InvalidData), "InvalidData");
    }
    holds lift_fib(94) "Lift0(Fibonacci), every value from the 92nd Fibonacci number less one" {
        let x = nd::u64();
        nd::assume(x >= FIB[91] - 1);
        check!(fate(Lift0(Fibonacci).encode(&mut Shut, x)) == Err(InvalidData), "InvalidData");
    }
    holds lift_lift(4) "Lift0(Lift0(c)), the two largest values" {
        let x = !(nd::bool() as u64);
        let r = match nd::upto8(2) {
            0 => fate(Lift0(Lift0(GAMMA)).encode(&mut Shut, x)),
            1 => fate(Lift0(Lift0(COMMA)).encode(&mut Shut, x)),
            _ => fate(Lift0(Lift0(Unary)).encode(&mut Shut, x)),
        };
        check!(r == Err(InvalidData), "InvalidData");
    }
}
