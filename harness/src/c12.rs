//! Rank on words and byte-parallel arithmetic are exact.
use crate::model::*;
use crate::nd;
use succinct::broadword::{self, Broadword};
use succinct::rank::{BitRankSupport, RankSupport};

/// Every query on the rank structure of the `w`-bit word `x`.
fn exact<R: BitRankSupport>(r: &R, x: u64, w: u64) {
    check!(r.limit() == w, "limit");
    let p = nd::u64();
    nd::assume(p < w);
    let e = (x & (!0 >> (63 - p))).count_ones() as u64;
    match nd::upto8(3) {
        0 => check!(r.rank1(p) == e, "rank1"),
        1 => check!(r.rank0(p) == p + 1 - e, "rank0"),
        2 => check!(r.rank(p, true) == e, "rank of true"),
        _ => check!(r.rank(p, false) == p + 1 - e, "rank of false"),
    }
}

/// Every byte of `z` is 0x80 or 0; `want` says which.
fn bytes<F: Fn(u8, u8) -> bool>(x: u64, y: u64, z: u64, want: F) {
    let i = nd::upto8(7) as u32 * 8;
    let (a, b, c) = ((x >> i) as u8, (y >> i) as u8, (z >> i) as u8);
    check!(c == if want(a, b) { 0x80 } else { 0 }, "exactly the high bit of exactly those bytes");
}

harnesses! {
    holds rank8(2) "every u8, every position" { let x = nd::u8(); exact(&x, x as u64, 8) }
    holds rank16(2) "every u16, every position" { let x = nd::u16(); exact(&x, x as u64, 16) }
    holds rank32(2) "every u32, every position" { let x = nd::u32(); exact(&x, x as u64, 32) }
    holds rank64(2) "every u64, every position" { let x = nd::u64(); exact(&x, x, 64) }
    holds ranksize(2) "every usize, every position" { let x = nd::usize(); exact(&x, x as u64, 64) }
    holds rankbroad(2) "Broadword of every u64, every position" { let x = nd::u64(); exact(&Broadword(x), x, 64) }
    holds count(2) "count_ones of every u64" {
        let x = nd::u64();
        check!(broadword::count_ones(x) == x.count_ones() as usize, "count_ones");
    }
    holds u_le(2) "u_le8, all pairs of u64" {
        let (x, y) = (nd::u64(), nd::u64());
        bytes(x, y, broadword::u_le8(x, y), |a, b| a <= b);
    }
    holds le(2) "le8, all pairs of u64" {
        let (x, y) = (nd::u64(), nd::u64());
        bytes(x, y, broadword::le8(x, y), |a, b| a as i8 <= b as i8);
    }
    holds nz(2) "u_nz8, every u64" {
        let x = nd::u64();
        bytes(x, 0, broadword::u_nz8(x), |a, _| a != 0);
        check!(broadword::L8 == 0x0101_0101_0101_0101 && broadword::H8 == 0x8080_8080_8080_8080, "constants");
    }
}
