//! Broadword select finds the r-th one of every word.
use crate::model::*;
use crate::nd;
use succinct::broadword::{self, Broadword};
use succinct::select::Select1Support;

/// The answer `a` (72: absent) for rank `r` in `x`.
fn right(a: u64, r: u64, x: u64) -> bool {
    if a == 72 { x.count_ones() as u64 <= r }
    else { a < 64 && x >> a & 1 == 1 && (x & !(!0 << a)).count_ones() as u64 == r }
}

harnesses! {
    holds raw_0(2) "select1_raw, every u64, r < 16" {
        let (x, r) = (nd::u64(), nd::upto8(15) as u64);
        check!(right(broadword::select1_raw(r as usize, x) as u64, r, x), "select1_raw");
    }
    holds raw_1(2) "select1_raw, every u64, 16 <= r < 32" {
        let (x, r) = (nd::u64(), 16 + nd::upto8(15) as u64);
        check!(right(broadword::select1_raw(r as usize, x) as u64, r, x), "select1_raw");
    }
    holds raw_2(2) "select1_raw, every u64, 32 <= r < 48" {
        let (x, r) = (nd::u64(), 32 + nd::upto8(15) as u64);
        check!(right(broadword::select1_raw(r as usize, x) as u64, r, x), "select1_raw");
    }
    holds raw_3(2) "select1_raw, every u64, 48 <= r < 64" {
        let (x, r) = (nd::u64(), 48 + nd::upto8(15) as u64);
        check!(right(broadword::select1_raw(r as usize, x) as u64, r, x), "select1_raw");
    }
    holds raw_far(2) "select1_raw, every u64, every r >= 64" {
        let (x, r) = (nd::u64(), nd::u64());
        nd::assume(r >= 64);
        check!(broadword::select1_raw(r as usize, x) == 72, "select1_raw: absent");
    }
    holds checked(2) "select1 and Broadword::select1 against select1_raw, every u64, every r" {
        let (x, r) = (nd::u64(), nd::u64());
        let a = broadword::select1_raw(r as usize, x);
        let e = if a == 72 { None } else { Some(a as u64) };
        if nd::bool() { check!(broadword::select1(r as usize, x).map(|p| p as u64) == e, "select1"); }
        else { check!(Broadword(x).select1(r) == e, "Broadword::select1"); }
    }
}
