//! Select by binary search inverts rank.
use crate::model::*;
use crate::nd;
use succinct::rank::{BitRankSupport, RankSupport};
use succinct::select::{BinSearchSelect, Select0Support, Select1Support, SelectSupport};

/// The exact ranks of a bit vector of `limit` bits in which only the bits at
/// `p[0] < p[1]` have the value `rare` (the first `n` of them).
#[derive(Clone, Copy)]
struct Few { limit: u64, p: [u64; 2], n: u64, rare: bool }

impl Few {
    /// Positions are `base` .. `base + 15`; `base` is a multiple of 16.
    fn any(limit: u64, base: u64, rare: bool) -> Few {
        let f = Few { limit, p: [base | nd::upto8(15) as u64, base | nd::upto8(15) as u64],
                      n: nd::upto8(2) as u64, rare };
        nd::assume(f.n < 2 || f.p[0] < f.p[1]);
        nd::assume(f.n == 0 || f.p[f.n as usize - 1] < f.limit);
        f
    }

    /// Rare bits at positions 0 ..= q.
    fn few(&self, q: u64) -> u64 {
        (self.n > 0 && self.p[0] <= q) as u64 + (self.n > 1 && self.p[1] <= q) as u64
    }

    /// `a` is the answer to select of the `k`-th `bit`.
    fn right(&self, a: Option<u64>, k: u64, bit: bool) -> bool {
        let total = if bit == self.rare { self.n } else { self.limit - self.n };
        match a {
            None => k >= total,
            Some(q) => {
                let is = self.n > 0 && q == self.p[0] || self.n > 1 && q == self.p[1];
                q < self.limit && is == (bit == self.rare)
                    && (if is { self.few(q) - 1 } else { q - self.few(q) }) == k
            }
        }
    }
}

impl RankSupport for Few {
    type Over = bool;
    fn rank(&self, q: u64, v: bool) -> u64 {
        check!(q < self.limit, "the rank structure is queried only below its limit");
        if v == self.rare { self.few(q) } else { q + 1 - self.few(q) }
    }
    fn limit(&self) -> u64 { self.limit }
}

impl BitRankSupport for Few {
    fn rank1(&self, q: u64) -> u64 { self.rank(q, true) }
    fn rank0(&self, q: u64) -> u64 { self.rank(q, false) }
}

/// A query for the `k`-th `bit`, in one of the forms there are.
#[inline(always)]
fn query(f: Few, k: u64, bit: bool, kind: bool) {
    let s = BinSearchSelect::new(f);
    let a = if kind { s.select(k, bit) } else if bit { s.select1(k) } else { s.select0(k) };
    check!(f.right(a, k, bit), "select");
}

/// A vector of the constant length `limit` with its rare bits among the 16 from `base`:
/// the rare ones, every `k` up to 15 ...
#[inline(always)]
fn rare(limit: u64, base: u64, bit: bool, kind: bool) {
    query(Few::any(limit, base, bit), nd::upto8(15) as u64, bit, kind)
}

/// ... the others, `k` among the 16 from `base`.
#[inline(always)]
fn common(limit: u64, base: u64, bit: bool, kind: bool) {
    query(Few::any(limit, base, !bit), base | nd::upto8(15) as u64, bit, kind)
}

/// Any vector of up to 12 bits.
#[derive(Clone, Copy)]
struct Small { limit: u64, w: u16 }

impl RankSupport for Small {
    type Over = bool;
    fn rank(&self, q: u64, v: bool) -> u64 {
        check!(q < self.limit, "the rank structure is queried only below its limit");
        let ones = (self.w & (0xffff >> (15 - q))).count_ones() as u64;
        if v { ones } else { q + 1 - ones }
    }
    fn limit(&self) -> u64 { self.limit }
}

impl BitRankSupport for Small {
    fn rank1(&self, q: u64) -> u64 { self.rank(q, true) }
    fn rank0(&self, q: u64) -> u64 { self.rank(q, false) }
}

#[inline(always)]
fn small(bit: bool, kind: bool) {
    let v = Small { limit: nd::upto8(12) as u64, w: nd::u16() };
    let s = BinSearchSelect::new(v);
    let k = nd::u64();
    let a = if kind { s.select(k, bit) } else if bit { s.select1(k) } else { s.select0(k) };
    match a {
        None => check!(v.limit == 0 || k >= v.rank(v.limit - 1, bit), "select says there are too few"),
        Some(q) => {
            check!(q < v.limit && (v.w >> q & 1 == 1) == bit, "the selected bit has the value");
            check!(v.rank(q, bit) - 1 == k, "select inverts rank");
        }
    }
}

const TOP: u64 = !0 - 15;
const MID: u64 = 1 << 63;
const THIRD: u64 = 6148914691236517200;

harnesses! {
    holds small1(6) "select1: any vector of up to 12 bits, every k" { small(true, false) }
    holds small0(6) "select0: any vector of up to 12 bits, every k" { small(false, false) }
    holds small_is1(6) "select(_, true): any vector of up to 12 bits, every k" { small(true, true) }
    holds small_is0(6) "select(_, false): any vector of up to 12 bits, every k" { small(false, true) }
    holds top1(68) "select1, limit 2^64-1, at most 2 ones among the last 16 bits" { rare(!0, TOP, true, false) }
    holds top0(68) "select0, limit 2^64-1, at most 2 zeros among the last 16 bits" { rare(!0, TOP, false, false) }
    holds top_is(68) "select(_, true), limit 2^64-1, at most 2 ones among the last 16 bits" { rare(!0, TOP, true, true) }
    holds many1(68) "select1, limit 2^64-1, at most 2 zeros, among the last 16 bits, k within that range" { common(!0, TOP, true, false) }
    holds many0(68) "select0, limit 2^64-1, at most 2 ones, among the last 16 bits, k within that range" { common(!0, TOP, false, false) }
    holds many_is(68) "select(_, false), limit 2^64-1, at most 2 ones, among the last 16 bits, k within that range" { common(!0, TOP, false, true) }
    holds low1(68) "select1, limit 2^64-1, at most 2 ones among the first 16 bits" { rare(!0, 0, true, false) }
    holds middle0(68) "select0, limit 2^64-1, at most 2 zeros in 16 bits at the middle" { rare(!0, MID, false, false) }
    holds third1(68) "select1, limit 2^64-5, at most 2 zeros in 16 bits at a third, k within that range" { common(!0 - 4, THIRD, true, false) }
    holds end1(68) "select1, limit 2^40+13, at most 2 ones in the last 13 bits" { rare((1 << 40) + 13, 1 << 40, true, false) }
}
