//! Shared oracles: small reference models, written independently of the crate.

use crate::nd::{self, Nd};
use succinct::storage::BlockType;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector};

/// The low `n` bits (n <= 128).
pub fn ones(n: u64) -> u128 {
    if n >= 128 { !0 } else { (1u128 << n) - 1 }
}

pub fn shl(x: u128, n: u64) -> u128 { if n >= 128 { 0 } else { x << n } }
pub fn shr(x: u128, n: u64) -> u128 { if n >= 128 { 0 } else { x >> n } }

/// A sequence of at most 128 bits: bit `i` of `bits`; nothing above `len`.
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Seq {
    pub bits: u128,
    pub len: u64,
}

impl Seq {
    pub fn bit(&self, i: u64) -> bool { i < self.len && shr(self.bits, i) & 1 == 1 }

    pub fn push(&mut self, n: u64, v: u128) {
        self.bits |= shl(v & ones(n), self.len);
        self.len += n;
    }

    pub fn cut(&mut self, n: u64) {
        if n < self.len { self.len = n; self.bits &= ones(n); }
    }

    pub fn set(&mut self, i: u64, n: u64, v: u128) {
        self.bits = self.bits & !shl(ones(n), i) | shl(v & ones(n), i);
    }

    pub fn get(&self, i: u64, n: u64) -> u128 { shr(self.bits, i) & ones(n) }
}

pub trait Blk: BlockType + Nd + std::hash::Hash {
    const W: u64;
    fn w(self) -> u128;
    fn of(x: u128) -> Self;
}

macro_rules! blk {
    ( $( $t:ident )* ) => { $(
        impl Blk for $t {
            const W: u64 = 8 * std::mem::size_of::<$t>() as u64;
            fn w(self) -> u128 { self as u128 }
            fn of(x: u128) -> $t { x as $t }
        }
    )* };
}
blk! { u8 u16 u32 u64 usize }

/// Any `BitVector` of at most `n` blocks, of any length and contents, with its model.
pub fn any_bv<B: Blk>(n: u64) -> (BitVector<B>, Seq) {
    let mut v = BitVector::new();
    let mut m = Seq { bits: 0, len: 0 };
    let mut i = 0;
    while i < n {
        let b = B::nd();
        v.push_block(b);
        m.push(B::W, b.w());
        i += 1;
    }
    let l = nd::upto8((n * B::W) as u8) as u64;
    v.truncate(l);
    m.cut(l);
    (v, m)
}

/// Runs `f(x)` for the symbolic `x <= max`, split into one branch per value so that
/// sizes are constants inside `f`: all branches are part of the same query.
#[inline(always)]
pub fn split<F: FnMut(u64)>(max: u64, mut f: F) {
    let x = nd::upto8(max as u8) as u64;
    let mut i = 0;
    while i <= max {
        if x == i { f(i); }
        i += 1;
    }
}

/// A `BitVector` of exactly `l` bits (constant), any contents, with its model.
#[inline(always)]
pub fn bv_of_len<B: Blk>(l: u64) -> (BitVector<B>, Seq) {
    let mut v = BitVector::new();
    let mut m = Seq { bits: 0, len: 0 };
    let mut i = 0;
    while i * B::W < l {
        let b = B::nd();
        v.push_block(b);
        m.push(B::W, b.w());
        i += 1;
    }
    v.truncate(l);
    m.cut(l);
    (v, m)
}

/// `v` holds exactly the sequence `m`: lengths, every bit, every block's valid bits.
pub fn agrees<V: BitVec + ?Sized>(v: &V, m: &Seq) -> bool where V::Block: Blk {
    let w = <V::Block as Blk>::W;
    if v.bit_len() != m.len { return false; }
    if v.block_len() as u64 != (m.len + w - 1) / w { return false; }
    let i = nd::u8() as u64;
    if i < m.len && v.get_bit(i) != m.bit(i) { return false; }
    let j = nd::u8() as u64;
    if j < (m.len + w - 1) / w {
        let n = if m.len - j * w < w { m.len - j * w } else { w };
        if v.get_block(j as usize).w() & ones(n) != m.get(j * w, n) { return false; }
    }
    true
}

use succinct::{IntVec, IntVecMut, IntVector};
use std::hash::{Hash, Hasher};

/// Blocks needed for `bits` bits of `B`.
pub fn blocks<B: Blk>(bits: u64) -> u64 { (bits + B::W - 1) / B::W }

/// The bit vector with exactly these bits, made by pushing whole clean blocks.
pub fn fresh_bv<B: Blk>(m: &Seq, max_blocks: u64) -> BitVector<B> {
    let mut v = BitVector::new();
    let mut i = 0;
    while i < max_blocks {
        if i * B::W < m.len { v.push_block(B::of(m.get(i * B::W, B::W))); }
        i += 1;
    }
    v.truncate(m.len);
    v
}

/// Any `IntVector` of at most `n` blocks: element width, elements, model (`m.len` is
/// the number of bits, `c` the number of elements).
pub fn any_iv<B: Blk>(n: u64, k: u64) -> (IntVector<B>, Seq, u64) {
    let mut v = IntVector::block_with_fill(k as usize, n as usize, B::zero());
    let mut m = Seq { bits: 0, len: 0 };
    let mut i = 0;
    while i < n {
        let b = B::nd();
        v.set_block(i as usize, b);
        m.push(B::W, b.w());
        i += 1;
    }
    let l = nd::upto8((n * B::W) as u8) as u64;
    nd::assume(l * k <= n * B::W);
    v.truncate(l);
    m.cut(l * k);
    (v, m, l)
}

/// Any element width of `B`.
pub fn any_width<B: Blk>() -> u64 {
    let k = nd::upto8(B::W as u8) as u64;
    nd::assume(k > 0);
    k
}

/// `v` holds exactly `c` elements of `k` bits, the bits of `m`.
pub fn agrees_iv<B: Blk>(v: &IntVector<B>, m: &Seq, k: u64, c: u64) -> bool {
    if v.len() != c || v.is_empty() != (c == 0) || v.element_bits() as u64 != k { return false; }
    let i = nd::u8() as u64;
    if i < c && v.get(i).w() != m.get(i * k, k) { return false; }
    true
}

/// A hasher that keeps everything: equal states only for equal input (up to 2^-64).
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Rec { pub acc: u64, pub n: u64 }

impl Rec { pub fn new() -> Rec { Rec { acc: 0, n: 0 } } }

impl Hasher for Rec {
    fn finish(&self) -> u64 { self.acc ^ self.n << 56 }
    fn write(&mut self, b: &[u8]) {
        let mut i = 0;
        while i < b.len() { self.write_u8(b[i]); i += 1; }
    }
    fn write_u8(&mut self, x: u8) { self.acc = self.acc.rotate_left(9) ^ x as u64; self.n += 1; }
    fn write_u16(&mut self, x: u16) { self.acc = self.acc.rotate_left(17) ^ x as u64; self.n += 1; }
    fn write_u32(&mut self, x: u32) { self.acc = self.acc.rotate_left(23) ^ x as u64; self.n += 1; }
    fn write_u64(&mut self, x: u64) { self.acc = self.acc.rotate_left(31) ^ x; self.n += 1; }
    fn write_usize(&mut self, x: usize) { self.acc = self.acc.rotate_left(31) ^ x as u64; self.n += 1; }
}

pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = Rec::new();
    x.hash(&mut h);
    h.finish()
}

const fn reps() -> [u128; 65] {
    let mut t = [0u128; 65];
    let mut k = 1;
    while k <= 64 {
        let mut i = 0;
        while i < 128 { t[k] |= 1 << i; i += k; }
        k += 1;
    }
    t
}
static REPS: [u128; 65] = reps();

/// The value `x` of `k` bits, over and over.
pub fn repeat(x: u128, k: u64) -> u128 { x.wrapping_mul(REPS[k as usize]) }
