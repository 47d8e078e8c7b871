//! Minimal implementors of the crate's traits, to observe the crate through them.
use crate::model::*;
use crate::nd;
use succinct::{BitVec, BitVecMut, BitVecPush};

/// A bit vector of `len` bits of which only two adjacent blocks, at `at`, are
/// tracked: everything the crate does with it is in terms of whole blocks.
pub struct Win<B> {
    pub at: u64,
    pub a: B,
    pub b: B,
    pub len: u64,
    /// Whether any other block was written.
    pub outside: bool,
}

impl<B: Blk> Win<B> {
    /// The largest vector of whole blocks, both tracked blocks anywhere inside it.
    pub fn any() -> Win<B> {
        let blocks = (!0u64 >> 1) / (B::W / 2);
        let at = nd::u64();
        nd::assume(at < blocks - 1);
        Win { at, a: B::nd(), b: B::nd(), len: blocks * B::W, outside: false }
    }

    pub fn seq(&self) -> Seq {
        let mut m = Seq { bits: 0, len: 0 };
        m.push(B::W, self.a.w());
        m.push(B::W, self.b.w());
        m
    }
}

impl<B: Blk> BitVec for Win<B> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.len }
    fn get_block(&self, i: usize) -> B {
        let i = i as u64;
        assert!(i < self.len / B::W + (self.len % B::W != 0) as u64);
        if i == self.at { self.a } else if i == self.at + 1 { self.b } else { B::zero() }
    }
}

impl<B: Blk> BitVecMut for Win<B> {
    fn set_block(&mut self, i: usize, x: B) {
        let i = i as u64;
        assert!(i < self.len / B::W + (self.len % B::W != 0) as u64);
        if i == self.at { self.a = x }
        else if i == self.at + 1 { self.b = x }
        else { self.outside = true }
    }
}

impl<B: Blk> BitVecPush for Win<B> {
    fn push_bit(&mut self, x: bool) {
        assert!(self.len < !0);
        let i = self.len / B::W;
        let m = Blk::of(1u128 << self.len % B::W);
        self.len += 1;
        if i == self.at { self.a = if x { self.a | m } else { self.a & !m } }
        else if i == self.at + 1 { self.b = if x { self.b | m } else { self.b & !m } }
        else { self.outside |= x }
    }
    fn pop_bit(&mut self) -> Option<bool> { panic!("not here") }
}

/// A bit vector of `len` bits in an array of blocks; whatever is behind the end
/// stays in the last block.
#[derive(Clone, Copy)]
pub struct Arr<B, const N: usize> {
    pub a: [B; N],
    pub len: u64,
}

impl<B: Blk, const N: usize> Arr<B, N> {
    /// `len` bits, arbitrary contents.
    #[inline(always)]
    pub fn any(len: u64) -> Self {
        let mut a = [B::zero(); N];
        let mut i = 0;
        while i < N { a[i] = B::nd(); i += 1; }
        Arr { a, len }
    }

    /// Ones among the bits 0 ..= p.
    pub fn ones_to(&self, p: u64) -> u64 {
        let mut n = 0u64;
        let mut i = 0;
        while i < N as u64 {
            let x = self.a[i as usize].w() as u64;
            if i * B::W + B::W - 1 <= p { n += x.count_ones() as u64; }
            else if i * B::W <= p { n += (x & (!0 >> (63 - (p - i * B::W)))).count_ones() as u64; }
            i += 1;
        }
        n
    }
}

impl<B: Blk, const N: usize> BitVec for Arr<B, N> {
    type Block = B;
    fn bit_len(&self) -> u64 { self.len }
    fn get_block(&self, i: usize) -> B {
        assert!((i as u64) < self.len / B::W + (self.len % B::W != 0) as u64);
        self.a[i]
    }
}
