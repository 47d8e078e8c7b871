//! Operations between fixed lengths, many blocks long: every length is a constant in the
//! harness, every content is symbolic. The model is an array of words.
use crate::check;
use crate::model::Blk;
use crate::nd;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

const WORDS: usize = 10;

#[derive(Clone, Copy)]
pub struct Bits { pub w: [u64; WORDS], pub len: u64 }

impl Bits {
    pub fn new() -> Bits { Bits { w: [0; WORDS], len: 0 } }
    pub fn bit(&self, i: u64) -> bool { self.w[(i / 64) as usize] >> (i % 64) & 1 == 1 }
    pub fn put(&mut self, i: u64, b: bool) {
        let (q, s) = ((i / 64) as usize, i % 64);
        self.w[q] = self.w[q] & !(1 << s) | (b as u64) << s;
    }
    /// Appends the low `n <= 64` bits of `x`.
    pub fn push(&mut self, n: u64, x: u64) {
        let (q, s) = ((self.len / 64) as usize, self.len % 64);
        let x = if n == 64 { x } else { x & ((1 << n) - 1) };
        self.w[q] |= x << s;
        if s + n > 64 { self.w[q + 1] |= x >> (64 - s); }
        self.len += n;
    }
    pub fn cut(&mut self, n: u64) {
        while self.len > n { self.len -= 1; let l = self.len; self.put(l, false); }
    }
    /// `n <= 64` bits from `i` on; zeros behind the end.
    pub fn get(&self, i: u64, n: u64) -> u64 {
        let (q, s) = ((i / 64) as usize, i % 64);
        let mut x = self.w[q] >> s;
        if s != 0 && q + 1 < WORDS { x |= self.w[q + 1] << (64 - s); }
        if n == 64 { x } else { x & ((1 << n) - 1) }
    }
}

pub fn ceil<B: Blk>(bits: u64) -> u64 { (bits + B::W - 1) / B::W }

/// Any bit vector of exactly `l` bits.
pub fn bits<B: Blk>(l: u64) -> (BitVector<B>, Bits) {
    let mut v = BitVector::new();
    let mut m = Bits::new();
    let mut i = 0;
    while i < ceil::<B>(l) {
        let b = B::nd();
        v.push_block(b);
        m.push(B::W, b.w() as u64);
        i += 1;
    }
    v.truncate(l);
    m.cut(l);
    (v, m)
}

/// The same sequence, written block by block over zeros.
pub fn rebuilt<B: Blk>(m: &Bits) -> BitVector<B> {
    let mut v = BitVector::with_fill(m.len, false);
    let mut i = 0;
    while i < ceil::<B>(m.len) {
        v.set_block(i as usize, B::of(m.get(i * B::W, B::W) as u128));
        i += 1;
    }
    v
}

/// One operation that moves from the length of `m` to (about) `n` bits.
pub fn op<B: Blk>(v: &mut BitVector<B>, m: &mut Bits, n: u64, which: u8) {
    match which {
        0 => {
            let b = nd::bool();
            v.resize(n, b);
            m.cut(n);
            while m.len < n { m.push(1, b as u64); }
        }
        1 => { v.truncate(n); m.cut(n); }
        2 => {
            let x = B::nd();
            let n = ceil::<B>(n);
            v.block_resize(n as usize, x);
            if n * B::W <= m.len { m.cut(n * B::W); }
            else {
                while m.len % B::W != 0 { m.push(1, 0); }
                while m.len < n * B::W { m.push(B::W, x.w() as u64); }
            }
        }
        3 => {
            let n = n / B::W;
            v.block_truncate(n as usize);
            if n < ceil::<B>(m.len) { m.cut(n * B::W); }
        }
        4 => { while m.len < n { let b = nd::bool(); v.push_bit(b); m.push(1, b as u64); } }
        _ => {
            while m.len > n {
                let l = m.len - 1;
                check!(v.pop_bit() == Some(m.bit(l)), "pop_bit returns the last bit");
                m.cut(l);
            }
        }
    }
}

/// `v` is exactly `m`, whole blocks included, with zeros behind the end.
pub fn exact<V: BitVec + ?Sized>(v: &V, m: &Bits) where V::Block: Blk {
    let w = <V::Block as Blk>::W;
    check!(v.bit_len() == m.len, "length in bits");
    let n = (m.len + w - 1) / w;
    check!(v.block_len() as u64 == n, "length in blocks");
    let mut i = 0;
    while i < n {
        check!(v.get_block(i as usize).w() as u64 == m.get(i * w, w), "every block");
        i += 1;
    }
}

/// Any integer vector of exactly `c` elements of `k` bits.
pub fn ints<B: Blk>(k: u64, c: u64) -> (IntVector<B>, Bits) {
    let n = ceil::<B>(k * c);
    let mut v = IntVector::block_with_fill(k as usize, n as usize, B::zero());
    let mut m = Bits::new();
    let mut i = 0;
    while i < n {
        let b = B::nd();
        v.set_block(i as usize, b);
        m.push(B::W, b.w() as u64);
        i += 1;
    }
    v.truncate(c);
    m.cut(k * c);
    (v, m)
}

/// The same elements, written block by block over zeros.
pub fn irebuilt<B: Blk>(m: &Bits, k: u64) -> IntVector<B> {
    let n = ceil::<B>(m.len);
    let mut v = IntVector::block_with_fill(k as usize, n as usize, B::zero());
    v.truncate(m.len / k);
    let mut i = 0;
    while i < n {
        v.set_block(i as usize, B::of(m.get(i * B::W, B::W) as u128));
        i += 1;
    }
    v
}

fn fits<B: Blk>(k: u64) -> B {
    let x = B::nd();
    nd::assume(k == 64 || x.w() as u64 >> k == 0);
    x
}

/// One operation that moves from `m.len / k` to (about) `n` elements.
pub fn iop<B: Blk>(v: &mut IntVector<B>, m: &mut Bits, k: u64, n: u64, which: u8) {
    match which {
        0 => {
            let x = fits::<B>(k);
            v.resize(n, x);
            m.cut(n * k);
            while m.len < n * k { m.push(k, x.w() as u64); }
        }
        1 => { v.truncate(n); m.cut(n * k); }
        2 => {
            let x = B::nd();
            let n = ceil::<B>(n * k);
            let old = ceil::<B>(m.len);
            v.block_resize(n as usize, x);
            if n >= old {
                while m.len % B::W != 0 { m.push(1, 0); }
                while m.len < n * B::W { m.push(B::W, x.w() as u64); }
            }
            m.cut(n * B::W / k * k);
            // Elements made of padding and of new blocks.
            if n < old { m.cut(n * B::W / k * k); }
        }
        3 => {
            let n = n * k / B::W;
            v.block_truncate(n as usize);
            if n < ceil::<B>(m.len) { m.cut(n * B::W / k * k); }
        }
        4 => { while m.len < n * k { let x = fits::<B>(k); v.push(x); m.push(k, x.w() as u64); } }
        _ => {
            while m.len > n * k {
                let l = m.len - k;
                let x = v.pop();
                check!(x.is_some() && x.unwrap().w() as u64 == m.get(l, k), "pop returns the last element");
                m.cut(l);
            }
        }
    }
}

/// `v` holds exactly the elements of `m`.
pub fn iexact<B: Blk>(v: &IntVector<B>, m: &Bits, k: u64) {
    check!(v.len() == m.len / k && v.element_bits() as u64 == k, "length");
    let i = nd::u8() as u64;
    if i < m.len / k {
        check!(v.get(i).w() as u64 == m.get(i * k, k), "every element");
    }
}
