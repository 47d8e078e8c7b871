//! Capacity requests are honoured or panic.
use crate::model::*;
use crate::nd;
use crate::ops::step;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

#[inline(always)]
fn iv64(k: usize, n: u64, op: u8) {
    let mut v = IntVector::<u64>::new(k);
    v.push(1);
    match op {
        0 => v.reserve(n),
        1 => v.reserve_exact(n),
        2 => v.resize(n, 0),
        3 => { IntVector::<u64>::with_capacity(k, n); }
        _ => { IntVector::<u64>::with_fill(k, n, 0); }
    }
}

const HUGE: u64 = 1 << 62;

/// Requests of any size that memory could hold.
fn huge_bv<B: Blk>() {
    let (n, b) = (nd::upto(HUGE), nd::upto(HUGE / B::W) as usize);
    let (mut v, m) = any_bv::<B>(2);
    match nd::upto8(5) {
        0 => { let v = BitVector::<B>::with_capacity(n); check!(v.capacity() >= n, "with_capacity"); }
        1 => {
            let v = BitVector::<B>::block_with_capacity(b);
            check!(v.block_capacity() >= b && v.capacity() >= b as u64 * B::W, "block_with_capacity");
        }
        2 => { v.reserve(n); check!(v.capacity() >= m.len + n, "reserve"); }
        3 => { v.reserve_exact(n); check!(v.capacity() >= m.len + n, "reserve_exact"); }
        4 => {
            v.block_reserve(b);
            check!(v.block_capacity() as u64 >= blocks::<B>(m.len) + b as u64, "block_reserve");
        }
        _ => {
            v.block_reserve_exact(b);
            check!(v.block_capacity() as u64 >= blocks::<B>(m.len) + b as u64, "block_reserve_exact");
        }
    }
    check!(v.bit_len() == m.len, "contents unchanged");
}

#[inline(always)]
fn huge_iv<B: Blk>(k: u64) {
    let (n, b) = (nd::upto(HUGE / k), nd::upto(HUGE / B::W) as usize);
    let (mut v, m, c) = any_iv::<B>(2, k);
    match nd::upto8(5) {
        0 => {
            let v = IntVector::<B>::with_capacity(k as usize, n);
            check!(v.capacity() >= n, "with_capacity");
        }
        1 => {
            let v = IntVector::<B>::block_with_capacity(k as usize, b);
            check!(v.block_capacity() >= b && v.capacity() >= b as u64 * B::W / k, "block_with_capacity");
        }
        2 => { v.reserve(n); check!(v.capacity() >= c + n, "reserve"); }
        3 => { v.reserve_exact(n); check!(v.capacity() >= c + n, "reserve_exact"); }
        4 => {
            v.block_reserve(b);
            check!(v.block_capacity() as u64 >= blocks::<B>(m.len) + b as u64, "block_reserve");
        }
        _ => {
            v.block_reserve_exact(b);
            check!(v.block_capacity() as u64 >= blocks::<B>(m.len) + b as u64, "block_reserve_exact");
        }
    }
    check!(v.len() == c, "contents unchanged");
}

harnesses! {
    holds bv_new(10) "BitVector<u8>, capacity requests <= 200 bits, 25 blocks [realvec]" {
        if nd::bool() {
            let n = nd::upto8(200) as u64;
            let v = BitVector::<u8>::with_capacity(n);
            check!(v.capacity() >= n && v.block_capacity() as u64 * 8 >= n, "with_capacity");
            check!(v.bit_len() == 0, "empty");
        } else {
            let n = nd::upto8(25) as usize;
            let v = BitVector::<u8>::block_with_capacity(n);
            check!(v.block_capacity() >= n && v.capacity() >= 8 * n as u64, "block_with_capacity");
            check!(v.bit_len() == 0, "empty");
        }
    }
    holds bv_reserve(10) "BitVector<u8>, length <= 16, then reserve* <= 200 bits, 25 blocks [realvec]" {
        let (mut v, m) = any_bv::<u8>(2);
        let n = nd::upto8(200) as u64;
        let b = nd::upto8(25) as usize;
        match nd::upto8(3) {
            0 => { v.reserve(n); check!(v.capacity() >= m.len + n, "reserve"); }
            1 => { v.reserve_exact(n); check!(v.capacity() >= m.len + n, "reserve_exact"); }
            2 => {
                v.block_reserve(b);
                check!(v.block_capacity() as u64 >= blocks::<u8>(m.len) + b as u64, "block_reserve");
            }
            _ => {
                v.block_reserve_exact(b);
                check!(v.block_capacity() as u64 >= blocks::<u8>(m.len) + b as u64, "block_reserve_exact");
            }
        }
        check!(agrees(&v, &m), "contents unchanged");
    }
    holds bv_keep(10) "BitVector<u8>, length <= 16, capacity <= 32 blocks: clear, shrink_to_fit, truncate, push [realvec]" {
        let (mut v, mut m) = any_bv::<u8>(2);
        v.block_reserve(nd::upto8(20) as usize);
        let c = v.capacity();
        match nd::upto8(2) {
            0 => { v.clear(); m.cut(0); check!(v.capacity() == c, "clear keeps capacity"); }
            1 => { v.shrink_to_fit(); check!(v.capacity() >= m.len && v.capacity() <= c, "shrink_to_fit"); }
            _ => {
                let b = nd::bool();
                v.push_bit(b);
                m.push(1, b as u128);
                check!(v.capacity() >= c && v.capacity() >= m.len, "pushing does not lose capacity");
            }
        }
        check!(agrees(&v, &m), "contents unchanged");
    }
    holds iv_new(10) "IntVector<u8>, width 1..8, capacity requests <= 25 blocks [realvec]" {
        let k = any_width::<u8>();
        if nd::bool() {
            let n = nd::upto8(200) as u64;
            nd::assume(n * k <= 200);
            let v = IntVector::<u8>::with_capacity(k as usize, n);
            check!(v.capacity() >= n && v.block_capacity() as u64 * 8 >= n * k, "with_capacity");
            check!(v.is_empty() && v.len() == 0, "empty");
        } else {
            let n = nd::upto8(25) as usize;
            let v = IntVector::<u8>::block_with_capacity(k as usize, n);
            check!(v.block_capacity() >= n && v.capacity() >= 8 * n as u64 / k, "block_with_capacity");
            check!(v.is_empty() && v.len() == 0, "empty");
        }
    }
    holds iv_reserve(10) "IntVector<u8>, width 1..8, <= 16 bits, then reserve* <= 25 blocks [realvec]" {
        let k = any_width::<u8>();
        let (mut v, m, c) = any_iv::<u8>(2, k);
        let n = nd::upto8(200) as u64;
        nd::assume(n * k <= 200);
        let b = nd::upto8(25) as usize;
        match nd::upto8(3) {
            0 => { v.reserve(n); check!(v.capacity() >= c + n, "reserve"); }
            1 => { v.reserve_exact(n); check!(v.capacity() >= c + n, "reserve_exact"); }
            2 => {
                v.block_reserve(b);
                check!(v.block_capacity() as u64 >= blocks::<u8>(m.len) + b as u64, "block_reserve");
            }
            _ => {
                v.block_reserve_exact(b);
                check!(v.block_capacity() as u64 >= blocks::<u8>(m.len) + b as u64, "block_reserve_exact");
            }
        }
        check!(agrees_iv(&v, &m, k, c), "contents unchanged");
    }
    holds iv_keep(10) "IntVector<u8>, width 1..8, <= 16 bits, capacity <= 32 blocks: clear, shrink_to_fit [realvec]" {
        let k = any_width::<u8>();
        let (mut v, mut m, mut c) = any_iv::<u8>(2, k);
        v.block_reserve(nd::upto8(20) as usize);
        let cap = v.capacity();
        if nd::bool() {
            v.clear();
            m.cut(0);
            c = 0;
            check!(v.capacity() == cap, "clear keeps capacity");
        } else {
            v.shrink_to_fit();
            check!(v.capacity() >= c && v.capacity() <= cap, "shrink_to_fit");
        }
        check!(agrees_iv(&v, &m, k, c), "contents unchanged");
    }
    holds bv_huge(10) "BitVector<u8>, at most 16 bits; every capacity request up to 2^62 bits [phantom]" {
        huge_bv::<u8>();
    }
    holds bv_huge64(10) "BitVector<u64>, at most 128 bits; every capacity request up to 2^62 bits [phantom]" {
        huge_bv::<u64>();
    }
    holds iv_huge8(10) "IntVector<u8>, widths 3, 8, at most 16 bits; every capacity request up to 2^62 bits [phantom]" {
        if nd::bool() { huge_iv::<u8>(3) } else { huge_iv::<u8>(8) }
    }
    holds iv_huge64(10) "IntVector<u64>, widths 16, 64, at most 128 bits; every capacity request up to 2^62 bits [phantom]" {
        if nd::bool() { huge_iv::<u64>(16) } else { huge_iv::<u64>(64) }
    }
    holds_t iv_huge_t(10) "IntVector<u64>, widths 7, 33, at most 128 bits; every capacity request up to 2^62 bits [phantom]" {
        if nd::bool() { huge_iv::<u64>(7) } else { huge_iv::<u64>(33) }
    }
    panics bv_over(10) "BitVector<u8>, length <= 16: reserve, reserve_exact, block_* beyond any integer [realvec]" {
        let (mut v, m) = any_bv::<u8>(2);
        let n = nd::u64();
        let op = nd::upto8(3);
        nd::assume(if op < 2 { n as u128 + m.len as u128 >= 1 << 64 }
                   else { n as u128 + blocks::<u8>(m.len) as u128 >= 1 << 63 });
    } => {
        match op {
            0 => v.reserve(n),
            1 => v.reserve_exact(n),
            2 => v.block_reserve(n as usize),
            _ => v.block_reserve_exact(n as usize),
        }
    }
    panics iv_over(5) "IntVector<u8>, width 1..8, <= 16 bits: reserve, reserve_exact, resize, with_capacity, with_fill beyond 2^64 bits [realvec]" {
        let k = any_width::<u8>();
        let (mut v, _, c) = any_iv::<u8>(2, k);
        let n = nd::u64();
        let op = nd::upto8(4);
        nd::assume(n.checked_add(if op < 2 { c } else { 0 }).and_then(|n| n.checked_mul(k)).is_none());
    } => {
        match op {
            0 => v.reserve(n),
            1 => v.reserve_exact(n),
            2 => v.resize(n, 0),
            3 => { IntVector::<u8>::with_capacity(k as usize, n); }
            _ => { IntVector::<u8>::with_fill(k as usize, n, 0); }
        }
    }
    panics iv64_over(3) "IntVector<u64>, widths 7, 33, 64: reserve, reserve_exact, resize, with_capacity, with_fill beyond 2^64 bits [realvec]" {
        let (n, op, which) = (nd::u64(), nd::upto8(4), nd::upto8(2));
        let k = if which == 0 { 7 } else if which == 1 { 33 } else { 64 };
        nd::assume(n.checked_add((op < 2) as u64).and_then(|n| n.checked_mul(k)).is_none());
    } => {
        match which {
            0 => iv64(7, n, op),
            1 => iv64(33, n, op),
            _ => iv64(64, n, op),
        }
    }
    panics_t iv64_over_t(3) "IntVector<u64>, width 1..64: reserve, reserve_exact, resize, with_capacity, with_fill beyond 2^64 bits [realvec]" {
        let k = any_width::<u64>();
        let mut v = IntVector::<u64>::new(k as usize);
        v.push(1);
        let n = nd::u64();
        let op = nd::upto8(4);
        nd::assume(n.checked_add((op < 2) as u64).and_then(|n| n.checked_mul(k)).is_none());
    } => {
        match op {
            0 => v.reserve(n),
            1 => v.reserve_exact(n),
            2 => v.resize(n, 0),
            3 => { IntVector::<u64>::with_capacity(k as usize, n); }
            _ => { IntVector::<u64>::with_fill(k as usize, n, 0); }
        }
    }
}
