//! Every operation on the vectors, next to its effect on the model.
use crate::check;
use crate::model::*;
use crate::nd;
use succinct::{BitVec, BitVecMut, BitVecPush, BitVector, IntVec, IntVecMut, IntVector};

/// One arbitrary operation on the vector and on the model.
pub fn step<B: Blk>(v: &mut BitVector<B>, m: &mut Seq, op: u8, cap: u64) {
    let w = B::W;
    match op {
        0 => { let b = nd::bool(); v.push_bit(b); m.push(1, b as u128); }
        1 => {
            let r = v.pop_bit();
            if m.len == 0 { check!(r.is_none(), "pop_bit of an empty vector"); }
            else {
                check!(r == Some(m.bit(m.len - 1)), "pop_bit returns the last bit");
                let l = m.len - 1;
                m.cut(l);
            }
        }
        2 => {
            let b = B::nd();
            v.push_block(b);
            let pad = (w - m.len % w) % w;
            m.push(pad, 0);
            m.push(w, b.w());
        }
        3 => {
            let i = nd::u8() as u64;
            let b = nd::bool();
            if i < m.len { v.set_bit(i, b); m.set(i, 1, b as u128); }
        }
        4 => {
            let i = nd::u8() as u64;
            let b = B::nd();
            if i < (m.len + w - 1) / w {
                v.set_block(i as usize, b);
                let n = if m.len - i * w < w { m.len - i * w } else { w };
                m.set(i * w, n, b.w());
            }
        }
        5 => { let n = nd::u64(); v.truncate(n); m.cut(n); }
        6 => {
            let n = nd::usize();
            v.block_truncate(n);
            if (n as u64) < (m.len + w - 1) / w { m.cut(n as u64 * w); }
        }
        7 => {
            let n = nd::upto8(cap as u8) as u64;
            let b = nd::bool();
            v.resize(n, b);
            if n < m.len { m.cut(n) }
            else { let k = n - m.len; m.push(k, if b { !0 } else { 0 }); }
        }
        8 => { v.clear(); m.cut(0); }
        9 => {
            let i = nd::u8() as u64;
            let n = nd::upto8(w as u8) as u64;
            let b = B::nd();
            if i + n <= m.len { v.set_bits(i, n as usize, b); m.set(i, n, b.w()); }
        }
        10 => { let n = nd::upto8(40) as u64; v.reserve(n); }
        11 => { v.shrink_to_fit(); }
        12 => {
            let b = nd::bool();
            v.align_block(b);
            let pad = (w - m.len % w) % w;
            m.push(pad, if b { !0 } else { 0 });
        }
        13 => { let c = v.clone(); *v = c; }
        _ => {
            // Block-wise growth keeps what was there; a partial last block is filled
            // up with zeros, as push_block documents.
            let n = nd::upto8((cap / w) as u8) as u64;
            let b = B::nd();
            v.block_resize(n as usize, b);
            if n * w <= m.len { m.cut(n * w); }
            else {
                let pad = (w - m.len % w) % w;
                m.push(pad, 0);
                let mut k = 0;
                while k < cap / w { if m.len < n * w { m.push(w, b.w()); } k += 1; }
            }
        }
    }
}

/// One arbitrary operation on an integer vector of width `k` with `c` elements, and
/// on its model. `cap` bounds the bits it may grow to, `more` the elements a resize adds.
pub fn istep<B: Blk>(v: &mut IntVector<B>, m: &mut Seq, k: u64, c: &mut u64, op: u8, cap: u64, more: u64) {
    let w = B::W;
    match op {
        0 => {
            let x = B::nd();
            nd::assume(x.w() <= ones(k));
            v.push(x);
            m.push(k, x.w());
            *c += 1;
        }
        1 => {
            let r = v.pop();
            if *c == 0 { check!(r.is_none(), "pop of an empty vector"); }
            else {
                let x = m.get(m.len - k, k);
                check!(r.is_some() && r.unwrap().w() == x, "pop returns the last element");
                let l = m.len - k;
                m.cut(l);
                *c -= 1;
            }
        }
        2 => {
            let i = nd::u8() as u64;
            let x = B::nd();
            nd::assume(x.w() <= ones(k));
            if i < *c { v.set(i, x); m.set(i * k, k, x.w()); }
        }
        3 => {
            let n = nd::u64();
            v.truncate(n);
            if n < *c { *c = n; m.cut(n * k); }
        }
        4 => {
            let n = nd::usize();
            v.block_truncate(n);
            if (n as u64) < blocks::<B>(m.len) {
                *c = n as u64 * w / k;
                m.cut(*c * k);
            }
        }
        5 => { v.clear(); m.cut(0); *c = 0; }
        6 => {
            let n = nd::u8() as u64;
            nd::assume(n * k <= cap && n <= *c + more);
            let x = B::nd();
            nd::assume(x.w() <= ones(k));
            v.resize(n, x);
            if n < *c { m.cut(n * k); }
            else { m.push(n * k - m.len, repeat(x.w(), k)); }
            *c = n;
        }
        7 => {
            let n = nd::u8() as u64;
            nd::assume(n * w <= cap);
            let x = B::nd();
            let old = blocks::<B>(m.len);
            v.block_resize(n as usize, x);
            if n < old { *c = n * w / k; m.cut(*c * k); }
            else {
                // The bits behind the last element are zero, then come the new blocks.
                m.len = old * w;
                let mut j = 0;
                while j * w < cap { if m.len < n * w { m.push(w, x.w()); } j += 1; }
                *c = n * w / k;
                m.cut(*c * k);
            }
        }
        8 => { let n = nd::upto8(8) as u64; v.reserve(n); }
        9 => { v.shrink_to_fit(); }
        10 => { let x = v.clone(); *v = x; }
        _ => {
            let i = nd::u8() as u64;
            let b = B::nd();
            if i < blocks::<B>(m.len) {
                v.set_block(i as usize, b);
                let n = if m.len - i * w < w { m.len - i * w } else { w };
                m.set(i * w, n, b.w());
            }
        }
    }
}
