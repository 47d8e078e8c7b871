//! IntVector rejects impossible widths and oversized values.
use crate::model::*;
use crate::nd;
use succinct::{BitVec, BitVecMut, IntVec, IntVecMut, IntVector};

fn create<B: Blk>(how: u8, k: usize, n: u64, x: B) {
    match how {
        0 => { IntVector::<B>::new(k); }
        1 => { IntVector::<B>::with_capacity(k, n); }
        2 => { IntVector::<B>::block_with_capacity(k, n as usize); }
        3 => { IntVector::with_fill(k, n, x); }
        _ => { IntVector::block_with_fill(k, n as usize, x); }
    }
}

/// Any width that `B` cannot have, with an element count that keeps the storage
/// within the encoding's heap blocks.
fn bad_width<B: Blk>() -> (u8, usize, u64) {
    let how = nd::upto8(4);
    let k = nd::u64();
    nd::assume(k == 0 || k > B::W);
    let n = nd::upto8(3) as u64;
    nd::assume(n == 0 || k <= 2 * B::W || how != 1 && how != 3);
    (how, k as usize, n)
}

macro_rules! store {
    ($v:ident, $op:ident, $o:ident, $w:ident, $i:ident, $x:ident) => {
        match $op {
            0 => $v.push($x),
            1 => $v.set($i, $x),
            _ => $v.set_random($o, $w as usize, $i, $x),
        }
    };
}

macro_rules! oversized {
    ($b:ident, $n:expr) => {{
        let k = any_width::<$b>();
        let (v, m, c) = any_iv::<$b>($n, k);
        let op = nd::upto8(2);
        let (o, i, x) = (nd::u8() as u64, nd::u8() as u64, $b::nd());
        let w = any_width::<$b>();
        match op {
            0 => nd::assume(x.w() > ones(k)),
            1 => nd::assume(x.w() > ones(k) && i < c),
            _ => nd::assume(x.w() > ones(w) && o + i * w + w <= m.len),
        }
        (v, op, o, w, i, x)
    }};
}

use crate::nd::Nd;

harnesses! {
    panics width8(8) "every constructor of IntVector<u8>, every impossible width" {
        let (how, k, n) = bad_width::<u8>();
        let x = nd::u8();
    } => { create::<u8>(how, k, n, x); }
    panics width32(8) "every constructor of IntVector<u32>, every impossible width" {
        let (how, k, n) = bad_width::<u32>();
        let x = nd::u32();
    } => { create::<u32>(how, k, n, x); }
    panics width64(8) "every constructor of IntVector<u64>, every impossible width" {
        let (how, k, n) = bad_width::<u64>();
        let x = nd::u64();
    } => { create::<u64>(how, k, n, x); }
    panics value8(10) "push, set, set_random on IntVector<u8>, width 1..8, <= 16 bits, every oversized value" {
        let (mut v, op, o, w, i, x) = oversized!(u8, 2);
    } => { store!(v, op, o, w, i, x) }
    panics value64(10) "push, set, set_random on IntVector<u64>, width 1..64, <= 64 bits, every oversized value" {
        let (mut v, op, o, w, i, x) = oversized!(u64, 1);
    } => { store!(v, op, o, w, i, x) }
    holds accepted(10) "every possible width is accepted, every fitting value is stored whole, IntVector<u64>" {
        let k = any_width::<u64>();
        let x = nd::u64();
        nd::assume(x as u128 <= ones(k));
        let mut v = match nd::upto8(1) {
            0 => IntVector::<u64>::new(k as usize),
            _ => IntVector::block_with_capacity(k as usize, 2),
        };
        v.push(x);
        check!(v.len() == 1 && v.get(0) == x, "the value pushed");
        let y = nd::u64();
        nd::assume(y as u128 <= ones(k));
        v.set(0, y);
        check!(v.len() == 1 && v.get(0) == y, "the value set");
    }
}
