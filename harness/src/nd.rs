//! Nondeterministic values. Under Kani they are symbolic; natively (replay) they
//! are taken from the list the solver's counterexample gave.

#[cfg(kani)]
mod imp {
    /// Every symbolic value passes through here, in program order, so that the
    /// driver can read the assignment off CBMC's trace.
    #[inline(never)]
    pub fn nd_rec(v: u64) -> u64 {
        v
    }

    /// Answered by engine/alloc.c.
    #[inline(never)]
    pub fn nd_live() -> u64 { nd_rec(0) }

    pub fn raw_u8() -> u64 { nd_rec(kani::any::<u8>() as u64) }
    pub fn raw_u16() -> u64 { nd_rec(kani::any::<u16>() as u64) }
    pub fn raw_u32() -> u64 { nd_rec(kani::any::<u32>() as u64) }
    pub fn raw_u64() -> u64 { nd_rec(kani::any::<u64>()) }
    pub fn raw_bool() -> u64 { nd_rec(kani::any::<bool>() as u64) }

    #[inline(always)]
    pub fn assume(c: bool) { kani::assume(c) }
    #[inline(always)]
    pub fn reach() {
        // So that engine/gb.py always has it to model errors with.
        std::mem::forget(std::io::Error::from(std::io::ErrorKind::Other));
        kani::cover!(true, "VERIF: witness");
    }
    #[inline(always)]
    pub fn may(c: bool) { kani::cover!(c, "VERIF: case"); }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::panic::panic_any;

    thread_local! {
        pub static VALUES: RefCell<std::collections::VecDeque<u64>> =
            RefCell::new(std::collections::VecDeque::new());
        pub static REACHED: RefCell<bool> = RefCell::new(false);
    }

    struct Counting;
    static LIVE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::Ordering::Relaxed;
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            LIVE.fetch_add(l.size() as u64, Relaxed);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            LIVE.fetch_sub(l.size() as u64, Relaxed);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static COUNTING: Counting = Counting;
    pub fn nd_live() -> u64 { LIVE.load(Relaxed) }

    pub struct BadReplay(pub &'static str);

    fn pop() -> u64 {
        match VALUES.with(|v| v.borrow_mut().pop_front()) {
            Some(x) => x,
            None => panic_any(BadReplay("out of values")),
        }
    }

    pub fn raw_u8() -> u64 { pop() }
    pub fn raw_u16() -> u64 { pop() }
    pub fn raw_u32() -> u64 { pop() }
    pub fn raw_u64() -> u64 { pop() }
    pub fn raw_bool() -> u64 { pop() }

    pub fn assume(c: bool) {
        if !c { panic_any(BadReplay("assumption violated")) }
    }
    pub fn reach() { REACHED.with(|r| *r.borrow_mut() = true) }
    pub fn may(_: bool) {}
}

#[cfg(not(kani))]
pub use self::imp::{BadReplay, REACHED, VALUES};

pub fn u8() -> u8 { imp::raw_u8() as u8 }
pub fn u16() -> u16 { imp::raw_u16() as u16 }
pub fn u32() -> u32 { imp::raw_u32() as u32 }
pub fn u64() -> u64 { imp::raw_u64() }
pub fn usize() -> usize { imp::raw_u64() as usize }
pub fn bool() -> bool { imp::raw_bool() != 0 }
pub fn assume(c: bool) { imp::assume(c) }
/// Vacuity witness: the solver must find an execution that gets here.
pub fn reach() { imp::reach() }
/// Extra coverage goal: the solver must find an execution where `c` holds here.
pub fn may(c: bool) { imp::may(c) }

/// The heap bytes that are allocated and not freed.
pub fn live() -> u64 { imp::nd_live() }

/// Any value in `0 ..= max`.
pub fn upto(max: u64) -> u64 { let v = imp::raw_u64(); assume(v <= max); v }
/// Any value in `0 ..= max` (8-bit variable: cheaper to decide).
pub fn upto8(max: u8) -> u8 { let v = u8(); assume(v <= max); v }

pub trait Nd: Sized + Copy { fn nd() -> Self; }
impl Nd for u8 { fn nd() -> u8 { u8() } }
impl Nd for u16 { fn nd() -> u16 { u16() } }
impl Nd for u32 { fn nd() -> u32 { u32() } }
impl Nd for u64 { fn nd() -> u64 { u64() } }
impl Nd for usize { fn nd() -> usize { usize() } }
impl Nd for bool { fn nd() -> bool { bool() } }

pub fn fmt_stub(_: std::fmt::Arguments<'_>) -> String { String::new() }
