//! Harnesses over the public API of `succinct`, one module per property.
//! See ../DESIGN.md.
#![allow(dead_code, unused_imports, unused_macros)]

pub mod nd;
pub mod model;
pub mod ops;
pub mod shape;
pub mod bounds;
pub mod oracle;


/// The property's own assertion: its failure is reported with this message.
#[macro_export]
macro_rules! check {
    ($c:expr, $m:literal) => { assert!($c, concat!("VERIF: ", $m)) };
}

pub mod stream;
pub mod codes;

pub struct Entry {
    pub name: &'static str,
    pub unwind: u32,
    pub kind: &'static str,
    pub bounds: &'static str,
    pub run: fn(),
}

/// `holds name(unwind) "bounds" { body }`: `body` must run to its end, without any
/// panic, for every value (dev-profile semantics: overflow checks and debug
/// assertions on).
/// `panics name(unwind) "bounds" { setup } => { call }`: `call` must panic for
/// every value (release-profile semantics: neither).
/// `holds_t`, `panics_t`: the same, thorough tier only.
macro_rules! harnesses {
    ( $( $kind:ident $n:ident ( $uw:literal ) $bounds:literal { $($b:tt)* } $( => { $($call:tt)* } )? )* ) => {
        $( harnesses!(@fn $kind $n $uw { $($b)* } $( { $($call)* } )?); )*

        #[cfg(not(kani))]
        pub const TABLE: &'static [crate::Entry] = &[ $( crate::Entry {
            name: stringify!($n), unwind: $uw, bounds: $bounds,
            kind: stringify!($kind), run: $n } ),* ];
    };
    (@fn holds $n:ident $uw:literal { $($b:tt)* }) => {
        #[cfg_attr(all(kani, not(feature = "rel")), kani::proof)]
        #[cfg_attr(all(kani, not(feature = "rel")), kani::unwind($uw))]
        #[cfg_attr(all(kani, not(feature = "rel")), kani::stub(std::fmt::format, crate::nd::fmt_stub))]
        pub fn $n() { { $($b)* } crate::nd::reach(); }
    };
    (@fn holds_t $n:ident $uw:literal { $($b:tt)* }) => {
        #[cfg_attr(all(kani, feature = "thorough", not(feature = "rel")), kani::proof)]
        #[cfg_attr(all(kani, feature = "thorough", not(feature = "rel")), kani::unwind($uw))]
        #[cfg_attr(all(kani, feature = "thorough", not(feature = "rel")), kani::stub(std::fmt::format, crate::nd::fmt_stub))]
        pub fn $n() { { $($b)* } crate::nd::reach(); }
    };
    (@fn panics $n:ident $uw:literal { $($b:tt)* } { $($call:tt)* }) => {
        #[cfg_attr(all(kani, feature = "rel"), kani::proof)]
        #[cfg_attr(all(kani, feature = "rel"), kani::unwind($uw))]
        #[cfg_attr(all(kani, feature = "rel"), kani::stub(std::fmt::format, crate::nd::fmt_stub))]
        pub fn $n() {
            $($b)*
            crate::nd::reach();
            { $($call)* }
            panic!("VERIF: returned instead of panicking");
        }
    };
    (@fn panics_t $n:ident $uw:literal { $($b:tt)* } { $($call:tt)* }) => {
        #[cfg_attr(all(kani, feature = "thorough", feature = "rel"), kani::proof)]
        #[cfg_attr(all(kani, feature = "thorough", feature = "rel"), kani::unwind($uw))]
        #[cfg_attr(all(kani, feature = "thorough", feature = "rel"), kani::stub(std::fmt::format, crate::nd::fmt_stub))]
        pub fn $n() {
            $($b)*
            crate::nd::reach();
            { $($call)* }
            panic!("VERIF: returned instead of panicking");
        }
    };
}

macro_rules! props {
    ( $( $m:ident $f:literal )* ) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        #[cfg(not(kani))]
        pub fn tables() -> Vec<&'static [Entry]> {
            let mut v: Vec<&'static [Entry]> = Vec::new();
            $( #[cfg(feature = $f)] v.push($m::TABLE); )*
            v
        }
    };
}

props! {
    c01 "c01"
    c02 "c02"
    c03 "c03"
    c04 "c04"
    c05 "c05"
    c06 "c06"
    c07 "c07"
    c08 "c08"
    c09 "c09"
    c10 "c10"
    c11 "c11"
    c12 "c12"
    c13 "c13"
    c14 "c14"
    c15 "c15"
    c16 "c16"
    c17 "c17"
    c18 "c18"
    c19 "c19"
    c20 "c20"
    c21 "c21"
    c22 "c22"
    c23 "c23"
    c24 "c24"
    c25 "c25"
    c26 "c26"
    c27 "c27"
    c28 "c28"
    c29 "c29"
}
