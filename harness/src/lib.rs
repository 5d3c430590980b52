//! Contracts of the public operations of `ur20`, one harness per contract.
//!
//! A harness draws every input of an operation from [`nd`], assumes the
//! operation's precondition and asserts its postcondition. `cargo kani` proves
//! it for all inputs; the `native` binary runs the same text on the real code.
#![allow(clippy::all)]
#![cfg_attr(kani, feature(pattern))]

/// harness name, proved by the verifier (else: native search only), harness
pub type Entry = (&'static str, bool, fn());

#[macro_use]
pub mod nd;
pub mod com;
pub mod mock;
pub mod scale;
pub mod spec;
#[cfg(not(kani))]
pub mod world;

macro_rules! properties {
    ($($f:literal $m:ident: $($l:path),*;)*) => {
        $(
            #[cfg(any(feature = $f, feature = "all"))]
            pub mod $m;
        )*
        #[cfg(not(kani))]
        pub fn all() -> Vec<Entry> {
            let mut v: Vec<Entry> = Vec::new();
            $(
                #[cfg(feature = $f)]
                {
                    $( v.extend_from_slice($l); )*
                }
            )*
            v
        }
    };
}

properties! {
    "c01" c01: c01::LIST, c01::SEARCHES;
    "c02" c02: c02::LIST;
    "c03" c03: c03::LIST, c03::SEARCHES;
    "c04" c04: c04::LIST, c04::SEARCHES;
    "c05" c05: c05::LIST, c05::ui16::LIST, c05::ui12::LIST, c05::diag::LIST, c05::i8::LIST, c05::SEARCHES;
    "c06" c06: c06::LIST, c06::aos::LIST, c06::aods::LIST, c06::SEARCHES;
    "c07" c07: c07::LIST, c07::each::LIST, c07::SEARCHES;
    "c08" c08: c08::LIST, c08::SEARCHES;
    "c09" c09: c09::LIST, c09::SEARCHES;
    "c10" c10: c10::LIST, c10::SEARCHES;
    "c11" c11: c11::LIST, c11::SEARCHES;
    "c12" c12: c12::LIST, c12::SEARCHES;
    "c13" c13: c13::LIST, c13::SEARCHES;
    "c14" c14: c14::LIST, c14::plain::LIST, c14::subst::LIST, c14::SEARCHES;
    "c15" c15: c15::LIST;
    "c16" c16: c16::LIST, c16::SEARCHES;
    "c17" c17: c17::LIST, c17::SEARCHES;
    "c18" c18: c18::LIST, c18::SEARCHES;
    "c19" c19: c19::LIST, c19::SEARCHES;
    "c20" c20: c20::LIST, c20::SEARCHES;
    "c21" c21: c21::LIST, c21::SEARCHES;
    "c22" c22: c22::LIST, c22::SEARCHES;
    "c23" c23: c23::LIST, c23::names::LIST, c23::SEARCHES;
}
