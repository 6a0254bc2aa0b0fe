//! Contract harnesses over the real knaster crates (path dependencies on /repo).
//!
//! One body per obligation, used three ways:
//!  * under `cargo kani` every `nd::any()` is symbolic: the obligation is discharged for all values;
//!  * `hx replay` feeds the verifier's counterexample to the natively compiled code;
//!  * `hx search` looks for a failing input with pseudo-random values (used to turn a failed proof
//!    into a replayable input, and as the labelled bounded stand-in for `native` harnesses).
#![allow(clippy::all)]

pub mod nd;

#[derive(Clone, Copy)]
pub struct Harness {
    pub name: &'static str,
    /// complete: loop-free or fully unrolled over the full input domain: a proof.
    /// bounded: a Kani proof up to the stated bound.
    /// native: executed contract, bounded enumeration / sampling, never counted as proved.
    pub kind: &'static str,
    pub bound: &'static str,
    pub f: fn(),
}

#[macro_export]
macro_rules! harnesses {
    ($( $kind:ident ($bound:literal) $(#[$m:meta])* fn $name:ident() $body:block )*) => {
        $( $crate::harness_fn!{ $kind $(#[$m])* $name $body } )*
        #[cfg(not(kani))]
        pub const LIST: &[$crate::Harness] = &[ $( $crate::Harness { name: stringify!($name), kind: stringify!($kind), bound: $bound, f: $name } ),* ];
    };
}
#[macro_export]
macro_rules! harness_fn {
    (native $(#[$m:meta])* $name:ident $body:block) => {
        #[cfg(not(kani))]
        pub fn $name() $body
    };
    ($kind:ident $(#[$m:meta])* $name:ident $body:block) => {
        $(#[cfg_attr(kani, $m)])*
        #[cfg_attr(kani, kani::proof)]
        pub fn $name() $body
    };
}

pub mod c01;
pub mod c03;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
#[cfg(not(kani))]
pub mod c21;
#[cfg(not(kani))]
pub mod c22;
pub mod c23;
pub mod c24;
pub mod probe;
pub mod sym;
#[cfg(not(kani))]
pub mod sim;

#[cfg(not(kani))]
pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    for l in [c01::LIST, c03::LIST, c10::LIST, c11::LIST, c12::LIST, c13::LIST, c14::LIST, c15::LIST, c16::LIST, c17::LIST, c18::LIST, c19::LIST, c20::LIST, c21::LIST, c22::LIST, c23::LIST, c24::LIST, sim::LIST] {
        v.extend_from_slice(l);
    }
    v
}
