//! One module per property: those decided by Kani and those decided by symx.
macro_rules! modules {
    ($($m:ident),* ; $($x:ident),* $(,)?) => {
        $(#[cfg(not(symx))] pub mod $m;)*
        $(#[cfg(not(kani))] pub mod $x;)*
        #[cfg(not(any(kani, symx)))]
        pub const LISTS: &[&[(&str, fn())]] = &[ $( $m::LIST, )* $( $x::LIST ),* ];
    };
}
modules!(c01, c02, c03, c04, c05, c06, c07, c08, c14, c15, c16; c09, c10, c11, c12, c13, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27, c28, c29, c30, c31, c33, c34);
