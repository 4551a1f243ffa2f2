//! Harnesses: one entry per job, run symbolically by /verif/engine on this
//! crate's whole-program LLVM IR and natively by `replay`.
#![allow(clippy::all)]
pub mod gen;
pub mod rt;
pub mod spec;
pub mod view;

/// Defines entry points: C symbols for the engine and a table for the replay.
macro_rules! entries {
    ($table:ident; $($m:ident: $($f:ident),* $(,)?;)*) => {
        $($(
            #[no_mangle]
            pub extern "C-unwind" fn $f() { $m::$f() }
        )*)*
        pub static $table: &[(&str, fn())] = &[$($((stringify!($f), $m::$f as fn()),)*)*];
    };
}

mod h_doc;
#[cfg(feature = "feat")]
mod h_feat;
mod h_num;
mod h_obj;
mod h_parse;
mod h_same;
mod h_string;
mod h_tok;
mod h_work;
mod h_write;

entries! {
    ENTRIES;
    h_parse: c01_accept, c02_robust, c03_mirror, c05_text_bytes, verdict, c08_limit, c08_deep, c09_config;
    h_doc: c06_document, c07_heapless;
    h_string: c04_decode, c12_encode, c13_equality, c14_order, c15_hash, c15_anystr, c20_borrow, c20_raw;
    h_write: c10_parsed, c11_parsed, c10_built;
    h_num: c16_number, c16_edge;
    h_tok: c17_tokens, c18_delegate;
    h_work: c24_work;
    h_same: c25_same;
    h_obj: c21_object, c21_array, c21_nested, c21_many, c21_long, c21_collect;
}
#[cfg(feature = "feat")]
entries! {
    FEAT_ENTRIES;
    h_feat: c22_parse, c22_string;
}
#[cfg(not(feature = "feat"))]
pub static FEAT_ENTRIES: &[(&str, fn())] = &[];
