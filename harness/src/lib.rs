//! Symbolic harnesses for diffy: each drives the public API on symbolic inputs and
//! states one property as assertions.
#![allow(clippy::all)]
pub mod api;
pub mod gen;
pub mod sym;

macro_rules! flavour {
    ($name:ident, $f:ident) => {
        pub fn $name() {
            let mut c = Cfg::new();
            match c.next() {
                0 => $f::<str>(&mut c),
                _ => $f::<[u8]>(&mut c),
            }
        }
    };
}

macro_rules! harnesses {
    ($($m:ident: $($name:ident),+;)+) => {
        $(pub mod $m;)+
        /// Entry points, exported under the name the engine calls.
        pub mod entry {
            $($(#[no_mangle] pub extern "C" fn $name() { crate::$m::$name() })+)+
        }
        pub const TABLE: &[(&str, fn())] = &[$($((stringify!($name), crate::$m::$name as fn())),+),+];
    };
}

harnesses! {
    diffs: h_roundtrip, h_reverse, h_describe, h_minimal, h_reverse_parsed;
    text: h_print_parse, h_final_newline, h_parse_safe, h_parse_spec, h_reprint, h_names_set, h_names_parse, h_format, h_format_parsed, h_writer, h_writer_parsed;
    twins: h_twin_create, h_twin_parse, h_twin_apply, h_twin_merge;
    applying: h_apply_sound, h_apply_placed, h_apply_nearest, h_work;
    more: h_standard, h_standard_parsed, h_pure, h_pure_merge, h_late, h_cost_diff, h_cost_merge;
    values: h_undo, h_equal, h_opaque_diff, h_opaque_merge;
    probe: h_arith;
    merging: h_merge_identity, h_merge_spec, h_merge_render, h_merge_symmetric, h_merge_full, h_merge_swap;
}
