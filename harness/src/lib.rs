#[macro_use]
pub mod sym;
#[macro_use]
pub mod world;
pub mod aug;
pub mod c01;
pub mod c02;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod huge;
pub mod selftest;

macro_rules! harnesses {
    ($($m:ident: $($f:ident)*;)*) => {
        $($(#[no_mangle] pub fn $f() { $m::$f() })*)*
        pub const NAMES: &[(&str, fn())] = &[$($((stringify!($f), $m::$f as fn()),)*)*];
    };
}
harnesses! {
    c01: h_c01_map h_c01_tree h_c01_heap h_c01_wide;
    c02: h_c02_tree h_c02_map h_c02_heap h_c02_clone h_c02_set h_c02_ord h_c03_ord h_c03_tree h_c03_plain h_c03_set h_c03_zst;
    c04: h_c04_tree h_c04_map h_c04_zst h_c04_mixed h_c04_bulk;
    c05: h_c05_map h_c05_tree h_c05_seq h_c05_set;
    c06: h_c06_map h_c06_tree;
    c07: h_c07_map h_c07_tree h_c07_free;
    c08: h_c08;
    c09: h_c09 h_c09_walk;
    c10: h_c10 h_c10_inter h_c10_seq;
    c11: h_c11_plain h_c11_heap;
    c12: h_c12_set h_c12_heap h_c12_union_free h_c12_union;
    c13: h_c13 h_c13_set;
    c14: h_c14_tree h_c14_map;
    c15: h_c15 h_c15_churn h_c15_grow h_c15_bulk;
    c16: h_c16 h_c16_bulk h_c16_union;
    c17: h_c17_sum h_c17_max h_c17_floor h_c17_seq;
    c18: h_c18 h_c18_drop;
    huge: h_huge_map h_huge_iter h_huge_into h_huge_bulk h_huge_pairs h_huge_count h_huge_group h_huge_sum h_huge_digest h_huge_cursor h_huge_clone h_huge_set h_huge_empty h_huge_visit;
    selftest: h_selftest;
}
