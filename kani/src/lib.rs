//! Harnesses for solver-based checking of binread. See /verif/DESIGN.md.
#![cfg_attr(kani, feature(allocator_api))]
#![allow(dead_code, unused_imports, clippy::all)]
extern crate alloc;
extern crate std;

pub mod sym;
#[cfg(kani)]
pub mod stubs;
pub mod rd;
#[cfg(feature = "c_dt")]
pub mod rec;

macro_rules! props {
    ($($id:ident $f:literal),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $id;)*
        #[cfg(not(kani))]
        pub fn table() -> std::vec::Vec<(&'static str, fn())> {
            let mut t: std::vec::Vec<(&'static str, fn())> = std::vec::Vec::new();
            $(#[cfg(feature = $f)] t.extend_from_slice($id::TABLE);)*
            t
        }
    };
}
props!(c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c10 "c10", c11 "c11", c12 "c12", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20", c21 "c21", c22 "c22", c23 "c23", c24 "c24", c25 "c25", c26 "c26", c27 "c27", c28 "c28", c28t "c28", c29 "c29", c30 "c30");
