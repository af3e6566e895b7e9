//! Source of symbolic inputs. Under Kani every value is an unconstrained solver variable; natively
//! the same functions return, in order, the concrete values taken from a solver model, so that a
//! counterexample is replayed by running the very same harness body against the real crate.

#[cfg(kani)]
mod imp {
    #[inline(never)]
    pub fn sym_u8() -> u8 {
        kani::any()
    }
    #[inline(never)]
    pub fn sym_u16() -> u16 {
        kani::any()
    }
    #[inline(never)]
    pub fn sym_u32() -> u32 {
        kani::any()
    }
    #[inline(never)]
    pub fn sym_u64() -> u64 {
        kani::any()
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
}

#[cfg(not(kani))]
mod imp {
    extern crate std;
    use std::{cell::RefCell, collections::VecDeque};
    std::thread_local! {
        static VALS: RefCell<VecDeque<u64>> = RefCell::new(VecDeque::new());
    }
    pub fn load(v: &[u64]) {
        VALS.with(|x| *x.borrow_mut() = v.iter().copied().collect())
    }
    fn next() -> u64 {
        VALS.with(|x| x.borrow_mut().pop_front()).unwrap_or(0)
    }
    pub fn sym_u8() -> u8 {
        next() as u8
    }
    pub fn sym_u16() -> u16 {
        next() as u16
    }
    pub fn sym_u32() -> u32 {
        next() as u32
    }
    pub fn sym_u64() -> u64 {
        next()
    }
    pub fn assume(c: bool) {
        if !c {
            std::println!("ASSUMPTION-VIOLATED");
            std::process::exit(77);
        }
    }
    pub fn covered(label: &str) {
        std::println!("COVER {label}");
    }
}
pub use imp::*;

/// A symbolic value in `0..=max`.
pub fn upto(max: u64) -> u64 {
    let v = sym_u8() as u64;
    assume(v <= max);
    v
}
pub fn flag() -> bool {
    let v = sym_u8();
    assume(v <= 1);
    v == 1
}
/// `N` symbolic bytes (`N` a multiple of 8 up to 32, or up to 8).
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let w = [sym_u64(), if N > 8 { sym_u64() } else { 0 }, if N > 16 { sym_u64() } else { 0 }, if N > 24 { sym_u64() } else { 0 }];
    macro_rules! set {
        ($($i:literal)*) => { $(if N > $i { a[$i] = (w[$i / 8] >> ($i % 8 * 8)) as u8; })* };
    }
    set!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31);
    a
}

/// A mutable static of the harnesses. Kani 0.68 gives a static and a constant with the same bytes the
/// same memory, so a static that changes must not look like any constant: the tag sees to that.
pub struct Static<T> {
    tag: [u64; 2],
    pub v: core::cell::UnsafeCell<T>,
}
unsafe impl<T> Sync for Static<T> {}
impl<T: Copy> Static<T> {
    pub const fn new(tag: u64, v: T) -> Self {
        Static { tag: [tag, 0x5bd1_e995_9d3f_7a21], v: core::cell::UnsafeCell::new(v) }
    }
    pub fn get(&self) -> T {
        unsafe { *self.v.get() }
    }
    pub fn set(&self, v: T) {
        unsafe { *self.v.get() = v }
    }
}

/// Reachability witness: the solver must find an execution that gets here with `c` true.
#[macro_export]
macro_rules! reach {
    ($c:expr, $l:literal) => {{
        #[cfg(kani)]
        kani::cover!($c, $l);
        #[cfg(not(kani))]
        if $c {
            $crate::sym::covered($l);
        }
    }};
}

/// Declares the harnesses of one property.
#[macro_export]
macro_rules! harnesses {
    ($($name:ident [$u:literal $(, $from:path => $to:path)?] $body:block)*) => {
        $(
            $(#[cfg_attr(kani, kani::stub($from, $to))])?
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($u))]
            #[cfg_attr(kani, kani::stub(alloc::fmt::format, crate::stubs::format))]
            #[cfg_attr(all(kani, feature = "c_dt"), kani::stub(binread::binary_template::write, crate::rec::write))]
            #[cfg_attr(all(kani, feature = "c_dt"), kani::stub(binread::binary_template::write_named, crate::rec::write_named))]
            #[cfg_attr(all(kani, feature = "c_dt"), kani::stub(binread::binary_template::write_vec, crate::rec::write_vec))]
            #[cfg_attr(all(kani, feature = "c_dt"), kani::stub(binread::binary_template::write_vec_named, crate::rec::write_vec_named))]
            #[cfg_attr(all(kani, feature = "c_dt"), kani::stub(binread::binary_template::write_start_struct, crate::rec::write_start_struct))]
            #[cfg_attr(all(kani, feature = "c_dt"), kani::stub(binread::binary_template::write_end_struct, crate::rec::write_end_struct))]
            #[cfg_attr(all(kani, feature = "c_dt"), kani::stub(binread::binary_template::write_comment, crate::rec::write_comment))]
            #[cfg_attr(all(kani, feature = "c_dt"), kani::stub(binread::binary_template::get_next_var_name, crate::rec::get_next_var_name))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
