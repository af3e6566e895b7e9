//! Stand-ins used under Kani only (each one is listed in DESIGN.md and in the evidence).
use alloc::string::String;
/// Error texts are never compared: formatting returns an empty string.
pub fn format(_: core::fmt::Arguments<'_>) -> String {
    String::new()
}
/// `Vec::resize` when it grows: the new elements are left arbitrary instead of being set one by one.
pub fn resize<T: Clone, A: core::alloc::Allocator>(v: &mut alloc::vec::Vec<T, A>, n: usize, _: T) {
    let have = v.len();
    if n > have {
        v.reserve(n - have);
    }
    unsafe { v.set_len(n) }
}
/// No template file is named by the environment.
#[cfg(feature = "c_dt")]
pub fn env_var<K: AsRef<std::ffi::OsStr>>(_: K) -> Result<String, std::env::VarError> {
    Err(std::env::VarError::NotPresent)
}
/// The initialiser of the one lazy static runs at its first use.
#[cfg(feature = "c_dt")]
pub fn call_once<F: FnOnce()>(_: &std::sync::Once, f: F) {
    static DONE: crate::sym::Static<bool> = crate::sym::Static::new(0xd04e, false);
    if !DONE.get() {
        DONE.set(true);
        f();
    }
}
/// The counters of names and colours: any value of three digits. (Not one of the harness's own
/// inputs: natively the real counters run.)
#[cfg(feature = "c_dt")]
pub fn fetch_add(_: &core::sync::atomic::AtomicUsize, _: usize, _: core::sync::atomic::Ordering) -> usize {
    let v: u8 = kani::any();
    kani::assume(v >= 100);
    v as usize
}
