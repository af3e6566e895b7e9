//! replay HARNESS VALUE... : runs one harness natively on the values of a solver model.
#[cfg(not(kani))]
mod limit {
    use std::{alloc::{GlobalAlloc, Layout, System}, sync::atomic::{AtomicUsize, Ordering::Relaxed}};
    pub static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
    /// Stops the process on a request larger than the property allows.
    struct Limited;
    fn check(n: usize) {
        if n > LIMIT.load(Relaxed) {
            LIMIT.store(usize::MAX, Relaxed);
            eprintln!("memory request of {n} bytes");
            std::process::exit(3);
        }
    }
    unsafe impl GlobalAlloc for Limited {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            check(l.size());
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            System.dealloc(p, l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            check(l.size());
            System.alloc_zeroed(l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            check(n);
            System.realloc(p, l, n)
        }
    }
    #[global_allocator]
    static A: Limited = Limited;
}

fn main() {
    #[cfg(not(kani))]
    {
        let mut a = std::env::args().skip(1);
        let name = a.next().expect("harness name");
        let vals: Vec<u64> = a.map(|v| v.parse().expect("u64")).collect();
        let f = hv::table().into_iter().find(|(n, _)| *n == name).expect("unknown harness").1;
        hv::sym::load(&vals);
        match std::env::var("HV_ALLOC_LIMIT").ok().and_then(|v| v.parse::<usize>().ok()) {
            Some(n) if n > 0 => limit::LIMIT.store(n, std::sync::atomic::Ordering::Relaxed),
            _ => {}
        }
        f();
        println!("HELD");
    }
}
