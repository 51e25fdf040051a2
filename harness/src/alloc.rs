//! How much memory the current thread holds: everything it has allocated and not yet given back.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let now = l.get() + n;
        l.set(now);
        if n > 0 {
            let _ = PEAK.try_with(|p| p.set(p.get().max(now)));
        }
    });
}

pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALL: Counting = Counting;

/// What `f` gives, and by how many bytes the memory held grew at most while it ran.
pub fn growth<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, PEAK.with(|p| p.get() - before).max(0) as usize)
}
