// A per-thread free-list allocator for the small, short-lived states of the explorer.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const CLASSES: usize = 64;
const CHUNK: usize = 1 << 20;
pub struct Pool;
/// bytes taken from the system for small blocks
pub static TAKEN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
struct Lists { free: [Cell<*mut u8>; CLASSES], at: Cell<*mut u8>, left: Cell<usize> }
thread_local! {
    static L: Lists = const { Lists { free: [const { Cell::new(std::ptr::null_mut()) }; CLASSES], at: Cell::new(std::ptr::null_mut()), left: Cell::new(0) } };
}

unsafe impl GlobalAlloc for Pool {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = (l.size() + 15) >> 4;
        if c >= CLASSES || l.align() > 16 || c == 0 { return System.alloc(l); }
        L.with(|s| {
            let p = s.free[c].get();
            if !p.is_null() {
                s.free[c].set(*(p as *mut *mut u8));
                return p;
            }
            let n = c << 4;
            if s.left.get() < n {
                let q = System.alloc(Layout::from_size_align_unchecked(CHUNK, 16));
                if q.is_null() { return q; }
                TAKEN.fetch_add(CHUNK, std::sync::atomic::Ordering::Relaxed);
                s.at.set(q);
                s.left.set(CHUNK);
            }
            let p = s.at.get();
            s.at.set(p.add(n));
            s.left.set(s.left.get() - n);
            p
        })
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = (l.size() + 15) >> 4;
        if c >= CLASSES || l.align() > 16 || c == 0 { return System.dealloc(p, l); }
        L.with(|s| {
            *(p as *mut *mut u8) = s.free[c].get();
            s.free[c].set(p);
        })
    }
}
