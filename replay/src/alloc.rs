use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub struct Count;
thread_local! {
    static ON: Cell<bool> = Cell::new(false);
    static MOST: Cell<usize> = Cell::new(0);
    static TOTAL: Cell<usize> = Cell::new(0);
}
fn see(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            MOST.with(|m| m.set(m.get().max(n)));
            TOTAL.with(|m| m.set(m.get().saturating_add(n)));
        }
    });
}
/// requests beyond this end in the failure of the allocation, while counting
const LIMIT: usize = 1 << 32;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        see(l.size());
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        see(n);
        if n > LIMIT {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
pub fn start() {
    MOST.with(|m| m.set(0));
    TOTAL.with(|m| m.set(0));
    ON.with(|m| m.set(true));
}
pub fn stop() -> (usize, usize) {
    ON.with(|m| m.set(false));
    (MOST.with(|m| m.get()), TOTAL.with(|m| m.get()))
}
