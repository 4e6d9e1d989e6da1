//! Bounds the memory one thread may hold, so that a wild write in the VM or a compiler that never stops growing becomes a
//! panic of that run and not an exhausted machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub struct Guard;
pub const LIMIT: i64 = 1500 << 20;
thread_local! { static HELD: Cell<i64> = const { Cell::new(0) }; }
/// False if this thread may not have `n` more bytes.
fn take(n: i64) -> bool {
    HELD.try_with(|h| {
        if n > 1 << 16 && h.get() + n > LIMIT { return false }
        h.set(h.get() + n);
        n <= 0 || n > 1 << 16 || h.get() < LIMIT
    })
    .unwrap_or(true)
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if take(l.size() as i64) { System.alloc(l) } else { std::ptr::null_mut() }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if take(l.size() as i64) { System.alloc_zeroed(l) } else { std::ptr::null_mut() }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        take(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if take(n as i64 - l.size() as i64) { System.realloc(p, l, n) } else { std::ptr::null_mut() }
    }
}
/// Starts the account of this thread afresh (values moved between threads make it drift).
pub fn reset() { let _ = HELD.try_with(|h| h.set(0)); }
/// As `reset`, with `n` bytes more than usual to hold.
#[allow(dead_code)]
pub fn allow(n: i64) { let _ = HELD.try_with(|h| h.set(-n)); }
pub fn install() {
    std::alloc::set_alloc_error_hook(|l| {
        reset();
        panic!("ran out of memory (allocating {} bytes)", l.size())
    });
}
