//! Heap seam: counts live bytes per thread and, on request, fills fresh and freed memory with a
//! pattern, so that the contents of recycled memory are under the control of the simulator.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static POISON: Cell<u16> = const { Cell::new(0) };
}

pub struct SimAlloc;

fn add(n: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + n));
}
fn poison() -> Option<u8> {
    match POISON.try_with(|c| c.get()) {
        Ok(p) if p != 0 => Some(p as u8),
        _ => None,
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
            if let Some(b) = poison() {
                std::ptr::write_bytes(p, b, l.size());
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        if let Some(b) = poison() {
            std::ptr::write_bytes(p, b, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            add(new as i64 - l.size() as i64);
            if new > l.size() {
                if let Some(b) = poison() {
                    std::ptr::write_bytes(q.add(l.size()), b, new - l.size());
                }
            }
        }
        q
    }
}

/// Bytes allocated minus bytes freed on this thread
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}

/// Pattern for recycled memory on this thread, `None` leaves it as the system returns it
pub fn set_poison(p: Option<u8>) {
    POISON.with(|c| c.set(p.map_or(0, |b| 0x100 | b as u16)));
}
