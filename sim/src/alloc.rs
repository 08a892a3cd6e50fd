//! Global allocator of the simulator: freed memory is poisoned and kept in quarantine during a run,
//! so that a use after free is seen as such (or, in reuse mode, reused at once).
#![allow(static_mut_refs)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub struct A;
static ON: AtomicBool = AtomicBool::new(false);
const RING: usize = 8192;
static mut Q: [(usize, Layout); RING] = [(0, unsafe { Layout::from_size_align_unchecked(1, 1) }); RING];
static mut HEAD: usize = 0;
static mut CAP: usize = 0;
/// Bytes handed out and not given back (memory in quarantine counts as given back).
static mut LIVE: isize = 0;
pub fn live_bytes() -> isize {
    unsafe { LIVE }
}

pub fn begin(mode: u8) {
    unsafe {
        CAP = match mode {
            0 => RING,
            1 => 64,
            _ => 0,
        };
    }
    ON.store(CAP_nonzero(), Relaxed);
}
#[allow(non_snake_case)]
fn CAP_nonzero() -> bool {
    unsafe { CAP != 0 }
}
pub fn end() {
    ON.store(false, Relaxed);
    unsafe {
        for i in 0..RING {
            let (p, l) = Q[i];
            if p != 0 {
                System.dealloc(p as *mut u8, l);
                Q[i].0 = 0;
            }
        }
        HEAD = 0;
    }
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE += l.size() as isize;
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE -= l.size() as isize;
        if ON.load(Relaxed) && simrt::active() {
            std::ptr::write_bytes(p, 0xDB, l.size().min(4096));
            let i = HEAD % CAP;
            HEAD += 1;
            let (q, ql) = Q[i];
            Q[i] = (p as usize, l);
            if q != 0 {
                System.dealloc(q as *mut u8, ql);
            }
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) && simrt::active() {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        LIVE += n as isize - l.size() as isize;
        System.realloc(p, l, n)
    }
}
