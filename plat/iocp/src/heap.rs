//! The allocator: what the library allocated and did not free, and what it freed although the system still uses it.

use std::alloc::{GlobalAlloc, Layout, System};

use crate::oracle::note;
use crate::sim::{in_lib, own_code, s};

const N: usize = 1 << 16;
/// Open addressing: address, size.
static mut TAB: [(usize, usize); N] = [(0, 0); N];
static mut LIVE: usize = 0;
static mut FULL: bool = false;

fn home(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9e3779b97f4a7c15) >> 48 & (N - 1)
}

unsafe fn put(p: usize, n: usize) {
    let t = &mut *std::ptr::addr_of_mut!(TAB);
    if LIVE > N / 2 {
        FULL = true;
        return;
    }
    let mut i = home(p);
    while t[i].0 != 0 {
        i = (i + 1) & (N - 1);
    }
    t[i] = (p, n);
    LIVE += 1;
}

unsafe fn take(p: usize) {
    let t = &mut *std::ptr::addr_of_mut!(TAB);
    let mut i = home(p);
    while t[i].0 != p {
        if t[i].0 == 0 {
            return;
        }
        i = (i + 1) & (N - 1);
    }
    LIVE -= 1;
    // Close the gap.
    let mut j = i;
    loop {
        t[i] = (0, 0);
        loop {
            j = (j + 1) & (N - 1);
            if t[j].0 == 0 {
                return;
            }
            let h = home(t[j].0);
            if (j.wrapping_sub(h) & (N - 1)) >= (j.wrapping_sub(i) & (N - 1)) {
                break;
            }
        }
        t[i] = t[j];
        i = j;
    }
}

/// Forgets everything: a run begins.
pub fn reset() {
    unsafe {
        if LIVE > 0 {
            (*std::ptr::addr_of_mut!(TAB)).fill((0, 0));
        }
        LIVE = 0;
        FULL = false;
    }
}

/// Sizes of the blocks of the library that are left.
pub fn left() -> Vec<usize> {
    unsafe {
        if FULL || LIVE == 0 {
            return Vec::new();
        }
        let mut v: Vec<usize> = (*std::ptr::addr_of!(TAB)).iter().filter(|e| e.0 != 0).map(|e| e.1).collect();
        v.sort();
        v
    }
}

pub struct Alloc;

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if own_code() && !p.is_null() {
            put(p as usize, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        // The system writes to it or hands it back later.
        if in_lib() && l.size() >= 16 && s().k.in_flight(p as usize, p as usize + l.size()) {
            note("freed_in_flight", "the library freed a block the system still uses".into());
        }
        if LIVE > 0 {
            take(p as usize);
        }
        System.dealloc(p, l)
    }
}
