#![allow(dead_code)]
mod engine;
mod faults;
mod json;
mod model;
mod tree;
mod props;
mod runner;

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};

/// Delegates to the system allocator; while a limit is set, a single request above it fails, which
/// aborts the process (the runner reports that as a crash of the case).
pub struct Limited;
/// Bytes requested and not given back since counting began.
static LIVE: AtomicI64 = AtomicI64::new(0);
static COUNTING: AtomicBool = AtomicBool::new(false);
fn count(n: i64) {
    if COUNTING.load(Ordering::Relaxed) {
        LIVE.fetch_add(n, Ordering::Relaxed);
    }
}
pub fn live_bytes() -> i64 {
    LIVE.load(Ordering::Relaxed)
}
pub fn count_bytes() {
    COUNTING.store(true, Ordering::Relaxed);
}
pub static ALLOC_LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > ALLOC_LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > ALLOC_LIMIT.load(Ordering::Relaxed) {
            return std::ptr::null_mut();
        }
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Limited = Limited;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::process::exit(runner::main(&args[1..]));
}
