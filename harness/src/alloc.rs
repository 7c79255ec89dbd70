//! A global allocator that fills every block it hands out (and takes back) with a pattern, so that
//! values read from memory that was never written (or was freed) are recognisably wrong, and so
//! that two runs with different patterns differ if anything depends on such memory. Each block is
//! surrounded by zones that are looked at when it is freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicU8, AtomicUsize, Ordering::Relaxed};

pub static FRESH: AtomicU8 = AtomicU8::new(0xA5);
pub static FREED: AtomicU8 = AtomicU8::new(0xD7);
/// Blocks of this size are not filled (the batched query that reuses buffers allocates 65535 equal ones)
pub static SKIP: AtomicUsize = AtomicUsize::new(0);
/// 1 + the size of a block next to which something was written
pub static DAMAGED: AtomicUsize = AtomicUsize::new(0);

/// Blocks and bytes in use, as far as they were counted
pub static COUNT: AtomicBool = AtomicBool::new(false);
static BLOCKS: AtomicIsize = AtomicIsize::new(0);
static BYTES: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
pub fn live() -> (isize, isize) {
    (BLOCKS.load(Relaxed), BYTES.load(Relaxed))
}
/// The most that was in use since, above `from`
pub fn peak_since(from: isize) -> impl Fn() -> isize {
    PEAK.store(from, Relaxed);
    move || PEAK.load(Relaxed) - from
}
fn count(l: &Layout, by: isize) {
    if COUNT.load(Relaxed) {
        BLOCKS.fetch_add(by, Relaxed);
        let b = BYTES.fetch_add(by * l.size() as isize, Relaxed) + by * l.size() as isize;
        if by > 0 {
            PEAK.fetch_max(b, Relaxed);
        }
    }
}

pub struct Poison;

/// bytes in front of and behind a block
fn zones(l: &Layout) -> (usize, usize) {
    (l.align().max(32), 64 + (l.size() / 8).min(8192))
}
/// (none if it is too large: a block that will not be had anyway)
fn outer(l: &Layout) -> Option<Layout> {
    let (f, b) = zones(l);
    Layout::from_size_align(f + l.size() + b, l.align()).ok()
}
unsafe fn fence(l: &Layout, get: unsafe fn(&System, Layout) -> *mut u8) -> *mut u8 {
    let p = match outer(l) {
        Some(o) => get(&System, o),
        None => return std::ptr::null_mut(),
    };
    if p.is_null() {
        return p;
    }
    count(l, 1);
    let (f, b) = zones(l);
    let z = FRESH.load(Relaxed);
    std::ptr::write_bytes(p, z, f);
    std::ptr::write_bytes(p.add(f + l.size()), z, b);
    p.add(f)
}

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = fence(&l, <System as GlobalAlloc>::alloc);
        let skip = SKIP.load(Relaxed);
        if !p.is_null() && (skip == 0 || l.size() != skip) {
            std::ptr::write_bytes(p, FRESH.load(Relaxed), l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(&l, -1);
        let (f, b) = zones(&l);
        let q = p.sub(f);
        let z = *q;
        let intact = |s: &[u8]| s.iter().fold(0, |a, &x| a | (x ^ z)) == 0;
        if !intact(std::slice::from_raw_parts(q, f)) || !intact(std::slice::from_raw_parts(p.add(l.size()), b)) {
            DAMAGED.store(1 + l.size(), Relaxed);
        }
        let skip = SKIP.load(Relaxed);
        if l.size() <= 1 << 16 && (skip == 0 || l.size() != skip) {
            std::ptr::write_bytes(p, FREED.load(Relaxed), l.size());
        }
        System.dealloc(q, outer(&l).unwrap_unchecked())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        fence(&l, <System as GlobalAlloc>::alloc_zeroed)
    }
}

#[cfg(not(feature = "asan"))]
#[global_allocator]
static GLOBAL: Poison = Poison;
