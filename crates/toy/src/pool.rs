//! Allocator with one set of free lists per thread: the explorer's threads would otherwise queue for malloc's lock.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
pub struct Pool;
const CLASSES: usize = 10; // 16 .. 8192
struct Lists(UnsafeCell<[*mut u8; CLASSES]>);
#[thread_local]
static LISTS: Lists = Lists(UnsafeCell::new([0 as *mut u8; CLASSES]));
unsafe impl Sync for Lists {}
fn class(l: &Layout) -> usize {
    if l.align() > 16 { return CLASSES; }
    let mut c = 0;
    while c < CLASSES && (16 << c) < l.size() { c += 1; }
    c
}
unsafe impl GlobalAlloc for Pool {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = class(&l);
        if c == CLASSES { return System.alloc(l); }
        let h = &mut (*LISTS.0.get())[c];
        if !h.is_null() { let p = *h; *h = *(p as *mut *mut u8); return p; }
        // carve a chunk
        let size = 16usize << c;
        let n = (65536 / size).max(8);
        let chunk = System.alloc(Layout::from_size_align_unchecked(size * n, 16));
        if chunk.is_null() { return chunk; }
        for i in 1..n { let p = chunk.add(i * size); *(p as *mut *mut u8) = *h; *h = p; }
        chunk
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let c = class(&l);
        if c == CLASSES { return System.dealloc(p, l); }
        let h = &mut (*LISTS.0.get())[c];
        *(p as *mut *mut u8) = *h;
        *h = p;
    }
}
