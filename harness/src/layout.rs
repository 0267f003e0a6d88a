//! An allocator that watches the contract of the global allocator: what is freed (or resized) must
//! be given the size and the alignment it was allocated with.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU32, Ordering};

pub struct Watching;

const HEAD: usize = 16;
const MARK: u64 = 0x5afe_0a11_0ca7_0000;
static REPORTED: AtomicU32 = AtomicU32::new(0);

fn head(l: &Layout) -> usize {
    l.align().max(HEAD)
}

fn whole(l: &Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + head(l), head(l)) }
}

/// Without an allocation.
fn report(what: &str, had: (u64, u64), l: &Layout) {
    if REPORTED.fetch_add(1, Ordering::Relaxed) >= 5 {
        return;
    }
    let mut b = [0u8; 160];
    let mut n = 0;
    let mut put = |s: &[u8]| {
        for c in s {
            if n < b.len() {
                b[n] = *c;
                n += 1;
            }
        }
    };
    let num = |mut v: u64, d: &mut [u8; 20]| {
        let mut i = 20;
        loop {
            i -= 1;
            d[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                return i;
            }
        }
    };
    put(b"LAYOUT ");
    put(what.as_bytes());
    for (t, v) in [
        (" size ", l.size() as u64),
        (" align ", l.align() as u64),
        (", allocated as size ", had.0),
        (" align ", had.1),
    ] {
        let mut d = [0; 20];
        let i = num(v, &mut d);
        put(t.as_bytes());
        put(&d[i..]);
    }
    put(b"\n");
    unsafe { libc::write(2, b.as_ptr() as _, n) };
}

unsafe fn check(what: &str, p: *mut u8, l: &Layout) -> Layout {
    let w = (p as *const u64).sub(2);
    let (size, align) = (*w, *w.add(1) ^ MARK);
    if !align.is_power_of_two() || align > 1 << 16 {
        // Nothing this allocator gave out
        report(what, (0, 0), l);
        return *l;
    }
    if (size, align) != (l.size() as u64, l.align() as u64) {
        report(what, (size, align), l);
    }
    Layout::from_size_align_unchecked(size as usize, align as usize)
}

unsafe fn stamp(base: *mut u8, l: &Layout) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let p = base.add(head(l));
    let w = (p as *mut u64).sub(2);
    *w = l.size() as u64;
    *w.add(1) = l.align() as u64 ^ MARK;
    p
}

unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        stamp(System.alloc(whole(&l)), &l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        stamp(System.alloc_zeroed(whole(&l)), &l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let was = check("freed as", p, &l);
        System.dealloc(p.sub(head(&was)), whole(&was))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let was = check("resized as", p, &l);
        let new = Layout::from_size_align_unchecked(n, was.align());
        let q = System.realloc(p.sub(head(&was)), whole(&was), whole(&new).size());
        stamp(q, &new)
    }
}
