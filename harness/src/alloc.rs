//! Counts what is allocated, to see allocations that are out of proportion, and places bytes and samples at any
//! address they may have: what malloc returns is aligned to 16 bytes, slices that callers pass need not be.
#[cfg(feature = "count_alloc")]
mod on {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

    static NOW: AtomicUsize = AtomicUsize::new(0);
    static TOTAL: AtomicUsize = AtomicUsize::new(0);
    static PEAK: AtomicUsize = AtomicUsize::new(0);
    static SEED: AtomicUsize = AtomicUsize::new(0);
    struct Counting;

    /// Bytes in front of an allocation, a function of its size and the case; the last of them holds their number.
    fn skew(l: Layout) -> usize {
        let x = (l.size() ^ SEED.load(Relaxed)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let k = (x >> 40) % 16 + 1;
        k + k % l.align()
    }
    fn moved(l: Layout) -> bool {
        l.align() <= 2
    }
    unsafe fn place(l: Layout, alloc: unsafe fn(Layout) -> *mut u8) -> *mut u8 {
        if !moved(l) {
            return alloc(l);
        }
        let n = skew(l);
        let Some(size) = l.size().checked_add(n) else {
            return std::ptr::null_mut();
        };
        let Ok(m) = Layout::from_size_align(size, 16) else {
            return std::ptr::null_mut();
        };
        let p = alloc(m);
        if p.is_null() {
            return p;
        }
        p.add(n - 1).write(n as u8);
        p.add(n)
    }
    unsafe fn plain(l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn zeroed(l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn release(p: *mut u8, l: Layout) {
        if moved(l) {
            let n = p.sub(1).read() as usize;
            System.dealloc(p.sub(n), Layout::from_size_align_unchecked(l.size() + n, 16));
        } else {
            System.dealloc(p, l);
        }
    }
    /// Same seed, same places
    pub fn set_places(seed: u64) {
        SEED.store((seed ^ (seed >> 29)) as usize & 0xff_ffff, Relaxed);
    }
    fn add(n: usize) {
        TOTAL.fetch_add(n, Relaxed);
        let now = NOW.fetch_add(n, Relaxed) + n;
        PEAK.fetch_max(now, Relaxed);
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = place(l, plain);
            if !p.is_null() {
                add(l.size());
            }
            p
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            let p = place(l, zeroed);
            if !p.is_null() {
                add(l.size());
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            release(p, l);
            NOW.fetch_sub(l.size(), Relaxed);
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let q = if moved(l) {
                let q = place(Layout::from_size_align_unchecked(n, l.align()), plain);
                if !q.is_null() {
                    q.copy_from_nonoverlapping(p, n.min(l.size()));
                    release(p, l);
                }
                q
            } else {
                System.realloc(p, l, n)
            };
            if !q.is_null() {
                add(n);
                NOW.fetch_sub(l.size(), Relaxed);
            }
            q
        }
    }
    #[global_allocator]
    static A: Counting = Counting;

    pub const COUNTING: bool = true;
    pub fn start() -> usize {
        let n = NOW.load(Relaxed);
        PEAK.store(n, Relaxed);
        n
    }
    pub fn now() -> usize {
        NOW.load(Relaxed)
    }
    /// ever allocated
    pub fn total() -> usize {
        TOTAL.load(Relaxed)
    }
    pub fn peak_since(before: usize) -> usize {
        PEAK.load(Relaxed).saturating_sub(before)
    }
}
#[cfg(not(feature = "count_alloc"))]
mod on {
    pub const COUNTING: bool = false;
    pub fn start() -> usize {
        0
    }
    pub fn now() -> usize {
        0
    }
    pub fn total() -> usize {
        0
    }
    pub fn peak_since(_: usize) -> usize {
        0
    }
    pub fn set_places(_: u64) {}
}
pub use on::*;
