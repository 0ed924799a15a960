//! Counting allocator: bytes the client code itself holds (harness code switches counting off). Every block
//! carries a mark of the execution it was counted in, if any, so that it does not matter who frees it and when.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}
// connections may move between threads; the threads of a simulation take strict turns
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static EPOCH: AtomicU64 = AtomicU64::new(1);

fn add(n: i64) {
    let v = LIVE.fetch_add(n, Relaxed) + n;
    if v > PEAK.load(Relaxed) {
        PEAK.store(v, Relaxed)
    }
}

fn head(l: Layout) -> usize {
    l.align().max(16)
}

fn whole(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + head(l), head(l)) }
}

unsafe fn mark(p: *mut u8, l: Layout) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let p = p.add(head(l));
    let on = ON.try_with(|on| on.get()).unwrap_or(false);
    (p.sub(8) as *mut u64).write(if on { EPOCH.load(Relaxed) } else { 0 });
    if on {
        add(l.size() as i64)
    }
    p
}

unsafe fn counted(p: *mut u8) -> bool {
    (p.sub(8) as *const u64).read() == EPOCH.load(Relaxed)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mark(System.alloc(whole(l)), l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if counted(p) {
            add(-(l.size() as i64))
        }
        System.dealloc(p.sub(head(l)), whole(l))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        mark(System.alloc_zeroed(whole(l)), l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let was = counted(p);
        let q = System.realloc(p.sub(head(l)), whole(l), n + head(l));
        if q.is_null() {
            return q;
        }
        // the mark moved along
        if was {
            add(n as i64 - l.size() as i64)
        }
        q.add(head(l))
    }
}

pub fn set(on: bool) -> bool {
    ON.with(|c| c.replace(on))
}
/// forgets what was counted
pub fn reset() {
    EPOCH.fetch_add(1, Relaxed);
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
}
pub fn peak() -> i64 {
    PEAK.load(Relaxed)
}
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
