//! Monitoring global allocator: per-thread live bytes, largest request, refusal above a threshold.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
    static REFUSE: Cell<usize> = const { Cell::new(usize::MAX) };
    static CAP: Cell<usize> = const { Cell::new(HARD) };
    static FILL: Cell<Option<u8>> = const { Cell::new(None) };
}

/// no more than this is ever granted, in one request or in all, per thread
pub const HARD: usize = 3 << 30;

/// with more memory than usual
pub fn roomy<T>(cap: usize, f: impl FnOnce() -> T) -> T {
    CAP.with(|x| x.set(cap));
    let r = f();
    CAP.with(|x| x.set(HARD));
    r
}

pub struct Mon;

fn ask(n: usize) -> bool {
    MAXREQ.with(|m| m.set(m.get().max(n)));
    let cap = CAP.with(|x| x.get());
    if n > REFUSE.with(|r| r.get()).min(cap) || LIVE.with(|x| x.get()) + n as i64 > cap as i64 {
        return false;
    }
    true
}

unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ask(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            if let Some(f) = FILL.with(|x| x.get()) {
                std::ptr::write_bytes(p, f, l.size());
            }
            LIVE.with(|x| x.set(x.get() + l.size() as i64));
            COUNT.with(|x| x.set(x.get() + 1));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ask(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            LIVE.with(|x| x.set(x.get() + l.size() as i64));
            COUNT.with(|x| x.set(x.get() + 1));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.with(|x| x.set(x.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ask(n) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.with(|x| x.set(x.get() + n as i64 - l.size() as i64));
            COUNT.with(|x| x.set(x.get() + 1));
        }
        q
    }
}

pub fn live() -> i64 {
    LIVE.with(|x| x.get())
}
pub fn count() -> u64 {
    COUNT.with(|x| x.get())
}
pub fn reset_max() {
    MAXREQ.with(|m| m.set(0))
}
pub fn max_req() -> usize {
    MAXREQ.with(|m| m.get())
}
/// refuse requests above `n` bytes on this thread while running `f`
pub fn refusing<T>(n: usize, f: impl FnOnce() -> T) -> T {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            REFUSE.with(|r| r.set(self.0))
        }
    }
    let _r = Reset(REFUSE.with(|r| r.replace(n)));
    f()
}

/// non-zeroed allocations of this thread start out filled with `f`, as if memory were reused
pub fn filled<T>(b: u8, f: impl FnOnce() -> T) -> T {
    FILL.with(|x| x.set(Some(b)));
    let r = f();
    FILL.with(|x| x.set(None));
    r
}
