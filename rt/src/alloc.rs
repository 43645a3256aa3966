//! Counting allocator: bytes live and peak during a monitored call (per thread).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            CUR.with(|c| {
                let v = c.get() + n;
                c.set(v);
                PEAK.with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
            });
            if n > 0 {
                BIGGEST.with(|b| {
                    if n > b.get() {
                        b.set(n)
                    }
                });
                COUNT.with(|c| c.set(c.get() + 1));
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64);
        let r = System.realloc(p, l, n);
        add(-(l.size() as i64));
        r
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub peak: i64,
    pub biggest: i64,
    pub count: u64,
}

pub fn start() {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    BIGGEST.with(|c| c.set(0));
    COUNT.with(|c| c.set(0));
    ON.with(|c| c.set(true));
}
pub fn stop() {
    ON.with(|c| c.set(false));
}
pub fn stats() -> Stats {
    Stats { peak: PEAK.with(|c| c.get()), biggest: BIGGEST.with(|c| c.get()), count: COUNT.with(|c| c.get()) }
}
