//! Counts what the code under test allocates, per thread

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// Live blocks of 256 bytes or more made while `TRACK` is set: (address, size)
#[cfg(feature = "win")]
pub mod blocks {
    use std::cell::{Cell, RefCell};
    thread_local! {
        pub static TRACK: Cell<bool> = const { Cell::new(false) };
        static BLOCKS: RefCell<[(usize, usize); 64]> = const { RefCell::new([(0, 0); 64]) };
    }
    pub(super) fn made(p: *mut u8, n: usize) {
        if n >= 256 && TRACK.try_with(Cell::get).unwrap_or(false) {
            // fresh memory holds what nobody wrote
            unsafe { std::ptr::write_bytes(p, 0xa5, n) };
            let _ = BLOCKS.try_with(|b| {
                if let Some(e) = b.borrow_mut().iter_mut().find(|e| e.1 == 0) {
                    *e = (p as usize, n);
                }
            });
        }
    }
    pub(super) fn gone(p: *mut u8) {
        let _ = BLOCKS.try_with(|b| {
            for e in b.borrow_mut().iter_mut().filter(|e| e.0 == p as usize) {
                *e = (0, 0);
            }
        });
    }
    /// Bytes from `p` to the end of the block it lies in
    pub fn room(p: *const u8) -> Option<usize> {
        let p = p as usize;
        BLOCKS.with(|b| b.borrow().iter().find(|e| e.1 != 0 && e.0 <= p && p < e.0 + e.1).map(|e| e.0 + e.1 - p))
    }
}

pub struct Counting;

fn add(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        let p = System.alloc(l);
        #[cfg(feature = "win")]
        if !p.is_null() {
            blocks::made(p, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        #[cfg(feature = "win")]
        blocks::gone(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // growing in place needs no second block
        if n > l.size() {
            add(n - l.size());
        } else {
            sub(l.size() - n);
        }
        #[cfg(feature = "win")]
        blocks::gone(p);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

#[derive(Clone, Copy, Debug)]
pub struct Use {
    /// bytes requested in all
    pub total: u64,
    /// most bytes held at one time
    pub peak: u64,
    /// bytes still held
    pub live: i64,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let (t0, l0) = (TOTAL.with(Cell::get), LIVE.with(Cell::get));
    PEAK.with(|p| p.set(l0));
    let v = f();
    let u = Use {
        total: TOTAL.with(Cell::get) - t0,
        peak: (PEAK.with(Cell::get) - l0).max(0) as u64,
        live: LIVE.with(Cell::get) - l0,
    };
    (v, u)
}

/// Bytes this thread holds
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}

/// Processor time of this thread
pub fn cpu_ms() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 * 1e3 + ts.tv_nsec as f64 * 1e-6
}
