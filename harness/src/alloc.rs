//! Tracking allocator: blocks allocated while the current thread is inside the system under test (SUT) are recorded
//! and never returned to the system before the end of the execution, so that double frees, frees with another layout
//! and uses after free are observed instead of being fatal.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, Ordering::*};

thread_local! { static IN_SUT: Cell<u32> = const { Cell::new(0) }; }

#[derive(Clone, Copy)]
struct Block {
    ptr: usize,
    size: usize,
    align: usize,
    live: bool,
}

const CAP: usize = 1 << 14;

struct Table {
    n: usize,
    b: [Block; CAP],
    double_free: usize,
    bad_layout: usize,
    overflow: bool,
}

struct Shared(UnsafeCell<Table>);
unsafe impl Sync for Shared {}
static TABLE: Shared = Shared(UnsafeCell::new(Table {
    n: 0,
    b: [Block { ptr: 0, size: 0, align: 0, live: false }; CAP],
    double_free: 0,
    bad_layout: 0,
    overflow: false,
}));
static LOCK: AtomicBool = AtomicBool::new(false);
static ARMED: AtomicBool = AtomicBool::new(false);

fn with<R>(f: impl FnOnce(&mut Table) -> R) -> R {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
    let r = f(unsafe { &mut *TABLE.0.get() });
    LOCK.store(false, Release);
    r
}

pub struct Tracking;

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ARMED.load(Relaxed) && IN_SUT.try_with(|x| x.get()).unwrap_or(0) > 0 && !p.is_null() {
            with(|t| {
                if t.n < CAP {
                    t.b[t.n] = Block { ptr: p as usize, size: l.size(), align: l.align(), live: true };
                    t.n += 1;
                } else {
                    t.overflow = true;
                }
            });
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ARMED.load(Relaxed) {
            let tracked = with(|t| {
                let n = t.n;
                for b in t.b[..n].iter_mut().rev() {
                    if b.ptr == p as usize {
                        if !b.live {
                            t.double_free += 1;
                        } else {
                            if b.size != l.size() || b.align != l.align() {
                                t.bad_layout += 1;
                            }
                            b.live = false;
                            // not all of a huge block: its pages might never have been touched
                            std::ptr::write_bytes(p, 0xDD, b.size.min(1 << 16));
                        }
                        return true;
                    }
                }
                false
            });
            if tracked {
                return;
            }
        }
        System.dealloc(p, l)
    }
}

pub struct Report {
    pub live_blocks: usize,
    pub live_bytes: usize,
    pub total_blocks: usize,
    pub double_free: usize,
    pub bad_layout: usize,
}

/// Starts an execution.
pub fn arm() {
    with(|t| {
        t.n = 0;
        t.double_free = 0;
        t.bad_layout = 0;
        t.overflow = false;
    });
    ARMED.store(true, SeqCst);
}

/// Ends an execution: reports and returns all quarantined memory to the system.
pub fn disarm() -> Report {
    ARMED.store(false, SeqCst);
    with(|t| {
        let n = t.n;
        let live = t.b[..n].iter().filter(|b| b.live);
        let r = Report {
            live_blocks: live.clone().count(),
            live_bytes: live.map(|b| b.size).sum(),
            total_blocks: n,
            double_free: t.double_free,
            bad_layout: t.bad_layout,
        };
        // blocks that are still live might still be in use by leaked objects: they stay allocated
        for b in t.b[..n].iter().filter(|b| !b.live) {
            unsafe { System.dealloc(b.ptr as *mut u8, Layout::from_size_align_unchecked(b.size, b.align)) };
        }
        t.n = 0;
        r
    })
}

/// Marks the dynamic extent of `f` as being inside the system under test.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            IN_SUT.with(|x| x.set(x.get() - 1));
        }
    }
    IN_SUT.with(|x| x.set(x.get() + 1));
    let _g = G;
    f()
}

/// Marks the dynamic extent of `f` as being outside the system under test (callbacks of the harness).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    struct G(u32);
    impl Drop for G {
        fn drop(&mut self) {
            IN_SUT.with(|x| x.set(self.0));
        }
    }
    let old = IN_SUT.with(|x| x.replace(0));
    let _g = G(old);
    f()
}
