//! The event log of one execution.  Events are JSON objects; they are appended in the total order in which they occur.
use crate::alloc::outside;
use std::cell::Cell;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

pub struct Log {
    pub buf: Vec<u8>,
    /// Where the events begin.
    pub starts: Vec<usize>,
}

pub static LOG: Mutex<Log> = Mutex::new(Log { buf: Vec::new(), starts: Vec::new() });
/// Number of events so far, of all executions.
pub static EVENTS: AtomicU64 = AtomicU64::new(0);
pub static BIG: AtomicBool = AtomicBool::new(false);
pub static ATOM: AtomicBool = AtomicBool::new(false);
/// Whether entries into and exits from the wrapped iterator are recorded.
pub static WRAP: AtomicBool = AtomicBool::new(false);
/// Chunks returned so far in this execution, per thread.
static CHUNKS: [AtomicUsize; 16] = [const { AtomicUsize::new(0) }; 16];

pub fn chunk_id() -> usize {
    let t = tid();
    t * 1000 + CHUNKS[t].fetch_add(1, Relaxed)
}

thread_local! { pub static TID: Cell<usize> = const { Cell::new(0) }; }

pub fn tid() -> usize {
    TID.try_with(|x| x.get()).unwrap_or(0)
}

pub fn lock() -> std::sync::MutexGuard<'static, Log> {
    LOG.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn reset() {
    let mut l = lock();
    l.buf.clear();
    CHUNKS.iter().for_each(|x| x.store(0, Relaxed));
    l.starts.clear();
}

pub fn ev(args: std::fmt::Arguments) {
    EVENTS.fetch_add(1, Relaxed);
    outside(|| {
        let mut l = lock();
        if !l.buf.is_empty() {
            l.buf.push(b',');
        }
        let at = l.buf.len();
        l.starts.push(at);
        l.buf.push(b'{');
        _ = l.buf.write_fmt(args);
        l.buf.push(b'}');
        crate::weak::event(tid(), &l.buf[at..]);
    })
}

#[macro_export]
macro_rules! ev {
    ($($x:tt)*) => { $crate::log::ev(format_args!($($x)*)) };
}

/// An injected panic is about to be raised.
pub fn inj() {
    ev!(r#""k":"inj","t":{}"#, tid());
}

pub fn atomic(loc: usize, kind: &str, order: &str, old: usize, new: usize, msg: usize) {
    if !ATOM.load(Relaxed) {
        return;
    }
    ev!(r#""k":"a","t":{},"l":{},"o":"{}","r":"{}","v":{},"w":{},"x":{}"#, tid(), loc, kind, order, cap(old), cap(new), msg);
}

pub fn cap(x: usize) -> usize {
    x.min(1 << 30)
}

/// A number of the API: a (small) integer, or in big mode the triple <<h, g, d>> with value h * 2^63 + g * 2^31 + d.
pub fn num(x: usize) -> String {
    if !BIG.load(Relaxed) {
        return cap(x).to_string();
    }
    let x = x as i128;
    for h in 0..=2i128 {
        let r = x - (h << 63);
        let g = (r + (1 << 30)).div_euclid(1 << 31);
        let d = r - (g << 31);
        if g.abs() < 1000 && d.abs() < 1 << 29 {
            return format!("[{h},{g},{d}]");
        }
    }
    // far away from all anchors
    "[9,0,0]".to_string()
}

/// Calls which start next to each other overlap in the same way in any order; so do returns.  Such runs are put into
/// the order of the threads, so that equivalent executions give one trace.
pub fn normalised(l: &Log) -> Vec<u8> {
    let n = l.starts.len();
    let text = |i: usize| {
        let end = if i + 1 < n { l.starts[i + 1] - 1 } else { l.buf.len() };
        &l.buf[l.starts[i]..end]
    };
    let class = |x: &[u8]| {
        // {"k":"call","t":3
        if x.starts_with(br#"{"k":"call","t":"#) {
            (1, x[16])
        } else if x.starts_with(br#"{"k":"ret","t":"#) {
            (2, x[15])
        } else if x.starts_with(br#"{"k":"cons","t":"#) {
            (2, x[16])
        } else {
            (0, 0)
        }
    };
    let mut order: Vec<usize> = (0..n).collect();
    let cl: Vec<(u8, u8)> = (0..n).map(|i| class(text(i))).collect();
    let mut i = 0;
    while i < n {
        let mut j = i + 1;
        if cl[i].0 != 0 {
            while j < n && cl[j].0 == cl[i].0 {
                j += 1;
            }
            order[i..j].sort_by_key(|x| (cl[*x].1, *x));
        }
        i = j;
    }
    let mut out = Vec::with_capacity(l.buf.len());
    for (k, i) in order.iter().enumerate() {
        if k > 0 {
            out.push(b',');
        }
        out.extend_from_slice(text(*i));
    }
    out
}
