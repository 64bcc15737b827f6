//! Views of the threads on the modification orders of the crate's atomics: which message (store) every operation reads
//! or writes.  When enabled, loads may read earlier messages as the language memory model allows.
use crate::sched::Rng;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering, Ordering::*};
use std::sync::Mutex;

type View = Vec<usize>;

fn join(a: &mut View, b: &View) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

fn at(v: &View, l: usize) -> usize {
    v.get(l).copied().unwrap_or(0)
}

fn set(v: &mut View, l: usize, i: usize) {
    if v.len() <= l {
        v.resize(l + 1, 0);
    }
    v[l] = v[l].max(i);
}

struct Loc {
    msgs: Vec<(usize, View)>,
    /// The last message written by a sequentially consistent operation.
    sc: usize,
}

#[derive(Default, Clone)]
struct Th {
    view: View,
    rel: View,
    pend: View,
    stale: u32,
    failed: u32,
}

pub struct Weak {
    ids: HashMap<usize, usize>,
    locs: Vec<Loc>,
    th: Vec<Th>,
    sc: View,
    /// What has happened before in real time, as far as clients can know.
    rt: View,
    rng: Rng,
}

pub static WEAK: AtomicBool = AtomicBool::new(false);
/// The order in real time of calls, returns and invocations of closures is an order of happens-before.
static REAL: AtomicBool = AtomicBool::new(false);
static W: Mutex<Option<Weak>> = Mutex::new(None);

pub fn reset(weak: u8, seed: u64) {
    WEAK.store(weak > 0, Relaxed);
    REAL.store(weak > 1, Relaxed);
    let w = Weak { ids: HashMap::new(), locs: vec![], th: vec![Th::default(); 16], sc: vec![], rt: vec![], rng: Rng(seed) };
    *W.lock().unwrap_or_else(|e| e.into_inner()) = Some(w);
}

pub fn fork() {
    if let Some(w) = W.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        let v = w.th[0].view.clone();
        w.th.iter_mut().for_each(|t| join(&mut t.view, &v));
    }
}

/// The thread logs an event.
pub fn event(t: usize, e: &[u8]) {
    if !REAL.load(Relaxed) || t >= 16 {
        return;
    }
    let is = |k: &[u8]| e.get(6..6 + k.len()) == Some(k);
    let (call, ret, item) = (is(b"call\""), is(b"ret\""), is(b"item\""));
    if call || ret || item {
        if let Some(w) = W.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
            if ret || item {
                let v = w.th[t].view.clone();
                join(&mut w.rt, &v);
            }
            if call || item {
                let v = w.rt.clone();
                join(&mut w.th[t].view, &v);
            }
        }
    }
}

fn is_acq(o: Ordering) -> bool {
    matches!(o, Acquire | AcqRel | SeqCst)
}

fn is_rel(o: Ordering) -> bool {
    matches!(o, Release | AcqRel | SeqCst)
}

pub fn join_all() {
    if let Some(w) = W.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        for t in 1..w.th.len() {
            let v = w.th[t].view.clone();
            join(&mut w.th[0].view, &v);
        }
    }
}

impl Weak {
    fn loc(&mut self, addr: usize, initial: usize) -> usize {
        let n = self.locs.len();
        let l = *self.ids.entry(addr).or_insert(n);
        if l == n {
            self.locs.push(Loc { msgs: vec![(initial, vec![])], sc: 0 });
        }
        l
    }
}

/// Returns the number of the location, of the message which is read or written, and the value which is read.
pub fn load(t: usize, addr: usize, order: Ordering, latest: usize, may_be_old: bool) -> (usize, usize, usize) {
    let mut g = W.lock().unwrap_or_else(|e| e.into_inner());
    let Some(w) = g.as_mut() else { return (0, 0, latest) };
    let l = w.loc(addr, latest);
    let last = w.locs[l].msgs.len() - 1;
    if w.locs[l].msgs[last].0 != latest {
        // written by an operation which is not seen by the hooks
        w.locs[l].msgs.push((latest, vec![]));
    }
    let last = w.locs[l].msgs.len() - 1;
    let mut low = at(&w.th[t].view, l);
    if order == SeqCst {
        low = low.max(w.locs[l].sc);
    }
    let mut i = last;
    if may_be_old && t > 0 && WEAK.load(Relaxed) && low < last && w.th[t].stale < 4 && w.rng.next() % 2 == 0 {
        i = low + w.rng.below(last - low + 1);
    }
    w.th[t].stale = if i < last { w.th[t].stale + 1 } else { 0 };
    let (value, view) = w.locs[l].msgs[i].clone();
    let th = &mut w.th[t];
    set(&mut th.view, l, i);
    match is_acq(order) {
        true => join(&mut th.view, &view),
        false => join(&mut th.pend, &view),
    }
    (l, i, value)
}

pub fn store(t: usize, addr: usize, order: Ordering, old: usize, new: usize, rmw: bool) -> (usize, usize) {
    let mut g = W.lock().unwrap_or_else(|e| e.into_inner());
    let Some(w) = g.as_mut() else { return (0, 0) };
    let l = w.loc(addr, old);
    if w.locs[l].msgs.last().is_some_and(|m| m.0 != old) {
        w.locs[l].msgs.push((old, vec![]));
    }
    let last = w.locs[l].msgs.len() - 1;
    let before = w.locs[l].msgs[last].1.clone();
    let th = &mut w.th[t];
    if rmw {
        match is_acq(order) {
            true => join(&mut th.view, &before),
            false => join(&mut th.pend, &before),
        }
    }
    let i = last + 1;
    set(&mut th.view, l, i);
    let mut view = match is_rel(order) {
        true => th.view.clone(),
        false => th.rel.clone(),
    };
    if rmw {
        join(&mut view, &before);
    }
    set(&mut view, l, i);
    w.locs[l].msgs.push((new, view));
    if order == SeqCst {
        w.locs[l].sc = i;
    }
    (l, i)
}

pub fn on() -> bool {
    WEAK.load(Relaxed)
}

/// Whether a weak compare-exchange fails although the value is the expected one.
pub fn spurious(t: usize) -> bool {
    let mut g = W.lock().unwrap_or_else(|e| e.into_inner());
    let Some(w) = g.as_mut() else { return false };
    let yes = t > 0 && w.th[t].failed < 2 && w.rng.next() % 4 == 0;
    w.th[t].failed = if yes { w.th[t].failed + 1 } else { 0 };
    yes
}

pub fn fence(t: usize, order: Ordering) {
    let mut g = W.lock().unwrap_or_else(|e| e.into_inner());
    let Some(w) = g.as_mut() else { return };
    let th = &mut w.th[t];
    if is_acq(order) {
        let p = th.pend.clone();
        join(&mut th.view, &p);
    }
    if order == SeqCst {
        join(&mut th.view, &w.sc);
        w.sc = th.view.clone();
    }
    if is_rel(order) {
        th.rel = th.view.clone();
    }
}
