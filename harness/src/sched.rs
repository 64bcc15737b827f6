//! Deterministic scheduler: exactly one thread of the execution runs at a time; the turn changes at scheduling points
//! (before calls, before atomic operations of the crate, inside callbacks).
use crate::alloc::outside;
use crate::log::{self, tid};
use crate::weak;
use orx_concurrent_iter::verif::{Kind, Observer};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering, Ordering::*};
use std::sync::{Arc, Mutex, MutexGuard};
use std::thread::Thread;
use std::time::{Duration, Instant};

/// Payload of the panic which ends threads of an aborted execution.
pub struct Poison;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Done,
    Frozen,
    OsBlocked,
}

struct Th {
    st: St,
    spin: u32,
    seen: u64,
    steps: usize,
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

pub enum Strategy {
    /// Depth-first enumeration with a bound on the preemptions.
    Dfs { bound: usize, used: usize, stack: Vec<(usize, usize)>, pos: usize },
    Uniform(Rng),
    /// Keeps running the same thread with probability p/16.
    Sticky(Rng, u64),
    /// Random priorities with random change points.
    Pct { rng: Rng, prio: Vec<u64>, change: Vec<usize> },
    /// A given sequence of thread ids, followed by "keep running, else lowest".
    Guided { seq: Vec<usize>, pos: usize, miss: usize },
    /// No scheduling at all: the threads run freely.
    Free,
}

impl Strategy {
    fn choose(&mut self, me: usize, me_on: bool, on: &[usize], step: usize) -> usize {
        match self {
            Strategy::Dfs { bound, used, stack, pos } => {
                let mut opts = vec![];
                if me_on {
                    opts.push(me);
                }
                if !me_on || *used < *bound {
                    opts.extend(on.iter().copied().filter(|x| *x != me));
                }
                if opts.len() == 1 {
                    return opts[0];
                }
                if *pos == stack.len() {
                    stack.push((0, opts.len()));
                }
                let (i, n) = stack[*pos];
                _ = n;
                *pos += 1;
                let c = opts[i.min(opts.len() - 1)];
                if me_on && c != me {
                    *used += 1;
                }
                c
            }
            Strategy::Free => on[0],
            Strategy::Uniform(r) => on[r.below(on.len())],
            Strategy::Sticky(r, p) => match me_on && r.next() % 16 < *p {
                true => me,
                false => on[r.below(on.len())],
            },
            Strategy::Pct { rng, prio, change } => {
                if me > 0 && change.contains(&step) {
                    prio[me] = rng.next() % 1000;
                }
                *on.iter().max_by_key(|x| prio[**x]).expect("nonempty")
            }
            Strategy::Guided { seq, pos, miss } => {
                let want = seq.get(*pos).copied();
                *pos += 1;
                match want {
                    Some(x) if on.contains(&x) => x,
                    x => {
                        *miss += x.is_some() as usize;
                        match me_on {
                            true => me,
                            false => on[0],
                        }
                    }
                }
            }
        }
    }

    /// Moves to the next execution; false when the enumeration is complete.
    pub fn advance(&mut self) -> bool {
        match self {
            Strategy::Dfs { used, stack, pos, .. } => {
                *used = 0;
                *pos = 0;
                while let Some((i, n)) = stack.pop() {
                    if i + 1 < n {
                        stack.push((i + 1, n));
                        return true;
                    }
                }
                false
            }
            _ => true,
        }
    }
}

pub struct S {
    th: Vec<Th>,
    handles: Vec<Thread>,
    version: u64,
    pub strategy: Strategy,
    pub trail: Vec<u8>,
    pub steps: usize,
    stall: u32,
    max_steps: usize,
    pub freeze: Option<(usize, usize)>,
    pub frozen: usize,
    pub hang: bool,
}

static SCH: Mutex<Option<S>> = Mutex::new(None);
static ACTIVE: AtomicBool = AtomicBool::new(false);
static POISONED: AtomicBool = AtomicBool::new(false);
static TURN: AtomicUsize = AtomicUsize::new(0);
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// How often a thread was blocked outside of the hooks.
pub static OSBLOCKS: AtomicUsize = AtomicUsize::new(0);
/// How much time was spent in finding that out, in microseconds.
pub static OSTIME: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn gettid() -> i32;
}

/// Whether the thread sleeps, and how often it has been sleeping before.
fn asleep(os: &AtomicUsize) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/status", os.load(SeqCst))).ok()?;
    let field = |name: &str| s.lines().find_map(|l| l.strip_prefix(name)).map(|x| x.trim().to_string());
    match field("State:")?.starts_with('S') {
        true => field("voluntary_ctxt_switches:")?.parse().ok(),
        false => None,
    }
}
const NONE: usize = usize::MAX;
const SPIN: u32 = 6;

fn sch() -> MutexGuard<'static, Option<S>> {
    SCH.lock().unwrap_or_else(|e| e.into_inner())
}

impl S {
    fn enabled(&self, i: usize) -> bool {
        let t = &self.th[i];
        t.st == St::Ready && !(t.spin >= SPIN && t.seen == self.version)
    }

    /// Decides who runs next; 0 is the controller, NONE is nobody.
    fn decide(&mut self, me: usize) -> usize {
        let n = self.th.len();
        self.steps += 1;
        if self.freeze.is_some_and(|(t, s)| t == me && self.th[me].steps == s) && self.th[me].st == St::Ready {
            self.th[me].st = St::Frozen;
            self.frozen += 1;
            self.freeze = None;
            ev!(r#""k":"frz","t":{}"#, me);
        }
        if self.steps > self.max_steps {
            return self.abort("lim");
        }
        loop {
            let on: Vec<usize> = (1..n).filter(|i| self.enabled(*i)).collect();
            if !on.is_empty() {
                let me_on = on.contains(&me);
                let c = self.strategy.choose(me, me_on, &on, self.steps);
                self.th[c].steps += 1;
                self.trail.push(c as u8);
                return c;
            }
            let ready: Vec<usize> = (1..n).filter(|i| self.th[*i].st == St::Ready).collect();
            if !ready.is_empty() {
                if (1..n).any(|i| self.th[i].st == St::OsBlocked) {
                    // the waiting threads might be waiting for a thread which is blocked by the operating system
                    std::thread::sleep(Duration::from_micros(200));
                }
                self.stall += 1;
                if self.stall > 400 * n as u32 {
                    return self.abort("hang");
                }
                let c = *ready.iter().find(|x| **x > me).unwrap_or(&ready[0]);
                self.trail.push(c as u8);
                return c;
            }
            if (1..n).any(|i| self.th[i].st == St::OsBlocked) {
                return NONE;
            }
            // all others are done: frozen threads continue
            let mut thawed = false;
            for i in 1..n {
                if self.th[i].st == St::Frozen {
                    self.th[i].st = St::Ready;
                    thawed = true;
                    ev!(r#""k":"thaw","t":{}"#, i);
                }
            }
            if !thawed {
                return 0;
            }
        }
    }

    fn abort(&mut self, what: &str) -> usize {
        if !self.hang {
            self.hang = true;
            let b: Vec<String> =
                (1..self.th.len()).filter(|i| self.th[*i].st != St::Done).map(|i| i.to_string()).collect();
            ev!(r#""k":"{}","ts":[{}]"#, what, b.join(","));
        }
        POISONED.store(true, SeqCst);
        for h in &self.handles[1..] {
            h.unpark();
        }
        0
    }
}

fn die_if_poisoned() {
    if POISONED.load(SeqCst) {
        if !std::thread::panicking() {
            std::panic::panic_any(Poison);
        } else {
            // unwinding: slow down in case this is a waiting loop
            std::thread::sleep(Duration::from_millis(20));
        }
    }
}

fn wait_turn(me: usize) {
    loop {
        if POISONED.load(SeqCst) {
            return die_if_poisoned();
        }
        match TURN.load(SeqCst) {
            x if x == me => return,
            NONE => {
                if TURN.compare_exchange(NONE, me, SeqCst, SeqCst).is_ok() {
                    return;
                }
            }
            _ => std::thread::park(),
        }
    }
}

fn give(s: &S, next: usize) {
    TURN.store(next, SeqCst);
    if next != NONE {
        s.handles[next].unpark();
    }
}

/// Hook points of the controlling thread since the last event, which was number .0.
static ALONE: (AtomicU64, AtomicU64) = (AtomicU64::new(0), AtomicU64::new(0));
const ALONE_MAX: u64 = 200_000;

/// The controlling thread is the only one: it must not wait for anything.
fn alone() {
    let e = log::EVENTS.load(Relaxed);
    if ALONE.0.swap(e, Relaxed) != e {
        ALONE.1.store(0, Relaxed);
    } else if ALONE.1.fetch_add(1, Relaxed) == ALONE_MAX {
        ev!(r#""k":"hang","ts":[0]"#);
        if !std::thread::panicking() {
            std::panic::panic_any(Poison);
        }
    }
}

/// A scheduling point.
pub fn point() {
    let me = tid();
    if !ACTIVE.load(SeqCst) {
        if me == 0 {
            alone();
        }
        return;
    }
    if me == 0 {
        return;
    }
    outside(|| {
        die_if_poisoned();
        PROGRESS.fetch_add(1, Relaxed);
        let next = {
            let mut g = sch();
            let Some(s) = g.as_mut() else { return };
            if s.th[me].st == St::OsBlocked {
                s.th[me].st = St::Ready;
                drop(g);
                return wait_turn(me);
            }
            let next = s.decide(me);
            if next != me {
                give(s, next);
            }
            next
        };
        if next != me {
            wait_turn(me);
        }
        die_if_poisoned();
    })
}

/// A scheduling point inside a callback of the harness: the thread makes progress.
pub fn point_user() {
    progress();
    if !std::thread::panicking() {
        point();
    }
}

/// The thread is not spinning.
pub fn progress() {
    let me = tid();
    if me == 0 || !ACTIVE.load(SeqCst) {
        return;
    }
    outside(|| {
        if let Some(s) = sch().as_mut() {
            s.th[me].spin = 0;
            s.stall = 0;
        }
    })
}

/// State outside of the crate's atomics changed (callbacks of the harness): waiting threads look again.
pub fn changed() {
    if !ACTIVE.load(SeqCst) {
        return;
    }
    outside(|| {
        if let Some(s) = sch().as_mut() {
            s.version += 1;
            s.stall = 0;
        }
    })
}

pub struct Hook;

impl Observer for Hook {
    fn before(&self, _: usize) {
        point();
    }

    fn after(&self, addr: usize, kind: Kind, order: Ordering, old: usize, new: usize) {
        let me = tid();
        account(me, old != new && matches!(kind, Kind::Store | Kind::Rmw));
        if !log::ATOM.load(Relaxed) && !weak::on() {
            return;
        }
        outside(|| match kind {
            Kind::Load => {}
            Kind::RmwFail => {
                let (l, x, _) = weak::load(me, addr, order, old, false);
                log::atomic(l, "load", ord(order), old, old, x);
            }
            Kind::Store | Kind::Rmw => {
                let rmw = kind == Kind::Rmw;
                let (l, x) = weak::store(me, addr, order, old, new, rmw);
                log::atomic(l, if rmw { "rmw" } else { "store" }, ord(order), old, new, x);
            }
            Kind::Fence => {
                weak::fence(me, order);
                log::atomic(0, "fence", ord(order), 0, 0, 0);
            }
            Kind::Spin => {}
        })
    }

    fn load(&self, addr: usize, order: Ordering, latest: usize) -> usize {
        let me = tid();
        account(me, false);
        if !log::ATOM.load(Relaxed) && !weak::on() {
            return latest;
        }
        outside(|| {
            let (l, x, v) = weak::load(me, addr, order, latest, true);
            log::atomic(l, "load", ord(order), v, v, x);
            v
        })
    }

    fn spurious(&self, _: usize) -> bool {
        weak::on() && outside(|| weak::spurious(tid()))
    }
}

fn ord(order: Ordering) -> &'static str {
    match order {
        Relaxed => "rlx",
        Acquire => "acq",
        Release => "rel",
        AcqRel => "ar",
        _ => "sc",
    }
}

/// Detects threads which wait for a change.
fn account(me: usize, changed: bool) {
    if !ACTIVE.load(SeqCst) || me == 0 {
        return;
    }
    outside(|| {
        let mut g = sch();
        let Some(s) = g.as_mut() else { return };
        if changed {
            s.version += 1;
            s.stall = 0;
            s.th[me].spin = 0;
        } else {
            let v = s.version;
            let t = &mut s.th[me];
            if t.seen != v {
                t.seen = v;
                t.spin = 0;
            }
            t.spin += 1;
        }
    });
}

// worker pool

type Job = Box<dyn FnOnce() + Send>;

struct Worker {
    tx: std::sync::mpsc::Sender<Job>,
    thread: Thread,
    os: Arc<AtomicUsize>,
}

pub struct Pool {
    w: Vec<Worker>,
}

static LIVE: AtomicUsize = AtomicUsize::new(0);

pub struct Outcome {
    pub steps: usize,
    pub trail: Vec<u8>,
    pub hang: bool,
    pub stuck: bool,
    pub frozen: usize,
    pub strategy: Strategy,
}

impl Pool {
    pub fn new() -> Self {
        Pool { w: vec![] }
    }

    fn grow(&mut self, n: usize) {
        while self.w.len() < n {
            let id = self.w.len() + 1;
            let (tx, rx) = std::sync::mpsc::channel::<Job>();
            let os = Arc::new(AtomicUsize::new(0));
            let os2 = os.clone();
            let j = std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    log::TID.with(|x| x.set(id));
                    os2.store(unsafe { gettid() } as usize, SeqCst);
                    while let Ok(job) = rx.recv() {
                        job()
                    }
                })
                .expect("spawn");
            self.w.push(Worker { tx, thread: j.thread().clone(), os });
        }
    }

    /// Runs the programs concurrently under the given strategy.
    pub fn run<'a>(
        &mut self,
        progs: Vec<Box<dyn FnOnce() + Send + 'a>>,
        strategy: Strategy,
        freeze: Option<(usize, usize)>,
        max_steps: usize,
    ) -> Outcome {
        let n = progs.len();
        self.grow(n);
        if let Strategy::Free = strategy {
            return self.free(progs);
        }
        let mut handles = vec![std::thread::current()];
        handles.extend(self.w[..n].iter().map(|x| x.thread.clone()));
        let th = (0..=n)
            .map(|i| Th { st: if i == 0 { St::Done } else { St::Ready }, spin: 0, seen: u64::MAX, steps: 0 })
            .collect();
        *sch() = Some(S {
            th,
            handles,
            version: 0,
            strategy,
            trail: Vec::new(),
            steps: 0,
            stall: 0,
            max_steps,
            freeze,
            frozen: 0,
            hang: false,
        });
        POISONED.store(false, SeqCst);
        LIVE.store(n, SeqCst);
        TURN.store(NONE - 1, SeqCst);
        ACTIVE.store(true, SeqCst);
        let main = std::thread::current();
        for (i, p) in progs.into_iter().enumerate() {
            // SAFETY: this function returns only when the job is over (otherwise the process exits)
            let p: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + 'a>, Job>(p) };
            let main = main.clone();
            let me = i + 1;
            let job: Job = Box::new(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    wait_turn(me);
                    p()
                }));
                if let Err(e) = r {
                    if !e.is::<Poison>() {
                        ev!(r#""k":"crash","w":"escaped panic""#);
                    }
                }
                let mut g = sch();
                if let Some(s) = g.as_mut() {
                    s.th[me].st = St::Done;
                    s.version += 1;
                    if !POISONED.load(SeqCst) {
                        let next = s.decide(me);
                        give(s, next);
                    }
                }
                drop(g);
                PROGRESS.fetch_add(1, Relaxed);
                LIVE.fetch_sub(1, SeqCst);
                main.unpark();
            });
            self.w[i].tx.send(job).expect("worker");
        }
        {
            let mut g = sch();
            let s = g.as_mut().expect("state");
            let next = s.decide(0);
            give(s, next);
        }
        // wait for the end, watching for threads which are blocked outside of the hooks
        let mut last = PROGRESS.load(Relaxed);
        let mut since = Instant::now();
        let mut poisoned_at: Option<Instant> = None;
        let mut stuck = false;
        let mut sleeping: Option<(usize, u64)> = None;
        while LIVE.load(SeqCst) > 0 {
            let k = OSBLOCKS.load(Relaxed);
            std::thread::park_timeout(Duration::from_micros(if k > 0 { 1500 } else { 30000 }));
            if POISONED.load(SeqCst) {
                let at = *poisoned_at.get_or_insert_with(Instant::now);
                if at.elapsed() > Duration::from_secs(3) {
                    stuck = true;
                    break;
                }
                continue;
            }
            let now = PROGRESS.load(Relaxed);
            let cur = TURN.load(SeqCst);
            if now != last {
                last = now;
                since = Instant::now();
                sleeping = None;
                continue;
            }
            if cur == NONE || cur == 0 {
                // all threads which could continue are blocked: is it forever?
                let all = sch().as_ref().is_some_and(|s| {
                    (1..s.th.len()).all(|i| s.th[i].st != St::OsBlocked || asleep(&self.w[i - 1].os).is_some())
                });
                if since.elapsed() > Duration::from_secs(if all { 3 } else { 15 }) && LIVE.load(SeqCst) > 0 {
                    let mut g = sch();
                    if let Some(s) = g.as_mut() {
                        s.abort("hang");
                    }
                }
                continue;
            }
            if cur > self.w.len() {
                continue;
            }
            // the thread which has the turn sleeps since the last look, or it has been running for too long
            let was = sleeping;
            sleeping = asleep(&self.w[cur - 1].os).map(|x| (cur, x));
            let patience = Duration::from_millis(match k {
                0 => 1500,
                1..=10 => 200,
                _ => 30,
            });
            if sleeping.is_some() && sleeping == was || since.elapsed() > patience {
                let mut g = sch();
                if let Some(s) = g.as_mut() {
                    if TURN.load(SeqCst) == cur && s.th[cur].st == St::Ready && PROGRESS.load(Relaxed) == last {
                        OSBLOCKS.fetch_add(1, Relaxed);
                        OSTIME.fetch_add(since.elapsed().as_micros() as u64, Relaxed);
                        s.th[cur].st = St::OsBlocked;
                        let next = s.decide(cur);
                        give(s, next);
                        since = Instant::now();
                        sleeping = None;
                    }
                }
            }
        }
        ACTIVE.store(false, SeqCst);
        POISONED.store(false, SeqCst);
        let s = sch().take().expect("state");
        Outcome { steps: s.steps, trail: s.trail, hang: s.hang, stuck, frozen: s.frozen, strategy: s.strategy }
    }
    fn free<'a>(&mut self, progs: Vec<Box<dyn FnOnce() + Send + 'a>>) -> Outcome {
        let n = progs.len();
        LIVE.store(n, SeqCst);
        static START: AtomicUsize = AtomicUsize::new(0);
        START.store(n, SeqCst);
        let main = std::thread::current();
        for (i, p) in progs.into_iter().enumerate() {
            // SAFETY: this function returns only when the job is over (otherwise the process exits)
            let p: Job = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + 'a>, Job>(p) };
            let main = main.clone();
            let job: Job = Box::new(move || {
                START.fetch_sub(1, SeqCst);
                let mut k = 0u32;
                while START.load(SeqCst) > 0 {
                    k += 1;
                    match k % 4096 {
                        0 => std::thread::yield_now(),
                        _ => std::hint::spin_loop(),
                    }
                }
                if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(p)) {
                    if !e.is::<Poison>() {
                        ev!(r#""k":"crash","w":"escaped panic""#);
                    }
                }
                LIVE.fetch_sub(1, SeqCst);
                main.unpark();
            });
            self.w[i].tx.send(job).expect("worker");
        }
        let t0 = Instant::now();
        let mut stuck = false;
        while LIVE.load(SeqCst) > 0 {
            std::thread::park_timeout(Duration::from_millis(100));
            if t0.elapsed() > Duration::from_secs(30) {
                ev!(r#""k":"hang","ts":[]"#);
                stuck = true;
                break;
            }
        }
        Outcome { steps: 0, trail: vec![], hang: stuck, stuck, frozen: 0, strategy: Strategy::Free }
    }
}
