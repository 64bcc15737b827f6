//! Operations on concurrent iterators behind an object-safe facade, the programs of the cases and their interpreter.
use crate::alloc::sut;
use crate::elem::{Injected, Item};
use crate::log::{self, num, tid};
use crate::sched::{self, Poison};
use orx_concurrent_iter::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// Address of the first element of a borrowed source, and the distance between elements; 0 when not applicable.
pub static SRC_BASE: AtomicUsize = AtomicUsize::new(0);
pub static SRC_STRIDE: AtomicUsize = AtomicUsize::new(0);
/// The k-th invocation of a closure panics.
pub static CLOSURE_PANIC: AtomicI64 = AtomicI64::new(-1);
pub static CLOSURE_CALLS: AtomicI64 = AtomicI64::new(0);
/// Bound on the number of pulls of loops which are unbounded by nature.
pub static CAP: AtomicUsize = AtomicUsize::new(200);

/// A delivered element.
pub struct Got {
    pub idx: Option<usize>,
    pub p: String,
    pub gen: i64,
    pub aok: bool,
    pub wild: bool,
}

pub fn got<I: Item>(idx: Option<usize>, x: I) -> Got {
    let (pos, gen, addr) = (x.ipos(), x.igen(), x.addr());
    let base = SRC_BASE.load(Relaxed);
    let aok = addr == 0 || base == 0 || (pos >= 0 && addr == base + pos as usize * SRC_STRIDE.load(Relaxed)) || SRC_STRIDE.load(Relaxed) == 0;
    let p = match log::BIG.load(Relaxed) {
        true if pos >= 0 || x.is_num() => num(x.raw() as usize),
        true => "[9,0]".to_string(),
        false => pos.to_string(),
    };
    x.consume();
    Got { idx, p, gen, aok, wild: pos < 0 }
}

pub trait Chunk {
    fn len(&self) -> usize;
    fn hint(&self) -> (usize, Option<usize>);
    fn next(&mut self) -> Option<Got>;
    fn nth(&mut self, k: usize) -> Option<Got>;
    /// Consumes the rest by internal iteration.
    fn rest(&mut self, f: &mut dyn FnMut(Got));
    fn count(&mut self) -> usize;
    fn last(&mut self) -> Option<Got>;
}

struct ChunkW<I>(Option<I>);
impl<I> Chunk for ChunkW<I>
where
    I: ExactSizeIterator,
    I::Item: Item,
{
    fn len(&self) -> usize {
        sut(|| self.0.as_ref().map_or(0, |x| x.len()))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        sut(|| self.0.as_ref().map_or((0, None), |x| x.size_hint()))
    }
    fn next(&mut self) -> Option<Got> {
        let x = sut(|| self.0.as_mut().and_then(|x| x.next()));
        x.map(|x| got(None, x))
    }
    fn nth(&mut self, k: usize) -> Option<Got> {
        let x = sut(|| self.0.as_mut().and_then(|x| x.nth(k)));
        x.map(|x| got(None, x))
    }
    fn rest(&mut self, f: &mut dyn FnMut(Got)) {
        if let Some(x) = self.0.take() {
            sut(|| x.for_each(|x| crate::alloc::outside(|| f(got(None, x)))))
        }
    }
    fn count(&mut self) -> usize {
        sut(|| self.0.take().map_or(0, |x| x.count()))
    }
    fn last(&mut self) -> Option<Got> {
        let x = sut(|| self.0.take().and_then(|x| x.last()));
        x.map(|x| got(None, x))
    }
}
impl<I> Drop for ChunkW<I> {
    fn drop(&mut self) {
        let x = self.0.take();
        sut(|| drop(x));
    }
}

pub trait Seq {
    fn hint(&self) -> (usize, Option<usize>);
    fn next(&mut self) -> Option<Got>;
}
struct SeqW<I>(I);
impl<I> Seq for SeqW<I>
where
    I: Iterator,
    I::Item: Item,
{
    fn hint(&self) -> (usize, Option<usize>) {
        sut(|| self.0.size_hint())
    }
    fn next(&mut self) -> Option<Got> {
        sut(|| self.0.next()).map(|x| got(None, x))
    }
}

pub type PullCb<'x> = &'x mut dyn FnMut(Option<(usize, Box<dyn Chunk + '_>)>);
pub type PullFn<'x> = &'x mut dyn FnMut(PullCb);

pub trait Obj: Send + Sync {
    fn next(&self) -> Option<Got>;
    fn nid(&self) -> Option<Got>;
    fn val(&self) -> Option<Got>;
    fn iav(&self) -> Option<Got>;
    fn vals(&self, f: &mut dyn FnMut(Got) -> bool);
    /// The same for ids_and_values.
    fn iavs(&self, f: &mut dyn FnMut(Got) -> bool);
    /// Internal iteration over values or ids_and_values.
    fn inner(&self, ids: bool, f: &mut dyn FnMut(Got) -> bool);
    fn chunk(&self, n: usize) -> Option<(usize, Box<dyn Chunk + '_>)>;
    fn buffered(&self, n: usize, f: &mut dyn FnMut(PullFn));
    fn for_each(&self, n: usize, f: &mut dyn FnMut(Got));
    fn efe(&self, n: usize, f: &mut dyn FnMut(Got));
    fn fold(&self, n: usize, f: &mut dyn FnMut(&Got)) -> Vec<String>;
    fn skip(&self);
    fn try_len(&self) -> Option<usize>;
    fn more(&self) -> HasMore;
    fn into_seq(self: Box<Self>) -> Box<dyn Seq>;
    fn dup(&self) -> Option<Box<dyn Obj>>;
    /// cloned() or copied() of the iterator as it is.
    fn adapt(self: Box<Self>) -> Box<dyn Obj>;
    /// Low-level public entry points: fetch_one, fetch_n.
    fn low_one(&self) -> Option<Got>;
}

pub struct W<C> {
    pub c: std::mem::ManuallyDrop<C>,
    pub taken: bool,
    pub dup: Option<fn(&C) -> C>,
    pub low: Option<fn(&C) -> Option<Got>>,
    pub adapt: Option<fn(C) -> Box<dyn Obj>>,
}

impl<C> W<C> {
    pub fn new(c: C) -> Self {
        W { c: std::mem::ManuallyDrop::new(c), taken: false, dup: None, low: None, adapt: None }
    }
    pub fn dup(mut self) -> Self
    where
        C: Clone,
    {
        self.dup = Some(|c| c.clone());
        self
    }
}

impl<C> Drop for W<C> {
    fn drop(&mut self) {
        if !self.taken {
            self.taken = true;
            sut(|| unsafe { std::mem::ManuallyDrop::drop(&mut self.c) });
        }
    }
}

impl<C> Obj for W<C>
where
    C: ConcurrentIter + 'static,
    C::Item: Item + 'static,
    C::SeqIter: 'static,
{
    fn next(&self) -> Option<Got> {
        sut(|| self.c.next()).map(|x| got(None, x))
    }
    fn nid(&self) -> Option<Got> {
        sut(|| self.c.next_id_and_value()).map(|x| got(Some(x.idx), x.value))
    }
    fn val(&self) -> Option<Got> {
        sut(|| self.c.values().next()).map(|x| got(None, x))
    }
    fn iav(&self) -> Option<Got> {
        sut(|| self.c.ids_and_values().next()).map(|(i, x)| got(Some(i), x))
    }
    fn vals(&self, f: &mut dyn FnMut(Got) -> bool) {
        for x in self.c.values() {
            if !f(got(None, x)) {
                break;
            }
        }
    }
    fn iavs(&self, f: &mut dyn FnMut(Got) -> bool) {
        for (i, x) in self.c.ids_and_values() {
            if !f(got(Some(i), x)) {
                break;
            }
        }
    }
    fn inner(&self, ids: bool, f: &mut dyn FnMut(Got) -> bool) {
        let mut f = |i, x| crate::alloc::outside(|| f(got(i, x)));
        if ids {
            sut(|| self.c.ids_and_values().for_each(|(i, x)| _ = f(Some(i), x)))
        } else {
            sut(|| self.c.values().for_each(|x| _ = f(None, x)))
        }
    }
    fn chunk(&self, n: usize) -> Option<(usize, Box<dyn Chunk + '_>)> {
        let c = sut(|| self.c.next_chunk(n));
        c.map(|x| (x.begin_idx, Box::new(ChunkW(Some(x.values))) as Box<dyn Chunk + '_>))
    }
    fn buffered(&self, n: usize, f: &mut dyn FnMut(PullFn)) {
        let mut b = sut(|| self.c.buffered_iter(n));
        f(&mut |cb: PullCb| {
            let x = sut(|| b.next());
            cb(x.map(|x| (x.begin_idx, Box::new(ChunkW(Some(x.values))) as Box<dyn Chunk + '_>)))
        });
        sut(|| drop(b));
    }
    fn for_each(&self, n: usize, f: &mut dyn FnMut(Got)) {
        sut(|| self.c.for_each(n, |x| crate::alloc::outside(|| f(got(None, x)))))
    }
    fn efe(&self, n: usize, f: &mut dyn FnMut(Got)) {
        sut(|| self.c.enumerate_for_each(n, |i, x| crate::alloc::outside(|| f(got(Some(i), x)))))
    }
    fn fold(&self, n: usize, f: &mut dyn FnMut(&Got)) -> Vec<String> {
        sut(|| {
            self.c.fold(n, Vec::new(), |mut acc, x| {
                crate::alloc::outside(|| {
                    let g = got(None, x);
                    f(&g);
                    acc.push(g.p);
                    acc
                })
            })
        })
    }
    fn skip(&self) {
        sut(|| self.c.skip_to_end())
    }
    fn try_len(&self) -> Option<usize> {
        sut(|| self.c.try_get_len())
    }
    fn more(&self) -> HasMore {
        sut(|| self.c.has_more())
    }
    fn into_seq(mut self: Box<Self>) -> Box<dyn Seq> {
        self.taken = true;
        let c = unsafe { std::mem::ManuallyDrop::take(&mut self.c) };
        let x = sut(|| c.into_seq_iter());
        Box::new(SeqW(x))
    }
    fn dup(&self) -> Option<Box<dyn Obj>> {
        self.dup.map(|d| {
            let c = sut(|| d(&self.c));
            let mut w = W::new(c);
            w.dup = self.dup;
            w.low = self.low;
            w.adapt = self.adapt;
            Box::new(w) as Box<dyn Obj>
        })
    }
    fn adapt(mut self: Box<Self>) -> Box<dyn Obj> {
        let Some(f) = self.adapt else { return self };
        self.taken = true;
        f(unsafe { std::mem::ManuallyDrop::take(&mut self.c) })
    }
    fn low_one(&self) -> Option<Got> {
        match self.low {
            Some(f) => f(&self.c),
            None => self.nid(),
        }
    }
}

// programs

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Use {
    All,
    /// By internal iteration.
    Fold,
    First(usize),
    /// Begins with nth.
    Nth(usize),
    /// Only counts.
    Count,
    Last,
    Hold,
}

#[derive(Debug, Clone)]
pub enum Op {
    Next,
    Nid,
    Val,
    Iav,
    Low,
    /// Indices, internal iteration.
    Vals(bool, bool),
    Chunk(usize, Use),
    Buf(usize, Vec<(usize, Op, bool)>),
    Pull(Use),
    ForEach(usize),
    Efe(usize),
    Fold(usize),
    Skip,
    Len,
    More,
    Consume(Use),
    Clone,
    Fresh,
    Seq(Use),
    Adapt,
    Drop,
    /// A loop whose closure runs a program as well, or a buffered pull whose chunk is alive while the program runs.
    With(Box<Op>, Vec<Step>),
}

/// (iterator, operation, repeat until the end)
pub type Step = (usize, Op, bool);

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

pub fn parse(s: &str) -> Vec<Step> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let r = p.seq();
    assert!(p.i == p.s.len(), "cannot parse {s:?} at {}", p.i);
    r
}

impl P<'_> {
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        let y = self.peek() == c;
        self.i += y as usize;
        y
    }
    fn digits(&mut self) -> usize {
        let mut n = 0;
        while self.peek().is_ascii_digit() {
            n = n * 10 + (self.peek() - b'0') as usize;
            self.i += 1;
        }
        n
    }
    /// A number: 12, M (the maximum), M-3, H (half of the maximum), E (2^32), Q (2^31), H+1, H-1
    fn num(&mut self) -> usize {
        let base = match self.peek() {
            b'M' => usize::MAX,
            b'H' => usize::MAX / 2,
            b'E' => 1 << 32,
            b'Q' => 1 << 31,
            _ => return self.digits(),
        };
        self.i += 1;
        if self.eat(b'-') {
            base - self.digits()
        } else if self.eat(b'+') {
            base + self.digits()
        } else {
            base
        }
    }
    fn usage(&mut self) -> Use {
        if !self.eat(b'.') {
            return Use::All;
        }
        if self.eat(b'h') {
            Use::Hold
        } else if self.eat(b'f') {
            Use::Fold
        } else if self.eat(b'c') {
            Use::Count
        } else if self.eat(b'l') {
            Use::Last
        } else if self.eat(b't') {
            Use::Nth(self.digits())
        } else {
            Use::First(self.digits())
        }
    }
    fn seq(&mut self) -> Vec<Step> {
        let mut r = vec![];
        while self.i < self.s.len() && self.peek() != b'}' && self.peek() != b']' {
            if self.eat(b';') {
                continue;
            }
            let it = match self.eat(b'@') {
                true => self.digits(),
                false => 0,
            };
            let c = self.peek();
            self.i += 1;
            let op = match c {
                b'N' => Op::Next,
                b'I' => Op::Nid,
                b'V' => Op::Val,
                b'W' => Op::Iav,
                b'O' => Op::Low,
                b'U' | b'J' => Op::Vals(c == b'J', self.usage() == Use::Fold),
                b'C' => {
                    let n = self.num();
                    Op::Chunk(n, self.usage())
                }
                b'B' => {
                    let n = self.num();
                    assert!(self.eat(b'{'));
                    let x = self.seq();
                    assert!(self.eat(b'}'));
                    Op::Buf(n, x)
                }
                b'P' => Op::Pull(self.usage()),
                b'F' => Op::ForEach(self.num()),
                b'G' => Op::Efe(self.num()),
                b'D' => Op::Fold(self.num()),
                b'S' => Op::Skip,
                b'L' => Op::Len,
                b'H' => Op::More,
                b'K' => Op::Consume(self.usage()),
                b'X' => Op::Clone,
                b'Y' => Op::Fresh,
                b'R' => Op::Seq(self.usage()),
                b'A' => Op::Adapt,
                b'Z' => Op::Drop,
                _ => panic!("unknown operation {}", c as char),
            };
            let op = match self.eat(b'[') {
                true => {
                    let x = self.seq();
                    assert!(self.eat(b']'));
                    Op::With(Box::new(op), x)
                }
                false => op,
            };
            let rep = self.eat(b'*');
            r.push((it, op, rep));
        }
        r
    }
}

/// The iterators of one execution.
pub struct Env {
    pub objs: Mutex<Vec<Option<*mut dyn Obj>>>,
    pub fresh: Option<Box<dyn Fn() -> Box<dyn Obj>>>,
}
unsafe impl Sync for Env {}
unsafe impl Send for Env {}

impl Env {
    pub fn new(objs: Vec<Box<dyn Obj>>, fresh: Option<Box<dyn Fn() -> Box<dyn Obj>>>) -> Self {
        Env { objs: Mutex::new(objs.into_iter().map(|x| Some(Box::into_raw(x))).collect()), fresh }
    }
    fn get(&self, i: usize) -> Option<&'static dyn Obj> {
        // SAFETY: iterators are taken out only by the controller when no thread is running
        let o = self.objs.lock().unwrap_or_else(|e| e.into_inner());
        o.get(i).copied().flatten().map(|x| unsafe { &*x })
    }
    fn push(&self, x: Box<dyn Obj>) -> usize {
        let mut o = self.objs.lock().unwrap_or_else(|e| e.into_inner());
        o.push(Some(Box::into_raw(x)));
        o.len() - 1
    }
    pub fn take(&self, i: usize) -> Option<Box<dyn Obj>> {
        let mut o = self.objs.lock().unwrap_or_else(|e| e.into_inner());
        o.get_mut(i).and_then(|x| x.take()).map(|x| unsafe { Box::from_raw(x) })
    }
    fn put(&self, i: usize, x: Box<dyn Obj>) {
        self.objs.lock().unwrap_or_else(|e| e.into_inner())[i] = Some(Box::into_raw(x));
    }
    pub fn len(&self) -> usize {
        self.objs.lock().unwrap_or_else(|e| e.into_inner()).len()
    }
}

type Held = (usize, usize, Box<dyn Chunk>);

pub struct Interp<'e> {
    pub env: &'e Env,
    pub held: Vec<Held>,
    /// What closures do besides.
    nest: Vec<Step>,
}

/// Result of a guarded call.
enum R<T> {
    Ok(T),
    Injected,
    Unexpected,
}

fn guard<T>(f: impl FnOnce() -> T) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => R::Ok(x),
        Err(e) if e.is::<Poison>() => std::panic::resume_unwind(e),
        Err(e) if e.is::<Injected>() => R::Injected,
        Err(_) => R::Unexpected,
    }
}

fn b(x: bool) -> u8 {
    x as u8
}

fn call(i: usize, op: &str, n: usize) {
    sched::progress();
    sched::point();
    ev!(r#""k":"call","t":{},"i":{},"o":"{}","n":{}"#, tid(), i, op, num(n));
}

fn ret_panic<T>(r: R<T>) {
    ev!(r#""k":"ret","t":{},"r":"panic","j":{}"#, tid(), b(matches!(r, R::Injected)));
}

fn ret_one(r: R<Option<Got>>) -> bool {
    match r {
        R::Ok(Some(g)) => {
            let x = g.idx.map_or("-1".to_string(), num);
            ev!(r#""k":"ret","t":{},"r":"one","x":{},"p":{},"g":{},"a":{},"d":{}"#, tid(), x, g.p, g.gen, b(g.aok), b(g.idx.is_some()));
            true
        }
        R::Ok(None) => {
            ev!(r#""k":"ret","t":{},"r":"end""#, tid());
            false
        }
        r => {
            ret_panic(r);
            false
        }
    }
}

/// Logs the return of a chunk pull.
fn ret_chunk(x: &Option<(usize, Box<dyn Chunk + '_>)>) -> Option<usize> {
    match x {
        Some((begin, c)) => {
            let id = log::chunk_id();
            let n = c.len();
            let (l, u) = c.hint();
            ev!(
                r#""k":"ret","t":{},"r":"ch","c":{},"x":{},"m":{},"h":{}"#,
                tid(),
                id,
                num(*begin),
                num(n),
                b(l == n && u == Some(n))
            );
            Some(id)
        }
        None => {
            ev!(r#""k":"ret","t":{},"r":"end""#, tid());
            None
        }
    }
}

/// Consumes elements of a chunk and logs what they are.
fn consume(id: usize, mut c: Box<dyn Chunk + '_>, u: Use) {
    let (mut ps, mut ls): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let (mut aok, mut ended, mut gen, mut hok, mut skipped) = (true, false, -1i64, true, 0);
    let big = log::BIG.load(Relaxed);
    let cap = CAP.load(Relaxed);
    let max = match u {
        Use::First(k) => k,
        _ if big => 4,
        _ => usize::MAX,
    };
    let r = guard(|| match u {
        Use::Fold if !big => {
            ls.push(num(c.len()));
            c.rest(&mut |g| {
                if ps.len() < cap {
                    ps.push(g.p);
                    aok &= g.aok;
                    gen = gen.max(g.gen);
                }
            });
            ended = true;
        }
        Use::Count if !big => {
            ls.push(num(c.len()));
            skipped = c.count();
            ended = true;
        }
        Use::Last if !big => {
            let n = c.len();
            ls.push(num(n));
            skipped = n.saturating_sub(1);
            if let Some(g) = c.last() {
                ps.push(g.p);
                aok &= g.aok;
                gen = gen.max(g.gen);
            }
            ended = true;
        }
        _ => {
            while ps.len() < max && ps.len() < cap {
                let n = c.len();
                let (l, up) = c.hint();
                hok &= l == n && up == Some(n);
                ls.push(num(n));
                let next = match u {
                    Use::Nth(k) if ls.len() == 1 => {
                        skipped = k.min(n);
                        c.nth(k)
                    }
                    _ => c.next(),
                };
                match next {
                    Some(g) => {
                        ps.push(g.p);
                        aok &= g.aok;
                        gen = gen.max(g.gen);
                    }
                    None => {
                        ended = true;
                        break;
                    }
                }
            }
            if !ended {
                ls.push(num(c.len()));
            } else {
                // what has announced its end stays at its end
                hok &= c.len() == 0 && c.hint() == (0, Some(0));
                if let Some(g) = c.next() {
                    ps.push(g.p);
                }
            }
        }
    });
    let pan = match r {
        R::Ok(()) => 0,
        R::Injected => 1,
        R::Unexpected => 2,
    };
    ev!(
        r#""k":"cons","t":{},"c":{},"ps":[{}],"sk":{},"ls":[{}],"z":{},"a":{},"g":{},"h":{},"f":{},"j":{}"#,
        tid(),
        id,
        ps.join(","),
        skipped,
        ls.join(","),
        b(ended),
        b(aok),
        gen,
        b(hok),
        b(u == Use::Fold && !big),
        pan
    );
    // the rest of the chunk is destroyed here
    if let R::Injected | R::Unexpected = guard(|| drop(c)) {
        ev!(r#""k":"cpanic","t":{}"#, tid());
    }
}

fn item(i: usize, g: &Got) {
    let x = g.idx.map_or("-1".to_string(), num);
    ev!(
        r#""k":"item","t":{},"i":{},"x":{},"p":{},"g":{},"a":{},"d":{}"#,
        tid(),
        i,
        x,
        g.p,
        g.gen,
        b(g.aok),
        b(g.idx.is_some())
    );
    let k = CLOSURE_CALLS.fetch_add(1, SeqCst);
    if k == CLOSURE_PANIC.load(Relaxed) {
        log::inj();
        std::panic::panic_any(Injected);
    }
    if k > 3 * CAP.load(Relaxed) as i64 + 20 {
        ev!(r#""k":"lim","ts":[{}]"#, tid());
        std::panic::panic_any(Poison);
    }
    sched::point_user();
}

impl<'e> Interp<'e> {
    pub fn new(env: &'e Env) -> Self {
        Interp { env, held: vec![], nest: vec![] }
    }

    pub fn run(&mut self, prog: &[Step], mut pull: Option<PullFn>) {
        for (i, op, rep) in prog {
            let mut left = match rep {
                true => CAP.load(Relaxed) + 5,
                false => 1,
            };
            loop {
                let p = match &mut pull {
                    Some(x) => Some(&mut **x as PullFn),
                    None => None,
                };
                let more = self.op(*i, op, p);
                left -= 1;
                if left == 0 || !more {
                    break;
                }
            }
        }
    }

    /// What the client does in a closure, or while a chunk is alive.
    fn nested(&mut self) {
        let p = std::mem::take(&mut self.nest);
        if !p.is_empty() {
            self.run(&p, None);
            self.nest = p;
        }
    }

    /// Returns true when the operation delivered something.
    fn op(&mut self, i: usize, op: &Op, pull: Option<PullFn>) -> bool {
        if let Op::Consume(u) = op {
            if self.held.is_empty() {
                return false;
            }
            let (_, id, c) = self.held.remove(0);
            consume(id, c, *u);
            return false;
        }
        if let Op::With(op, p) = op {
            let old = std::mem::replace(&mut self.nest, p.clone());
            let r = self.op(i, op, pull);
            self.nest = old;
            return r;
        }
        if let Op::Fresh = op {
            let Some(f) = &self.env.fresh else { return false };
            call(i, "fresh", 0);
            let id = self.env.push(f());
            ev!(r#""k":"ret","t":{},"r":"new","i":{}"#, tid(), id);
            return false;
        }
        if let Op::Seq(u) = op {
            return self.seq(i, *u);
        }
        if let Op::Drop = op {
            self.drop_obj(i);
            return false;
        }
        if let Op::Adapt = op {
            self.release(Some(i));
            let Some(o) = self.env.take(i) else { return false };
            call(i, "adapt", 0);
            match guard(|| o.adapt()) {
                R::Ok(o) => {
                    self.env.put(i, o);
                    ev!(r#""k":"ret","t":{},"r":"ok""#, tid());
                }
                r => ret_panic(r),
            }
            return false;
        }
        let Some(o) = self.env.get(i) else { return false };
        match op {
            Op::Next => {
                call(i, "next", 1);
                ret_one(guard(|| o.next()))
            }
            Op::Nid => {
                call(i, "nid", 1);
                ret_one(guard(|| o.nid()))
            }
            Op::Val => {
                call(i, "val", 1);
                ret_one(guard(|| o.val()))
            }
            Op::Iav => {
                call(i, "iav", 1);
                ret_one(guard(|| o.iav()))
            }
            Op::Low => {
                call(i, "low", 1);
                ret_one(guard(|| o.low_one()))
            }
            Op::Vals(ids, inner) => {
                // for x in iter.values() { .. }
                let cap = CAP.load(Relaxed);
                let mut k = 0;
                call(i, "vals", 1);
                let mut f = |g: Got| {
                    k += 1;
                    item(i, &g);
                    self.nested();
                    k < cap
                };
                let r = guard(|| match (inner, ids) {
                    (true, _) => o.inner(*ids, &mut f),
                    (_, true) => o.iavs(&mut f),
                    _ => o.vals(&mut f),
                });
                match r {
                    R::Ok(()) => ev!(r#""k":"ret","t":{},"r":"ok""#, tid()),
                    r => ret_panic(r),
                }
                false
            }
            Op::Chunk(n, u) => {
                call(i, "chunk", *n);
                match guard(|| o.chunk(*n)) {
                    R::Ok(x) => {
                        let id = ret_chunk(&x);
                        match (id, x) {
                            (Some(id), Some((_, c))) => {
                                match u {
                                    Use::Hold => self.held.push((i, id, c)),
                                    _ => consume(id, c, *u),
                                }
                                true
                            }
                            _ => false,
                        }
                    }
                    r => {
                        ret_panic(r);
                        false
                    }
                }
            }
            Op::Pull(u) => {
                let Some(pull) = pull else { return false };
                let mut more = false;
                // the chunk size is the one of the buffered iterator
                call(i, "buf", BUFN.with(|x| x.get()));
                let mut returned = false;
                let r = guard(|| {
                    pull(&mut |x| {
                        let id = ret_chunk(&x);
                        returned = true;
                        if let (Some(id), Some((_, c))) = (id, x) {
                            self.nested();
                            consume(id, c, *u);
                            more = true;
                        }
                    })
                });
                match r {
                    R::Ok(()) => {}
                    r if !returned => ret_panic(r),
                    _ => ev!(r#""k":"cpanic","t":{}"#, tid()),
                }
                more
            }
            Op::Buf(n, prog) => {
                call(i, "mkbuf", *n);
                let mut made = false;
                let r = guard(|| {
                    o.buffered(*n, &mut |pull| {
                        made = true;
                        ev!(r#""k":"ret","t":{},"r":"ok""#, tid());
                        let old = BUFN.with(|x| x.replace(*n));
                        self.run(prog, Some(pull));
                        BUFN.with(|x| x.set(old));
                    })
                });
                match r {
                    R::Ok(()) => {}
                    r if !made => ret_panic(r),
                    _ => ev!(r#""k":"cpanic","t":{}"#, tid()),
                }
                false
            }
            Op::ForEach(n) => {
                call(i, "fe", *n);
                match guard(|| o.for_each(*n, &mut |g| {
                    item(i, &g);
                    self.nested();
                })) {
                    R::Ok(()) => ev!(r#""k":"ret","t":{},"r":"ok""#, tid()),
                    r => ret_panic(r),
                }
                false
            }
            Op::Efe(n) => {
                call(i, "efe", *n);
                match guard(|| o.efe(*n, &mut |g| {
                    item(i, &g);
                    self.nested();
                })) {
                    R::Ok(()) => ev!(r#""k":"ret","t":{},"r":"ok""#, tid()),
                    r => ret_panic(r),
                }
                false
            }
            Op::Fold(n) => {
                call(i, "fold", *n);
                match guard(|| o.fold(*n, &mut |g| {
                    item(i, g);
                    self.nested();
                })) {
                    R::Ok(ps) => ev!(r#""k":"ret","t":{},"r":"fold","ps":[{}]"#, tid(), ps.join(",")),
                    r => ret_panic(r),
                }
                false
            }
            Op::Skip => {
                call(i, "skip", 0);
                match guard(|| o.skip()) {
                    R::Ok(()) => ev!(r#""k":"ret","t":{},"r":"ok""#, tid()),
                    r => ret_panic(r),
                }
                false
            }
            Op::Len => {
                call(i, "len", 0);
                match guard(|| o.try_len()) {
                    R::Ok(None) => ev!(r#""k":"ret","t":{},"r":"len","y":0,"m":{}"#, tid(), num(0)),
                    R::Ok(Some(m)) => ev!(r#""k":"ret","t":{},"r":"len","y":1,"m":{}"#, tid(), num(m)),
                    r => ret_panic(r),
                }
                false
            }
            Op::More => {
                call(i, "more", 0);
                match guard(|| o.more()) {
                    R::Ok(HasMore::Maybe) => ev!(r#""k":"ret","t":{},"r":"more","y":0,"m":{}"#, tid(), num(0)),
                    R::Ok(HasMore::No) => ev!(r#""k":"ret","t":{},"r":"more","y":2,"m":{}"#, tid(), num(0)),
                    R::Ok(HasMore::Yes(m)) => ev!(r#""k":"ret","t":{},"r":"more","y":1,"m":{}"#, tid(), num(m)),
                    r => ret_panic(r),
                }
                false
            }
            Op::Clone => {
                call(i, "clone", 0);
                match guard(|| o.dup()) {
                    R::Ok(Some(x)) => {
                        let id = self.env.push(x);
                        ev!(r#""k":"ret","t":{},"r":"new","i":{}"#, tid(), id);
                    }
                    R::Ok(None) => ev!(r#""k":"ret","t":{},"r":"ok""#, tid()),
                    r => ret_panic(r),
                }
                false
            }
            Op::Consume(_) | Op::Fresh | Op::Seq(_) | Op::Drop | Op::Adapt | Op::With(..) => false,
        }
    }

    fn seq(&mut self, i: usize, u: Use) -> bool {
        self.release(Some(i));
        let Some(o) = self.env.take(i) else { return false };
        call(i, "seq", 0);
        let big = log::BIG.load(Relaxed);
        let max = match u {
            Use::First(k) => k,
            _ if big => 4,
            _ => CAP.load(Relaxed),
        };
        let mut ps: Vec<String> = vec![];
        let (mut aok, mut gen, mut ended, mut low, mut up) = (true, -1i64, false, 0, None);
        let r = guard(|| {
            let mut s = o.into_seq();
            (low, up) = s.hint();
            while ps.len() < max {
                match s.next() {
                    Some(g) => {
                        ps.push(g.p);
                        aok &= g.aok;
                        gen = gen.max(g.gen);
                    }
                    None => {
                        ended = true;
                        break;
                    }
                }
            }
            s
        });
        match r {
            R::Ok(s) => {
                ev!(
                    r#""k":"ret","t":{},"r":"seq","ps":[{}],"lo":{},"uy":{},"up":{},"z":{},"a":{},"g":{}"#,
                    tid(),
                    ps.join(","),
                    num(low),
                    b(up.is_some()),
                    num(up.unwrap_or(0)),
                    b(ended),
                    b(aok),
                    gen
                );
                if let R::Injected | R::Unexpected = guard(|| drop(s)) {
                    ev!(r#""k":"cpanic","t":{}"#, tid());
                }
            }
            r => ret_panic(r),
        }
        false
    }

    fn drop_obj(&mut self, i: usize) {
        self.release(Some(i));
        let Some(o) = self.env.take(i) else { return };
        call(i, "drop", 0);
        match guard(|| drop(o)) {
            R::Ok(()) => ev!(r#""k":"ret","t":{},"r":"ok""#, tid()),
            r => ret_panic(r),
        }
    }

    /// Destroys held chunks.
    pub fn release(&mut self, of: Option<usize>) {
        let held = std::mem::take(&mut self.held);
        for (i, id, c) in held {
            if of.is_none() || of == Some(i) {
                if let R::Injected | R::Unexpected = guard(|| drop(c)) {
                    ev!(r#""k":"cpanic","t":{}"#, tid());
                }
            } else {
                self.held.push((i, id, c));
            }
        }
    }
}

thread_local! { static BUFN: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
