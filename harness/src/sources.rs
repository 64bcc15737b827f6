//! Construction of the concurrent iterators of a case.
use crate::alloc::{outside, sut};
use crate::elem::*;
use crate::log;
use crate::ops::*;
use crate::sched;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};

/// The k-th call of the wrapped iterator's next panics.
pub static WRAPPED_PANIC: AtomicI64 = AtomicI64::new(-1);
pub static WRAPPED_CALLS: AtomicI64 = AtomicI64::new(0);
/// The k-th call of the wrapped iterator's next takes so many milliseconds.
pub static SLOW_CALL: AtomicI64 = AtomicI64::new(-1);
pub static SLOW_MS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Hint {
    Exact,
    Inexact,
    Unbounded,
    Lower,
    /// (usize::MAX, None)
    Infinite,
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: String,
    pub elem: String,
    /// none, cloned or copied
    pub ad: String,
    pub len: usize,
    /// Additional elements which a wrapped iterator yields after its first None.
    pub extra: usize,
    pub hint: Hint,
    /// Spare capacity of vectors.
    pub cap: usize,
    pub start: usize,
    pub end: usize,
    /// Number of identical iterators to start with.
    pub twins: usize,
    /// Whether the second twin is created by the adaptor `ad` and the first by none.
    pub mixed: bool,
    /// Constructor variant.
    pub ctor: usize,
}

/// The wrapped sequential iterator: it observes its own use.
pub struct Probe<I> {
    inner: I,
    at: usize,
    len: usize,
    total: usize,
    hint: Hint,
    ended: bool,
}

impl<I: Iterator> Probe<I>
where
    I::Item: Item,
{
    fn new(inner: I, s: &Spec) -> Self {
        Probe { inner, at: 0, len: s.len, total: s.len + s.extra, hint: s.hint, ended: false }
    }
}

impl<I: Iterator> Iterator for Probe<I>
where
    I::Item: Item,
{
    type Item = I::Item;

    fn next(&mut self) -> Option<I::Item> {
        outside(|| {
            let t = log::tid();
            if log::WRAP.load(Relaxed) {
                ev!(r#""k":"we","t":{}"#, t);
            }
            let k = WRAPPED_CALLS.fetch_add(1, SeqCst);
            let at = self.at;
            sched::point_user();
            if k == SLOW_CALL.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(SLOW_MS.load(Relaxed)));
            }
            if k == WRAPPED_PANIC.load(Relaxed) {
                log::inj();
                if log::WRAP.load(Relaxed) {
                    ev!(r#""k":"wx","t":{},"p":-2"#, t);
                }
                sched::changed();
                std::panic::panic_any(Injected);
            }
            let r = if at == self.len && !self.ended {
                self.ended = true;
                None
            } else if at < self.total {
                let x = self.inner.next();
                self.at = at + 1;
                x
            } else {
                None
            };
            sched::changed();
            let p = r.as_ref().map_or(-1, |x| x.ipos());
            if log::WRAP.load(Relaxed) {
                ev!(r#""k":"wx","t":{},"p":{}"#, t, p);
            }
            r
        })
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        outside(|| {
            if log::WRAP.load(Relaxed) {
                ev!(r#""k":"wr","t":{}"#, log::tid());
            }
            sched::point_user();
        });
        let rem = self.len.saturating_sub(self.at);
        match self.hint {
            Hint::Exact => (rem, Some(rem)),
            Hint::Inexact => (0, Some(rem + 2)),
            Hint::Unbounded => (0, None),
            Hint::Lower => (rem, None),
            Hint::Infinite => (usize::MAX, None),
        }
    }
}

pub struct Setup {
    pub objs: Vec<Box<dyn Obj>>,
    pub fresh: Option<Box<dyn Fn() -> Box<dyn Obj>>>,
    /// Inspects the borrowed source (if any) and destroys it.
    pub finish: Box<dyn FnOnce()>,
}

fn boxed<C>(c: C) -> Box<W<C>>
where
    C: ConcurrentIter + AtomicIter<<C as ConcurrentIter>::Item> + 'static,
    <C as ConcurrentIter>::Item: Item + 'static,
    C::SeqIter: 'static,
{
    let mut w = W::new(c);
    w.low = Some(|c| sut(|| AtomicIter::fetch_one(c)).map(|x| got(Some(x.idx), x.value)));
    Box::new(w)
}

fn boxed_dup<C>(c: C) -> Box<W<C>>
where
    C: ConcurrentIter + Clone + AtomicIter<<C as ConcurrentIter>::Item> + 'static,
    <C as ConcurrentIter>::Item: Item + 'static,
    C::SeqIter: 'static,
{
    let mut w = W::new(c).dup();
    w.low = Some(|c| sut(|| AtomicIter::fetch_one(c)).map(|x| got(Some(x.idx), x.value)));
    Box::new(w)
}

fn owned_vec<E: Elem>(s: &Spec) -> Vec<E> {
    sut(|| {
        let n = s.len + s.extra;
        let mut v = Vec::with_capacity(n + s.cap);
        v.extend((0..n).map(E::make));
        v
    })
}

/// Builds the adaptor requested by `ad` on top of the iterators over references made by `$mk`.
macro_rules! adapt {
    ($E:ty, $ad:expr, $mk:expr, $box:ident) => {
        match $ad {
            "cloned" => boxed(sut(|| $mk().cloned())),
            "copied" => <$E as MaybeCopy>::copied($mk),
            _ => {
                let mut w = $box(sut(|| $mk()));
                w.adapt = Some(<$E as MaybeCopy>::adapted);
                w as Box<dyn Obj>
            }
        }
    };
}

pub trait MaybeCopy: Elem + Item {
    fn copied<C, F: Fn() -> C>(f: F) -> Box<dyn Obj>
    where
        C: ConcurrentIter<Item = &'static Self> + AtomicIter<&'static Self> + 'static,
        C::SeqIter: 'static;
    fn adapted<C>(c: C) -> Box<dyn Obj>
    where
        C: ConcurrentIter<Item = &'static Self> + AtomicIter<&'static Self> + 'static,
        C::SeqIter: 'static,
    {
        boxed(sut(|| c.cloned()))
    }
}

macro_rules! not_copy {
    ($($t:ty),*) => {
        $(impl MaybeCopy for $t {
            fn copied<C, F: Fn() -> C>(f: F) -> Box<dyn Obj>
            where
                C: ConcurrentIter<Item = &'static Self> + AtomicIter<&'static Self> + 'static,
                C::SeqIter: 'static,
            {
                boxed(sut(|| f().cloned()))
            }
        })*
    };
}
not_copy!(Tok, Heap, Big, Zst);

impl MaybeCopy for Cp {
    fn copied<C, F: Fn() -> C>(f: F) -> Box<dyn Obj>
    where
        C: ConcurrentIter<Item = &'static Self> + AtomicIter<&'static Self> + 'static,
        C::SeqIter: 'static,
    {
        boxed(sut(|| f().copied()))
    }
    fn adapted<C>(c: C) -> Box<dyn Obj>
    where
        C: ConcurrentIter<Item = &'static Self> + AtomicIter<&'static Self> + 'static,
        C::SeqIter: 'static,
    {
        boxed(sut(|| c.copied()))
    }
}

fn inspect<E: Elem>(v: &[E]) {
    let ps: Vec<String> = v.iter().map(|x| x.pos().to_string()).collect();
    let g = v.iter().map(|x| x.gen()).max().unwrap_or(0);
    ev!(r#""k":"src","ps":[{}],"g":{},"n":{}"#, ps.join(","), g, v.len());
}

fn set_base<E: Elem>(p: *const E) {
    SRC_BASE.store(p as usize, Relaxed);
    SRC_STRIDE.store(std::mem::size_of::<E>(), Relaxed);
}

/// Iterators over a borrowed collection which is owned by the harness.
fn borrowed<E: Elem + MaybeCopy>(s: &Spec) -> Setup {
    let raw: *mut Vec<E> = Box::into_raw(Box::new(owned_vec::<E>(&Spec { extra: 0, ..s.clone() })));
    let vec: &'static Vec<E> = unsafe { &*raw };
    set_base(vec.as_ptr());
    let ctor = s.ctor;
    let vecref = s.kind == "vecref";
    let make = move |ad: &str| {
        if vecref {
            adapt!(E, ad, || vec.con_iter(), boxed_dup)
        } else {
            match ctor {
                0 => adapt!(E, ad, || IntoConcurrentIter::into_con_iter(vec.as_slice()), boxed_dup),
                1 => adapt!(E, ad, || ConIterOfSlice::new(vec.as_slice()), boxed_dup),
                2 => adapt!(E, ad, || ConIterOfSlice::from(vec.as_slice()), boxed_dup),
                _ => {
                    // the slice must live as long as the iterator
                    let sl: &'static &'static [E] = Box::leak(Box::new(vec.as_slice()));
                    adapt!(E, ad, || sl.con_iter(), boxed_dup)
                }
            }
        }
    };
    finish_borrowed(s, make, move || {
        let v = unsafe { Box::from_raw(raw) };
        inspect(&v);
        sut(|| drop(*v));
    })
}

fn finish_borrowed(s: &Spec, make: impl Fn(&str) -> Box<dyn Obj> + 'static, fin: impl FnOnce() + 'static) -> Setup {
    let ad = s.ad.clone();
    let objs = (0..s.twins)
        .map(|i| make(if s.mixed && i % 2 == 0 { "none" } else { &ad }))
        .collect();
    Setup { objs, fresh: Some(Box::new(move || make(&ad))), finish: Box::new(fin) }
}

fn mkarr<E: Elem, const N: usize>() -> [E; N] {
    sut(|| std::array::from_fn(E::make))
}

fn arrref<E: Elem + MaybeCopy, const N: usize>(s: &Spec) -> Setup {
    let raw: *mut [E; N] = Box::into_raw(Box::new(mkarr::<E, N>()));
    let arr: &'static [E; N] = unsafe { &*raw };
    set_base(arr.as_ptr());
    let make = move |ad: &str| adapt!(E, ad, || arr.con_iter(), boxed_dup);
    finish_borrowed(s, make, move || {
        let v = unsafe { Box::from_raw(raw) };
        inspect(&*v);
        sut(|| drop(*v));
    })
}

fn array<E: Elem + Item, const N: usize>(s: &Spec) -> Setup {
    let ctor = s.ctor;
    let objs = (0..s.twins)
        .map(|_| -> Box<dyn Obj> {
            let a = mkarr::<E, N>();
            boxed(sut(|| match ctor {
                0 => a.into_con_iter(),
                1 => ConIterOfArray::new(a),
                _ => ConIterOfArray::from(a),
            }))
        })
        .collect();
    Setup { objs, fresh: None, finish: Box::new(|| {}) }
}

fn arrays<E: Elem + MaybeCopy>(s: &Spec) -> Setup {
    macro_rules! by_len {
        ($f:ident; $($n:literal),*) => {
            match s.len {
                $($n => $f::<E, $n>(s),)*
                n => panic!("array length {n} is not supported"),
            }
        };
    }
    match s.kind.as_str() {
        "array" => by_len!(array; 0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 33, 100),
        _ => by_len!(arrref; 0, 1, 2, 3, 4, 5, 6, 33),
    }
}

fn vec<E: Elem + Item>(s: &Spec) -> Setup {
    let ctor = s.ctor;
    let objs = (0..s.twins)
        .map(|_| -> Box<dyn Obj> {
            let v = owned_vec::<E>(s);
            boxed(sut(|| match ctor {
                0 => v.into_con_iter(),
                1 => ConIterOfVec::new(v),
                _ => ConIterOfVec::from(v),
            }))
        })
        .collect();
    Setup { objs, fresh: None, finish: Box::new(|| {}) }
}

fn iter<E: Elem + Item>(s: &Spec) -> Setup {
    let ctor = s.ctor;
    let objs = (0..s.twins)
        .map(|_| -> Box<dyn Obj> {
            let p = Probe::new(owned_vec::<E>(s).into_iter(), s);
            boxed(sut(|| match ctor {
                0 => p.into_con_iter(),
                1 => ConIterOfIter::new(p),
                _ => ConIterOfIter::from(p),
            }))
        })
        .collect();
    Setup { objs, fresh: None, finish: Box::new(|| {}) }
}

fn iterref<E: Elem + MaybeCopy>(s: &Spec) -> Setup {
    let raw: *mut Vec<E> = Box::into_raw(Box::new(owned_vec::<E>(s)));
    let vec: &'static Vec<E> = unsafe { &*raw };
    set_base(vec.as_ptr());
    let s2 = s.clone();
    let make = move |ad: &str| adapt!(E, ad, || Probe::new(vec.iter(), &s2).into_con_iter(), boxed);
    finish_borrowed(s, make, move || {
        let v = unsafe { Box::from_raw(raw) };
        inspect(&v);
        sut(|| drop(*v));
    })
}

fn range(s: &Spec) -> Setup {
    let r = s.start..s.end;
    RANGE_START.store(s.start, Relaxed);
    RANGE_LEN.store(s.end.saturating_sub(s.start), Relaxed);
    let ctor = s.ctor;
    let make = {
        let r = r.clone();
        move |_: &str| -> Box<dyn Obj> {
            boxed_dup(sut(|| match ctor {
                0 => r.con_iter(),
                1 => IntoConcurrentIter::into_con_iter(r.clone()),
                2 => ConIterOfRange::new(r.clone()),
                _ => ConIterOfRange::from(r.clone()),
            }))
        }
    };
    let (a, z) = (s.start, s.end);
    finish_borrowed(s, make, move || {
        ev!(r#""k":"rng","ok":{}"#, (r.start == a && r.end == z) as u8);
    })
}

fn by_elem<E: Elem + MaybeCopy>(s: &Spec) -> Setup {
    match s.kind.as_str() {
        "slice" | "vecref" => borrowed::<E>(s),
        "array" | "arrref" => arrays::<E>(s),
        "vec" => vec::<E>(s),
        "iter" => iter::<E>(s),
        "iterref" => iterref::<E>(s),
        k => panic!("unknown kind {k}"),
    }
}

pub fn build(s: &Spec) -> Setup {
    SRC_BASE.store(0, Relaxed);
    SRC_STRIDE.store(0, Relaxed);
    if s.kind == "range" {
        return range(s);
    }
    match s.elem.as_str() {
        "tok" => by_elem::<Tok>(s),
        "heap" => by_elem::<Heap>(s),
        "big" => by_elem::<Big>(s),
        "cp" => by_elem::<Cp>(s),
        "zst" => by_elem::<Zst>(s),
        k => panic!("unknown element {k}"),
    }
}
