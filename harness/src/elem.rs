//! Element types whose identity is the source position, and the ledger of their creation, move-out and destruction.
use crate::alloc::outside;
use std::sync::atomic::{AtomicI64, AtomicU32, AtomicUsize, Ordering::*};

pub const MAXPOS: usize = 6000;

macro_rules! table {
    ($n:ident) => {
        pub static $n: [AtomicU32; MAXPOS] = [const { AtomicU32::new(0) }; MAXPOS];
    };
}
table!(MADE);
table!(MOVED);
table!(DROPPED);
table!(CLONED);
table!(CLONE_GONE);
pub static GARBAGE: AtomicU32 = AtomicU32::new(0);
pub static EPOCH: AtomicU32 = AtomicU32::new(1);
pub static RANGE_START: AtomicUsize = AtomicUsize::new(0);
pub static RANGE_LEN: AtomicUsize = AtomicUsize::new(0);
/// The k-th clone of an element panics (0-based; negative: never).
pub static CLONE_PANIC: AtomicI64 = AtomicI64::new(-1);
pub static CLONE_CALLS: AtomicI64 = AtomicI64::new(0);
static USED: AtomicUsize = AtomicUsize::new(0);

/// Payload of an injected panic.
pub struct Injected;

pub fn reset() {
    let n = USED.swap(0, SeqCst).min(MAXPOS);
    for t in [&MADE, &MOVED, &DROPPED, &CLONED, &CLONE_GONE] {
        t[..n].iter().for_each(|x| x.store(0, Relaxed));
    }
    GARBAGE.store(0, Relaxed);
    EPOCH.fetch_add(1, SeqCst);
    CLONE_PANIC.store(-1, Relaxed);
    CLONE_CALLS.store(0, Relaxed);
}

fn made(pos: usize) {
    USED.fetch_max(pos + 1, Relaxed);
    MADE[pos].fetch_add(1, Relaxed);
}

const MAGIC: u32 = 0x5EED_70C5;
const DEAD: u32 = 0xDEAD_DEAD;

pub trait Elem: Send + Sync + Sized + Clone + 'static {
    fn make(pos: usize) -> Self;
    fn pos(&self) -> i64;
    fn gen(&self) -> i64;
    /// Takes ownership: recorded in the ledger as moved out to a caller.
    fn take(self) -> i64;
}

#[derive(Debug)]
pub struct Core {
    magic: u32,
    pos: u32,
    gen: u32,
    epoch: u32,
}

impl Core {
    fn new(pos: usize) -> Self {
        made(pos);
        Core { magic: MAGIC, pos: pos as u32, gen: 0, epoch: EPOCH.load(Relaxed) }
    }

    fn valid(&self) -> bool {
        let m = unsafe { std::ptr::read_volatile(&self.magic) };
        m == MAGIC && self.epoch == EPOCH.load(Relaxed) && (self.pos as usize) < MAXPOS
    }

    fn pos(&self) -> i64 {
        match self.valid() {
            true => self.pos as i64,
            false => -1,
        }
    }

    fn take(&mut self) -> i64 {
        let p = self.pos();
        match p >= 0 {
            true => {
                match self.gen {
                    0 => MOVED[p as usize].fetch_add(1, Relaxed),
                    _ => CLONE_GONE[p as usize].fetch_add(1, Relaxed),
                };
            }
            false => {
                GARBAGE.fetch_add(1, Relaxed);
            }
        }
        self.gen = u32::MAX; // the ledger entry is done; the destructor must not record again
        p
    }

    fn drop_record(&mut self) {
        if self.gen == u32::MAX && self.magic == MAGIC {
            return;
        }
        if self.magic == DEAD && self.epoch == EPOCH.load(Relaxed) && (self.pos as usize) < MAXPOS {
            // a second destructor on the same storage
            DROPPED[self.pos as usize].fetch_add(1, Relaxed);
            return;
        }
        if !self.valid() {
            GARBAGE.fetch_add(1, Relaxed);
            return;
        }
        match self.gen {
            0 => DROPPED[self.pos as usize].fetch_add(1, Relaxed),
            _ => CLONE_GONE[self.pos as usize].fetch_add(1, Relaxed),
        };
        unsafe { std::ptr::write_volatile(&mut self.magic, DEAD) };
    }
}

impl Clone for Core {
    fn clone(&self) -> Self {
        outside(|| {
            crate::sched::point_user();
            let k = CLONE_CALLS.fetch_add(1, SeqCst);
            if k == CLONE_PANIC.load(Relaxed) {
                crate::log::inj();
                std::panic::panic_any(Injected);
            }
        });
        match self.valid() {
            true => {
                CLONED[self.pos as usize].fetch_add(1, Relaxed);
            }
            false => {
                GARBAGE.fetch_add(1, Relaxed);
            }
        }
        Core { magic: self.magic, pos: self.pos, gen: self.gen.wrapping_add(1), epoch: self.epoch }
    }
}

impl Drop for Core {
    fn drop(&mut self) {
        self.drop_record()
    }
}

/// Plain element with a destructor.
#[derive(Clone, Debug)]
pub struct Tok(Core);

impl Elem for Tok {
    fn make(pos: usize) -> Self {
        Tok(Core::new(pos))
    }
    fn pos(&self) -> i64 {
        self.0.pos()
    }
    fn gen(&self) -> i64 {
        self.0.gen as i64
    }
    fn take(mut self) -> i64 {
        self.0.take()
    }
}

/// Element which owns heap memory.
#[derive(Clone, Debug)]
pub struct Heap(Core, #[allow(dead_code)] Box<[u64; 3]>);

impl Elem for Heap {
    fn make(pos: usize) -> Self {
        Heap(Core::new(pos), Box::new([pos as u64; 3]))
    }
    fn pos(&self) -> i64 {
        self.0.pos()
    }
    fn gen(&self) -> i64 {
        self.0.gen as i64
    }
    fn take(mut self) -> i64 {
        self.0.take()
    }
}

/// Large element with a destructor and a large alignment.
#[derive(Clone, Debug)]
#[repr(align(32))]
pub struct Big([u64; 13], Core);

impl Elem for Big {
    fn make(pos: usize) -> Self {
        Big([pos as u64; 13], Core::new(pos))
    }
    fn pos(&self) -> i64 {
        match self.0.iter().all(|x| *x == self.0[0]) && self.0[0] as i64 == self.1.pos() {
            true => self.1.pos(),
            false => -1,
        }
    }
    fn gen(&self) -> i64 {
        self.1.gen as i64
    }
    fn take(mut self) -> i64 {
        let p = self.pos();
        self.1.take();
        p
    }
}

/// Copy element without a destructor; the payload is a scrambled, non-monotone image of the position.
#[derive(Clone, Copy, Debug)]
pub struct Cp(u64);

const MUL: u64 = 0x9E37_79B9_7F4A_7C15;
const INV: u64 = 0xF1DE_83E1_9937_733D;

impl Elem for Cp {
    fn make(pos: usize) -> Self {
        made(pos);
        Cp((pos as u64 + 1).wrapping_mul(MUL))
    }
    fn pos(&self) -> i64 {
        let p = self.0.wrapping_mul(INV).wrapping_sub(1);
        match p < MAXPOS as u64 {
            true => p as i64,
            false => -1,
        }
    }
    fn gen(&self) -> i64 {
        0
    }
    fn take(self) -> i64 {
        let p = self.pos();
        if p >= 0 {
            MOVED[p as usize].fetch_add(1, Relaxed);
        }
        p
    }
}

/// Zero-sized element with a destructor; it has no identity, position 0 of the ledger holds the totals.
#[derive(Debug)]
pub struct Zst;

impl Clone for Zst {
    fn clone(&self) -> Self {
        CLONED[0].fetch_add(1, Relaxed);
        Zst
    }
}

pub const ZST_POS: i64 = -3;

impl Elem for Zst {
    fn make(_: usize) -> Self {
        made(0);
        Zst
    }
    fn pos(&self) -> i64 {
        ZST_POS
    }
    fn gen(&self) -> i64 {
        0
    }
    fn take(self) -> i64 {
        MOVED[0].fetch_add(1, Relaxed);
        std::mem::forget(self);
        ZST_POS
    }
}

impl Drop for Zst {
    fn drop(&mut self) {
        DROPPED[0].fetch_add(1, Relaxed);
    }
}

/// What a pull delivers.
pub trait Item {
    fn ipos(&self) -> i64;
    fn igen(&self) -> i64;
    fn addr(&self) -> usize;
    fn consume(self) -> i64;
    /// The raw value, for numeric items.
    fn raw(&self) -> u64;
    fn is_num(&self) -> bool {
        false
    }
}

macro_rules! owned_item {
    ($($t:ty),*) => {$(
impl Item for $t {
    fn ipos(&self) -> i64 {
        self.pos()
    }
    fn igen(&self) -> i64 {
        self.gen()
    }
    fn addr(&self) -> usize {
        0
    }
    fn consume(self) -> i64 {
        self.take()
    }
    fn raw(&self) -> u64 {
        self.pos() as u64
    }
}
    )*};
}
owned_item!(Tok, Heap, Big, Cp, Zst);

impl<'a, E: Elem> Item for &'a E {
    fn ipos(&self) -> i64 {
        (*self).pos()
    }
    fn igen(&self) -> i64 {
        (*self).gen()
    }
    fn addr(&self) -> usize {
        *self as *const E as usize
    }
    fn consume(self) -> i64 {
        self.pos()
    }
    fn raw(&self) -> u64 {
        (*self).pos() as u64
    }
}

impl Item for usize {
    fn ipos(&self) -> i64 {
        let d = self.wrapping_sub(RANGE_START.load(Relaxed));
        match d < RANGE_LEN.load(Relaxed) {
            true => d.min(1 << 30) as i64,
            false => -1,
        }
    }
    fn igen(&self) -> i64 {
        0
    }
    fn addr(&self) -> usize {
        0
    }
    fn consume(self) -> i64 {
        self.ipos()
    }
    fn raw(&self) -> u64 {
        *self as u64
    }
    fn is_num(&self) -> bool {
        true
    }
}
