//! Runs cases against the crate and writes the distinct traces.
//!
//! `harness CASES OUT FROM SECS`: begins with case number FROM, and starts no case after SECS seconds
mod alloc;
mod elem;
#[macro_use]
mod log;
mod ops;
mod sched;
mod sources;
mod weak;

use ops::*;
use sched::*;
use sources::*;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicPtr, Ordering::*};

#[global_allocator]
static A: alloc::Tracking = alloc::Tracking;

struct Case {
    id: String,
    cfg: String,
    spec: Spec,
    pre: Vec<Step>,
    prog: Vec<Vec<Step>>,
    post: Vec<Step>,
    mode: String,
    seed: u64,
    /// w3: third call of the wrapped next; c: clone; f: closure; "": none
    panic: (char, i64),
    freeze: usize,
    /// The wrapped iterator takes its time: (call, milliseconds).
    slow: (i64, u64),
    big: bool,
    atom: bool,
    wrap: bool,
    nodrop: bool,
    max_traces: usize,
    max_steps: usize,
    secs: f64,
}

fn parse_case(line: &str) -> Case {
    let kv: HashMap<&str, &str> = line
        .split(' ')
        .filter(|x| !x.is_empty())
        .map(|x| x.split_once('=').unwrap_or((x, "1")))
        .collect();
    let get = |k: &str, d: &'static str| kv.get(k).map_or(d.to_string(), |x| x.to_string());
    let num = |k: &str, d: &'static str| get(k, d).parse::<usize>().unwrap_or_else(|_| panic!("{k} of {line}"));
    let big = |k: &str| {
        let x = get(k, "0");
        let (base, rest) = match x.as_bytes()[0] {
            b'M' => (usize::MAX, &x[1..]),
            b'H' => (usize::MAX / 2, &x[1..]),
            b'E' => (1 << 32, &x[1..]),
            b'Q' => (1 << 31, &x[1..]),
            _ => return x.parse::<usize>().expect("number"),
        };
        match rest.as_bytes().first() {
            None => base,
            Some(b'-') => base - rest[1..].parse::<usize>().expect("number"),
            _ => base + rest[1..].parse::<usize>().expect("number"),
        }
    };
    let len = num("len", "0");
    let (start, end) = match kv.contains_key("start") {
        true => (big("start"), big("end")),
        false => (num("off", "0"), num("off", "0") + len),
    };
    let p = get("panic", "");
    Case {
        id: get("id", "?"),
        cfg: get("cfg", "{}"),
        spec: Spec {
            kind: get("kind", "vec"),
            elem: get("elem", "tok"),
            ad: get("ad", "none"),
            len,
            extra: num("extra", "0"),
            hint: match get("hint", "exact").as_str() {
                "exact" => Hint::Exact,
                "inexact" => Hint::Inexact,
                "unbounded" => Hint::Unbounded,
                "lower" => Hint::Lower,
                "infinite" => Hint::Infinite,
                h => panic!("unknown hint {h}"),
            },
            cap: num("cap", "0"),
            start,
            end,
            twins: num("twins", "1"),
            mixed: get("mixed", "0") == "1",
            ctor: num("ctor", "0"),
        },
        pre: parse(&get("pre", "")),
        prog: match get("prog", "").as_str() {
            "" => vec![],
            x => x.split('|').map(parse).collect(),
        },
        post: parse(&get("post", "")),
        mode: get("mode", "seq"),
        seed: num("seed", "1") as u64,
        panic: match p.chars().next() {
            None => (' ', -1),
            Some(c) => (c, p[1..].parse().expect("number")),
        },
        freeze: num("freeze", "0"),
        slow: match get("slow", "").split_once(':') {
            None => (-1, 0),
            Some((k, ms)) => (k.parse().expect("number"), ms.parse().expect("number")),
        },
        big: get("big", "0") == "1",
        atom: get("atom", "0") == "1",
        wrap: get("wr", "0") == "1",
        nodrop: get("nodrop", "0") == "1",
        max_traces: num("maxtr", "1000000"),
        max_steps: num("maxsteps", "20000"),
        secs: get("secs", "1000").parse().expect("number"),
    }
}

struct Out {
    file: std::io::BufWriter<std::fs::File>,
    seen: HashSet<u64>,
    execs: usize,
    steps: usize,
    traces: usize,
    hangs: usize,
    frozen: usize,
    misses: usize,
}

/// Where the crash handler finds what it needs.
static CRASH: AtomicPtr<(String, String, String)> = AtomicPtr::new(std::ptr::null_mut());

extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
}

/// Writes the current trace, ended by the event, to a file of its own.
fn report(event: &str) {
    let p = CRASH.load(SeqCst);
    if p.is_null() {
        return;
    }
    let (out, id, cfg) = unsafe { &*p };
    let text = match log::LOG.try_lock() {
        Ok(l) => String::from_utf8_lossy(&l.buf).into_owned(),
        _ => String::new(),
    };
    let sep = if text.is_empty() { "" } else { "," };
    let line = format!("{{\"id\":\"{id}\",\"c\":{cfg},\"s\":\"\",\"e\":[{text}{sep}{event}]}}\n");
    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(format!("{out}.crash")) {
        _ = f.write_all(line.as_bytes());
    }
}

extern "C" fn on_crash(sig: i32) {
    unsafe {
        for s in [4, 6, 7, 8, 11] {
            signal(s, 0);
        }
        signal(14, 0);
        alarm(3);
        report(&format!("{{\"k\":\"crash\",\"w\":\"signal {sig}\"}}"));
        _exit(78)
    }
}

impl Out {
    fn emit(&mut self, case: &Case, trail: &[u8]) {
        let l = log::lock();
        let mut h = std::collections::hash_map::DefaultHasher::new();
        case.id.hash(&mut h);
        let text = if case.atom { l.buf.clone() } else { log::normalised(&l) };
        text.hash(&mut h);
        if self.seen.insert(h.finish()) {
            self.traces += 1;
            let s: String = trail.iter().map(|x| (b'0' + *x) as char).collect();
            _ = write!(self.file, "{{\"id\":\"{}\",\"c\":{},\"s\":\"{}\",\"e\":[", case.id, case.cfg, s);
            _ = self.file.write_all(&text);
            _ = self.file.write_all(b"]}\n");
        }
    }
}

fn ledger(z: bool) {
    let n = (0..elem::MAXPOS).rev().find(|i| elem::MADE[*i].load(Relaxed) > 0).map_or(0, |x| x + 1);
    // also records of elements which were never made
    let m = (0..elem::MAXPOS.min(n + 64))
        .rev()
        .find(|i| elem::MOVED[*i].load(Relaxed) + elem::DROPPED[*i].load(Relaxed) > 0)
        .map_or(0, |x| x + 1);
    let n = n.max(m);
    let row = |t: &[std::sync::atomic::AtomicU32]| {
        t[..n].iter().map(|x| x.load(Relaxed).to_string()).collect::<Vec<_>>().join(",")
    };
    let r = alloc::disarm();
    ev!(
        r#""k":"fin","z":{},"md":[{}],"mv":[{}],"dr":[{}],"cl":[{}],"cg":[{}],"gb":{},"lb":{},"ly":{},"tb":{},"df":{},"bl":{}"#,
        z as u8,
        row(&elem::MADE),
        row(&elem::MOVED),
        row(&elem::DROPPED),
        row(&elem::CLONED),
        row(&elem::CLONE_GONE),
        elem::GARBAGE.load(Relaxed),
        r.live_blocks,
        log::cap(r.live_bytes),
        r.total_blocks,
        r.double_free,
        r.bad_layout
    );
}

/// One execution; returns the strategy for the next one.
fn execute(case: &Case, pool: &mut Pool, strategy: Strategy, freeze: Option<(usize, usize)>, out: &mut Out) -> (Strategy, bool) {
    execute_weak(case, pool, strategy, freeze, out, 0, 0)
}

fn execute_weak(
    case: &Case,
    pool: &mut Pool,
    strategy: Strategy,
    freeze: Option<(usize, usize)>,
    out: &mut Out,
    weak: u8,
    seed: u64,
) -> (Strategy, bool) {
    log::reset();
    elem::reset();
    weak::reset(weak, seed);
    let s = &case.spec;
    log::BIG.store(case.big, Relaxed);
    log::ATOM.store(case.atom, Relaxed);
    log::WRAP.store(case.wrap || case.atom, Relaxed);
    let at = |c: char| if case.panic.0 == c { case.panic.1 } else { -1 };
    WRAPPED_PANIC.store(at('w'), Relaxed);
    WRAPPED_CALLS.store(0, Relaxed);
    SLOW_CALL.store(case.slow.0, Relaxed);
    SLOW_MS.store(case.slow.1, Relaxed);
    CLOSURE_PANIC.store(at('f'), Relaxed);
    CLOSURE_CALLS.store(0, Relaxed);
    elem::CLONE_PANIC.store(at('c'), Relaxed);
    let n = if s.kind == "range" { s.end.saturating_sub(s.start) } else { s.len + s.extra };
    CAP.store(n.min(5000) + 8, Relaxed);

    alloc::arm();
    let setup = build(s);
    let env = Env::new(setup.objs, setup.fresh);
    let mut main = Interp::new(&env);
    let mut dead = !alone(|| main.run(&case.pre, None));
    let mut trail = vec![];
    let mut froze = false;
    let strategy = match case.prog.is_empty() || dead {
        true => strategy,
        false => {
            ev!(r#""k":"fork""#);
            weak::fork();
            let progs: Vec<Box<dyn FnOnce() + Send>> = case
                .prog
                .iter()
                .map(|p| {
                    let env = &env;
                    Box::new(move || {
                        let mut i = Interp::new(env);
                        i.run(p, None);
                        i.release(None);
                        ev!(r#""k":"done","t":{}"#, log::tid());
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            let o = pool.run(progs, strategy, freeze, case.max_steps);
            out.steps += o.steps;
            trail = o.trail;
            froze = o.frozen > 0;
            if o.hang {
                out.hangs += 1;
                dead = true;
            }
            if o.stuck {
                out.emit(case, &trail);
                _ = out.file.flush();
                println!("STUCK {}", case.id);
                std::process::exit(77);
            }
            out.frozen += froze as usize;
            if let Strategy::Guided { miss, .. } = &o.strategy {
                out.misses += (*miss > 0) as usize;
            }
            o.strategy
        }
    };
    out.execs += 1;
    if !dead {
        if !case.prog.is_empty() {
            ev!(r#""k":"join""#);
            weak::join_all();
        }
        dead = !alone(|| {
            main.run(&case.post, None);
            main.release(None);
            if !case.nodrop {
                for i in 0..env.len() {
                    main.run(&[(i, Op::Drop, false)], None);
                }
            }
        });
        out.hangs += dead as usize;
    }
    if dead {
        // the objects are in an unknown state: they are abandoned
        std::mem::forget(main);
        std::mem::forget(env);
        std::mem::forget(setup.finish);
        _ = alloc::disarm();
        out.emit(case, &trail);
        return (strategy, froze);
    }
    if case.nodrop {
        // used to test the machinery
        std::mem::forget(env);
        std::mem::forget(setup.finish);
    } else {
        drop(main);
        drop(env);
        (setup.finish)();
    }
    ledger(s.elem == "zst" && s.kind != "range");
    out.emit(case, &trail);
    (strategy, froze)
}

/// Runs a phase of the controlling thread; false if it would not end.
fn alone(f: impl FnOnce()) -> bool {
    ALONE.store(true, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ALONE.store(false, SeqCst);
    match r {
        Ok(()) => true,
        Err(e) => {
            if !e.is::<Poison>() {
                ev!(r#""k":"crash","w":"escaped panic""#);
            }
            false
        }
    }
}

/// The controlling thread runs alone.
static ALONE: AtomicBool = AtomicBool::new(false);

/// Ends the process when the controlling thread, running alone, makes no progress for a long time.
fn watchdog() {
    let mut last = 0;
    let mut since = std::time::Instant::now();
    loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let now = log::EVENTS.load(SeqCst);
        if now != last || !ALONE.load(SeqCst) {
            last = now;
            since = std::time::Instant::now();
        } else if since.elapsed() > std::time::Duration::from_secs(20) {
            report(r#"{"k":"hang","ts":[0]}"#);
            unsafe { _exit(78) }
        }
    }
}

fn run_mode(case: &Case, mode: &str, pool: &mut Pool, out: &mut Out, freeze: Option<(usize, usize)>) -> bool {
    let p: Vec<&str> = mode.split(':').collect();
    let num = |i: usize, d: usize| p.get(i).map_or(d, |x| x.parse().expect("number"));
    let t0 = std::time::Instant::now();
    let traces0 = out.traces;
    let mut froze = false;
    // threads which are blocked outside of the hooks cost much time
    let slow = || OSTIME.load(Relaxed) > 20_000_000;
    let over = |out: &Out| slow() || t0.elapsed().as_secs_f64() > case.secs || out.traces - traces0 >= case.max_traces || out.hangs > 40;
    match p[0] {
        "seq" => {
            let st = Strategy::Guided { seq: vec![], pos: 0, miss: 0 };
            froze |= execute(case, pool, st, freeze, out).1;
        }
        "dfs" => {
            let mut st = Strategy::Dfs { bound: num(1, 2), used: 0, stack: vec![], pos: 0 };
            for _ in 0..num(2, 1000) {
                let (s, f) = execute(case, pool, st, freeze, out);
                st = s;
                froze |= f;
                if !st.advance() || over(out) {
                    break;
                }
            }
        }
        "rand" | "weak" | "real" => {
            for k in 0..num(1, 100) {
                let mut r = Rng(case.seed.wrapping_mul(0x1000193).wrapping_add(k as u64 * 7919));
                let st = match k % 4 {
                    0 => Strategy::Uniform(r),
                    1 => Strategy::Sticky(r, 8),
                    2 => Strategy::Sticky(r, 13),
                    _ => {
                        let t = case.prog.len() + 1;
                        let prio = (0..t).map(|_| 1000 + r.next() % 1000).collect();
                        let change = (0..3).map(|_| 1 + r.below(12 * t)).collect();
                        Strategy::Pct { rng: r, prio, change }
                    }
                };
                let seed = case.seed.wrapping_mul(31).wrapping_add(k as u64);
                froze |= execute_weak(case, pool, st, freeze, out, ["rand", "weak", "real"].iter().position(|x| *x == p[0]).unwrap_or(0) as u8, seed).1;
                if over(out) {
                    break;
                }
            }
        }
        "free" => {
            // real threads without the scheduler
            for _ in 0..num(1, 100) {
                execute(case, pool, Strategy::Free, None, out);
                if over(out) {
                    break;
                }
            }
        }
        "sched" => {
            // digits are thread ids
            let seq = p[1].bytes().map(|x| (x - b'0') as usize).collect();
            let st = Strategy::Guided { seq, pos: 0, miss: 0 };
            froze |= execute(case, pool, st, freeze, out).1;
        }
        m => panic!("unknown mode {m}"),
    }
    froze
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cases = std::fs::read_to_string(&args[1]).expect("cases");
    let from = args.get(3).map_or(0, |x| x.parse::<usize>().expect("index"));
    let secs = args.get(4).map_or(1e9, |x| x.parse::<f64>().expect("seconds"));
    let t0 = std::time::Instant::now();
    let mut skipped = 0;
    std::panic::set_hook(Box::new(|_| {}));
    orx_concurrent_iter::verif::set_observer(&Hook);
    unsafe {
        for s in [4, 6, 7, 8, 11] {
            signal(s, on_crash as *const () as usize);
        }
    }
    let file = std::fs::OpenOptions::new().create(true).append(from > 0).write(true).truncate(from == 0).open(&args[2]).expect("out");
    let mut out = Out {
        file: std::io::BufWriter::with_capacity(1 << 20, file),
        seen: HashSet::new(),
        execs: 0,
        steps: 0,
        traces: 0,
        hangs: 0,
        frozen: 0,
        misses: 0,
    };
    let mut pool = Pool::new();
    std::thread::spawn(watchdog);
    for (k, line) in cases.lines().enumerate().skip(from) {
        if t0.elapsed().as_secs_f64() > secs {
            skipped += 1;
            continue;
        }
        let case = parse_case(line);
        _ = out.file.flush();
        println!("CASE {k}");
        let info = Box::into_raw(Box::new((args[2].clone(), case.id.clone(), case.cfg.clone())));
        CRASH.store(info, SeqCst);
        out.seen.clear();
        out.hangs = 0;
        for mode in case.mode.split('+') {
            match case.freeze {
                0 => {
                    run_mode(&case, mode, &mut pool, &mut out, None);
                }
                f => {
                    for t in 1..=case.prog.len() {
                        for s in 1..=f {
                            if !run_mode(&case, mode, &mut pool, &mut out, Some((t, s))) {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    _ = out.file.flush();
    println!(
        "DONE execs={} steps={} traces={} frozen={} misses={} osblocked={} skipped={skipped}",
        out.execs,
        out.steps,
        out.traces,
        out.frozen,
        out.misses,
        OSBLOCKS.load(Relaxed)
    );
    // threads may still be parked
    std::process::exit(0);
}
