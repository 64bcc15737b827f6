"""C14: client programs enumerated by TLC (spec/Programs.tla), judged by the compiler, verdicts validated by TLC."""
import json, os, random, re, shutil, subprocess, time
from core import *

PRELUDE = '''#![allow(warnings)]
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use std::cell::Cell;
use std::marker::PhantomData;
use std::sync::Arc;

pub struct Mboth;
pub struct Msend(Cell<u8>);
pub struct Msync(*const u8);
unsafe impl Sync for Msync {}
pub struct Mneither(*const u8);

macro_rules! elem {
    ($n:ident, $m:ident) => {
        #[derive(Debug)]
        pub struct $n(usize, PhantomData<$m>);
        impl Clone for $n {
            fn clone(&self) -> Self {
                $n(self.0, PhantomData)
            }
        }
        impl Copy for $n {}
    };
}
elem!(Eboth, Mboth);
elem!(Esend, Msend);
elem!(Esync, Msync);
elem!(Eneither, Mneither);
fn mk_Eboth(n: usize) -> Eboth { Eboth(n, PhantomData) }
fn mk_Esend(n: usize) -> Esend { Esend(n, PhantomData) }
fn mk_Esync(n: usize) -> Esync { Esync(n, PhantomData) }
fn mk_Eneither(n: usize) -> Eneither { Eneither(n, PhantomData) }

/// A wrapped iterator with the marker M.
pub struct Wrap<I, M>(I, PhantomData<M>);
impl<I: Iterator, M> Iterator for Wrap<I, M> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
/// Elements with a destructor which cannot be duplicated.
pub struct Own(String);
impl Own {
    fn new(n: usize) -> Self { Own(n.to_string()) }
}
fn touch<T: ?Sized>(x: &T) { std::hint::black_box(x); }
'''


def source(kind, mk, n=4):
    items = ", ".join(f"{mk}({k})" for k in range(n))
    return f"[{items}]" if kind in ("array", "arrref") else f"vec![{items}]"


def construct(kind, ad, marker):
    x = {"slice": "src.as_slice().into_con_iter()", "vecref": "src.con_iter()", "arrref": "src.con_iter()",
         "iterref": f"Wrap::<_, {marker}>(src.iter(), PhantomData).into_con_iter()",
         "vec": "src.into_con_iter()", "array": "src.into_con_iter()",
         "iter": f"Wrap::<_, {marker}>(src.into_iter(), PhantomData).into_con_iter()"}[kind]
    return x + {"none": "", "cloned": ".cloned()", "copied": ".copied()"}[ad]


PULL = {"share": "while let Some(x) = it.next() { touch(&x); }",
        "chunk": "while let Some(c) = it.next_chunk(2) { for x in c.values { touch(&x); } }",
        "buffered": "let mut b = it.buffered_iter(2); while let Some(c) = b.next() { for x in c.values { touch(&x); } }",
        "values": "for x in it.values() { touch(&x); }",
        "fold": "it.fold(2, 0usize, |a, x| { touch(&x); a + 1 });"}


def thread(p):
    e, m, how = f"E{p['elem']}", f"M{p['iter']}", p["how"]
    out = [f"let mut src = {source(p['kind'], 'mk_' + e)};", f"let it = {construct(p['kind'], p['ad'], m)};"]
    if how in PULL:
        out.append(f"std::thread::scope(|s| {{ s.spawn(|| {{ {PULL[how]} }}); s.spawn(|| {{ {PULL[how]} }}); }});")
    elif how == "move":
        out.append(f"std::thread::scope(|s| {{ s.spawn(move || {{ {PULL['share']} }}); }});")
    elif how == "spawn":
        out.append(f"std::thread::spawn(move || {{ {PULL['share']} }}).join().unwrap();")
    elif how == "remainder":
        out.append("std::thread::scope(|s| { s.spawn(move || { for x in it.into_seq_iter() { touch(&x); } }); });")
    elif how == "arc":
        out.append("let it = Arc::new(it); let it2 = it.clone();")
        out.append(f"std::thread::spawn(move || {{ {PULL['share']} }}); std::thread::spawn(move || {{ let it = it2; {PULL['share']} }});")
    return out


def borrow(p, stmts):
    kind, x = p["kind"], p["x"]
    item = {"copied": lambda n: f"mk_Eboth({n})", "cloned": lambda n: f'String::from("{n}")'}.get(p["ad"], lambda n: f"Own::new({n})")
    arr = ", ".join(item(n) for n in range(4))
    src = f"[{arr}]" if kind in ("array", "arrref") else f"vec![{arr}]"
    make = {"it": f"let mut it = {construct(kind, p['ad'], 'Mboth')};",
            "r": "let r = it.next().unwrap();", "c": "let mut c = it.next_chunk(2).unwrap();", "b": "let mut b = it.buffered_iter(2);",
            "d": "let mut d = b.next().unwrap();", "v": "let mut v = it.values();", "w": "let mut w = it.ids_and_values();",
            "k": "let k = it.clone();", "s": "let mut s = it.into_seq_iter();"}
    use = {"it": "touch(&it.next());", "r": "touch(&r);", "c": "{ let c = c; for y in c.values { touch(&y); } }",
           "b": "touch(&b.next().map(|y| y.begin_idx));", "d": "{ let d = d; for y in d.values { touch(&y); } }", "v": "touch(&v.next());",
           "w": "touch(&w.next());", "k": "touch(&k.next());", "s": "touch(&s.next());"}
    other = {"len": "touch(&it.try_get_len()); touch(&it.has_more());", "next": "touch(&it.next_id_and_value().map(|y| y.idx));",
             "chunk": "touch(&it.next_chunk(1).map(|y| y.begin_idx));", "foreach": "it.for_each(1, |y| touch(&y));", "skip": "it.skip_to_end();",
             "dropsrc": "drop(src);", "mutsrc": f"src[0] = {item(7)};", "movesrc": "let moved = src; touch(&moved);", "dropit": "drop(it);",
             "seq": "touch(&it.into_seq_iter().next());", "moveit": "let moved = it; touch(&moved.try_get_len());",
             "pullagain": "touch(&b.next().map(|y| y.begin_idx));", "dropb": "drop(b);"}
    # values which are still owned are destroyed before the foundation
    keep = {"dropsrc": [], "mutsrc": [], "movesrc": [], "dropit": ["it"], "seq": ["it"], "moveit": ["it"], "pullagain": ["b", "it"],
            "dropb": ["b", "it"], "scope": []}[p["kill"]]
    chain = {"it": ["it"], "d": ["it", "b", "d"], "s": ["s"]}.get(x, ["it", x])
    gone = {"c", "d"}
    out = []
    scope = p["kill"] == "scope"
    if scope and stmts[-1] == "use":
        body = [f"let mut src = {src};"]
        for t in stmts[:-2]:
            body.append(make.get(t) or other[t])
        return [f"let mut {x} = {{ " + " ".join(body) + f" {x} }};", use[x]]
    out.append(f"let mut src = {src};")
    for t in stmts:
        if t == "use":
            out.append(use[x])
        elif t == "release":
            for v in reversed(chain):
                if v not in keep and not (v in gone and v == x):
                    out.append(f"drop({v});")
        elif t == "scope":
            pass
        else:
            out.append(make.get(t) or other[t])
    return out


def owner(p, legal):
    kind, how = p["kind"], p["how"]
    src = "[" if kind == "array" else "vec!["
    pre = [f"let src = {src}Own::new(0), Own::new(1), Own::new(2)];", f"let it = {construct(kind, 'none', 'Mboth')};"]
    field = {"vec": "vec", "array": "array", "iter": "iter"}[kind]
    bad = {"get": "touch(&it.get(0).is_some()); touch(&it.get(0).is_some());",
           "getgeneric": "fn g<A: AtomicIter<Own>>(a: &A) { touch(&a.get(0).is_some()); } g(&it);",
           "clone": "let k = Clone::clone(&it); touch(&k.next().is_some()); touch(&it.next().is_some());",
           "seqtwice": "touch(&it.into_seq_iter().next().is_some()); touch(&it.into_seq_iter().next().is_some());",
           "pullafterseq": "let mut s = it.into_seq_iter(); touch(&it.next().is_some()); touch(&s.next().is_some());",
           "field": f"touch(&it.{field}.get());",
           "mutiter": "touch(&it.mut_iter().next().is_some());",
           "takeslice": "for x in it.take_slice(0, 1) { touch(&x); }",
           "counterstore": "touch(&it.next().is_some()); it.counter().store(0); touch(&it.next().is_some());",
           "bufpull": "let mut b = it.buffered_iter(1); touch(&b.buffered_iter.pull(&it, 0).is_some());"}
    good = {"get": "touch(&unsafe { it.get(0) }.is_some());",
            "getgeneric": "fn g<A: AtomicIter<Own>>(a: &A) { touch(&unsafe { a.get(0) }.is_some()); } g(&it);",
            "clone": "let k = &it; touch(&k.next().is_some()); touch(&it.next().is_some());",
            "seqtwice": "touch(&it.into_seq_iter().next().is_some());",
            "pullafterseq": "touch(&it.next().is_some()); let mut s = it.into_seq_iter(); touch(&s.next().is_some());"}
    return pre + [good.get(how, "touch(&it.next().is_some());") if legal else bad[how]]


def render(p, legal):
    if p["part"] == "thread":
        return thread(p["twin"] if legal else p)
    if p["part"] == "borrow":
        return borrow(p, p["twin"] if legal else p["stmts"])
    return owner(p, legal)


def compile_batch(work, name, bodies):
    """Type-checks and borrow-checks functions; returns index -> set of error codes, for those which have errors."""
    d = os.path.join(work, "client")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(f'[package]\nname = "client"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                f'orx-concurrent-iter = {{ path = "{REPO}" }}\n')
    line, where, text = PRELUDE.count("\n") + 1, [], [PRELUDE]
    for k, b in enumerate(bodies):
        t = f"pub fn p{k}() {{\n" + "\n".join(b) + "\n}\n"
        where.append((line, line + t.count("\n")))
        line += t.count("\n")
        text.append(t)
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write("".join(text))
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "client-target")
    env["CARGO_NET_OFFLINE"] = "true"
    r = subprocess.run(["cargo", "check", "--offline", "--message-format=json"], cwd=d, env=env, capture_output=True, text=True, timeout=800)
    errors, total, other = {}, 0, []
    import bisect
    starts = [a for a, _ in where]
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
            continue
        msg = m["message"]
        code = (msg.get("code") or {}).get("code", "none")
        hit = False
        for s in msg["spans"]:
            while s.get("expansion"):
                s = s["expansion"]["span"]
            if not s["file_name"].endswith("lib.rs") or m["target"]["name"] != "client":
                continue
            k = bisect.bisect_right(starts, s["line_start"]) - 1
            if s.get("is_primary") and k >= 0 and s["line_start"] < where[k][1]:
                errors.setdefault(k, set()).add(code)
                hit = True
        total += 1
        if not hit and not msg["message"].startswith("aborting"):
            other.append(msg["message"][:200])
    if r.returncode != 0 and not errors and bodies:
        raise ToolError("the client programs could not be compiled: " + "; ".join(other[:3]) + r.stderr[-1500:])
    return errors, r.returncode == 0


def check(c, limit=None):
    t0 = time.time()
    out = run_tlc("Programs", "SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\n", workers=4)
    progs = []
    for l in out.splitlines():
        if l.startswith('"PROGRAM '):
            progs.append(json.loads(json.loads(l)[8:]))
    g, st = tlc_stats(out)
    if not progs:
        raise ToolError("no programs were generated:\n" + out[-2000:])
    progs.sort(key=lambda p: json.dumps(p, sort_keys=True))
    total = len(progs)
    build_lock = open(os.path.join(BUILD, "client-lock"), "w")
    fcntl.flock(build_lock, fcntl.LOCK_EX)
    try:
        bad, _ = compile_batch(c.work, "bad", [render(p, False) for p in progs])
        good, _ = compile_batch(c.work, "good", [render(p, True) for p in progs])
        # programs which seem to be accepted are compiled again, without the others
        acc = [k for k in range(total) if k not in bad]
        if acc:
            again, _ = compile_batch(c.work, "again", [render(progs[k], False) for k in acc])
            for j in again:
                bad[acc[j]] = again[j]
    finally:
        build_lock.close()
    res, odd = [], []
    for k, p in enumerate(progs):
        reasons = {"thread": {"E0277", "E0599", "E0597", "E0373", "E0505", "E0521", "E0716"},
                   "borrow": {"E0382", "E0499", "E0502", "E0505", "E0506", "E0597", "E0515", "E0716", "E0713", "E0503"}}.get(p["part"])
        if k in bad and reasons and not bad[k] & reasons:
            odd.append((p, sorted(bad[k])))
        res.append({"id": k, "p": {x: p[x] for x in p if x not in ("stmts", "twin", "class")}, "class": p["class"],
                    "rejected": int(k in bad), "codes": sorted(bad.get(k, [])), "twinok": int(k not in good)})
    inconclusive = sum(1 for x in res if not x["twinok"])
    c.cov["notes"].append(f"{total} illegal programs enumerated by TLC, {sum(x['rejected'] for x in res)} rejected by the compiler, "
                          f"{total - inconclusive} have an accepted twin, {len(odd)} rejected for an unexpected reason")
    if inconclusive:
        c.cov["notes"].append("twins which are not accepted: " + "; ".join(
            json.dumps(res[k]["p"]) + " " + ",".join(sorted(good[k])) for k in list(good)[:5]))
    if odd:
        c.cov["notes"].append("unexpected reasons: " + "; ".join(json.dumps(p) + str(x) for p, x in odd[:5]))
    t1 = time.time()
    classes = {}
    for x in res:
        classes.setdefault(x["class"], []).append(x)
    n_states = 0
    for name, xs in sorted(classes.items()):
        f = os.path.join(c.work, f"programs-{name}.ndjson")
        with open(f, "w") as fh:
            for x in xs:
                fh.write(json.dumps(x) + "\n")
        out = run_tlc("TracePrograms", "SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\nINVARIANT Known Sound\n", {"TRACES": f}, workers=2)
        gg, dd = tlc_stats(out)
        n_states += dd
        if tlc_ok(out):
            continue
        inv, tid, _, _ = error_state(out)
        if tid is None:
            raise ToolError("TLC failed on the verdicts:\n" + out[-2000:])
        fails = [x for x in xs if x["twinok"] and not x["rejected"]]
        first = xs[tid - 1]
        src = "\n".join(render(progs[first["id"]], False))
        p = c.save({"property": "C14", "class": name, "program": first["p"], "source": src, "accepted": len(fails)})
        c.violations.append((f"programs/{name}: the compiler accepts {len(fails)} illegal programs, for example {json.dumps(first['p'])}: {src}", p))
    c.cov["states"] += st + n_states
    c.cov["transitions"] += g
    c.cov["traces_validated_against_impl"] += 2 * total
    c.cov["executions"] += 2 * total
    for p in progs[:: max(1, total // 4)]:
        c.cov["samples"].append({"program": {x: p[x] for x in p if x not in ("stmts", "twin")}, "source": "\n".join(render(p, False))})
    c.cov["conformance"].append({"family": "programs", "build": "rustc", "cases": 2 * total, "inconclusive": inconclusive,
                                 "run_s": round(t1 - t0, 1), "tlc_s": round(time.time() - t1, 1)})
