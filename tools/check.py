#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Decides one property: TLC checks the models of the design, the harness runs the real crate, and TLC decides whether the
recorded executions are behaviours of the specification in which the property holds."""
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
from cases import *
import models, programs, regress


def scale(c, quick, thorough):
    return quick if c.quick() else thorough


DFS = ["dfs:2:150", "dfs:1:80", "dfs:2:250"]


def basics(c, g):
    """Histories and schedules which are known to matter for this property."""
    r = regress.cases(c.prop)
    if r:
        c.conform("regression", r)
    models.check(c, g)


def wide(g, srcs, k, loops="U|F{k}|G{k}|D{k}|C{k}*|B{k}{P*}|B{k}{P.1*}|B{k}{PP.3*}", modes=("rand:2", "seq"), q=True):
    """Long sources and large chunks: sizes around powers of two."""
    sizes = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025]
    lens = [16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]
    out = []
    for s in srcs:
        if s.get("elem") == "big":
            continue
        for _ in range(k):
            n = g.r.choice(lens)
            ps = []
            for _ in range(g.r.choice([2, 2, 3])):
                p = ""
                for _ in range(g.r.choice([0, 1, 2])):
                    p += g.r.choice("N I C{k} C{k}.1 C{k}.h B{k}{P} B{k}{P.2P} L H".split()).replace("{k}", str(g.r.choice(sizes)), 1)
                ps.append(p + g.r.choice(loops.split("|")).replace("{k}", str(g.r.choice([x for x in sizes if x > 6])), 1))
            if g.r.random() < .5:
                out.append(g.case(s, n, prog="|".join(ps), post=g.post() if q else "", mode="rand:2"))
            else:
                out.append(g.case(s, n, pre=ps[0] + g.post(), mode="seq"))
    return out


def free(g, srcs, k, runs, lens=(20, 40), threads=(3, 4, 6), ps=None):
    """Real threads without the scheduler."""
    out = []
    for s in srcs:
        for _ in range(k):
            n = g.r.choice(lens)
            prog = "|".join((g.r.choice(ps) if ps else g.drain(4)) for _ in range(g.r.choice(threads)))
            out.append(g.case(s, n, prog=prog, post=g.post(), mode=f"free:{runs}"))
    return out


def clones(c, g, srcs=ALL, **kw):
    """Clones of iterators, and further iterators over the same source."""
    return g.sequential([s for s in srcs if s["kind"] in CLONABLE], scale(c, 20, 200), multi=True, **kw)


def slow(c, g, ps=None):
    """The wrapped iterator is slow while other threads wait for it."""
    out = []
    for s in ITERS:
        for _ in range(scale(c, 1, 4)):
            n = g.r.choice([4, 6, 8])
            prog = "|".join((g.r.choice(ps) if ps else g.drain(3)) for _ in range(g.r.choice([2, 3])))
            out.append(g.case(s, n, prog=prog, post=g.post(), mode="free:1", slow=f"{g.r.randrange(n)}:{scale(c, 400, 3000)}"))
    return out


def nested(c, g, srcs=ALL, k=1, **kw):
    """Closures which use the iterator they are called from."""
    n = scale(c, 2, 20) * k
    return g.nested(srcs, 2 * n, ["seq"], (0,), **kw) + g.nested(srcs, n, ["dfs:1:60", "dfs:2:80", "rand:30"], (2, 2, 3), maxtr=150, **kw)


STALE = ITERS[:5] + ITERS[7:9] + ITERS[10:12] + [S("slice"), S("range", off=1), S("vec", "heap"), S("array", "heap"), S("slice", "tok", "cloned")]


def stale(c, g, make, srcs=STALE, k=1, **kw):
    """Loads which overlap with stores of other threads return earlier values, as far as the memory model allows."""
    sync = unhooked_sync()
    if sync:
        c.cov["notes"].append("no stale loads, the crate synchronizes by means which are not hooked: " + "; ".join(sync[:5]))
        return
    c.conform("stale", make(srcs, scale(c, 4, 40) * k, ["real:80"], threads=(2, 2, 3), **kw))


def magnitudes(c, g, k=1):
    """Sources and chunk sizes of any magnitude."""
    n = scale(c, 3, 30)
    small = [s for s in ALL if s["elem"] != "zst" and s["kind"] != "range"]
    c.conform("magnitudes", g.bigs([S("range")] * 6, 30 * k * n) + g.bigs(small, 3 * k * n), module="TraceBig", invariants=[c.prop])


def drain_checks(c, g, srcs=ALL, post=True):
    k = scale(c, 3, 30)
    basics(c, g)
    c.conform("exhaustive", g.drains(srcs, 7 * k, DFS, lens=(0, 1, 1, 2, 2, 3, 3, 4), post=post, maxtr=300))
    c.conform("random", g.drains(srcs, 3 * k, ["rand:100"], (3, 3, 4), (2, 3, 4, 5, 6, 7, 8), post=post))
    c.conform("histories", g.sequential(srcs, 30 * k, q=.15, skip=.0) + g.sequential(srcs, 3 * k, (16, 20, 33, 40), (3, 6, 10, 14), .1, 0)
              + wide(g, srcs, 3 * k) + clones(c, g, srcs))
    c.conform("nested", nested(c, g, srcs))
    stale(c, g, g.drains)
    c.conform("free", free(g, CORE, 2 * k, 25) + slow(c, g))


def C01(c, g):
    drain_checks(c, g)
    magnitudes(c, g)


def C02(c, g):
    g.single = "IIWWNV"
    g.styles = ["I*", "W*", "C1*", "C2*", "C3*", "C2.1*", "B1{P*}", "B2{P*}", "B3{P*}", "B2{P.1*}", "B3{P.2*}", "G1", "G2", "G3", "J", "J.f", "N*"]
    drain_checks(c, g)
    magnitudes(c, g)


def C03(c, g):
    g.allow = "cb"
    g.styles = [f"C{k}{u}*" for k in (1, 2, 3, 4, 5) for u in ("", ".1", ".2", ".f", ".0", ".t1", ".t2")] + \
               [f"B{k}{{P{u}*}}" for k in (1, 2, 3, 4, 5) for u in ("", ".1", ".2", ".f", ".0", ".t1", ".t2")] + \
               ["B2{P.1P.1P*}", "B3{P.1PP.2P*}", "B3{P.0P.1P*}", "C3.hC2.hC2*KK", "B4{P.3N*}", "I*"]
    drain_checks(c, g)
    magnitudes(c, g)


def C04(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    c.conform("exhaustive", g.mixed(ALL, 7 * k, DFS, q=.05, maxtr=300, drain_one=.4))
    c.conform("random", g.mixed(ALL, 3 * k, ["rand:100"], (3, 3, 4), (2, 3, 4, 5, 6, 7, 8), q=.05, drain_one=.5))
    c.conform("histories", g.sequential(ALL, 50 * k, q=.1, skip=.0) + g.sequential(ALL, 4 * k, (16, 20, 33, 40), (3, 6, 10, 14), .1, 0)
              + wide(g, ALL, 3 * k) + clones(c, g, q=.1))
    c.conform("nested", nested(c, g))
    stale(c, g, g.mixed, q=.05)
    c.conform("free", free(g, CORE, 2 * k, 25) + slow(c, g))
    magnitudes(c, g)


def C05(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    c.conform("exhaustive", g.mixed(ALL, 5 * k, DFS, maxtr=250, drain_one=.7))
    c.conform("nonfused", g.mixed(ITERS, 6 * k, DFS + ["rand:60"], maxtr=250, drain_one=.7, extra=2, threads=(2, 2, 3), tail=False)
              + g.sequential(ITERS, 40 * k, extra=3, tail=["", "Z"]))
    c.conform("overshoot", g.overshoot(ALL, 12 * k) + g.overshoot(ALL, 2 * k, conc=True))
    c.conform("histories", g.sequential(ALL, 25 * k, q=.4, skip=.03) + clones(c, g, q=.4))
    c.conform("nested", nested(c, g, q=.45))
    stale(c, g, g.mixed, q=.4, drain_one=.7)
    stale(c, g, g.mixed, ITERS, q=.2, drain_one=.7, extra=2, tail=False)
    c.conform("panics", g.panics(ITERS, 14 * k, ["seq"], (0,), q=.45) + g.panics(ITERS, 3 * k, q=.4))
    magnitudes(c, g)


def C06(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    c.conform("exhaustive", g.mixed(ALL, 7 * k, DFS, q=.15, skip=.3, maxtr=300, drain_one=.5, tailskip=.3))
    c.conform("random", g.mixed(ALL, 3 * k, ["rand:80"], (3, 3, 4), (2, 3, 4, 5, 6, 7, 8), q=.15, skip=.25, drain_one=.6))
    c.conform("histories", g.sequential(ALL, 40 * k, q=.3, skip=.2) + g.sequential(ALL, 3 * k, (16, 33, 40), (3, 6, 10), .2, .1)
              + g.sequential(ITERS, 10 * k, extra=3, skip=.2, tail=["", "Z"]) + clones(c, g, skip=.2))
    c.conform("nested", nested(c, g, skip=.4))
    stale(c, g, g.mixed, q=.15, skip=.3, drain_one=.5, tailskip=.3)
    c.conform("free", free(g, CORE, 2 * k, 25, ps=["NNNSN", "F2", "C3*", "NNC2S", "B2{P*}", "G1", "N*", "SH"]))
    magnitudes(c, g)


def C07(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    W = dict(module="TraceHB")
    sync = unhooked_sync()
    inv = ["Exclusive", "C07"]
    if sync:
        c.cov["notes"].append("happens-before is not decided, the crate synchronizes by means which are not hooked: " + "; ".join(sync[:5]))
    else:
        inv = ["RaceFree"] + inv
    loads = ["weak:120", "weak:120", "dfs:2:120", "dfs:1:60", "rand:60"]
    c.conform("drain", g.drains(ITERS, 12 * k, loads, (2, 2, 3), (0, 1, 2, 3, 4, 6), atom=1, maxtr=40), invariants=inv, **W)
    c.conform("mixed", g.mixed(ITERS, 8 * k, loads, (2, 2, 3), (1, 2, 3, 4, 6), q=.3, skip=.08, drain_one=.5, atom=1, maxtr=40)
              + g.mixed(ITERS, 3 * k, loads, (2, 2, 3), extra=2, skip=.05, q=.1, drain_one=.8, tail=False, atom=1, maxtr=40)
              + g.panics(ITERS, 4 * k, loads, atom=1, maxtr=30) + g.nested(ITERS, k, loads, (2, 2, 3), atom=1, maxtr=30), invariants=inv, **W)
    c.conform("owned", g.mixed([S("vec"), S("array"), S("vec", "heap"), S("array", "heap")], 6 * k, loads, (2, 3), (2, 3, 4, 6), q=.05, skip=.15,
                               drain_one=.6, atom=1, maxtr=30), invariants=["C07"], **W)
    c.conform("free", free(g, ITERS, 2 * k, 25), invariants=["C07"])


LEDGER = OWNED + [S("vec", "heap"), S("array", "heap"), S("vec", "heap", cap=5), S("iter", "heap"), S("iter", "heap", hint="unbounded"),
                  S("iter", "heap", hint="inexact"), S("vec", "heap", cap=1), S("iter", "tok"), S("iter", "big"), S("iter", "zst")]


def ledger_checks(c, g, srcs):
    k = scale(c, 3, 30)
    basics(c, g)
    c.conform("exhaustive", g.mixed(srcs, 10 * k, DFS, q=.03, skip=.08, maxtr=250, drain_one=.3, uses=.8))
    c.conform("random", g.mixed(srcs, 4 * k, ["rand:60"], (2, 3, 4), (2, 3, 4, 5, 6, 7, 8), q=.03, skip=.05, drain_one=.4, uses=.8))
    c.conform("histories", g.sequential(srcs, 100 * k, q=.05, skip=.06, uses=.8) + g.sequential(srcs, 6 * k, (16, 20, 33, 40), (3, 6, 10, 14), .1, .03, uses=.8)
              + wide(g, srcs, 4 * k))
    c.conform("panics", g.panics([s for s in srcs if s["elem"] in ("tok", "heap")], 6 * k))
    c.conform("nested", nested(c, g, srcs, 2))
    stale(c, g, g.mixed, srcs, q=.03, skip=.08, drain_one=.3, uses=.8)
    c.conform("free", free(g, srcs[::2], 2 * k, 20))


def C08(c, g):
    ledger_checks(c, g, LEDGER)


def C15(c, g):
    ledger_checks(c, g, LEDGER + [S("slice", "heap", "cloned"), S("iterref", "heap", "cloned", "unbounded"), S("vecref", "heap"), S("range")])


def C09(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    c.conform("waiting", g.mixed(ITERS, 8 * k, DFS, (2, 2, 3), skip=.1, q=.05, maxtr=250, drain_one=.6)
              + g.mixed(ITERS, 4 * k, ["rand:100"], (3, 4), skip=.05, q=.05, drain_one=.8)
              + g.mixed(ITERS, 4 * k, DFS, (2, 2, 3), extra=2, skip=.05, q=.05, maxtr=250, drain_one=.8, tail=False)
              + g.panics(ITERS, 3 * k))
    c.conform("nested", nested(c, g, q=.1))
    stale(c, g, g.mixed, ITERS, q=.05, skip=.1, drain_one=.6)
    c.conform("suspended", g.mixed(KNOWN, 3 * k, ["rand:2"], (2, 3), freeze=9, skip=.1, q=.15, drain_one=.6, maxtr=120))
    c.conform("histories", g.sequential(ALL, 10 * k, q=.2, skip=.05))
    c.conform("free", free(g, ITERS, 2 * k, 25) + slow(c, g))


def C10(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    kw = dict(tail=["R", "R", "R", "R.0", "R.1", "R.2"])
    c.conform("histories", g.sequential(ALL, 80 * k, q=.05, skip=.05, loops=True, **kw)
              + g.sequential(ALL, 5 * k, (16, 20, 33, 40), (3, 6, 10, 14), .1, .02, **kw) + g.overshoot(ALL, 4 * k, tails=["R", "R.1"])
              + clones(c, g, q=.05, **kw))
    c.conform("exhaustive", g.mixed(ALL, 6 * k, DFS, q=.03, skip=.05, maxtr=250, drain_one=.25, posttail=["R"]))
    c.conform("random", g.mixed(ALL, 2 * k, ["rand:60"], (3, 4), (3, 4, 5, 6, 7, 8), q=.03, skip=.03, drain_one=.25, posttail=["R"]))
    stale(c, g, g.mixed, q=.03, skip=.03, drain_one=.25, posttail=["R"])
    magnitudes(c, g)


def C11(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    c.conform("histories", g.sequential(ALL, 50 * k, q=.55, skip=.05) + g.sequential(ALL, 3 * k, (16, 20, 33, 40), (6, 10, 14), .5, .03)
              + g.overshoot(ALL, 6 * k) + clones(c, g, q=.5))
    c.conform("exhaustive", g.mixed(ALL, 8 * k, DFS, q=.5, skip=.06, maxtr=300, drain_one=.4, watch=.5))
    c.conform("nonfused", g.mixed(ITERS, 4 * k, DFS, q=.5, maxtr=250, drain_one=.6, extra=2, tail=False)
              + g.sequential(ITERS, 15 * k, extra=3, q=.5, tail=["", "Z"]))
    c.conform("nested", nested(c, g, q=.7))
    stale(c, g, g.mixed, q=.5, skip=.06, drain_one=.4, watch=.5)
    c.conform("random", g.mixed(ALL, 2 * k, ["rand:80"], (3, 4), (2, 3, 4, 5, 6), q=.5, skip=.04, drain_one=.4, watch=.5))
    c.conform("panics", g.panics(ITERS, 8 * k, ["seq"], (0,), q=.45) + g.panics(ITERS, 2 * k, q=.4))
    magnitudes(c, g)


def C12(c, g):
    g.styles = [f"{a}{k}" for a in "FGD" for k in (1, 2, 3, 4, 5, 7)] + ["U", "J", "U.f", "J.f", "F1", "G1", "D1"]
    g.forced = True
    drain_checks(c, g)


def C13(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    src = [S(kd, el, "copied" if el == "cp" else "cloned") for kd in ("slice", "vecref", "arrref") for el in ("tok", "heap", "big", "zst", "cp")]
    its = [S("iterref", el, "copied" if el == "cp" else "cloned", h) for el in ("tok", "heap", "cp") for h in ("exact", "unbounded", "inexact", "lower")]
    src += [S(x["kind"], "cp", "cloned") for x in src[::5]]
    c.conform("twins", g.twins(src + its, 60 * k) + g.twins(src + its, 4 * k, (16, 20, 33), (4, 8, 12)), module="TraceTwin", invariants=["Transparent"])
    c.conform("concurrent", g.mixed(src + its, 4 * k, DFS, q=.15, skip=.06, maxtr=250, drain_one=.5)
              + g.mixed(src + its, k, ["rand:60"], (3, 4), (2, 3, 4, 5, 6), q=.15, skip=.05, drain_one=.5))
    c.conform("free", free(g, src[:3] + its[:3], 2 * k, 20))


def C14(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    programs.check(c)
    # no sequence of safe calls produces two owners
    own = [S("vec", "heap"), S("array", "heap"), S("iter", "heap"), S("vec"), S("array"), S("vec", "heap", cap=4), S("iter", "heap", hint="unbounded")]
    c.conform("owners", g.sequential(own, 60 * k, q=.05, skip=.05, uses=.8) + g.mixed(own, 6 * k, DFS, q=.03, skip=.08, maxtr=150, drain_one=.5, uses=.8)
              + g.panics(own, 6 * k))


def C16(c, g):
    k = scale(c, 3, 30)
    B = dict(module="TraceBig", invariants=["Mathematical"])
    basics(c, g)
    rg = [S("range")] * 6
    small = [s for s in ALL if s["elem"] != "zst" and s["kind"] != "range"]
    inf = [S("iter", hint="infinite"), S("iter", "heap", hint="infinite")]
    c.conform("ranges", g.bigs(rg, 300 * k), **B)
    c.conform("chunks", g.bigs(small, 50 * k) + g.endless(inf, 12 * k), **B)
    c.conform("concurrent", g.bigs(rg, 20 * k, conc=True, modes=("dfs:2:60", "rand:30")) + g.bigs(CORE, 12 * k, conc=True, modes=("dfs:2:60", "rand:30")), **B)
    # chunk size zero among ordinary operations
    c.conform("zero", g.sequential(ALL, 12 * k, q=.15) + g.overshoot(ALL, 4 * k))


def C17(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    small = [s for s in ALL if s["elem"] != "zst" and s["kind"] != "range"]
    inf = [S("iter", hint="infinite"), S("iter", "heap", hint="infinite")]
    c.equivalent("histories", g.sequential(ALL, 40 * k, q=.2, skip=.05, uses=.8) + g.sequential(ALL, 3 * k, (16, 20, 33), (3, 6, 10), .1, .03, uses=.8)
                 + g.overshoot(ALL, 5 * k))
    c.equivalent("magnitudes", g.bigs([S("range")] * 6, 60 * k) + g.bigs(small, 16 * k) + g.endless(inf, 5 * k))
    c.equivalent("panics", g.panics([s for s in ALL if s["elem"] in ("tok", "heap", "cp")], 8 * k, ["seq"], (0,)))
    c.equivalent("twins", g.twins([S(kd, el, "copied" if el == "cp" else "cloned") for kd in ("slice", "arrref", "iterref") for el in ("heap", "cp")], 8 * k))
    c.equivalent("concurrent", g.mixed(ALL, 3 * k, ["rand:12"], (2, 3), q=.15, skip=.06, uses=.8))
    # both builds, concurrently, against the observer
    for prof in ("dev", "release"):
        c.conform("observer", g.mixed(ALL, k, DFS, q=.1, skip=.06, maxtr=100, uses=.8), profile=prof)
        c.conform("free", free(g, LEDGER[::3], k, 20), profile=prof)


def C18(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    src = [S("vec", "heap"), S("array", "heap"), S("iter", "heap"), S("iter", "heap", hint="unbounded"), S("iter", "heap", hint="inexact"),
           S("slice", "heap", "cloned"), S("iterref", "heap", "cloned"), S("iterref", "heap", "cloned", "unbounded"),
           S("arrref", "tok", "cloned"), S("vecref", "heap", "cloned"), S("slice"), S("range", off=2), S("iter"), S("vec"), S("array")]
    c.conform("exhaustive", g.panics(src, 24 * k))
    c.conform("random", g.panics(src, 8 * k, ["rand:60"], (3, 4), (2, 3, 4, 5, 6, 7)))
    c.conform("histories", g.panics(src, 40 * k, ["seq"], (0,)))
    stale(c, g, g.panics, src)
    c.conform("nested", nested(c, g, src, 2, panic="f3") + nested(c, g, [s for s in src if s["kind"] in ("iter", "iterref")], 2, panic="w2"))
    c.conform("free", g.panics(src, 2 * k, ["free:20"], (3, 4), (8, 12)))


def C19(c, g):
    k = scale(c, 3, 30)
    basics(c, g)
    src = BORROWED + RANGES + [S("slice", "heap"), S("vecref", "heap"), S("arrref", "heap"), S("slice", "tok"), S("range", off=1)]
    its = [s for s in ITERS if s["kind"] == "iterref"]
    c.conform("histories", g.sequential(src, 50 * k, multi=True) + g.sequential(src + its, 12 * k) + wide(g, src, 2 * k))
    c.conform("independent", g.several(src, 10 * k, DFS, maxtr=250) + g.several(src, 4 * k, ["rand:60"], (3, 4)))
    c.conform("exhaustive", g.mixed(src + its, 4 * k, DFS, skip=.05, maxtr=250))


CHECKS = {k: v for k, v in globals().items() if len(k) == 3 and k[0] == "C" and k[1:].isdigit()}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    c = Check(a.prop, a.tier, a.seed)
    try:
        CHECKS[a.prop](c, Gen(a.prop, a.seed))
    except ToolError as e:
        print(f"ERROR: {e}", file=sys.stderr)
        return 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
