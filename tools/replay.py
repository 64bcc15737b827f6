"""Behaviours of the operational model, replayed into the real crate in lock step."""
import json, re
from core import *
from cases import *

LETTER = {"next": "N", "nid": "I", "val": "V", "iav": "W", "chunk": "C", "buf": "P", "fe": "F", "efe": "G", "fold": "D", "skip": "S", "len": "L", "more": "H"}
# without Clone adaptors: a clone is a scheduling point of its own
KINDS = {"shared": [S("slice"), S("vecref"), S("arrref"), S("slice", "cp", "copied"), S("range", off=2)],
         "owned": [S("vec"), S("array"), S("vec", "heap"), S("array", "heap")],
         "ticket": [S("iter"), S("iter", "heap"), S("iterref"), S("iterref", "cp", "copied")]}


def text(ops):
    out, close = "", 0
    for o in ops:
        if o["o"] == "mkbuf":
            out += f"B{o['n']}" + "{"
            close += 1
        else:
            out += LETTER[o["o"]] + (str(o["n"]) if o["o"] in ("chunk", "fe", "efe", "fold") else "") + (f".{o['u']}" if o["u"] >= 0 else "")
    return out + "}" * close


def constants(d):
    return "".join(f" {k} = {v}\n" for k, v in d.items())


def config(kind, ops, L, T, calls, spec="Spec", check="INVARIANT Quiet Exclusive Owned TypeOK\nPROPERTY Cursor", view=True, **kw):
    d = dict(Hx="TRUE", PanicAt="99", ClosurePanicAt="99", Final='{"seq", "drop"}', Watch="TRUE", Fault='"none"', Extra="0")
    d.update(kw)
    return (f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\nCONSTANTS\n L = {L}\n Threads = {{{', '.join(str(i + 1) for i in range(T))}}}\n"
            f" Calls = {calls}\n Ops <- {ops}\n Kind = \"{kind}\"\n" + constants(d) + ("VIEW view\n" if view else "") + check + "\n")


def generate(jobs, seed, num):
    """Simulates the model; jobs are arguments of config()."""
    out = []

    def one(q):
        a, kw = jobs[q]
        cfg = config(*a, spec="GSpec", check="INVARIANT Quiet Exclusive Owned", view=False, **kw)
        txt = run_tlc("ImplGen", cfg, None, 1, ["-Xmx2g"], ["-simulate", f"num={num}", "-depth", "500", "-seed", str(seed * 1000 + q)])
        got = [json.loads(json.loads(l)[4:]) for l in txt.splitlines() if l.startswith('"GEN ')]
        if not got or "is violated" in txt:
            raise ToolError("simulation of the model failed:\n" + txt[-3000:])
        return got

    with ThreadPoolExecutor(NCPU) as ex:
        for got in ex.map(one, range(len(jobs))):
            out += got
    return out


SEEN = ("call", "ret", "item", "cons", "we", "wx", "inj")


def case(g, b, k):
    """The case which executes a behaviour."""
    src = dict(g.r.choice(KINDS[b["kind"]]))
    if b["f"] != 99 and src["elem"] == "cp":
        src = S("slice") if b["kind"] == "shared" else S("iter")
    if src["kind"] in ("iter", "iterref"):
        src["hint"] = "exact" if b["hx"] else g.r.choice(["unbounded", "inexact", "lower"])
    c = dict(src)
    c["id"] = f"{g.prop}-m{k}"
    c["len"] = b["L"]
    if c["kind"] == "range":
        c["off"] = src.get("off", 0)
    c["prog"] = "|".join(text(p) for p in b["prog"])
    c["post"] = {"seq": "R", "drop": "Z"}[b["how"]]
    c["mode"] = "sched:" + "".join(map(str, b["sched"]))
    c["seed"] = 1
    if b["kind"] == "ticket":
        c["wr"] = 1
        if b["extra"]:
            c["extra"] = b["extra"]
    if b["w"] != 99 and any(e["k"] == "inj" for e in b["hist"]):
        c["panic"] = f"w{b['w']}"
    if b["f"] != 99:
        c["panic"] = f"f{b['f']}"
    return c


def normal(es):
    """Adjacent calls, and adjacent returns, in the order of the threads; like the harness."""
    cl = {"call": 1, "ret": 2, "cons": 2}
    out, q = [], 0
    while q < len(es):
        j = q + 1
        c = cl.get(es[q]["k"], 0)
        while c and j < len(es) and cl.get(es[j]["k"], 0) == c:
            j += 1
        out += sorted(es[q:j], key=lambda e: e.get("t", 0))
        q = j
    return out


def differ(b, trace):
    """The first event at which the execution departs from the behaviour, or None."""
    want = normal([e for e in b["hist"] if e["k"] in SEEN + ("join",)])
    have = normal([e for e in trace["e"] if e["k"] in SEEN + ("join",) and not (e["k"] in ("we", "wx") and e["t"] == 0)])
    for q in range(max(len(want), len(have))):
        if q >= len(want) or q >= len(have):
            return q, want[q:q + 1], have[q:q + 1]
        w, h = want[q], have[q]
        skip = ("g", "lo", "uy", "up") if not b["hx"] else ("g",)
        if any(h.get(k) != w[k] for k in w if k not in skip):
            return q, w, h
    return None
