"""The models of the design which are checked for each property, and the behaviours of them which are replayed."""
from replay import *
from prove import prove

INV = "INVARIANT Quiet Exclusive Owned TypeOK\nPROPERTY Cursor"


def job(mode, kind, ops, L, T, calls, **kw):
    """One TLC run: the observer is quiet (obs), the refinement of the atomic object (lin), liveness (live, alone)."""
    a = dict(kw)
    if mode == "obs":
        cfg = config(kind, ops, L, T, calls, **a)
    elif mode == "lin":
        cfg = config(kind, ops, L, T, calls, check="PROPERTY Linearizable", Watch="FALSE", **a)
    elif mode == "live":
        cfg = config(kind, ops, L, T, calls, spec="Fair", check="PROPERTY Returns", view=False, Watch="FALSE", **a)
    elif mode == "alone":
        cfg = config(kind, ops, L, T, calls, spec="Alone", check="PROPERTY Returns1", view=False, Watch="FALSE", **a)
    elif mode == "design":
        a.setdefault("Final", '{"seq"}')
        cfg = config(kind, ops, L, T, calls, check="PROPERTY " + ("Ticketed" if kind == "ticket" else "Counted"), **a)
    what = {"design": "refinement of the design which is proved for all sizes", "obs": "rules and invariants", "lin": "refinement of the atomic cursor", "live": "every call returns",
            "alone": "a thread returns while the others are suspended"}[mode]
    x = "".join(f" {k}={v}" for k, v in kw.items())
    return dict(name=f"{kind} {ops}{x}: {what}", module="MCImpl", cfg=cfg, fault="Fault" in kw,
                bound=f"{L} elements, {T} threads, {calls} calls each")


def cursor(ops, L, T, calls, exact):
    cfg = (f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n L = {L}\n Threads = {{{', '.join(str(i + 1) for i in range(T))}}}\n"
           f" Calls = {calls}\n Ops <- {ops}\n Exact = {exact}\nINVARIANT Quiet\n")
    return dict(name=f"cursor {ops} exact={exact}: the rules accept every atomic cursor", module="MCCursor", cfg=cfg,
                bound=f"{L} elements, {T} threads, {calls} calls each")


def clocks(T, depth, orders, fault=False):
    """The happens-before of the trace rules, against its definition."""
    cfg = (f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Threads = {{{', '.join(str(i + 1) for i in range(T))}}}\n"
           f" Depth = {depth}\n Orders = {{{', '.join(chr(34) + o + chr(34) for o in orders)}}}\nINVARIANT {'Ordered' if fault else 'Exact Coherent'}\n")
    return dict(name=f"happens-before {' '.join(orders)}: the clocks are the definition", module="MCHB", cfg=cfg, fault=fault,
                bound=f"{T} threads, {depth} operations")


ALL = ("rlx", "acq", "rel", "ar")


def F(x):
    return {"Fault": f'"{x}"'}


KIND = ("shared", "owned", "ticket")


def quick(prop):
    J = job
    every = lambda ops, mode="obs", L=2, T=2, c=2, **kw: [J(mode, k, ops, L, T, c, **kw) for k in KIND]
    t = {
        "C01": lambda: every("OpsDrain") + every("OpsDrain", "lin") + every("OpsDrain", "design") + [J("obs", "ticket", "OpsDrain", 2, 2, 2, **F("tear"))],
        "C02": lambda: every("OpsPull") + [J("lin", "ticket", "OpsPull", 2, 2, 2), J("design", "ticket", "OpsPull", 2, 2, 2), J("obs", "ticket", "OpsPull", 2, 2, 2, **F("late"))],
        "C03": lambda: every("OpsChunk") + [J("lin", "ticket", "OpsChunk", 3, 2, 1), J("design", "ticket", "OpsChunk", 3, 2, 1), J("design", "shared", "OpsChunk", 2, 2, 2), J("obs", "owned", "OpsChunk", 2, 2, 2, **F("tear"))],
        "C04": lambda: every("OpsDrain", "lin") + [cursor("OpsNoQuery", 2, 2, 1, 1), J("obs", "ticket", "OpsPull", 2, 2, 2),
                                                   J("design", "owned", "OpsPull", 2, 2, 2), J("lin", "shared", "OpsDrain", 2, 2, 2, **F("tear"))],
        "C05": lambda: every("OpsQuery", Extra="1") + [J("lin", "ticket", "OpsWait", 2, 2, 2, Extra="1"),
                                                       J("obs", "ticket", "OpsDrain", 2, 2, 2, Extra="1", **F("noend"))],
        "C06": lambda: every("OpsSkip") + [J("lin", "ticket", "OpsSkip", 2, 2, 2)] + every("OpsSkip", "design")
                       + [J("lin", "ticket", "OpsSkip", 2, 2, 2, **F("noskip"))],
        "C07": lambda: [clocks(2, 4, ALL), clocks(2, 4, ("rlx",), True), J("obs", "ticket", "OpsPull", 2, 2, 2), J("obs", "ticket", "OpsDrain", 2, 2, 2, Hx="FALSE"),
                        J("obs", "ticket", "OpsPanic", 2, 2, 2, PanicAt="1"), J("design", "ticket", "OpsPanic", 2, 2, 2, PanicAt="1"),
                        J("obs", "ticket", "OpsDrain", 2, 2, 2, **F("late")), J("design", "ticket", "OpsDrain", 2, 2, 2, **F("late"))],
        "C08": lambda: [J("obs", "owned", "OpsSkip", 2, 2, 2), J("design", "owned", "OpsSkip", 2, 2, 2), J("obs", "owned", "OpsChunk", 3, 2, 2),
                        J("obs", "owned", "OpsPanic", 2, 2, 2, ClosurePanicAt="0"), J("obs", "owned", "OpsSkip", 2, 2, 2, **F("leak"))],
        "C09": lambda: [J("live", "ticket", "OpsWait", 2, 2, 2), J("live", "ticket", "OpsWait", 2, 2, 2, PanicAt="1"),
                        J("alone", "owned", "OpsWait", 2, 2, 2), J("alone", "shared", "OpsWait", 2, 2, 2),
                        J("live", "ticket", "OpsWait", 2, 2, 2, **F("noend")), J("live", "ticket", "OpsWait", 2, 2, 2, **F("noskip")),
                        J("live", "ticket", "OpsWait", 2, 2, 2, PanicAt="1", **F("noguard"))],
        "C10": lambda: every("OpsPull", Final='{"seq"}') + [J("obs", "ticket", "OpsSkip", 2, 2, 2, Final='{"seq"}')],
        "C11": lambda: every("OpsQuery") + [J("obs", "ticket", "OpsQuery", 2, 2, 2, Hx="FALSE"), cursor("OpsAll", 2, 2, 1, 1)],
        "C12": lambda: every("OpsLoop", c=1, T=2) + [J("lin", "ticket", "OpsLoop", 2, 2, 2), J("obs", "shared", "OpsLoop", 2, 2, 2, **F("tear"))],
        "C14": lambda: [J("obs", "owned", "OpsMix", 2, 2, 1), J("obs", "owned", "OpsPanic", 2, 2, 2, ClosurePanicAt="1")],
        "C15": lambda: [J("obs", "owned", "OpsMix", 2, 2, 1), J("obs", "owned", "OpsChunk", 2, 2, 2), J("obs", "owned", "OpsSkip", 2, 2, 2, **F("leak"))],
        "C16": lambda: every("OpsBig") + [J("lin", "ticket", "OpsBig", 2, 2, 2), J("lin", "owned", "OpsBig", 2, 2, 2),
                                          J("lin", "owned", "OpsBig", 2, 2, 2, **F("wrap"))],
        "C18": lambda: [J("obs", "ticket", "OpsPanic", 2, 2, 2, PanicAt="1"), J("design", "ticket", "OpsPanic", 2, 2, 2, PanicAt="0"), J("obs", "ticket", "OpsPanic", 2, 2, 2, ClosurePanicAt="1"),
                        J("obs", "owned", "OpsPanic", 2, 2, 2, ClosurePanicAt="1"), J("live", "ticket", "OpsWait", 2, 2, 2, PanicAt="0"),
                        J("obs", "ticket", "OpsPanic", 2, 2, 2, PanicAt="1", **F("noguard"))],
    }
    return t[prop]() if prop in t else []


def deep(prop):
    """Larger instances, for the thorough tier."""
    J = job
    big = {
        "C01": [J("lin", "ticket", "OpsDrain", 3, 3, 1), J("obs", "ticket", "OpsDrain", 3, 2, 2), J("obs", "owned", "OpsDrain", 3, 3, 2), J("obs", "shared", "OpsDrain", 3, 3, 2)],
        "C02": [J("obs", "ticket", "OpsPull", 3, 2, 2), J("obs", "owned", "OpsPull", 3, 3, 2), J("obs", "ticket", "OpsPull", 3, 3, 1)],
        "C03": [J("obs", "ticket", "OpsChunk", 4, 2, 2), J("obs", "owned", "OpsChunk", 4, 3, 1), J("obs", "ticket", "OpsChunk", 3, 3, 1)],
        "C04": [J("lin", "ticket", "OpsMix", 2, 2, 2), J("lin", "ticket", "OpsDrain", 3, 3, 1), J("lin", "owned", "OpsMix", 3, 2, 2),
                cursor("OpsNoQuery", 3, 2, 1, 1), cursor("OpsDrain", 2, 3, 1, 1)],
        "C05": [J("obs", "ticket", "OpsQuery", 2, 2, 3, Extra="1"), J("obs", "ticket", "OpsQuery", 2, 3, 1, Extra="2"), J("obs", "owned", "OpsQuery", 2, 3, 2)],
        "C06": [J("lin", "ticket", "OpsSkip", 3, 2, 2), J("obs", "ticket", "OpsSkip", 3, 3, 1), J("obs", "owned", "OpsSkip", 3, 3, 2), J("lin", "owned", "OpsSkip", 3, 3, 2)],
        "C07": [clocks(2, 5, ("rlx", "ar")), clocks(3, 4, ("rlx", "acq", "rel")), J("obs", "ticket", "OpsLoop", 2, 3, 1), J("obs", "ticket", "OpsPanic", 3, 2, 2, PanicAt="2"), J("design", "ticket", "OpsLoop", 2, 3, 1),
                J("obs", "ticket", "OpsMix", 2, 2, 2)],
        "C08": [J("obs", "owned", "OpsMix", 3, 2, 2), J("obs", "owned", "OpsSkip", 3, 3, 2), J("obs", "owned", "OpsPanic", 3, 3, 2, ClosurePanicAt="1")],
        "C09": [J("live", "ticket", "OpsWait", 2, 3, 1), J("live", "ticket", "OpsWait", 2, 3, 1, PanicAt="1"), J("live", "ticket", "OpsWait", 3, 2, 2, Extra="1"),
                J("alone", "owned", "OpsMix", 2, 2, 2), J("alone", "shared", "OpsWait", 2, 3, 1)],
        "C10": [J("obs", "owned", "OpsMix", 3, 2, 2, Final='{"seq"}'), J("obs", "ticket", "OpsMix", 2, 2, 2, Final='{"seq"}'), J("obs", "shared", "OpsPull", 3, 3, 2, Final='{"seq"}')],
        "C11": [J("obs", "ticket", "OpsQuery", 2, 3, 1), J("obs", "shared", "OpsQuery", 3, 3, 2), J("obs", "owned", "OpsQuery", 3, 3, 2), J("obs", "ticket", "OpsQuery", 2, 2, 3)],
        "C12": [J("obs", "ticket", "OpsLoop", 2, 3, 1), J("lin", "ticket", "OpsLoop", 3, 2, 2), J("obs", "owned", "OpsLoop", 3, 3, 1)],
        "C14": [J("obs", "owned", "OpsMix", 3, 2, 2)],
        "C15": [J("obs", "owned", "OpsMix", 3, 2, 2), J("obs", "owned", "OpsSkip", 3, 3, 2)],
        "C16": [J("lin", "ticket", "OpsBig", 2, 3, 1), J("obs", "owned", "OpsBig", 2, 3, 2), J("obs", "shared", "OpsBig", 3, 3, 2)],
        "C18": [J("obs", "ticket", "OpsPanic", 3, 2, 2, PanicAt=str(k)) for k in (0, 1, 2)] +
               [J("obs", "ticket", "OpsPanic", 2, 3, 1, PanicAt="1"), J("live", "ticket", "OpsWait", 2, 3, 1, PanicAt="0"), J("live", "ticket", "OpsWait", 2, 3, 1, PanicAt="1")],
    }
    return big.get(prop, [])


PROOFS = {"C01": ("CounterProof", "TicketProof"), "C02": ("CounterProof", "TicketProof"), "C03": ("CounterProof", "TicketProof"), "C04": ("CounterProof", "TicketProof"),
          "C05": ("CounterProof", "TicketProof"), "C06": ("CounterProof", "TicketProof"), "C07": ("TicketProof",), "C08": ("CounterProof",),
          "C18": ("TicketProof",)}


def generation(prop, deep):
    """Arguments of the simulations whose behaviours are replayed."""
    G = lambda kind, ops, L, T, c, **kw: ((kind, ops, L, T, c), kw)
    three = lambda ops, L=4, T=2, c=4, **kw: [G(k, ops, L, T, c, **kw) for k in KIND]
    t = {
        "C01": three("OpsDrain") + three("OpsDrain", 5, 3, 3),
        "C02": three("OpsPull") + three("OpsPull", 5, 3, 3),
        "C03": three("OpsChunk", 6) + three("OpsChunk", 6, 3, 3),
        "C04": three("OpsPull") + three("OpsDrain", 5, 3, 3),
        "C05": three("OpsQuery") + [G("ticket", "OpsMix", 3, 2, 4, Extra="2"), G("ticket", "OpsWait", 2, 3, 3, Extra="1")],
        "C06": three("OpsSkip") + three("OpsSkip", 4, 3, 3),
        "C07": [G("ticket", "OpsMix", 4, 2, 4), G("ticket", "OpsPull", 4, 3, 3, Hx="FALSE"), G("ticket", "OpsPanic", 4, 3, 3, PanicAt="2")],
        "C08": [G("owned", "OpsMix", 4, 2, 4), G("owned", "OpsSkip", 5, 3, 3), G("owned", "OpsPanic", 5, 2, 3, ClosurePanicAt="1"), G("ticket", "OpsMix", 4, 2, 4)],
        "C09": [G("ticket", "OpsWait", 3, 2, 4), G("ticket", "OpsWait", 3, 3, 3), G("ticket", "OpsWait", 3, 3, 3, PanicAt="1"), G("ticket", "OpsMix", 2, 3, 3, Extra="1")],
        "C10": three("OpsPull", Final='{"seq"}') + three("OpsSkip", 5, 2, 3, Final='{"seq"}'),
        "C11": three("OpsQuery") + [G("ticket", "OpsQuery", 4, 3, 3), G("ticket", "OpsQuery", 4, 2, 4, Hx="FALSE")],
        "C12": three("OpsLoop", 6, 2, 3) + three("OpsLoop", 5, 3, 2),
        "C14": [G("owned", "OpsMix", 4, 2, 4), G("owned", "OpsPanic", 4, 2, 4, ClosurePanicAt="2")],
        "C15": [G("owned", "OpsMix", 4, 2, 4), G("owned", "OpsSkip", 5, 3, 3), G("ticket", "OpsMix", 4, 2, 4)],
        "C18": [G("ticket", "OpsPanic", 5, 2, 4, PanicAt=str(k)) for k in range(4)] + [G("ticket", "OpsPanic", 5, 2, 4, ClosurePanicAt="1"),
                G("owned", "OpsPanic", 5, 2, 4, ClosurePanicAt="1"), G("shared", "OpsPanic", 5, 2, 4, ClosurePanicAt="2")],
        "C19": [G("shared", "OpsMix", 4, 2, 4), G("shared", "OpsMix", 5, 3, 3)],
    }
    return t.get(prop, [])


def check(c, g):
    """The models of the property, then the replay of behaviours of the model."""
    c.models(quick(c.prop))
    if not c.quick():
        c.models(deep(c.prop))
        for n in PROOFS.get(c.prop, ()):
            ok, total, msg = prove(n)
            c.cov["proofs"] = c.cov.get("proofs", []) + [{"module": n, "obligations": total, "proved": ok, "result": msg}]
    jobs = generation(c.prop, not c.quick())
    if not jobs:
        return
    bs = generate(jobs, c.seed, 60 if c.quick() else 2000)
    by, lines = {}, []
    for k, b in enumerate(bs):
        x = case(g, b, k)
        by[x["id"]] = b
        lines.append(line(x))
    run = c.conform("replay", lines)
    same, first = 0, None
    for f in run.files:
        for l in open(f):
            d = json.loads(l)
            r = differ(by[d["id"]], d)
            same += r is None
            if r and first is None:
                first = {"case": d["id"], "at": r[0], "model": r[1], "crate": r[2]}
    c.cov["replay"] = {"behaviours": len(bs), "identical_event_for_event": same, "first_difference": first}
