"""Generation of cases for the harness."""
import json, random

ARR = [0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 33, 100]
ARRREF = [0, 1, 2, 3, 4, 5, 6, 33]


def cfg(c):
    k = c["kind"]
    own = k in ("vec", "array", "iter")
    bor = k in ("slice", "vecref", "arrref", "iterref")
    known = k not in ("iter", "iterref")
    e = c.get("elem", "tok")
    ad = c.get("ad", "none")
    zst = e == "zst" and k != "range"
    drops = 0 if k == "range" else 1 if e != "cp" else 2 if own else 0
    if "start" in c:
        L = 0
    else:
        L = c.get("len", 0)
    return {"L": L, "known": int(known), "hx": int(known or c.get("hint", "exact") == "exact"), "own": int(own), "bor": int(bor),
            "zst": int(zst), "ad": ad, "gen": int(e in ("tok", "heap", "big") and k != "range"), "T": len(c["prog"].split("|")) if c.get("prog") else 0,
            "twins": c.get("twins", 1), "drops": drops, "extra": c.get("extra", 0)}


def line(c):
    c = dict(c)
    extra = c.pop("xcfg", {})
    j = cfg(c)
    j.update(extra)
    parts = [f"id={c.pop('id')}", "cfg=" + json.dumps(j, separators=(",", ":"))]
    for k, v in c.items():
        if v is None or v == "":
            continue
        parts.append(f"{k}={v}")
    return " ".join(parts)


def S(kind, elem="tok", ad="none", hint="exact", **kw):
    d = {"kind": kind, "elem": elem, "ad": ad}
    if kind in ("iter", "iterref"):
        d["hint"] = hint
    d.update(kw)
    return d


BORROWED = [S("slice"), S("slice", "tok", "cloned"), S("slice", "cp", "copied"), S("slice", "heap"), S("vecref", "heap", "cloned"),
            S("vecref"), S("vecref", "cp", "copied"), S("arrref"), S("arrref", "tok", "cloned"), S("arrref", "cp", "copied"),
            S("slice", "big", "cloned"), S("slice", "zst")]
RANGES = [S("range", off=0), S("range", off=5)]
OWNED = [S("vec"), S("vec", "heap", cap=3), S("vec", "big"), S("vec", "cp"), S("vec", "zst"), S("vec", "tok", cap=1),
         S("array"), S("array", "heap"), S("array", "cp"), S("array", "zst")]
ITERS = [S("iter"), S("iter", hint="unbounded"), S("iter", hint="inexact"), S("iter", hint="lower"), S("iter", "heap"),
         S("iter", "heap", hint="unbounded"), S("iter", "big", hint="inexact"), S("iter", "cp"), S("iter", "zst"),
         S("iterref"), S("iterref", "tok", "cloned", "unbounded"), S("iterref", "cp", "copied"), S("iterref", "heap", "cloned")]
KNOWN = BORROWED + RANGES + OWNED
ALL = KNOWN + ITERS
# one of each kind of implementation, for expensive explorations
CORE = [S("slice"), S("slice", "tok", "cloned"), S("slice", "cp", "copied"), S("range", off=3), S("vec"), S("array"), S("iter"),
        S("iter", hint="unbounded"), S("iterref", "tok", "cloned"), S("iterref", "cp", "copied", "inexact")]


def fit(src, n):
    """The nearest supported length."""
    if src["kind"] == "array":
        return min(ARR, key=lambda x: (abs(x - n), x))
    if src["kind"] == "arrref":
        return min(ARRREF, key=lambda x: (abs(x - n), x))
    return n


def with_ctor(src, r):
    k = src["kind"]
    n = {"slice": 4, "range": 4, "vec": 3, "array": 3, "iter": 3}.get(k, 1)
    d = dict(src)
    if n > 1:
        d["ctor"] = r.randrange(n)
    return d


# ---------------------------------------------------------------- programs

STYLES = ["N*", "I*", "V*", "W*", "O*", "U", "J", "U.f", "J.f", "C1*", "C2*", "C3*", "C2.1*", "B1{P*}", "B2{P*}", "B3{P*}", "B2{P.1*}", "B3{P.2*}",
          "F1", "F2", "F3", "G1", "G2", "G3", "D1", "D2", "D3"]
REFS = ("slice", "vecref", "arrref", "iterref")
CLONABLE = ("slice", "vecref", "arrref", "range")


class Gen:
    """Generates cases; everything is determined by the property, the seed and the attributes."""

    def __init__(self, prop, seed):
        self.r = random.Random(f"{prop}-{seed}")
        self.n = 0
        self.prop = prop
        self.single = "NIVWO"
        self.allow = "scb"
        self.styles = STYLES
        self.forced = False             # drain only by the styles
        self.uses = .45                 # probability that a chunk is consumed only partly, or by internal iteration

    # --- pieces

    def use(self):
        return self.r.choice([".f", ".0", ".1", ".2", ".1", ".t1", ".t0", ".t2", ".c", ".l"]) if self.r.random() < self.uses else ""

    def size(self, n):
        if self.r.random() < .015:
            return self.r.choice(["E", "E+1", "Q", "M", "M-1", "H+1", "65536", "256"])
        return self.r.choice([1, 1, 2, 2, 3, 3, 4, 5, max(1, n - 1), max(1, n), n + 1, n + 3, 2 * n + 1])

    def pulls(self, n, k, allow=None):
        r, out = self.r, []
        for _ in range(k):
            a = r.choice(allow or self.allow)
            if a == "s":
                out.append(r.choice(self.single))
            elif a == "c":
                out.append(f"C{self.size(n) if r.random() > .03 else 0}{self.use()}")
            elif a == "b":
                inner = "".join("P" + self.use() + ("*" if r.random() < .3 else "") + (r.choice("NI") if r.random() < .15 else "")
                                for _ in range(r.choice([1, 1, 2, 3])))
                out.append(f"B{self.size(n)}{{{inner}}}")
            else:
                out.append(r.choice("FGD") + str(self.size(n)) if r.random() < .8 else r.choice(["U", "J", "U.f", "J.f"]))
        return out

    def drain(self, n):
        """Pulls until the end is observed, by any mixture of methods."""
        r = self.r
        if self.forced and r.random() < .9 or r.random() < .45:
            pre = self.pulls(n, r.choice([0, 0, 0, 1])) if self.forced else []
            return "".join(pre) + r.choice(self.styles)
        pre = self.pulls(n, r.choice([0, 1, 1, 2]))
        k = self.size(n)
        tail = r.choice(["N*", "I*", "V*", "W*", "O*", "U", "J", "U.f", "J.f", f"C{k}*", f"C{k}.1*", f"B{k}{{P*}}", f"B{k}{{P.1*}}", f"B{k}{{PP*}}",
                         f"B{k}{{P.1P*}}", f"F{k}", f"G{k}", f"D{k}"])
        return "".join(pre) + tail

    def finite(self, n, k, q=0.25, skip=0.0, hold=True):
        """A finite program with queries and possibly a skip."""
        r, out, held = self.r, [], 0
        for _ in range(k):
            x = r.random()
            if x < q:
                out.append(r.choice("LH"))
            elif x < q + skip:
                out.append("S")
            elif hold and x < q + skip + .1:
                out.append(f"C{self.size(n)}.h")
                held += 1
            elif held and x < q + skip + .2:
                out.append("K" + self.use())
                held -= 1
            else:
                out += self.pulls(n, 1, "ssccb" if self.allow == "scb" else self.allow)
        return "".join(out)

    def post(self):
        return self.r.choice(["", "", "N", "I", "C2", "H", "L", "LH", "NH", "C1L", "B2{P}", "U", "F2", "D2", "SN", "R"])

    def tail(self):
        return self.r.choice(["", "R", "R.1", "Z", ""])

    # --- cases

    def id(self):
        self.n += 1
        return f"{self.prop}-{self.n}"

    def case(self, src, n, **kw):
        d = {"id": self.id()}
        d.update(with_ctor(src, self.r))
        d["len"] = fit(src, n)
        d.update(kw)
        d.setdefault("seed", self.r.randrange(1, 1 << 30))
        return line(d)

    def drains(self, srcs, per, modes, threads=(2,), lens=(0, 1, 2, 3), post=True, **kw):
        out = []
        for s in srcs:
            for _ in range(per):
                n = self.r.choice(lens)
                t = self.r.choice(threads)
                prog = "|".join(self.drain(n) for _ in range(t))
                out.append(self.case(s, n, prog=prog, post=self.post() if post else "", mode=self.r.choice(modes), **kw))
        return out

    def mixed(self, srcs, per, modes, threads=(2,), lens=(0, 1, 2, 3, 4), q=.25, skip=.0, k=(1, 2, 3, 4), pre=.3, drain_one=.4, post=True,
              tail=True, uses=None, tailskip=0, posttail=None, watch=0, **kw):
        """Finite programs; some threads go on until the end, some only watch."""
        out, r = [], self.r
        old = self.uses
        self.uses = old if uses is None else uses
        for s in srcs:
            for _ in range(per):
                n = r.choice(lens)
                t = r.choice(threads)
                ps = []
                for x in range(t):
                    if x > 0 and r.random() < watch:
                        ps.append("".join(r.choice("LHLHN") for _ in range(r.choice([2, 3, 4]))))
                        continue
                    p = self.finite(n, r.choice(k), q, skip)
                    if r.random() < drain_one:
                        p += self.drain(n)
                    if r.random() < tailskip:
                        p += "S" + self.finite(n, r.choice([0, 1, 2]), .3, 0, False)
                    ps.append(p)
                pr = self.finite(n, r.choice([1, 2]), .2, 0, False) if r.random() < pre else ""
                if s.get("ad", "none") == "none" and s["kind"] in REFS and r.random() < .1:
                    pr += "A"
                po = (self.finite(n, r.choice([0, 1, 2, 3]), .5, .05, False) if post else "")
                po += r.choice(posttail) if posttail else self.tail() if tail else ""
                out.append(self.case(s, n, pre=pr, prog="|".join(ps), post=po, mode=r.choice(modes), **kw))
        self.uses = old
        return out

    def sequential(self, srcs, per, lens=(0, 1, 2, 3, 4, 5, 6, 7, 8), k=(1, 2, 3, 4, 5, 6, 8, 10), q=.3, skip=.04, tail=None, loops=True,
                   multi=False, uses=None, **kw):
        out, r = [], self.r
        old = self.uses
        self.uses = old if uses is None else uses
        for s in srcs:
            for _ in range(per):
                n = r.choice(lens)
                p = self.finite(n, r.choice(k), q, skip)
                if multi and s["kind"] in CLONABLE + ("iterref",):
                    p = self.interleave(p, s, n)
                if s.get("ad", "none") == "none" and s["kind"] in REFS and r.random() < .15:
                    p = self.finite(n, r.choice([0, 1, 2]), q, skip) + "A" + p
                if loops and r.random() < .3:
                    p += self.drain(n) + self.finite(n, r.choice([0, 1, 2]), .6, 0, False)
                p += self.tail() if tail is None else r.choice(tail)
                out.append(self.case(s, n, pre=p, mode="seq", **kw))
        self.uses = old
        return out

    def at(self, i, q):
        """The program q on iterator i."""
        out, k = "", 0
        while k < len(q):
            c = q[k]
            out += f"@{i}{c}" if c in "NIVWOUJCBPFGDSLHKXYRZA" else c
            k += 1
            if c in "CBFGD" and q[k:k + 1] and q[k] in "MHEQ":
                out += q[k]
                k += 1
        return out

    def interleave(self, p, s, n):
        """Several iterators over one source."""
        can_clone = s.get("ad", "none") == "none" and s["kind"] != "iterref"
        out, k = "", 1
        for _ in range(self.r.choice([2, 3, 4, 6])):
            if self.r.random() < .45:
                if can_clone and self.r.random() < .6:
                    out += f"@{self.r.randrange(k)}X"
                else:
                    out += "Y"
                k += 1
            for _ in range(self.r.choice([1, 1, 2])):
                out += self.at(self.r.randrange(k), self.finite(n, 1, .3, .05, False))
        return out + p

    # --- numbers of any magnitude

    def big_size(self, n):
        r = self.r
        return r.choice(["0", "1", "2", "3", str(n), str(n + 1), str(max(1, n - 1)), "H", "H-1", "H+1", "H+2", "H-2", "M", "M", "M-1", "M-2", "M-3",
                         f"M-{n}", f"M-{n + 1}", f"M-{max(0, n - 1)}", f"H+{n}", f"H-{n}", "E", "E", "E-1", "E+1", f"E+{n}", f"E-{n}",
                         "Q", "Q-1", "Q+1", "65535", "65536", "65537", "255", "256"])

    def big_prog(self, n, small, k, q=.2, zero=.12):
        """small: the source is short enough to be drained."""
        r, out = self.r, []
        for _ in range(k):
            x = r.random()
            z = self.big_size(n) if r.random() > zero else "0"
            if x < q:
                out.append(r.choice("LH"))
            elif x < q + .04:
                out.append("S")
            elif x < q + .2:
                out.append(r.choice(self.single))
            elif x < q + .5:
                out.append(f"C{z}" + r.choice(["", "", ".1", ".0"]))
            elif x < q + .7:
                z = "0" if r.random() < .1 else self.big_size(n)
                out.append(f"B{z}{{" + r.choice(["P", "PP", "P.1P", "PNP", "P.0P", "PC%sP" % self.big_size(n)]) + "}")
            elif small:
                out.append(r.choice("FGGD") + (self.big_size(n) if r.random() < .6 else r.choice("123")) if r.random() < .85 else r.choice("UJ"))
            else:
                out.append(r.choice("FGD") + "0" if r.random() < .4 else r.choice(self.single))
        return "".join(out)

    def big_range(self):
        """(start, end, value of end - start when small, else None)"""
        r = self.r
        base = {"0": (0, 0, 0), "M": (2, 0, -1), "H": (1, 0, -1), "E": (0, 2, 0), "Q": (0, 1, 0)}

        def near(a):
            h, g, d0 = base[a]
            d = r.choice([0, 0, 1, 2, 3, 4, 5, 8])
            if a == "0":
                return (0, 0, d), str(d)
            if a != "M" and r.random() < .5:
                return (h, g, d0 + d), f"{a}+{d}"
            return (h, g, d0 - d), f"{a}-{d}"

        a = r.choice("000MMMMMHHHEEQ")
        s, sn = near(a)
        e, en = near(a if r.random() < .65 else r.choice("0MHEQ"))
        if r.random() < .1:
            e, en = s, sn
        return s, sn, e, en

    def jump(self, s, e):
        """A chunk pull which leaves only a few elements of a large range, if its size can be written down."""
        base = {(2, 0): "M", (1, 0): "H", (0, 2): "E", (0, 1): "Q"}.get(e[:2])
        if s[:2] != (0, 0) or not base:
            return ""
        d = e[2] - s[2] - self.r.choice([1, 2, 3, 4, 5]) + (1 if base in "MH" else 0)
        if d > 0 and base == "M":
            return ""
        return "C" + base + (f"+{d}" if d > 0 else f"-{-d}" if d < 0 else "") + self.r.choice([".0", ".1", ".0"])

    def bigs(self, srcs, per, k=(1, 2, 3, 4, 6, 8), conc=False, modes=("rand:40",), threads=(2, 2, 3)):
        out, r = [], self.r
        for s in srcs:
            for _ in range(per):
                kw = {"big": 1}
                if s["kind"] == "range":
                    a, an, e, en = self.big_range()
                    small = e <= a or e[:2] == a[:2]
                    n = 0 if e <= a else e[2] - a[2] if small else 3
                    kw.update(start=an, end=en, xcfg={"s": list(a), "e": list(e)})
                    jump = "" if small or r.random() < .4 else self.jump(a, e)
                    length = 0
                else:
                    n = length = fit(s, r.choice([0, 1, 2, 3, 4, 5]))
                    small, jump = True, ""
                    kw.update(xcfg={"s": [0, 0, 0], "e": [0, 0, n]})
                n, small = (3, True) if jump else (n, small)
                post = r.choice(["", "LH", "N", "HC1L", "C0L", "R", "LR", "R.1", "BM{P}"])
                if conc:
                    ps = []
                    for _ in range(r.choice(threads)):
                        p = self.big_prog(n, small, r.choice([1, 2, 3]))
                        if small and r.random() < .5:
                            p += r.choice(["N*", "I*", "W*", "U", "J", "CM*", "C2*", "CH*", "BM{P*}", "B2{P*}", "FM", "DH", "GM-1", "G2", "G1"])
                        ps.append(p)
                    kw.update(pre=jump + (self.big_prog(n, small, 1) if r.random() < .2 else ""), prog="|".join(ps), post=post, mode=r.choice(modes), maxtr=60)
                else:
                    kw.update(pre=jump + self.big_prog(n, small, r.choice(k)) + post, mode="seq")
                out.append(self.case(s, length, **kw))
        return out

    def endless(self, srcs, per, k=(2, 4, 6, 9)):
        """Wrapped iterators without an end (size hint (MAX, None)); only a few elements are asked for."""
        out, r = [], self.r
        for s in srcs:
            for _ in range(per):
                p = ""
                for _ in range(r.choice(k)):
                    q = r.choice([1, 1, 2, 3, 5, 9, 17])
                    p += r.choice(["N", "I", "V", "W", "L", "H", "C0", f"C{q}", f"C{q}.1", f"C{q}.h", f"C{q}.t1", f"B{q}{{PP.1P}}", f"B{q}{{P.t1NP}}",
                                   f"B{r.choice(['M', 'H', 'Q', 'M-1', 'H-1'])}{{}}"] + (["S"] if r.random() < .2 else []))
                out.append(self.case(s, 400, pre=p + r.choice(["", "LH", "R.1", "R.3", "SNR.1", "Z", "SC2LHN"]), mode="seq", big=1,
                                     xcfg={"s": [0, 0, 0], "e": [0, 0, 400]}))
        return out

    def twins(self, srcs, per, lens=(0, 1, 2, 3, 4, 5, 6), k=(1, 2, 3, 4, 6), q=.35, skip=.05):
        """Every operation is performed on an iterator over references, and on the same one with the adaptor."""
        out, r = [], self.r
        for s in srcs:
            for _ in range(per):
                n = r.choice(lens)
                p = ""
                for _ in range(r.choice(k)):
                    x = self.finite(n, 1, q, skip) if r.random() < .85 else r.choice(self.styles)
                    p += self.at(0, x) + self.at(1, x)
                if r.random() < .4:
                    x = self.drain(n)
                    p += self.at(0, x) + self.at(1, x)
                x = r.choice(["", "LH", "N", "C2", "R", "R.1", "R", "Z", "K"])
                p += self.at(0, x) + self.at(1, x)
                late = r.random() < .25
                if late:
                    # both are the underlying iterator at first
                    b = "".join(self.at(0, y) + self.at(1, y) for y in [self.finite(n, 1, q, skip, False) for _ in range(r.choice([0, 1, 2, 3]))])
                    p = b + "@1A" + p
                out.append(self.case(dict(s, ad="none") if late else s, n, pre=p, mode="seq", twins=2, mixed=None if late else 1, extra=r.choice([0, 0, 0, 2]) if s["kind"] == "iterref" else 0))
        return out

    def several(self, srcs, per, modes, threads=(2,), lens=(1, 2, 3, 4), **kw):
        """Threads which use several iterators over one source; clones are made while others pull."""
        out, r = [], self.r
        for s in srcs:
            can_clone = s.get("ad", "none") == "none" and s["kind"] in CLONABLE
            for _ in range(per):
                n = r.choice(lens)
                pre = self.finite(n, r.choice([0, 1, 2]), .1, 0, False)
                k = 1
                for _ in range(r.choice([0, 1, 1, 2])):
                    pre += "X" if can_clone and r.random() < .6 else "Y"
                    k += 1
                ps = []
                for _ in range(r.choice(threads)):
                    p, mine = "", k
                    for _ in range(r.choice([1, 2, 3])):
                        i = r.randrange(mine)
                        if r.random() < .25:
                            p += f"@{i}X" if can_clone else "Y"
                            mine += 1
                        else:
                            p += self.at(i, self.finite(n, 1, .2, .04, False) if r.random() < .8 else r.choice(["N*", "C2*", "B2{P*}", "F2"]))
                    ps.append(p)
                post = "".join(self.at(i, r.choice(["N*", "LN", "HC2", "R", ""])) for i in range(k + 1))
                out.append(self.case(s, n, pre=pre, prog="|".join(ps), post=post, mode=r.choice(modes), **kw))
        return out

    def inside(self, n, skip=.1, q=.3):
        """What a closure does with the iterator it is called from."""
        r = self.r
        return "[" + (self.finite(n, r.choice([1, 1, 2]), q, skip, False) if r.random() < .8 else r.choice(["N*", "F1", "D2", "C2*", "B2{P*}", "U"])) + "]"

    def nested(self, srcs, per, modes, threads=(2,), lens=(1, 2, 3, 4, 5), skip=.1, q=.3, nest=.85, **kw):
        """Loops whose closures use the same iterator, and pulls while a chunk of a buffered iterator is alive."""
        out, r = [], self.r
        for s in srcs:
            for _ in range(per):
                n = r.choice(lens)
                ps = []
                for k in range(max(1, r.choice(threads))):
                    x = self.inside(n, skip, q) if k == 0 or r.random() < nest else ""
                    z = self.size(n)
                    p = r.choice([f"F{z}{x}", f"G{z}{x}", f"D{z}{x}", f"U{x}", f"J{x}", f"U.f{x}", f"J.f{x}", f"B{z}{{P{x}*}}", f"B{z}{{P{x}P.1{x}}}"])
                    ps.append("".join(self.pulls(n, r.choice([0, 0, 1]))) + p + (r.choice(["", "", "N", "LH", "N*"])))
                kw2 = dict(kw)
                if 0 in threads:
                    kw2.update(pre=ps[0])
                else:
                    kw2.update(prog="|".join(ps))
                out.append(self.case(s, n, post=self.post(), mode=r.choice(modes), **kw2))
        return out

    def overshoot(self, srcs, per, lens=(0, 1, 2, 3, 4), conc=False, tails=None, **kw):
        """The end is reached, then all kinds of pulls follow, also with huge chunk sizes."""
        out, r = [], self.r

        def big():
            return r.choice(["M", "M-1", "M-2", "H", "H+1", "H+2", "M-3", "E", "E", "E-1", "E+1", "Q", "Q+1", "65536", "256", "1", "2", "7"])

        for s in srcs:
            for _ in range(per):
                n = r.choice(lens)
                p = self.drain(n) if r.random() < (.3 if tails else .7) else self.finite(n, 2, .1, 0, False)
                for _ in range(r.choice([2, 3, 4, 6])):
                    p += r.choice(["N", "I", "H", "L", "C{}", "C{}", "C{}", "B{}{PP}", "B{}{PP}", "F{}", "D{}", "U", "W", "O", "C0"]).replace("{}", big(), 1)
                if conc:
                    out.append(self.case(s, n, prog=p + "|" + self.drain(n), post="NHL" + (r.choice(tails) if tails else self.tail()), mode="rand:30", **kw))
                else:
                    out.append(self.case(s, n, pre=p + "LHN" + (r.choice(tails) if tails else self.tail()), mode="seq", **kw))
        return out

    def panics(self, srcs, per, modes=None, threads=(2,), lens=(1, 2, 3, 4), q=.1, **kw):
        """The wrapped iterator, a clone or a closure panics at every possible point."""
        out, r = [], self.r
        for s in srcs:
            kinds = ("w" if s["kind"] in ("iter", "iterref") else "") + ("cc" if s.get("ad") == "cloned" else "") + "f"
            for _ in range(per):
                n = r.choice(lens)
                t = r.choice(threads)
                kind = r.choice(kinds)

                def prog():
                    p = self.finite(n, r.choice([0, 1, 2]), q, .03)
                    if kind == "f" and r.random() < .7:
                        return p + r.choice("FGDU") + ("" if p.endswith("U") else "")
                    return p + (self.drain(n) if r.random() < .7 else "")

                def fix(p):
                    return p if p[-1:] not in "FGD" or not p else p + str(self.size(n))

                post = self.finite(n, r.choice([0, 1, 2]), max(q, .3), 0, False) + r.choice(["N*", "C2*", "", "F2", "R", "R.1"])
                if q > .1:
                    post += r.choice(["L", "H", "LH", "LNL", "HC2H"])
                kw2 = dict(kw)
                if t:
                    kw2.update(prog="|".join(fix(prog()) for _ in range(t)), pre=self.finite(n, 1, .1, 0, False) if r.random() < .2 else "")
                else:
                    kw2.update(pre=fix(prog()) + fix(prog()))
                out.append(self.case(s, n, post=post, panic=f"{kind}{r.randrange(0, n + 2)}", mode=r.choice(modes or ["dfs:2:120", "dfs:1:60"]), **kw2))
        return out
