"""Cases which fail on the tree as it was found, one list per defect (see known_findings.txt).

They are part of the checks of the properties named here."""
from cases import S, line, Gen

U = "unbounded"


def cases(prop):
    out = []
    n = 0
    for key, props, src, kw in LIST:
        if prop in props:
            n += 1
            d = {"id": f"{prop}-{key}-{n}"}
            d.update(src)
            d.update(kw)
            d.setdefault("mode", "seq")
            out.append(line(d))
    return out


LIST = [
    # the counter wraps around after skip_to_end of a wrapped iterator
    ("F3", {"C05", "C06", "C11"}, S("iter", hint=U), dict(len=6, pre="NSNNNNN")),
    ("F3", {"C05", "C06", "C11"}, S("iter"), dict(len=6, pre="NSC2NC2LH")),
    ("F3", {"C05", "C06"}, S("iter", "heap", hint=U), dict(len=4, prog="NN|SNN", post="NNN", mode="dfs:2:400")),
    ("F4", {"C16", "C05", "C09"}, S("iter"), dict(len=4, pre="C0N*")),
    ("F4", {"C16", "C09", "C04"}, S("iter", hint=U), dict(len=4, prog="C0N*|C0C2*", mode="dfs:2:400")),
    ("F6", {"C17", "C08", "C01"}, S("vec", "heap"), dict(len=5, pre="C2B2{P.1}N*")),
    ("F6", {"C17", "C08", "C01"}, S("array", "heap"), dict(len=5, pre="C2B2{P.1}N*")),
    ("F7", {"C08", "C10", "C14"}, S("array", "heap"), dict(len=5, pre="NNR")),
    ("F7", {"C08", "C14"}, S("array", "heap"), dict(len=5, pre="NN")),
    ("F8", {"C15"}, S("vec", "heap"), dict(len=5, pre="NN")),
    ("F8", {"C15"}, S("vec", "heap"), dict(len=5, pre="N*")),
    ("F8", {"C15"}, S("vec", "heap"), dict(len=5, pre="NNR")),
    ("F9", {"C08", "C15"}, S("vec", "heap"), dict(len=5, pre="NSN")),
    ("F9", {"C08", "C15"}, S("array", "heap"), dict(len=5, pre="NSN")),
    ("F9", {"C08", "C15"}, S("array", "heap"), dict(len=5, prog="NNN|C2S", mode="dfs:2:400")),
    ("F10", {"C18", "C09"}, S("iter", "heap"), dict(len=4, prog="NN|NN", panic="w1", mode="dfs:2:400")),
    ("F10", {"C18", "C09"}, S("iter", "heap", hint=U), dict(len=6, prog="C2N|C2N", panic="w1", mode="dfs:2:400")),
    ("F10", {"C18", "C09"}, S("iter", "heap", hint=U), dict(len=6, prog="B2{P*}|B2{P*}", panic="w1", mode="dfs:2:400")),
    ("F11", {"C05", "C03", "C01"}, S("iter", hint=U), dict(len=3, extra=3, pre="C2C2C2NN")),
    ("F11", {"C05", "C03", "C01"}, S("iter", hint=U), dict(len=3, extra=3, pre="B2{PPPP}N")),
    ("F11", {"C05", "C03", "C01"}, S("iter"), dict(len=4, extra=3, pre="B2{PPPP}N")),
    ("F14", {"C03"}, S("iter"), dict(len=5, pre="B2{P*}")),
    ("F14", {"C03"}, S("iterref", "tok", "cloned"), dict(len=5, pre="B2{P*}")),
]
