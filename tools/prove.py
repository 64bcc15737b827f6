#!/usr/bin/env python3
"""Checks the proofs of the designs (spec/*Proof.tla) with the TLA+ proof system; nothing in them depends on the code."""
import os, re, shutil, subprocess, sys, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def prove(name, threads=6, timeout=900):
    """(proved, all, message)"""
    d = tempfile.mkdtemp(prefix="tlaps-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for stretch in ("1", "5"):
            try:
                r = subprocess.run(["tlapm", "--threads", str(threads), "--stretch", stretch, name + ".tla"], cwd=d, capture_output=True,
                                   text=True, timeout=timeout)
            except (OSError, subprocess.TimeoutExpired) as e:
                return 0, 0, str(e)[:200]
            out = r.stdout + r.stderr
            m = re.search(r"All (\d+) obligations? proved", out)
            if m:
                return int(m.group(1)), int(m.group(1)), "proved"
        m = re.search(r"(\d+)/(\d+) obligations? failed", out)
        return (int(m.group(2)) - int(m.group(1)), int(m.group(2)), "not proved") if m else (0, 0, out[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    bad = 0
    for n in sys.argv[1:] or sorted(f[:-4] for f in os.listdir(SPEC) if f.endswith("Proof.tla")):
        ok, total, msg = prove(n)
        bad += msg != "proved"
        print(f"{n}: {ok} of {total} obligations: {msg}")
    sys.exit(1 if bad else 0)
