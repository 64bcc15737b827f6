#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+: TLC validates traces recorded from the real crate (deterministic scheduler, every source kind) against the observer specification"
TLC = "TLA+: TLC "
TECH = {
    "C07": TLC + "validates traces of atomic accesses and of accesses of the wrapped iterator, recorded under a scheduler with stale loads, against a happens-before specification (vector clocks, HB.tla)",
    "C13": TLC + "validates pairs of traces of the same operations with and without the adaptor (TraceTwin.tla), and concurrent traces against the observer specification",
    "C14": TLC + "enumerates client programs with their verdicts from an ownership model (Programs.tla), the compiler judges them, TLC compares; histories of the accepted API against the observer specification",
    "C16": TLC + "validates traces with numbers of any magnitude against the mathematical specification (TraceBig.tla)",
    "C17": TLC + "compares traces of the builds with and without overflow checks, debug assertions and optimization (TraceEq.tla), and validates both against the observer specification",
}
NOTE = {
    "C07": "Happens-before is decided from the memory orderings which the crate really uses, for interleavings and stale loads which the scheduler chooses; synchronization the hooks do not see turns that part off (a note in the evidence says so).",
    "C14": "Bounded by the program shapes of Programs.tla; the compiler's verdict is the observation. One recorded finding (F12).",
}
COMMON = ("Assumes the harness records events faithfully; schedules are explored at the granularity of atomic operations "
          "under sequential consistency, bounded in threads, length and preemptions.")
TITLES = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(V, "properties.jsonl"))}
checks, na = [], []
for p in sorted(TITLES):
    if p in check.CHECKS:
        checks.append({"property": p, "quick_cmd": f"python3 tools/check.py {p} --tier quick",
                       "thorough_cmd": f"python3 tools/check.py {p} --tier thorough", "evidence_file": f"evidence/{p}.json",
                       "technique": TECH.get(p, TV), "level": "model_checking", "level_note": NOTE.get(p, COMMON)})
    else:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "orx_concurrent_iter_verif",
               "enable": "RUSTFLAGS='--cfg orx_concurrent_iter_verif' (tools/core.py builds /verif/harness, which depends on /repo by path)",
               "source_commits": os.popen("git -C /repo rev-list --reverse --grep='^verif hook' HEAD").read().split()},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Specifications in spec/, checked with TLC; harness in harness/; generators and drivers in tools/."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
