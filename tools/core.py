"""Common machinery: building the harness, running cases, running TLC, verdicts and evidence."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GUARD = "orx_concurrent_iter_verif"
NCPU = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


# ---------------------------------------------------------------- building

def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.toml")):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def unhooked_sync():
    """Synchronization in the crate which the hooks do not report; clocks computed from the hooks would miss it."""
    found = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            p = os.path.join(d, f)
            if not f.endswith(".rs") or f == "verif.rs" or "/tests" in p:
                continue
            text = re.sub(r"//[^\n]*", "", open(p).read())
            text = re.sub(r"#\[cfg\(not\(" + GUARD + r"\)\)\]\s*use [^;]*;", "", text)
            for pat in (r"\b(Mutex|RwLock|Condvar|Once|OnceLock|LazyLock|Barrier|mpsc|park|unpark|asm)\b",
                        r"\b(std|core)::sync::atomic::(\{[^;]*)?Atomic", r"\b(std|core)::sync::\{[^;]*atomic",
                        r"\b(std|core)::sync::atomic::(\{[^;]*)?fence", r"\b(std|core)::sync::atomic(::\{[^;]*\bself\b|;|::\*)",
                        r"\bextern crate\b", r"\borx_\w*(atomic|sync|spin|lock)\w*"):
                m = re.search(pat, text)
                if m and not (m.group(0).startswith("orx_concurrent_iter")):
                    found.append(f"{os.path.relpath(p, REPO)}: {m.group(0)[:60]}")
    return found


def cargo_env(target):
    env = dict(os.environ)
    env["RUSTFLAGS"] = f"--cfg {GUARD} -A warnings"
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["RUSTUP_TOOLCHAIN"] = "stable"
    return env


def build(profile):
    """Builds the harness against the current tree; returns the path of the binary.

    Freshness is decided by the content of the sources, not by their time stamps."""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, "target")
    sub = "debug" if profile == "dev" else "release"
    stamp = os.path.join(BUILD, f"stamp-{profile}")
    binary = os.path.join(target, sub, "harness")
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if want == have and os.path.exists(binary):
            return binary
        if os.path.exists(stamp):
            os.remove(stamp)
        env = cargo_env(target)
        args = ["--offline"] + (["--release"] if profile == "release" else [])
        cwd = os.path.join(VERIF, "harness")
        if have:
            # the content changed since the last build: do not rely on modification times
            for p in ("orx-concurrent-iter", "harness"):
                subprocess.run(["cargo", "clean", "-p", p] + args, cwd=cwd, env=env, capture_output=True)
        r = subprocess.run(["cargo", "build"] + args, cwd=cwd, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("the harness does not build:\n" + r.stderr[-4000:])
        with open(stamp, "w") as f:
            f.write(want)
    return binary


# ---------------------------------------------------------------- TLC

def java(opts, args, env=None, timeout=800):
    tmp = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", f"-Djava.io.tmpdir={tmp}", "-XX:+UseSerialGC", "-Xss16m"] + opts + ["-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", os.path.join(tmp, "states")] + args
        r = subprocess.run(cmd, cwd=tmp, env=e, capture_output=True, text=True, timeout=timeout)
        return r.stdout + r.stderr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tlc_ok(out):
    return "Model checking completed. No error has been found." in out


def run_tlc(module, cfg, env=None, workers=1, opts=(), args=(), timeout=800):
    """cfg is the text of the configuration."""
    fd, path = tempfile.mkstemp(suffix=".cfg", dir=BUILD)
    with os.fdopen(fd, "w") as f:
        f.write(cfg)
    try:
        return java(list(opts), ["-config", path, "-workers", str(workers)] + list(args) +
                    [os.path.join(SPEC, module + ".tla")], env, timeout)
    finally:
        os.remove(path)


def error_state(out):
    """The last state of a TLC error trace, and the violated invariant."""
    m = re.search(r"Invariant (\w+) is violated", out)
    inv = m.group(1) if m else None
    tid = re.findall(r"^(?:/\\ )?tid = (\d+)", out, re.M)
    pos = re.findall(r"^(?:/\\ )?pos = (\d+)", out, re.M)
    tags = re.findall(r"v \|->\s*\{([^}]*)\}", out)
    return inv, int(tid[-1]) if tid else None, int(pos[-1]) if pos else None, tags[-1] if tags else ""


# ---------------------------------------------------------------- running cases

class Run:
    """Results of running a set of cases under one build."""

    def __init__(self):
        self.files, self.execs, self.steps, self.traces, self.frozen, self.misses = [], 0, 0, 0, 0, 0
        self.crashes, self.stuck, self.osblocked, self.skipped = 0, 0, 0, 0


def run_cases(binary, lines, workdir, name, shards=NCPU, timeout=600):
    """Runs the case lines in parallel processes; returns a Run with one trace file per shard."""
    os.makedirs(workdir, exist_ok=True)
    run = Run()
    order = list(range(len(lines)))
    parts = [[lines[k] for k in order[s::shards]] for s in range(shards)]
    lock = threading.Lock()

    def work(s):
        part = parts[s]
        if not part:
            return None
        cf = os.path.join(workdir, f"{name}-{s}.cases")
        of = os.path.join(workdir, f"{name}-{s}.ndjson")
        for p in (of, of + ".crash"):
            if os.path.exists(p):
                os.remove(p)
        with open(cf, "w") as f:
            f.write("\n".join(part) + "\n")
        start, bad, extra = 0, 0, []
        t0 = time.time()
        while start < len(part):
            left = timeout - (time.time() - t0)
            if left < 1:
                with lock:
                    run.skipped += len(part) - start
                break
            p = subprocess.Popen([binary, cf, of, str(start), str(left)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 text=True)
            try:
                out, _ = p.communicate(timeout=left + 120)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                rc = -9999
            done = re.search(r"DONE execs=(\d+) steps=(\d+) traces=(\d+) frozen=(\d+) misses=(\d+) osblocked=(\d+) skipped=(\d+)", out or "")
            with lock:
                if done:
                    run.execs += int(done.group(1))
                    run.steps += int(done.group(2))
                    run.frozen += int(done.group(4))
                    run.misses += int(done.group(5))
                    run.osblocked += int(done.group(6))
                    run.skipped += int(done.group(7))
            if rc == 0 and done:
                break
            at = [int(x) for x in re.findall(r"^CASE (\d+)", out or "", re.M)]
            at = at[-1] if at else start
            if rc == -9999:
                raise ToolError(f"harness timed out in case: {part[at]}")
            # a partial last line is dropped
            if os.path.exists(of):
                data = open(of, "rb").read()
                cut = data.rfind(b"\n") + 1
                if cut != len(data):
                    with open(of, "wb") as f:
                        f.write(data[:cut])
            with lock:
                if rc == 77:
                    run.stuck += 1
                else:
                    run.crashes += 1
            crash = []
            if os.path.exists(of + ".crash"):
                crash = [l for l in open(of + ".crash").read().splitlines() if l.endswith("]}")]
                os.remove(of + ".crash")
            if rc != 77 and not crash:
                kv = dict(x.split("=", 1) for x in part[at].split(" "))
                crash = [json.dumps({"id": kv["id"], "c": json.loads(kv["cfg"]), "s": "",
                                     "e": [{"k": "crash", "w": f"exit status {rc}"}]})]
            extra += crash
            bad += 1
            if bad > 4:
                with lock:
                    run.skipped += len(part) - at - 1
                break
            start = at + 1
        if extra:
            with open(of, "a") as f:
                f.write("\n".join(extra) + "\n")
        n = sum(1 for _ in open(of)) if os.path.exists(of) else 0
        with lock:
            run.traces += n
        return of if n else None

    with ThreadPoolExecutor(shards) as ex:
        run.files = [f for f in ex.map(work, range(shards)) if f]
    return run


def check_traces(files, module, invariants, consts="", limit=40000, par=NCPU - 1, extra_env=None, timeout=700):
    """TLC decides, for every trace of the files, whether the invariants hold in every state of its replay.

    Returns (number of traces, states, transitions, violations) with violations = [(trace, invariant, position, tags)]."""
    jobs = []
    total = sum(sum(1 for _ in open(f)) for f in files)
    size = max(200, min(6000, (total + par - 1) // par))
    buf, k = [], 0
    work = tempfile.mkdtemp(prefix="tr", dir=BUILD)
    for f in files:
        for line in open(f):
            buf.append(line)
            if len(buf) >= size:
                p = os.path.join(work, f"{k}.ndjson")
                open(p, "w").writelines(buf)
                jobs.append((p, len(buf)))
                buf, k = [], k + 1
    if buf:
        p = os.path.join(work, f"{k}.ndjson")
        open(p, "w").writelines(buf)
        jobs.append((p, len(buf)))
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + consts + "\nINVARIANT " + " ".join(invariants) + "\n"
    states = [0, 0]
    viol = []
    lock = threading.Lock()

    def one(job):
        p, n = job
        env = {"TRACES": p}
        env.update(extra_env or {})
        out = run_tlc(module, cfg, env, 1, ["-Xmx3g", "-XX:TieredStopAtLevel=1"], timeout=timeout)
        g, d = tlc_stats(out)
        with lock:
            states[0] += g
            states[1] += d
        if tlc_ok(out):
            return
        inv, tid, pos, tags = error_state(out)
        if inv is None or tid is None:
            raise ToolError(f"TLC failed on recorded traces ({module}):\n" + out[-3000:])
        with open(p) as f:
            for q, line in enumerate(f, 1):
                if q == tid:
                    with lock:
                        viol.append((json.loads(line), inv, pos, tags))
                    break

    try:
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(one, jobs))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return total, states[1], states[0], viol


# ---------------------------------------------------------------- known findings, verdicts, evidence

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "executions": 0, "samples": [],
                    "scheduling_steps": 0, "models": [], "conformance": [], "notes": []}
        self.violations = []
        self.lock = threading.Lock()
        self.level = "model_checking"
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)

    def quick(self):
        return self.tier == "quick"

    def model(self, name, module, cfg, workers=2, opts=("-Xmx5g",), args=(), timeout=3000, fault=False, bound=""):
        """Checks a model of the design; a violated property of the design is a violation as well.

        fault: the model contains a planted defect, which TLC has to find."""
        t = time.time()
        out = run_tlc(module, cfg, None, workers, list(opts), list(args), timeout)
        g, d = tlc_stats(out)
        ok = tlc_ok(out)
        m = re.search(r"(Invariant \w+ is violated|Action property \w+.*violated|Temporal propert\w+ .*violated|Property \w+.*violated|"
                      r"Deadlock reached|Action property .* is violated)", out)
        if not ok and not m:
            raise ToolError(f"TLC failed on model {name}:\n" + out[-3000:])
        with self.lock:
            self.cov["states"] += d
            self.cov["transitions"] += g
            self.cov["models"].append({"model": name, "module": module, "ok": ok, "found": m.group(1) if m else "", "planted_defect": fault,
                                       "states": d, "transitions": g, "wall_s": round(time.time() - t, 1), "bounds": bound})
        if fault:
            if ok:
                raise ToolError(f"the planted defect of model {name} was not found")
        elif not ok:
            p = self.save({"model": name, "module": module, "cfg": cfg, "output": out[-20000:]})
            with self.lock:
                self.violations.append((f"model {name}: {m.group(1)}", p))

    def models(self, jobs, par=4):
        """jobs are dictionaries of arguments of model()."""
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(lambda j: self.model(**j), jobs))

    def save(self, obj):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        n = 0
        while os.path.exists(os.path.join(d, f"{self.prop}-{n}.json")):
            n += 1
        p = os.path.join(d, f"{self.prop}-{n}.json")
        with open(p, "w") as f:
            json.dump(obj, f, indent=1)
        return p

    def budget(self):
        """Seconds for running the cases of one family; they are needed only when executions block outside of the hooks."""
        left = (700 if self.quick() else 14000) - (time.time() - self.t0)
        return max(5, min(150 if self.quick() else 4000, left / 2))

    def conform(self, name, lines, profile="dev", module="Trace", invariants=None, consts="", env=None):
        """Runs cases against the real crate and lets TLC decide about the recorded traces."""
        t = time.time()
        binary = build(profile)
        run = run_cases(binary, lines, self.work, name + "-" + profile, timeout=self.budget())
        t1 = time.time()
        inv = invariants or [self.prop]
        n, st, tr, viol = check_traces(run.files, module, inv, consts, extra_env=env)
        self.cov["states"] += st
        self.cov["transitions"] += tr
        self.cov["traces_validated_against_impl"] += n
        self.cov["executions"] += run.execs
        r = random.Random(f"{self.seed}-{name}")
        for f in run.files[:3]:
            with open(f) as fh:
                head = [x for _, x in zip(range(400), fh)]
            for x in r.sample(head, min(2, len(head))):
                t_ = json.loads(x)
                if len(x) < 6000 and len(self.cov["samples"]) < 24:
                    self.cov["samples"].append({"family": name, "build": profile, "case": t_["id"], "schedule": t_["s"][:200],
                                                "events": len(t_["e"]), "trace": t_["e"][:40]})
        self.cov["scheduling_steps"] += run.steps
        self.cov["conformance"].append({"family": name, "build": profile, "cases": len(lines), "executions": run.execs,
                                        "distinct_traces": n, "tlc_states": st, "crashes": run.crashes, "stuck": run.stuck,
                                        "frozen_executions": run.frozen, "schedule_mismatches": run.misses,
                                        "blocked_outside_of_hooks": run.osblocked, "cases_skipped": run.skipped,
                                        "run_s": round(t1 - t, 1), "tlc_s": round(time.time() - t1, 1)})
        if n == 0:
            raise ToolError(f"no traces were recorded for {name}")
        by_id = {}
        for l in lines:
            by_id[re.search(r"\bid=(\S+)", l).group(1)] = l
        for trace, i, pos, tags in viol:
            p = self.save({"property": self.prop, "family": name, "build": profile, "module": module, "invariant": i,
                           "case": by_id.get(trace["id"]), "schedule": trace["s"], "position": pos, "tags": tags,
                           "trace": trace})
            self.violations.append((f"{name}/{profile}: {i} at event {pos} of {trace['id']} tags {{{tags}}} case {by_id.get(trace['id'])}", p))
        return run

    def equivalent(self, name, lines):
        """Runs the same cases in both builds; TLC decides whether the observations agree."""
        t = time.time()
        runs = {}
        for prof in ("dev", "release"):
            runs[prof] = run_cases(build(prof), lines, self.work, f"{name}-{prof}", timeout=self.budget())
        got = {}
        for prof, run in runs.items():
            for f in run.files:
                for x in open(f):
                    d = json.loads(x)
                    got.setdefault(d["id"], {"dev": [], "release": []})[prof].append(d)
        pairs = []

        def obs(e):
            bad = 0
            if e["k"] == "crash":
                bad = 1
            if e["k"] == "fin":
                bad = int(e["df"] > 0 or e["bl"] > 0)
                e = {k: v for k, v in e.items() if k not in ("tb", "lb", "ly")}
            return {"x": json.dumps(e, sort_keys=True), "bad": bad}

        n, loose = 0, 0
        by_id = {re.search(r"\bid=(\S+)", l).group(1): l for l in lines}
        blocked = runs["dev"].osblocked + runs["release"].osblocked > 0
        for i in got:
            a, b = got[i]["dev"], got[i]["release"]
            if blocked and " prog=" in by_id[i]:
                loose += 1      # threads block outside of the hooks: schedules are not reproducible
                continue
            if not a and runs["dev"].skipped or not b and runs["release"].skipped:
                loose += 1
                continue
            for k in range(max(len(a), len(b))):
                x = a[k] if k < len(a) else None
                y = b[k] if k < len(b) else None
                n += 1
                pairs.append(json.dumps({"id": i, "s": (x or y)["s"], "a": [obs(e) for e in x["e"]] if x else [],
                                         "b": [obs(e) for e in y["e"]] if y else []}))
        files = []
        for k in range(NCPU):
            part = pairs[k::NCPU]
            if part:
                p = os.path.join(self.work, f"{name}-pairs-{k}.ndjson")
                open(p, "w").write("\n".join(part) + "\n")
                files.append(p)
        t1 = time.time()
        n, st, tr, viol = check_traces(files, "TraceEq", ["Equivalent"]) if files else (0, 0, 0, [])
        self.cov["states"] += st
        self.cov["transitions"] += tr
        self.cov["traces_validated_against_impl"] += 2 * n
        self.cov["executions"] += runs["dev"].execs + runs["release"].execs
        self.cov["conformance"].append({"family": name, "build": "dev and release", "cases": len(lines), "pairs": n, "not_compared": loose,
                                        "executions": runs["dev"].execs + runs["release"].execs, "tlc_states": st,
                                        "crashes": runs["dev"].crashes + runs["release"].crashes,
                                        "run_s": round(t1 - t, 1), "tlc_s": round(time.time() - t1, 1)})
        for x in pairs[:2]:
            d = json.loads(x)
            self.cov["samples"].append({"family": name, "case": d["id"], "dev": d["a"][:20], "release": d["b"][:20]})
        if n == 0 and not loose:
            raise ToolError(f"no traces were recorded for {name}")
        for trace, i, pos, tags in viol:
            a, b = trace["a"], trace["b"]
            k = next((k for k in range(max(len(a), len(b)))
                      if k >= len(a) or k >= len(b) or a[k]["x"] != b[k]["x"] or a[k]["bad"] or b[k]["bad"]), 0)
            p = self.save({"property": self.prop, "family": name, "module": "TraceEq", "case": by_id.get(trace["id"]),
                           "dev": a[k:k + 1], "release": b[k:k + 1], "trace": trace})
            self.violations.append((f"{name}: dev shows {[x['x'] for x in a[k:k + 1]]}, release shows {[x['x'] for x in b[k:k + 1]]}"
                                    f" case {by_id.get(trace['id'])}", p))

    def finish(self):
        known = known_findings(self.prop)
        real = []
        for what, path in self.violations:
            k = [d for key, d in known if key in what]
            if k:
                print(f"KNOWN-FINDING: property={self.prop} {k[0]}")
            else:
                real.append((what, path))
        self.cov["violations_found"] = len(real)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 1)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, path in real[:5]:
            print(f"# {what[:1500]}")
            print(f"VIOLATION property={self.prop} replay={path}")
        c = self.cov
        print(f"{self.prop} {self.tier}: states={c['states']} traces={c['traces_validated_against_impl']} "
              f"executions={c['executions']} wall={ev['wall_s']}s -> {'VIOLATION' if real else 'ok'}")
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if real else 0
