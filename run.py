#!/usr/bin/env python3
"""Deterministic simulation of joshbriegal/sacf: builds the real package, runs seeded plans, minimises and reports.

  run.py setup                          build the simulator core and the package
  run.py check ID                       VERIF_SEED, VERIF_TIER decide the runs; exit 0 held, 1 violated, 2 no answer
  run.py replay FILE                    re-executes a replay file; exit 1 when it still violates
  run.py determinism [IDS] [COUNT]      every seed twice, in different processes; exit 1 when any digest differs
"""
import hashlib
import json
import os
import resource
import select
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SACF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
SIM = os.path.join(HERE, "sim")
PYPY = "/opt/venv-pypy/bin/python"
sys.path.insert(0, HERE)


class NoAnswer(Exception):
    pass


# ------------------------------------------------------------------------------------------------------------- building

def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def sources():
    """what the build reads: the working tree without the tests, the build products and git"""
    out = []
    for top in ("setup.py", "setup.cfg", "MANIFEST.in", "readme.md", "requirements.txt", "LICENSE"):
        if os.path.isfile(os.path.join(REPO, top)):
            out.append(top)
    for d, ds, fs in os.walk(os.path.join(REPO, "sacf")):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if not f.endswith((".so", ".pyc")):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return out


def tree_key(files):
    h = hashlib.sha256((WRAP + CHECKED_FLAGS).encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def file_key(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        import fcntl
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def base_env():
    e = {k: v for k, v in os.environ.items() if k in ("HOME", "LANG", "TMPDIR")}
    e.update(HOME="/root", LANG="C.UTF-8", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", PYTHONDONTWRITEBYTECODE="1",
             PIP_NO_INDEX="1")
    return e


CHECKED_FLAGS = ("-D_GLIBCXX_ASSERTIONS -fsanitize-coverage=trace-pc -ftrivial-auto-var-init=pattern "
                 # every load and store of the heap is put to the simulator, which knows what is live
                 "-fsanitize=kernel-address --param asan-instrumentation-with-call-threshold=0 --param asan-stack=1 --param asan-globals=1 -fasan-shadow-offset=0x7fff8000 "
                 "--param asan-kernel-mem-intrinsic-prefix=1 -D_GLIBCXX_SANITIZE_STD_ALLOCATOR=1 -D_GLIBCXX_SANITIZE_VECTOR=1")
WRAP = """#!/bin/bash
# the simulator's compiler: as the project's build calls it, with extra flags (and without the forced compatibility header
# outside the binding files, as on an interpreter that needs none)
bind=0; cxx=0
for a in "$@"; do case "$a" in *_bindings.cpp) bind=1 ;; *.cpp) cxx=1 ;; esac; done
out=()
skip=0
for a in "$@"; do
  if [ $skip = 1 ]; then skip=0; continue; fi
  if [ %d = 0 ] && [ $bind = 0 ] && [ $cxx = 1 ] && [ "$a" = "-include" ]; then skip=1; continue; fi
  out+=("$a")
done
extra=()
[ $cxx = 1 ] || [ $bind = 1 ] && extra=(%s)
exec /usr/bin/g++ "${out[@]}" "${extra[@]}"
"""


def build_package(flavour):
    """official: exactly the project's build.  checked: standard library assertions, library sources without the compat header."""
    files = sources()
    key = tree_key(files)
    dst = os.path.join(BUILD, "pkg-%s-%s" % (key, flavour))
    with Lock("pkg-" + flavour):
        if os.path.exists(os.path.join(dst, ".ok")):
            os.utime(dst)
            return dst, key
        old = sorted((d for d in os.listdir(BUILD) if d.startswith("pkg-") and d.endswith("-" + flavour) and os.path.isdir(os.path.join(BUILD, d))),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-6]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        attempts = [flavour]
        if flavour == "checked":
            attempts.append("checked-compat")
        log = ""
        for a in attempts:
            shutil.rmtree(dst, ignore_errors=True)
            for f in files:
                t = os.path.join(dst, f)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copy2(os.path.join(REPO, f), t)
            env = base_env()
            env["CXXFLAGS"] = "-I/usr/include/pypy3.9 -include /opt/vp/compat/pypy_compat.h"
            env["PYTHONPATH"] = dst
            if flavour == "checked":
                w = os.path.join(dst, ".wrap")
                os.makedirs(w)
                with open(os.path.join(w, "g++"), "w") as fh:
                    fh.write(WRAP % (a == "checked-compat", CHECKED_FLAGS))
                os.chmod(os.path.join(w, "g++"), 0o755)
                env["PATH"] = w + ":" + env["PATH"]
            rc, log = sh([PYPY, "setup.py", "build_ext", "--inplace"], cwd=dst, env=env)
            if rc == 0:
                shutil.rmtree(os.path.join(dst, "build"), ignore_errors=True)
                with open(os.path.join(dst, ".ok"), "w") as fh:
                    fh.write(a)
                return dst, key
        raise NoAnswer("the package does not build:\n" + log[-3000:])


def build_core():
    src = os.path.join(SIM, "shim.cpp")
    dst = os.path.join(BUILD, "shim-%s.so" % file_key(src))
    with Lock("core"):
        if not os.path.exists(dst):
            rc, log = sh(["g++", "-O2", "-std=c++17", "-fPIC", "-shared", "-w", "-o", dst + ".tmp", src, "-ldl", "-lpthread"], env=base_env())
            if rc:
                raise NoAnswer("the simulator core does not build:\n" + log[-3000:])
            os.rename(dst + ".tmp", dst)
        loc = os.path.join(BUILD, "locale")
        if not os.path.exists(os.path.join(loc, "de_DE.UTF-8")):
            os.makedirs(loc, exist_ok=True)
            sh(["localedef", "-c", "-i", "de_DE", "-f", "UTF-8", os.path.join(loc, "de_DE.UTF-8")], env=base_env())
    return dst, loc


# -------------------------------------------------------------------------------------------------------------- running

def scratch_root():
    r = os.path.join(BUILD, "scratch")
    os.makedirs(r, exist_ok=True)
    return tempfile.mkdtemp(prefix="r", dir=r)


class Sim:
    """what the workers need"""

    def __init__(self, flavours=("official",)):
        self.core, self.locale = build_core()
        out = [None] * len(flavours)
        err = []

        def go(i, f):
            try:
                out[i] = build_package(f)
            except Exception as e:
                err.append(e)
        ts = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(flavours)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if err:
            raise err[0]
        self.builds = {f: o[0] for f, o in zip(flavours, out)}
        self.key = out[0][1]
        self.tmp = scratch_root()

    def env(self, hashseed="0"):
        e = base_env()
        e.update(LD_PRELOAD=self.core, LOCPATH=self.locale, PYTHONHASHSEED=hashseed, PYPY_GC_NURSERY="1MB", PYTHONDONTWRITEBYTECODE="1",
                 SIM_DIGESTS=os.environ.get("SIM_DIGESTS", ""))
        return e

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def spawn(self, args, hashseed="0", **kw):
        return subprocess.Popen([PYPY, os.path.join(SIM, "worker.py")] + [str(a) for a in args], env=self.env(hashseed), cwd=self.tmp,
                                stdout=subprocess.PIPE, **kw)


WORKERS = 8
# runs per tier, wall cap per tier (seconds), share of the runs that use the build with library assertions
CHECKS = {
    "C01": (4200, 0.25), "C02": (5600, 0.5), "C03": (3200, 0.25), "C04": (4000, 0.25), "C05": (3600, 0.25),
    "C06": (640, 0.0), "C07": (6000, 0.25), "C08": (5000, 0.25), "C09": (7000, 0.25), "C10": (2000, 0.25),
    "C11": (4400, 0.25), "C12": (5000, 0.5), "C13": (5600, 0.25), "C14": (4600, 0.25), "C15": (6000, 0.5), "C16": (3600, 0.25),
    "C17": (4000, 0.25), "C18": (1600, 0.25), "C19": (2400, 0.25), "C20": (3000, 0.25),
}
THOROUGH_WALL = 3000


def flavour_of(check, w):
    """which build run i uses depends on i modulo 8 only"""
    share = CHECKS[check][1]
    return "checked" if (w % WORKERS) * 1.0 / WORKERS >= 1 - share and share else "official"


class Server:
    """a fresh process that executes plans on demand"""

    def __init__(self, sim, flavour, hashseed="0"):
        self.p = sim.spawn(["serve", sim.builds[flavour], tempfile.mkdtemp(prefix="s", dir=sim.tmp)], hashseed, stdin=subprocess.PIPE)

    def run(self, plan):
        self.p.stdin.write(json.dumps(plan).encode() + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise NoAnswer("the simulator process ended")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.stdout.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()


def batch(sim, check, seed, start, count, wall, hashseed="0", workers=WORKERS, onviol=None):
    """runs start..start+count-1 over the workers; returns (aggregate, violations, digests)"""
    procs = []
    for w in range(workers):
        n = len(range(start + w, start + count, workers))
        if not n:
            continue
        args = ["batch", sim.builds[flavour_of(check, start + w)], check, seed, start + w, workers, n, wall, os.path.join(sim.tmp, "w%d" % w)]
        procs.append((w, sim.spawn(args, hashseed)))
    agg = {"runs": 0, "stats": {}, "checked": 0, "steps": 0, "ops": 0, "yields": 0, "fired_runs": 0, "digests": set(), "scheds": set(),
           "errors": [], "points": set(), "blocks": set(), "samples": [], "complete": True}
    viols, digs, lost = [], {}, []
    lock = threading.Lock()
    stop = threading.Event()

    def reader(w, p):
        done = False
        for line in p.stdout:
            d = json.loads(line)
            with lock:
                if "v" in d:
                    viols.append(dict(d["v"], flavour=flavour_of(check, d["v"]["i"])))
                    stop.set()
                elif "d" in d:
                    digs[d["d"][0]] = d["d"][1:]
                elif "done" in d:
                    a = d["done"]
                    done = True
                    for k in ("runs", "checked", "steps", "ops", "yields", "fired_runs"):
                        agg[k] += a[k]
                    for k, v in a["stats"].items():
                        agg["stats"][k] = agg["stats"].get(k, 0) + v
                    for k in ("digests", "scheds", "points", "blocks"):
                        agg[k].update(a[k])
                    agg["errors"] += a["errors"]
                    if a["sample"]:
                        agg["samples"].append(a["sample"])
                    if a["next"] < start + count:
                        agg["complete"] = False
        p.wait()
        if not done and not stop.is_set():
            lost.append((w, p.returncode))
            stop.set()
    ts = [threading.Thread(target=reader, args=x, daemon=True) for x in procs]
    for t in ts:
        t.start()
    while any(t.is_alive() for t in ts):
        if stop.wait(0.2):
            time.sleep(1.0)  # let the others finish a line
            for _, p in procs:
                if p.poll() is None:
                    p.terminate()
            break
    for t in ts:
        t.join(20)
    for _, p in procs:
        if p.poll() is None:
            p.kill()
    if lost and not viols:
        raise NoAnswer("a simulator process ended early: %s" % lost)
    return agg, viols, digs


# ----------------------------------------------------------------------------------------------------------- minimising

def ops_of(plan):
    return [plan.get("setup") or []] + list(plan.get("threads") or []) + [plan.get("final") or []]


def uses_file(plan, fi):
    t = json.dumps(ops_of(plan))
    return '"file": %d,' % fi in t or '"file": %d}' % fi in t


def size(plan):
    return sum(map(len, ops_of(plan)))


def clone(p):
    return json.loads(json.dumps(p))


def settings(plan):
    """the calls a budget presupposes"""
    return json.dumps([o for s in ops_of(plan) for o in s if o["o"] in ("c_setup", "c_set")])


class Minimiser:
    def __init__(self, srv, plan, classes, budget):
        self.srv, self.best, self.classes, self.end = srv, plan, set(classes), time.monotonic() + budget
        self.tried = 0
        self.last = None
        self.budget = None

    def out(self):
        return time.monotonic() > self.end

    def test(self, plan):
        if self.out() or (self.budget and settings(plan) != settings(self.best)):
            return False
        self.tried += 1
        r = self.srv.run(plan)
        if "error" in r:
            return False
        if any(v["cls"] in self.classes and (v["cls"] != "budget" or v["msg"] == self.budget) for v in r["viol"]):
            self.best, self.last = plan, r
            return True
        return False

    def ddmin(self, get, put):
        """shrink one list of the plan"""
        n = 2
        items = get(self.best)
        while len(items) >= 1 and not self.out():
            step = max(1, len(items) // n)
            hit = False
            k = 0
            while k < len(items) and not self.out():
                cand = items[:k] + items[k + step:]
                p = clone(self.best)
                put(p, cand)
                if self.test(p):
                    items = cand
                    hit = True
                else:
                    k += step
            if step == 1 and not hit:
                break
            if step > 1:
                n *= 2

    def run(self):
        r = self.srv.run(self.best)
        self.last = r
        self.budget = next((v["msg"] for v in r.get("viol") or () if v["cls"] == "budget"), None)
        # no preemption at all?
        if self.best.get("threads"):
            p = clone(self.best)
            p["sched"] = {"list": []}
            self.test(p)
        for key in ("final", "setup"):
            self.ddmin(lambda p: p.get(key) or [], lambda p, v: p.__setitem__(key, v))
        for t in range(len(self.best.get("threads") or [])):
            self.ddmin(lambda p: p["threads"][t], lambda p, v: p["threads"].__setitem__(t, v))
        self.ddmin(lambda p: p.get("setup") or [], lambda p, v: p.__setitem__("setup", v))
        # faults, one at a time
        for li in range(len(ops_of(self.best))):
            for oi in range(len(ops_of(self.best)[li])):
                op = ops_of(self.best)[li][oi]
                for k in ("f", "script", "vandal", "kwargs", "budget"):
                    if op.get(k):
                        p = clone(self.best)
                        q = ops_of(p)[li][oi]
                        q.pop(k)
                        if k == "script":
                            q["how"] = "list"
                        self.test(p)
                ev = ((op.get("f") or {}).get("io") or {}).get("ev")
                if ev:
                    self.ddmin(lambda p: ((ops_of(p)[li][oi].get("f") or {}).get("io") or {}).get("ev") or [],
                               lambda p, v: ops_of(p)[li][oi]["f"]["io"].__setitem__("ev", v))
                if (op.get("f") or {}).get("nest"):
                    self.ddmin(lambda p: (ops_of(p)[li][oi].get("f") or {}).get("nest") or [],
                               lambda p, v: ops_of(p)[li][oi]["f"].__setitem__("nest", v))
                    for k in range(len((ops_of(self.best)[li][oi].get("f") or {}).get("nest") or [])):
                        self.ddmin(lambda p: ops_of(p)[li][oi]["f"]["nest"][k][1], lambda p, v: ops_of(p)[li][oi]["f"]["nest"][k].__setitem__(1, v))
                if op.get("ops"):
                    self.ddmin(lambda p: ops_of(p)[li][oi]["ops"], lambda p, v: ops_of(p)[li][oi].__setitem__("ops", v))
                for k in sorted(op.get("kw") or {}) if not op.get("budget") else ():  # a budget goes with its settings
                    p = clone(self.best)
                    ops_of(p)[li][oi]["kw"].pop(k, None)
                    self.test(p)
        # data: fewer points, fewer rows
        for di in range(len(self.best.get("data") or [])):
            for _ in range(8 if not any(o.get("budget") for s in ops_of(self.best) for o in s) else 0):
                d = self.best["data"][di]
                n = len(d["t"])
                if n <= 2 or self.out():
                    break
                p = clone(self.best)
                m = max(2, n // 2)
                for rows in [p["data"][di]["rows"]] + ([p["data"][di]["errs"]] if d.get("errs") else []):
                    rows[:] = [x[:m] for x in rows]
                p["data"][di]["t"] = d["t"][:m]
                if not self.test(p):
                    break
            if self.best["data"][di].get("errs"):
                p = clone(self.best)
                p["data"][di]["errs"] = None
                self.test(p)
        for fi in range(len(self.best.get("files") or [])):
            def put(p, v):
                p["files"][fi]["text"] = "\n".join(v)
            if uses_file(self.best, fi) and len(self.best["files"][fi]["text"]) > 1:
                self.ddmin(lambda p: p["files"][fi]["text"].split("\n"), put)
        # an explicit schedule, with as few switches as possible
        if self.best.get("threads") and not (self.best.get("sched") or {}).get("list") == []:
            sw = (self.last or {}).get("switches")
            if sw is not None:
                p = clone(self.best)
                p["sched"] = {"list": sw}
                if self.test(p):
                    self.ddmin(lambda p: p["sched"]["list"], lambda p, v: p["sched"].__setitem__("list", v))
        p = clone(self.best)
        p.pop("env", None) if not p.get("watch") else None
        used = json.dumps(ops_of(p))
        for di, d in enumerate(p.get("data") or []):
            if '"data": %d,' % di not in used and '"data": %d}' % di not in used:
                p["data"][di] = {"t": [], "rows": [[]]}
        for fi, f in enumerate(p.get("files") or []):
            if not uses_file(p, fi):
                p["files"][fi] = {"text": ""}
        self.test(p)
        return self.best, self.last


# ------------------------------------------------------------------------------------------------------- known findings

def known(check):
    """lines 'finding: property=<id> class=<class> contains=<text>'"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % check):
                rest = line.split(" ", 2)[2].strip()
                cls, _, text = rest.partition(" contains=")
                out.append((cls.replace("class=", ""), text))
    return out


def is_known(kf, v):
    return any(v["cls"] == c and t in v["msg"] for c, t in kf)


# --------------------------------------------------------------------------------------------------------------- checks

def check(pid):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    base = CHECKS[pid][0]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    sim = Sim(("official", "checked"))
    built = time.monotonic() - t0
    kf = known(pid)
    try:
        if tier == "thorough":
            count, wall = int(base * 400 * scale), float(os.environ.get("VERIF_WALL", THOROUGH_WALL))
        else:
            count, wall = int(base * scale), 300.0
        t1 = time.monotonic()
        agg, viols, _ = batch(sim, pid, seed, 0, count, wall)
        ran = time.monotonic() - t1
        if agg["errors"]:
            print("ERROR the harness failed in run %s: %s\n%s" % tuple(agg["errors"][0]))
            return 2
        seen_known = set()
        for v in list(viols):
            for x in v["viol"]:
                if is_known(kf, x):
                    seen_known.add((x["cls"], x["msg"][:200]))
            v["viol"] = [x for x in v["viol"] if not is_known(kf, x)]
        for c, t in sorted(kf):
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, c, t))
        viols = [v for v in viols if v["viol"]]
        report = None
        unreproduced = 0
        for v in viols[:3]:
            report = confirm(sim, pid, tier, seed, v)
            if report:
                break
            unreproduced += 1
        if not report and unreproduced:
            solid = [v for v in viols if not all(x["cls"] == "hang" for x in v["viol"])]
            if solid:
                report = save(sim, pid, seed, solid[0], solid[0]["plan"], solid[0]["viol"], "seen in %d runs of the batch; a fresh process did not repeat it" % len(solid))
            else:
                print("NOTE %d runs exceeded their time and did not do so again" % unreproduced)
        evidence(sim, pid, tier, seed, agg, built, ran, time.monotonic() - t0, 1 if report else 0, unreproduced)
        if report:
            path, vs = report
            print("%s: %s" % (vs[0]["cls"], vs[0]["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("%s: %d runs, %d judged operations, held" % (pid, agg["runs"], agg["checked"]))
        return 0
    finally:
        sim.close()


def confirm(sim, pid, tier, seed, v):
    srv = Server(sim, v["flavour"])
    try:
        classes = [x["cls"] for x in v["viol"]]
        r = None
        for _ in range(2):
            r = srv.run(v["plan"])
            if "error" not in r and any(x["cls"] in classes for x in r["viol"]):
                break
        else:
            return None
        got = [x for x in r["viol"] if x["cls"] in classes]
        if set(classes) == {"hang"}:
            return save(sim, pid, seed, v, v["plan"], got, "")
        plan = r.get("plan") or v["plan"]
        m = Minimiser(srv, plan, classes, 120 if tier == "thorough" else 25)
        plan, last = m.run()
        again = srv.run(plan)
        vs = [x for x in again.get("viol") or [] if x["cls"] in classes]
        if not vs:
            plan, vs = v["plan"], got
        return save(sim, pid, seed, v, plan, vs, "%d candidates tried while minimising; %d operations left of %d" % (m.tried, size(plan), size(v["plan"])))
    finally:
        srv.close()


def save(sim, pid, seed, v, plan, vs, note):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d.json" % (pid, seed, v["i"]))
    with open(path, "w") as fh:
        json.dump({"property": pid, "seed": seed, "run": v["i"], "build": v["flavour"], "tree": sim.key, "violations": vs, "note": note,
                   "replay": "python3 run.py replay %s" % path, "plan": plan}, fh, indent=1)
    return path, vs


RULES = {
    "faults": "One case is one simulated run of a generated plan on the real package. It counts when at least two operations were judged and a fault fired or a "
              "thread was preempted; two runs are distinct when the digest of everything observed (values bit for bit, exceptions, order, event and allocation counts) differs.",
    "histories": "One case is one simulated run of a generated history on the real package. It counts when at least two operations were judged; two runs are distinct "
                 "when the digest of everything observed (values bit for bit, exceptions, order, event and allocation counts) differs.",
}
HISTORIES = {"C03", "C12", "C13", "C14", "C15"}


def evidence(sim, pid, tier, seed, agg, built, ran, wall, nviol, unreproduced):
    faults = {k[6:]: v for k, v in sorted(agg["stats"].items()) if k.startswith("fault_")}
    hours = max(ran, 0.001) / 3600
    ev = {
        "property": pid, "tier": tier, "seed": int(seed) if str(seed).lstrip("-").isdigit() else 0, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(agg["digests"]),
            "rule": RULES["histories" if pid in HISTORIES else "faults"],
            "samples": agg["samples"][:3],
            "operations_judged": agg["checked"],
            "runs_per_hour": int(agg["runs"] / hours), "seeds_per_hour": int(agg["runs"] / hours),
            "simulated_steps": agg["steps"],
            "simulated_time": "the package has no clock; simulated time is counted in steps: scheduling points, interpreter events and allocations inside calls",
            "faults_injected": faults, "runs_with_a_fault": agg["fired_runs"], "distinct_fault_points": len(agg["points"]),
            "preemptions": agg["stats"].get("preemptions", 0), "scheduling_points": agg["yields"], "distinct_interleavings": len(agg["scheds"]),
            "calls_into_the_kernel_without_the_interpreter_lock": agg["stats"].get("nogil_regions", 0),
            "loads_and_stores_checked_against_the_live_heap": agg["stats"].get("heap_accesses_checked", 0),
            "distinct_basic_blocks_reached": len(agg["blocks"]), "native_threads_started_by_the_package": agg["stats"].get("native_threads", 0),
            "complete": agg["complete"], "unreproduced": unreproduced,
            "builds": {f: open(os.path.join(b, ".ok")).read() for f, b in sim.builds.items()},
            "real": ["sacf (Python)", "sacf.correlator (C++)", "sacf.datastructure (C++)", "vendored pybind11", "PyPy", "libstdc++ file streams"],
            "simulated": ["heap (malloc, operator new)", "thread scheduling", "open/read of data files", "garbage collection points",
                          "delivery of interrupts", "process locale", "threading locks", "calls nested in calls", "fork points"],
        },
        "assumptions": ["threads switch at interpreter events inside the package, at reads of caller-supplied inputs and between calls, as the interpreter lock allows",
                        "the reference model in sim/model.py states the intended result"],
        "wall_s": round(wall, 1), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)


def replay(path):
    with open(path) as fh:
        r = json.load(fh)
    sim = Sim((r["build"],))
    try:
        srv = Server(sim, r["build"])
        out = srv.run(r["plan"])
        srv.close()
        if "error" in out:
            print("ERROR", out["error"], out.get("tb"))
            return 2
        same = [(x["cls"], x["msg"]) for x in out["viol"]] == [(x["cls"], x["msg"]) for x in r["violations"]]
        for x in out["viol"]:
            print("%s: %s" % (x["cls"], x["msg"]))
        if out["viol"]:
            print("the recorded violation, exactly" if same else "a violation, not word for word the recorded one")
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        print("no violation")
        return 0
    finally:
        sim.close()


def determinism(ids, count):
    os.environ["SIM_DIGESTS"] = "1"
    sim = Sim(("official", "checked"))
    bad = 0
    try:
        for pid in ids:
            seed = os.environ.get("VERIF_SEED", "1")
            a = batch(sim, pid, seed, 0, count, 3000)[2]
            # other processes, another hash seed; the order and the neighbours of each run differ too
            b = {}
            half = count // 16 * 8
            b.update(batch(sim, pid, seed, half, count - half, 3000, hashseed="7")[2])
            b.update(batch(sim, pid, seed, 0, half, 3000, hashseed="7")[2])
            diff = [i for i in a if a[i] != b.get(i)]
            bad += len(diff)
            print("%s: %d runs executed twice, %d differ%s" % (pid, len(a), len(diff), " " + str(sorted(diff)[:10]) if diff else ""), flush=True)
    finally:
        sim.close()
    return 1 if bad else 0


def main(a):
    try:
        if a[:1] == ["setup"]:
            Sim(("official", "checked")).close()
            return 0
        if a[:1] == ["check"]:
            return check(a[1])
        if a[:1] == ["replay"]:
            return replay(a[1])
        if a[:1] == ["determinism"]:
            return determinism(a[1].split(",") if len(a) > 1 else sorted(CHECKS), int(a[2]) if len(a) > 2 else 160)
        print(__doc__)
        return 2
    except NoAnswer as e:
        print("ERROR", e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
