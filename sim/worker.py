"""Runs plans: a zygote that has imported the real package forks one child per run.

batch:  worker.py batch BUILD CHECK SEED START STRIDE COUNT WALL SCRATCH [VARIANT]
serve:  worker.py serve BUILD SCRATCH        (one plan per line in, one outcome per line out)
"""
import array
import gc
import json
import os
import resource
import select
import signal
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
gc.disable()
import env                                    # noqa: E402
import gen                                    # noqa: E402
from env import ffi, lib, quiesce             # noqa: E402
from oracle import Judge                      # noqa: E402
from world import World, dig                  # noqa: E402

RUN_WALL = 60
RUN_CPU = 20


HISTORIES = {"C03", "C12", "C13", "C14", "C15"}  # what varies there is the history itself


def strip(plan):
    """the plan without its faults"""
    p = dict(plan)
    for k in ("setup", "final"):
        p[k] = [unfault(o) for o in plan.get(k) or []]
    p["threads"] = [[unfault(o) for o in t] for t in plan.get("threads") or []]
    return p


def unfault(op):
    if "f" in op and not ("io" in op["f"] and op["o"] in ("sacf_file", "ds_file")):
        op = {k: v for k, v in op.items() if k != "f"}
    return op


def resolve(plan, recs, trace):
    """turn 'this far through the call' into the exact allocation or event, as counted in the run without faults"""
    at = {(r.th, r.i): r for r in recs}
    for th, ops in [(-1, plan.get("setup") or [])] + list(enumerate(plan.get("threads") or [])) + [(-2, plan.get("final") or [])]:
        for i, op in enumerate(ops):
            f = op.get("f")
            if not f:
                continue
            r = at.get((th, i))
            a = f.get("alloc")
            if a and isinstance(a[0], float):
                n = r.allocs if r else 0
                a[0] = 1 + int(a[0] * n) if n else 0
                if not n:
                    del f["alloc"]
            it = f.get("intr")
            if it and isinstance(it[0], float):
                n = r.events if r else 0
                it[0] = 1 + int(it[0] * n) if n else 0
                if not n:
                    del f["intr"]
            ns = f.get("nest")
            if ns:
                n = r.events if r else 0
                for x in ns:
                    if isinstance(x[0], float):
                        x[0] = 1 + int(x[0] * n) if n else 0
                f["nest"] = ns = [x for x in ns if x[0]]
                if not ns:
                    del f["nest"]
            if not f:
                del op["f"]


def needs_trace_probe(plan):
    return any(o.get("f", {}).get("intr") or o.get("f", {}).get("nest") for t in [plan.get("setup") or [], plan.get("final") or []] + list(plan.get("threads") or []) for o in t)


def fds():
    return len(os.listdir("/proc/self/fd"))


def one(plan, pkg, here, scratch, solo, out, judge=True):
    w = World(plan, pkg, here, scratch)
    w.run()
    tally(w, plan, solo, out, judge)
    return w


def tally(w, plan, solo, out, judge=True):
    if judge:
        j = Judge(plan, w, solo)
        j.run()
        out["checked"] += j.checked
    for k, v in w.stats.items():
        out["stats"][k] = out["stats"].get(k, 0) + v
    out["viol"] += w.viol
    out["preempted"] = out.get("preempted", 0) + len(w.switches)
    for r in w.recs:
        f = r.op.get("f") or {}
        if r.afired:
            out["points"].append("%s alloc %s" % (r.op["o"], f.get("alloc")))
        if r.ifired:
            out["points"].append("%s %s at event %d" % (r.op["o"], f["intr"][1], f["intr"][0]))
        if r.nested:
            out["points"].append("%s calls %s" % (r.op["o"], json.dumps([f.get("nest"), r.op.get("script")], sort_keys=True)))
        if r.gfired:
            out["points"].append("%s gc at %s" % (r.op["o"], f["gc"]))
        if r.io and any(r.io[3:10]):
            out["points"].append("%s io %s" % (r.op["o"], r.io[:10]))
        if r.lazy and (r.lazy[0] or r.lazy[2]):
            out["points"].append("%s input %s" % (r.op["o"], json.dumps(r.op.get("script"), sort_keys=True)))
    out["steps"] += w.blocks + w.yields + w.pyevents + sum(r.allocs for r in w.recs) + len(w.recs)
    out["ops"] += sum(r.st != "skip" for r in w.recs)


def execute(plan, pkg, here, scratch, stage=None):
    out = {"viol": [], "stats": {}, "checked": 0, "steps": 0, "ops": 0, "points": []}
    solo = {}
    digs = []
    mode = plan.get("mode", "plain")
    if plan.get("probe") and stage != "rest":
        p = strip(plan)
        if needs_trace_probe(plan):
            p["probe_trace"] = True
        w = one(p, pkg, here, scratch, solo, out)
        digs.append(w.digest())
        resolve(plan, w.recs, plan.get("trace"))
        out.setdefault("preempted", 0)
        if stage == "probe":
            return dict(out, resolved=plan, digest=digs[0], sched=w.sched_hash, yields=w.yields, switches=w.switches, fired=0)
        w = None
    if mode == "leak":
        try:
            import pypyjit
            pypyjit.set_param("off")  # what it compiles later is not the package's
        except ImportError:
            pass
        gauges = ("native allocations", "file descriptors", "interpreter objects", "bytes in use by malloc", "threads")
        rows = [array.array("q", [0] * 12) for _ in gauges]
        info = ffi.new("uint64_t[2]")

        def grew(a, b):
            return [c for c, g in enumerate(rows) if all(g[k + 1] > g[k] for k in range(a, b - 1))]
        n = 0
        for total in (5, 10):  # what seems to grow has to go on growing
            while n < total:
                w = one(plan, pkg, here, scratch, solo, out, judge=n == 0)
                if n == 0:
                    digs.append(w.digest())
                    sched_hash, yields = w.sched_hash, w.yields
                w = None
                solo.clear()
                quiesce()
                if n:
                    rows[2][n] = len(gc.get_objects())
                rows[0][n] = int(lib.shim_live_count())
                rows[1][n] = fds()
                lib.shim_malloc_info(info)
                rows[3][n] = int(info[0]) + int(info[1])
                rows[4][n] = len(os.listdir("/proc/self/task"))
                n += 1
            bad = grew(1, n)
            if not bad:
                break
        for c in bad:
            out["viol"].append({"cls": "leak", "msg": "the same history, repeated, retains more each time: %s %s" % (gauges[c], list(rows[c][1:n]))})
        out["stats"]["repetitions"] = n
        digs.append(repr([x - rows[0][1] for x in rows[0][1:n]]))
    else:
        w = one(plan, pkg, here, scratch, solo, out)
        digs.append(w.digest())
        sched_hash, yields = w.sched_hash, w.yields
        if mode == "twice":
            p2 = dict(plan, heap=plan["heap2"])
            w2 = one(p2, pkg, here, scratch, solo, out)
            digs.append(w2.digest())
            for a, b in zip(w.recs, w2.recs):
                if (a.st, a.exc, repr(a.val)) != (b.st, b.exc, repr(b.val)):
                    out["viol"].append({"cls": "memory", "msg": "the outcome of op %d %s depends on what memory held before: %s / %s" % (
                        a.i, {k: v for k, v in a.op.items() if k != "f"}, repr(a.val if a.st == "ok" else a.exc)[:300], repr(b.val if b.st == "ok" else b.exc)[:300])})
                    break
        w.heap_check()
        for v in w.viol:
            if v not in out["viol"]:
                out["viol"].append(v)
        out["switches"] = w.switches
    out["digest"] = dig(digs)
    out["sched"] = sched_hash
    out["yields"] = yields
    fired = sum(v for k, v in out["stats"].items() if k.startswith("fault_"))
    out["fired"] = fired
    return out


def child(plan, pkg, here, scratch, fd, stage=None):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (RUN_CPU, RUN_CPU + 5))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    try:
        if plan.get("end"):
            ending(plan, pkg, here, scratch, fd)
        out = execute(plan, pkg, here, scratch, stage)
        if out["viol"]:
            out["plan"] = plan
    except Ending:
        raise
    except BaseException as e:
        import traceback
        out = {"error": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-3000:]}
    hand_in(out, fd)
    os._exit(0)


class Ending(BaseException):
    """leads out to the top of the program, which ends the way the plan has it"""


def ending(plan, pkg, here, scratch, fd):
    """a run in which the process ends for real; what the exit handlers found is handed in last of all"""
    w = World(plan, pkg, here, scratch)

    def report():
        out = {"viol": [], "stats": {}, "checked": 0, "steps": 0, "ops": 0, "points": []}
        try:
            w.heap_check()
            tally(w, plan, {}, out)
            out.update(digest=dig([w.digest()]), sched=w.sched_hash, yields=w.yields, switches=w.switches,
                       fired=sum(v for k, v in out["stats"].items() if k.startswith("fault_")))
            if out["viol"]:
                out["plan"] = plan
        except BaseException as e:
            import traceback
            out = {"error": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-3000:]}
        hand_in(out, fd)
    w.run()
    w.end(report)
    raise Ending(plan["end"]["how"], plan["end"].get("status", 0))


def hand_in(out, fd, end=b""):
    data = json.dumps(out).encode() + end
    while data:
        try:
            n = os.write(fd, data)
        except BrokenPipeError:  # nobody wants it any more
            os._exit(0)
        data = data[n:]


COLD = None  # to and from a process in which no call of the package has been made yet


def cold_process(pkg, here, scratch):
    global COLD, RESULTS
    ar, aw = os.pipe()
    br, bw = os.pipe()
    if os.fork() == 0:
        os.close(aw)
        os.close(br)
        RESULTS = bw
        os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
        with os.fdopen(ar) as plans:
            for line in plans:
                hand_in(run_cold(json.loads(line), pkg, here, scratch), bw, b"\n")
        os._exit(0)
    os.close(ar)
    os.close(bw)
    COLD = os.fdopen(aw, "w"), os.fdopen(br)


def run_cold(plan, pkg, here, scratch):
    """the run without faults needs a process of its own, or the calls that matter would not be the first ones"""
    if not plan.get("probe"):
        return run_plan(plan, pkg, here, scratch)
    a = run_plan(plan, pkg, here, scratch, "probe")
    if a["viol"] if "error" not in a else True:
        return a
    b = run_plan(a["resolved"], pkg, here, scratch, "rest")
    if "error" not in b:
        for k in ("checked", "steps", "ops"):
            b[k] += a[k]
        for k, v in a["stats"].items():
            b["stats"][k] = b["stats"].get(k, 0) + v
        b["digest"] = dig([a["digest"], b["digest"]])
    return b


def run_any(plan, pkg, here, scratch):
    if not plan.get("cold"):
        return run_plan(plan, pkg, here, scratch)
    COLD[0].write(json.dumps(plan) + "\n")
    COLD[0].flush()
    line = COLD[1].readline()
    if not line:
        return {"error": "the process that no call was made in ended", "tb": ""}
    return json.loads(line)


def run_plan(plan, pkg, here, scratch, stage=None):
    r, w = os.pipe()
    er = os.open(os.path.join(scratch, "printed"), os.O_CREAT | os.O_RDWR | os.O_APPEND, 0o600)  # what is printed
    os.unlink(os.path.join(scratch, "printed"))
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.dup2(er, 1)
        os.dup2(er, 2)
        os.close(er)
        child(plan, pkg, here, scratch, w, stage)
    os.close(w)
    buf = b""
    end = time.monotonic() + RUN_WALL
    hung = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        d = os.read(r, 1 << 16)
        if not d:
            break
        buf += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    n = os.fstat(er).st_size
    err = os.pread(er, 4000, max(0, n - 4000))
    os.close(er)
    e = plan.get("end") or {}
    status = {"exit": e.get("status", 0), "exception": 1}.get(e.get("how"), 0)
    if buf and not hung and os.WIFEXITED(st) and os.WEXITSTATUS(st) == status:
        out = json.loads(buf)
        if e and n and "error" not in out:
            out["viol"].append({"cls": "end", "msg": "printed while the process ended: " + err.decode("utf-8", "replace")[-300:]})
            out["plan"] = plan
        return out
    err = err.decode("utf-8", "replace")[-600:]
    if hung:
        v = {"cls": "hang", "msg": "no progress: the run never finished"}
    elif os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s == signal.SIGKILL:
            return {"error": "child killed (out of memory?)", "tb": err}
        if s == signal.SIGXCPU:
            v = {"cls": "hang", "msg": "no progress: the run used up its processor time"}
        else:
            v = {"cls": "crash", "msg": "the process died of signal %d: %s" % (s, err)}
    elif os.WEXITSTATUS(st) == 91:
        v = {"cls": "budget", "msg": "a call went on past any bound its settings justify: " + err}
    elif os.WEXITSTATUS(st) == 92:
        v = {"cls": "deadlock", "msg": "the calls wait for each other: " + err}
    elif e and buf:
        v = {"cls": "end", "msg": "the process ended with status %d, not %d: %s" % (os.WEXITSTATUS(st), status, err)}
    else:
        v = {"cls": "crash", "msg": "the process ended with status %d: %s" % (os.WEXITSTATUS(st), err)}
    return {"viol": [v], "stats": {}, "checked": 0, "steps": 0, "ops": 0, "digest": v["cls"], "sched": 0, "yields": 0, "fired": 0,
            "points": [], "preempted": 0, "plan": plan, "crashed": True}


def warm(pkg, here, scratch):
    """have the caches of the interpreter and the bindings filled before the first fork"""
    for i in range(6):
        for c in ("C01", "C03", "C13", "C08", "C11"):
            try:
                p = gen.plan(c, "warm", i)
                p["heap"] = {"fill": 0, "seed": 0, "quarantine": 0}
                for t in p["threads"]:
                    p["setup"] += t
                p["threads"] = []
                p.pop("numpy", None)
                if any(o.get("how") == "numpy" for o in p["setup"]):
                    continue
                w = World(p, pkg, here, scratch)
                w.run()
                Judge(p, w).run()
            except Exception:
                pass
            w = None
    quiesce()


def cover(here):
    """have the basic blocks of an instrumented build recorded in memory the children share"""
    mods = {}
    with open("/proc/self/maps") as fh:
        lines = fh.readlines()
    for line in lines:
        f = line.split()
        if len(f) > 5 and f[5].startswith(here) and f[5].endswith(".so"):
            a, b = (int(x, 16) for x in f[0].split("-"))
            lo, hi = mods.get(f[5], (a, b))
            mods[f[5]] = (min(a, lo), max(b, hi))
    names = sorted(mods)[:2]
    for m, n in enumerate(names):
        lib.shim_cov_init(m, *mods[n])
        lib.shim_modules(m, *mods[n])
    return [os.path.basename(n).split(".")[0] for n in names]


def blocks(cov):
    out = []
    buf = ffi.new("uint64_t[]", 1 << 16)
    for m, n in enumerate(cov):
        k = min(int(lib.shim_cov_read(m, buf, 1 << 16)), 1 << 16)
        out += ["%s+%x" % (n, buf[i]) for i in range(k)]
    return out


def main():
    mode, build = sys.argv[1], sys.argv[2]
    if mode == "batch":
        check, seed, start, stride, count, wall, scratch = sys.argv[3], sys.argv[4], *[int(x) for x in sys.argv[5:8]], float(sys.argv[8]), sys.argv[9]
    else:
        scratch = sys.argv[3]
    pkg, here = env.load(build)
    cov = cover(here)
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    cold_process(pkg, here, scratch)
    # warming up must not be able to bring the zygote down: try it in a child first
    pid = os.fork()
    if pid == 0:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
        warm(pkg, here, scratch)
        os._exit(0)
    _, st = os.waitpid(pid, 0)
    if st == 0:
        warm(pkg, here, scratch)
    global RESULTS
    RESULTS = os.dup(1)
    o = os.fdopen(RESULTS, "w")  # whatever the package prints goes elsewhere
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    if mode == "serve":
        for line in sys.stdin:
            o.write(json.dumps(run_any(json.loads(line), pkg, here, scratch)) + "\n")
            o.flush()
        return
    t0 = time.monotonic()
    agg = {"runs": 0, "stats": {}, "checked": 0, "steps": 0, "ops": 0, "yields": 0, "fired_runs": 0, "digests": [], "scheds": [], "errors": []}
    points = set()
    verbose = os.environ.get("SIM_DIGESTS")
    found = 0
    i = start
    end = start + stride * count
    sample = None
    while i < end and time.monotonic() - t0 < wall:
        plan = gen.plan(check, seed, i)
        txt = dig(json.dumps(plan)) if verbose else None
        r = run_any(plan, pkg, here, scratch)
        if "error" in r:
            agg["errors"].append([i, r["error"], r.get("tb", "")])
            if len(agg["errors"]) > 3:
                break
        else:
            agg["runs"] += 1
            for k, v in r["stats"].items():
                agg["stats"][k] = agg["stats"].get(k, 0) + v
            for k in ("checked", "steps", "ops", "yields"):
                agg[k] += r[k]
            agg["fired_runs"] += bool(r["fired"])
            if r["checked"] >= 2 and (r["fired"] or r["preempted"] or check in HISTORIES):
                agg["digests"].append(r["digest"])
            if r["preempted"]:
                agg["scheds"].append(r["sched"])
            points.update(dig(x) for x in r["points"])
            if verbose:
                o.write(json.dumps({"d": [i, txt, r["digest"]]}) + "\n")
            if sample is None and r["ops"] > 3 and len(json.dumps(plan)) < 4000:
                sample = plan
            if r["viol"]:
                found += 1
                o.write(json.dumps({"v": {"i": i, "viol": r["viol"], "plan": r["plan"], "switches": r.get("switches")}}) + "\n")
                o.flush()
                if found >= 3:
                    break
        i += stride
    agg["points"] = sorted(points)
    agg["blocks"] = blocks(cov)
    agg["next"] = i
    agg["sample"] = sample
    agg["wall"] = time.monotonic() - t0
    o.write(json.dumps({"done": agg}) + "\n")
    o.flush()


if __name__ == "__main__":
    how, status = "return", 0
    try:
        main()
    except Ending as e:
        how, status = e.args
        os.dup2(os.open(os.devnull, os.O_WRONLY), RESULTS)  # the lines still unwritten are the parent's to write
    if how == "exception":
        sys.excepthook = lambda *a: None
        raise RuntimeError("not caught by the program")
    if how == "exit":
        sys.exit(status)
