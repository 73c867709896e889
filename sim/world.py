"""Executes a plan: real package, simulated heap, files, schedule, garbage collection and interrupts.

A plan is plain JSON and decides everything.  The outcome is the list of records (one per operation), the violations found
by comparing them with the reference model, a digest of the whole execution, and counters."""
import array
import atexit
import builtins
import copy
import errno
import gc
import hashlib
import logging
import os
import pickle
import random
import resource
import signal
import stat
import sys
import threading
import warnings

import model
from env import ffi, lib, quiesce, INTERRUPTS, InputFault, SimGC, AT_END

FAST = "fast"


def dig(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


class Rec:
    __slots__ = ("th", "i", "op", "inv", "ret", "st", "val", "exc", "msg", "allocs", "afired", "ifired", "events", "io", "got",
                 "gfired", "lazy", "nested", "forked")

    def __init__(self, th, i, op):
        self.th, self.i, self.op = th, i, op
        self.st = "skip"
        self.nested = 0
        self.forked = None
        self.val = self.exc = self.msg = self.io = self.got = self.lazy = None
        self.allocs = self.afired = self.ifired = self.events = self.gfired = 0
        self.inv = self.ret = 0

    def key(self):
        return (self.th, self.i, self.op["o"], self.st, self.exc, dig(self.val) if self.st == "ok" else None, self.inv,
                self.ret, self.allocs, self.afired, self.ifired, self.events, self.gfired, self.io)


class Skip(Exception):
    pass


class Ctx(threading.local):
    cur = None
    injected = None


class LazySeq:
    """A caller-supplied sequence: reading it may yield, raise, mutate itself, or call back into the package."""

    def __init__(self, world, vals, script):
        self.w, self.vals, self.script = world, vals, {int(k): v for k, v in (script or {}).items()}
        self.n = 0
        self.hist = [{_key(v)} for v in vals]
        self.lens = {len(vals)}
        self.raised = 0
        self.mutated = 0
        self.cont = None  # a real list of live numbers, when the sequence itself is an ordinary one

    def as_list(self):
        self.cont = [LazyNum(self, v) for v in self.vals]
        return self.cont

    def note(self):
        for i, v in enumerate(self.vals):
            if i >= len(self.hist):
                self.hist.append(set())
            self.hist[i].add(_key(v))
        self.lens.add(len(self.vals))

    def change(self, kind, a, b):
        if kind == "append":
            self.vals.append(a)
            if self.cont is not None:
                self.cont.append(LazyNum(self, a))
        elif kind == "pop" and self.vals:
            self.vals.pop()
            if self.cont is not None:
                self.cont.pop()
        elif kind == "set" and self.vals:
            self.vals[a % len(self.vals)] = b
            if self.cont is not None:
                self.cont[a % len(self.vals)] = LazyNum(self, b)
        elif kind == "clear":
            del self.vals[:]
            if self.cont is not None:
                del self.cont[:]
        self.mutated += 1
        self.note()

    def step(self):
        self.n += 1
        lib.shim_yield(2)
        ev = self.script.get(self.n)
        if ev is None:
            return
        kind = ev[0]
        self.w.count("fault_input_" + kind)
        if kind == "raise":
            self.raised += 1
            raise INPUT_ERRORS[ev[1]]("injected")
        if kind == "reenter":
            self.w.reenter()
        elif kind == "nest":
            self.w.nest(self.w.ctx.cur, ev[1])
        elif kind == "gc":
            gc.collect()
        else:
            self.change(kind, ev[1] if len(ev) > 1 else None, ev[2] if len(ev) > 2 else None)

    def __len__(self):
        self.step()
        return len(self.vals)

    def __getitem__(self, i):
        self.step()
        return self.vals[i]

    def __repr__(self):
        self.step()
        return "LazySeq"


class LazyNum:
    def __init__(self, seq, v):
        self.seq, self.v = seq, v

    def __float__(self):
        self.seq.step()
        return self.v

    def __repr__(self):
        self.seq.step()
        return "LazyNum"


INPUT_ERRORS = {"InputFault": InputFault, "OSError": OSError, "ValueError": ValueError, "TypeError": TypeError,
                "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "StopIteration": StopIteration,
                "IndexError": IndexError}


def _key(v):
    return "nan" if v != v else v


def cycle(io, n):
    """whether the pattern of answers repeats: not when it makes no progress, or next to none for a text of n"""
    ev = io.get("ev") or []
    if not io.get("cycle") or not ev:
        return 0
    if any(k in (3, 6) for k, _ in ev):
        return 1
    per = sum({1: a, 2: 0}.get(k, 4096) for k, a in ev)
    return 1 if per and n / per * len(ev) < 100000 else 0


class World:
    def __init__(self, plan, pkg, here, scratch):
        self.plan, self.pkg, self.here, self.scratch = plan, pkg, here, scratch
        self.ds_mod, self.co_mod = pkg.datastructure, pkg.correlator
        self.slots = {}
        self.inputs = {}
        self.lazies = []
        self.seq = 0
        self.recs = []
        self.stats = {}
        self.viol = []
        self.ctx = Ctx()
        self.trace = plan.get("trace", "none")
        self.files = 0
        self.threads, self.errors = [], []
        self.pyevents = 0
        self.blocks = 0

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def bad(self, cls, msg):
        self.viol.append({"cls": cls, "msg": msg[:1500]})

    # ------------------------------------------------------------------------------------------ seams

    def tracer(self, frame, event, arg):
        r = self.ctx.cur
        if r is None or not frame.f_code.co_filename.startswith(self.here):
            return None
        if self.trace == "opcode":
            frame.f_trace_opcodes = True
        r.events += 1
        f = r.op.get("f") or {}
        b = r.op.get("budget")
        if b and r.events > b[1]:
            os.write(2, b"SIM-BUDGET events\n")
            os._exit(91)
        g = f.get("gc")
        if g and r.events in g:
            gc.collect()
            r.gfired += 1
        for at, ops in f.get("nest") or ():
            if r.events == at:
                self.nest(r, ops)
        it = f.get("intr")
        if it and r.events == it[0]:
            r.ifired += 1
            self.ctx.injected = INTERRUPTS[it[1]]("injected")
            raise self.ctx.injected
        lib.shim_yield(1)
        return self.tracer

    def nest(self, r, ops):
        """calls made from inside a call, on its own thread: a signal handler, a finaliser, a live input"""
        if r is None:
            return
        lib.shim_op_push()
        self.ctx.cur = None
        try:
            for op in ops:
                r.nested += 1
                lib.shim_yield(1)
                self.run_op(r.th, 1000 * (r.i + 1) + r.nested, op, nested=True)
        finally:
            self.ctx.cur = r
            lib.shim_op_pop()
        self.count("fault_nested_call", len(ops))

    def fork(self, op, r):
        """a child process carries on from here with some calls of its own; the parent hears how they went"""
        rd, wr = os.pipe()
        base = self.seq
        pid = os.fork()
        if pid == 0:
            code = 93
            try:
                signal.alarm(25)
                os.close(rd)
                self.recs, self.viol, self.stats = [], [], {}
                for k, c in enumerate(op["ops"]):
                    self.run_op(r.th, 1000 * (r.i + 1) + k, c, nested=True)
                self.heap_check()
                out = [[x.i, x.inv - base, x.ret - base, x.st, x.val, x.exc, x.msg, x.allocs, x.afired, x.io, x.got] for x in self.recs]
                data = pickle.dumps((out, self.viol, self.stats))
                while data:
                    data = data[os.write(wr, data):]
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        data = b""
        while True:
            d = os.read(rd, 1 << 16)
            if not d:
                break
            data += d
        os.close(rd)
        _, st = os.waitpid(pid, 0)
        self.count("fault_fork")
        if st != 0:
            self.bad("fork", "a forked child making the calls %s %s" % (
                [o["o"] for o in op["ops"]], "never finished" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else
                "died of signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else
                "waits for ever for what a thread of its parent held" if os.WEXITSTATUS(st) == 92 else "ended with status %d" % os.WEXITSTATUS(st)))
            return None
        out, viol, stats = pickle.loads(data)
        ops = dict((1000 * (r.i + 1) + k, c) for k, c in enumerate(op["ops"]))
        for i, inv, ret, stt, val, exc, msg, allocs, afired, io, got in out:
            x = Rec(r.th, i, ops[i])
            x.inv, x.ret, x.st, x.val, x.exc, x.msg, x.allocs, x.afired, x.io, x.got = base + inv, base + ret, stt, val, exc, msg, allocs, afired, io, got
            x.forked = r
            self.recs.append(x)
        self.seq = base + 2 * len(ops) + 2
        self.viol += [dict(v, msg="in a forked child: " + v["msg"]) for v in viol]
        for k, v in stats.items():
            self.count(k, v)
        return len(out)

    def reenter(self):
        s = self.pkg.SACF([0.0, 1.0, 2.0, 4.0], [1.0, -2.0, 3.0, 0.5])
        r = s.autocorrelation()
        if len(r[0]) != 9:
            self.bad("model", "a call made from inside another call returned %d lags, not 9" % len(r[0]))

    def container(self, how, vals, script=None, name=None):
        if how == "tuple":
            c = tuple(vals)
        elif how == "array":
            c = array.array("d", vals)
        elif how == "numpy":
            import numpy
            c = numpy.array(vals, dtype=float)
        elif how in ("lazy", "elems"):
            q = LazySeq(self, list(vals), script)
            self.lazies.append((name, q))
            c = q if how == "lazy" else q.as_list()
            self.inputs.setdefault(name, q)
            return c
        elif how == "ints":
            c = [int(v) if v == v and abs(v) < 2 ** 50 and v == int(v) else v for v in vals]
        else:
            c = list(vals)
        if name:
            self.inputs[name] = c
        return c

    def args(self, op):
        """positional inputs of a construction"""
        d = self.plan["data"][op["data"]]
        how = op.get("how", "list")
        sc = op.get("script") or {}
        key = op["to"]
        t = self.container(how, d["t"], sc.get("t"), key + ".t")
        two = d.get("two", len(d["rows"]) != 1)

        def rows(rr, tag):
            if not two:
                return self.container(how, rr[0], sc.get(tag), key + "." + tag + "0")
            inner = [self.container(how, r, sc.get(tag + str(j)), key + "." + tag + str(j)) for j, r in enumerate(rr)]
            if how == "numpy" and len({len(r) for r in rr}) == 1:
                import numpy
                c = numpy.array(rr, dtype=float)
                self.inputs[key + "." + tag] = c
                return c
            return inner if how != "tuple" else tuple(inner)
        a = [t, rows(d["rows"], "v")]
        if d.get("errs"):
            a.append(rows(d["errs"], "e"))
        return a

    def get(self, name):
        o = self.slots.get(name)
        if o is None:
            raise Skip()
        return o

    # ------------------------------------------------------------------------------------- operations

    def do(self, op, r):
        o = op["o"]
        if o == "sacf":
            a = self.args(op)
            if op.get("kwargs"):
                kw = dict(zip(("timeseries", "values", "errors"), a))
                self.slots[op["to"]] = self.pkg.SACF(**kw)
            else:
                self.slots[op["to"]] = self.pkg.SACF(*a)
            return None
        if o == "ds":
            self.slots[op["to"]] = self.ds_mod.DataStructure(*self.args(op))
            return None
        if o in ("sacf_file", "ds_file"):
            return self.load(op, r)
        if o == "acf":
            s = self.get(op["on"])
            out = s.autocorrelation(**op["kw"])
            if op["kw"].get("return_correlator"):
                if op.get("to"):
                    self.slots[op["to"]] = out[2]
                out = (out[0], out[1])
            if op.get("keep"):
                self.slots[op["keep"]] = out
            if op.get("vandal"):  # the caller owns what it was given
                keep = ([x for x in out[0]], [x if not isinstance(x, list) else list(x) for x in out[1]])
                vandalise(out[0])
                vandalise(out[1])
                out = keep
            return out
        if o == "sum":
            s = self.get(op["on"])
            d = s.data if hasattr(s, "autocorrelation") else s
            out = {"data": d.data(), "errors": d.errors(), "timeseries": d.timeseries(),
                   "normalised_timeseries": d.normalised_timeseries(), "normalised_data": d.normalised_data(),
                   "mean_data": d.mean_data, "median_time": d.median_time, "max_time": d.max_time,
                   "N_datasets": d.N_datasets, "M_datapoints": d.M_datapoints}
            if op.get("vandal"):
                keep = {k: ([list(x) if isinstance(x, list) else x for x in v] if isinstance(v, list) else v)
                        for k, v in out.items()}
                for v in out.values():
                    vandalise(v)
                out = keep
            return out
        if o == "c_new":
            s = self.get(op["on"])
            self.slots[op["to"]] = self.co_mod.Correlator(s.data if hasattr(s, "autocorrelation") else s)
            return None
        if o == "c_set":
            setattr(self.get(op["on"]), op["attr"], op["val"])
            return None
        if o == "c_get":
            c = self.get(op["on"])
            return {k: getattr(c, k) for k in ("max_lag", "min_lag", "lag_resolution", "alpha", "M_datapoints", "N_datasets")}
        if o == "c_src":
            c = self.get(op["on"])
            return (c.normalised_timeseries(), c.values())
        if o == "c_calc":
            self.get(op["on"]).calculateStandardCorrelation()
            return None
        if o == "c_find":
            self.pkg.SACF.find_correlation(self.get(op["on"]), op["sel"], op["w"])
            return None
        if o == "c_setup":
            self.pkg.SACF.set_up_correlation(self.get(op["on"]), **op["kw"])
            return None
        if o == "c_read":
            c = self.get(op["on"])
            out = (c.lag_timeseries(), c.correlations())
            if op.get("vandal"):
                keep = (list(out[0]), [list(x) for x in out[1]])
                vandalise(out[0])
                vandalise(out[1])
                out = keep
            return out
        if o == "c_lags":
            return self.get(op["on"]).lag_timeseries()
        if o == "c_rows":
            return self.get(op["on"]).correlations()
        if o == "c_clear":
            self.get(op["on"]).clearCorrelation()
            return None
        if o == "c_clean":
            self.get(op["on"]).cleanCorrelationData(op["n"])
            return None
        if o == "c_wf":
            c = self.get(op["on"])
            return getattr(c, WF[op["w"]])(op["x"])
        if o == "it_new":
            c = self.get(op["on"])
            it = self.co_mod.CorrelationIterator(op["k"], c.N_datasets)
            if "setk" in op:
                it.k = op["setk"]
            self.slots[op["to"]] = it
            return None
        if o == "it_step":
            c, it = self.get(op["on"]), self.get(op["it"])
            s = op["step"]
            if s == "sel":
                (c.fastSelectionFunctionIdx if op.get("sel") == FAST else c.naturalSelectionFunctionIdx)(it)
            elif s == "dt":
                c.deltaT(it)
            elif s == "w":
                getattr(c, GW[op["w"]])(it)
            elif s == "corr":
                c.findCorrelation(it)
                return list(it.correlation)
            elif s == "add":
                c.addCorrelationData(it, op["i"])
            return None
        if o == "held":
            v = self.get(op["on"])
            return ([x for x in v[0]], [x if not isinstance(x, list) else list(x) for x in v[1]])
        if o == "drop":
            self.slots.pop(op["slot"], None)
            return None
        if o == "gc":
            for _ in range(op.get("n", 1)):
                gc.collect()
            return None
        if o == "churn":  # reuse freed memory
            v = [self.ds_mod.DataStructure([0.0, 1.0, 2.0 + i], [float(i), 7.0, -3.0]) for i in range(op.get("n", 4))]
            return len(v)
        if o == "redata":  # the object gets another dataset
            d = self.get(op["from"])
            self.get(op["on"]).data = getattr(d, "data") if isinstance(d, self.pkg.SACF) else d
            return None
        if o == "copy":
            self.slots[op["to"]] = copy.copy(self.get(op["on"]))
            return None
        if o == "mutate":
            c = self.inputs.get(op["name"])
            if c is None:
                raise Skip()
            mutate_input(c, op)
            return None
        if o == "bogus":
            return self.bogus(op)
        if o == "wild":
            return self.wild(op)
        if o == "fork":
            return self.fork(op, r)
        raise AssertionError("unknown operation " + o)

    def wild(self, op):
        """stepwise calls in any order, with any iterator"""
        c = self.get(op["on"])
        k = op["k"]
        if k == "it":
            self.slots[op["to"]] = self.co_mod.CorrelationIterator(op["lag"], op["n"])
            return None
        it = self.get(op["it"])
        if k == "add":
            return c.addCorrelationData(it, op["i"])
        if k == "clean":
            return c.cleanCorrelationData(op["i"])
        if k == "clear":
            return c.clearCorrelation()
        if k == "calc":
            return c.calculateStandardCorrelation()
        if k == "read":
            return (c.lag_timeseries(), c.correlations())
        if k == "setk":
            it.k = op["lag"]
            return it.k
        if k == "attrs":
            return (it.k, it.correlation, it.shifted_timeseries, it.selection_indices, it.delta_t, it.weights)
        getattr(c, {"nat": "naturalSelectionFunctionIdx", "fast": "fastSelectionFunctionIdx", "dt": "deltaT", "w": GW["fractional"],
                    "w2": GW["gaussian"], "w3": GW["fractional_squared"], "corr": "findCorrelation"}[k])(it)
        return None

    def bogus(self, op):
        """calls that must fail, leaving nothing behind"""
        k = op["k"]
        if k == "empty":
            self.pkg.SACF([], [])
        elif k == "uneven":
            self.pkg.SACF([0.0, 1.0, 2.0], [1.0, 2.0])
        elif k == "ragged":
            self.pkg.SACF([0.0, 1.0, 2.0], [[1.0, 2.0, 3.0], [1.0, 2.0]])
        elif k == "badtype":
            self.pkg.SACF([0.0, "x"], [1.0, 2.0])
        elif k == "none":
            self.pkg.SACF()
        elif k == "missing":
            self.pkg.SACF(filename=os.path.join(self.scratch, "no-such-file"))
        elif k == "baderr":
            self.pkg.SACF([0.0, 1.0, 2.0], [1.0, 2.0, 3.0], [1.0])
        elif k == "badrepr":
            self.pkg.SACF([0.0, 1.0], [BadRepr(), 1.0])
        elif k == "nonfile":
            self.pkg.SACF(filename=self.scratch)
        elif k == "selname":
            self.get(op["on"]).autocorrelation(selection_function="no such")
        elif k == "wname":
            self.get(op["on"]).autocorrelation(weight_function="no such")
        elif k == "res":
            self.get(op["on"]).autocorrelation(lag_resolution=op.get("res", 0.0), weight_function=op.get("w", "fractional"))
        elif k == "argtype":
            self.get(op["on"]).autocorrelation(max_lag="three")
        elif k == "alpha":
            self.get(op["on"]).autocorrelation(alpha="wide")

    def load(self, op, r):
        lib.shim_own(1)
        try:
            return self._load(op, r)
        finally:
            lib.shim_own(0)

    def _load(self, op, r):
        f = self.plan["files"][op["file"]]
        name = f.get("name", "data%d.txt" % op["file"])
        path = os.path.join(self.scratch, name)
        given = path
        kind = f.get("kind", "file")
        if kind == "file":
            with open(path, "wb") as fh:
                fh.write(f["text"].encode("latin-1"))
            if f.get("when"):
                os.utime(path, (f["when"], f["when"]))
        elif kind == "dir":
            os.makedirs(path, exist_ok=True)
        elif kind == "cut":  # no file has a name with a zero in it; the part before it is that of another
            with open(path, "wb") as fh:
                fh.write(b"1 2\n2 3\n4 7\n")
            given = path + "\0.txt"
        io = (op.get("f") or {}).get("io") or {}
        ev = io.get("ev") or []
        arr = ffi.new("IoEvent[]", max(1, len(ev)))
        for i, (k, a) in enumerate(ev):
            arr[i].kind, arr[i].a = k, a
        app = io.get("append", "").encode("latin-1")
        if f.get("rel"):  # named as seen from another directory
            was = os.getcwd()
            d = os.path.join(self.scratch, f["rel"])
            os.makedirs(d, exist_ok=True)
            os.rename(path, os.path.join(d, name))
            os.chdir(d)
            path, given = os.path.join(d, name), name
        lib.shim_io_arm(path.encode(), len(ev), arr, cycle(io, len(f.get("text") or "")), 1 if io.get("openfail") else 0,
                        io.get("openfail", 0), io.get("pipe", 0), app, len(app))
        loc = io.get("locale")
        if loc and lib.shim_setlocale(loc[0].encode(), loc[1]):
            self.count("fault_locale")
        try:
            lib.shim_own(0)
            o = self.pkg.SACF(filename=given) if op["o"] == "sacf_file" else self.ds_mod.DataStructure(given)
            self.slots[op["to"]] = o
        finally:
            lib.shim_own(1)
            if loc:
                lib.shim_setlocale(b"C", 3)
            out = ffi.new("uint64_t[11]")
            lib.shim_io_stats(out)
            r.io = [int(x) for x in out]
            buf = ffi.new("char[]", int(out[10]) + 1)
            if out[10]:
                lib.shim_io_got(buf)
            r.got = ffi.buffer(buf, int(out[10]))[:].decode("latin-1")
            lib.shim_io_disarm()
            if self.plan.get("watch") and kind == "file" and not (r.io[6] or r.io[7]):
                with open(path, "rb") as fh:
                    if fh.read() != f["text"].encode("latin-1"):
                        self.bad("state", "loading changed the data file itself")
            if kind == "dir":
                os.rmdir(path)
            elif kind in ("file", "cut") and os.path.exists(path):
                os.unlink(path)
            if f.get("rel"):
                os.chdir(was)
                os.rmdir(d)
        return None

    def run_op(self, th, i, op, nested=False):
        r = Rec(th, i, op)
        f = op.get("f") or {}
        if op.get("ifmissing") and op["to"] in self.slots:
            return r
        self.seq += 1
        r.inv = self.seq
        al = f.get("alloc") or [0, 0, 0, 0]
        b = op.get("budget") or [0, 0, 0]
        traced = not nested and bool(f.get("intr") or f.get("nest") or b[1]) or (not nested and self.trace != "none" and bool(th >= 0 or f.get("gc") or self.plan.get("probe_trace")))
        out = ffi.new("long[4]")
        watch = self.plan.get("watch")
        if watch:
            before = (state(1), self.snapshot() if th < 0 else None)
        self.ctx.cur = r
        if traced:
            sys.settrace(self.tracer)
        lib.shim_op_begin(al[0], al[1], al[2], al[3], b[0], b[2] if len(b) > 2 else 0, b[3] if len(b) > 3 else 0)
        try:
            v = self.do(op, r)
            lib.shim_op_end(out)
            r.st, r.val = "ok", v
        except Skip:
            lib.shim_op_end(out)
            r.st = "skip"
        except BaseException as e:
            lib.shim_op_end(out)
            r.st, r.exc, r.msg = "exc", type(e).__name__, str(e)[:200]
            if r.ifired and e is not self.ctx.injected and r.exc == type(self.ctx.injected).__name__:
                r.exc, r.msg = "another " + r.exc, r.msg
            e.__traceback__ = None
            e.__context__ = None
        finally:
            if traced:
                sys.settrace(None)
            self.ctx.cur = self.ctx.injected = None
        if watch:
            self.unchanged(before, (state(1), self.snapshot() if th < 0 else None), "%s of %s" % (r.st, {k: v for k, v in op.items() if k != "f"}))
        r.allocs, r.afired = int(out[0]), int(out[1])
        self.blocks += int(out[2])
        if op.get("how") in ("lazy", "elems"):
            mine = [(n[len(op["to"]) + 1:], q) for n, q in self.lazies if n.rsplit(".", 1)[0] == op["to"]]
            # (a read raised, some input changed its length, how often any changed, what each input ever held)
            r.lazy = (sum(q.raised for _, q in mine), any(len(q.lens) > 1 for _, q in mine), sum(q.mutated for _, q in mine),
                      {n: (set(q.lens), [set(h) for h in q.hist]) for n, q in mine})
        self.pyevents += r.events
        if r.afired:
            self.count("fault_alloc")
        if r.ifired:
            self.count("fault_interrupt")
        if r.gfired:
            self.count("fault_gc_in_call", r.gfired)
        if r.io:
            for k, n in (("short_read", 1), ("eintr", 2), ("read_error", 3), ("truncate", 4), ("append", 5), ("early_eof", 6), ("open_error", 7)):
                if r.io[2 + n]:
                    self.count("fault_" + k, r.io[2 + n])
            self.count("io_reads", r.io[1])
            if ((op.get("f") or {}).get("io") or {}).get("pipe"):
                self.count("loads_from_a_pipe")
        self.seq += 1
        r.ret = self.seq
        self.recs.append(r)
        return r

    # ------------------------------------------------------------------------------- the process itself

    def snapshot(self):
        """what belongs to the process and not to the package"""
        s = state(0)
        s["automatic collection"] = gc.isenabled()
        s["collection thresholds"] = repr(gc.get_threshold()) if hasattr(gc, "get_threshold") else ""
        s["working directory"] = os.getcwd()
        m = os.umask(0)
        os.umask(m)
        s["umask"] = m
        s["environment"] = dict(os.environ)
        s["recursion limit"] = sys.getrecursionlimit()
        s["switch interval"] = sys.getswitchinterval()
        s["random state"] = dig(random.getstate())
        s["warning filters"] = list(warnings.filters)
        s["python signal handlers"] = [signal.getsignal(i) for i in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE, signal.SIGSEGV, signal.SIGPIPE,
                                                                     signal.SIGUSR1, signal.SIGCHLD)]
        s["interval timer"] = signal.getitimer(signal.ITIMER_REAL)
        s["module search path"] = list(sys.path)
        s["standard streams"] = [id(x) for x in (sys.stdin, sys.stdout, sys.stderr, sys.excepthook, sys.displayhook, threading.excepthook)]
        s["float and int"] = [sys.getdefaultencoding(), sys.getfilesystemencoding()]
        d = os.getcwd()
        s["files"] = sorted((x,) + about(os.path.join(d, x)) for d in {d, self.scratch} for x in os.listdir(d))
        for x in (sys.stdout, sys.stderr):
            if x is not None and not x.closed:
                x.flush()
        s["output"] = os.fstat(1).st_size, os.fstat(2).st_size
        s["file descriptors"] = sorted((int(x), link(x)) for x in os.listdir("/proc/self/fd"))
        s["resource limits"] = [resource.getrlimit(getattr(resource, x)) for x in sorted(dir(resource)) if x.startswith("RLIMIT_")]
        s["scheduling"] = [os.getpriority(os.PRIO_PROCESS, 0), os.getpgrp(), os.getuid(), os.getgid(), os.nice(0)]
        s["stack size of new threads"] = threading.stack_size()
        s["hooks"] = [id(x) for x in (sys.unraisablehook, builtins.__import__, builtins.print, builtins.open)]
        s["logging"] = [logging.root.level, logging.root.disabled, logging.root.manager.disable, [id(x) for x in logging.root.handlers], logging.raiseExceptions]
        s["trace function"] = (sys.gettrace() is None, sys.getprofile() is None, threading._trace_hook is None)
        return s

    def unchanged(self, a, b, after):
        for x, y in zip(a, b):
            if x is not None and x != y:
                for k in x:
                    if x[k] != y.get(k):
                        u, v = repr(x[k]), repr(y.get(k))
                        self.bad("state", "after %s the %s of the %s is %s and was %s" % (after, k, "thread" if x is a[0] else "process", v[:300], u[:300]))
                        return

    def surroundings(self, e):
        """the process the package finds itself in"""
        for k, v in e.items():
            if k == "locale":
                if lib.shim_setlocale(v[0].encode(), v[1]):
                    self.count("fault_locale")
            elif k == "gc":
                SimGC.on = v
            elif k == "umask":
                os.umask(v)
            elif k == "cwd":
                d = os.path.join(self.scratch, v)
                os.makedirs(d, exist_ok=True)
                os.chdir(d)
            elif k == "recursion":
                sys.setrecursionlimit(v)
            elif k == "switch":
                sys.setswitchinterval(v)
            elif k == "warn":
                warnings.simplefilter(v)
            elif k == "environ":
                os.environ.update(v)
            elif k == "seed":
                random.seed(v)
            elif k == "signal":
                for n in v:
                    signal.signal(n, handler)
            elif k == "float":
                lib.shim_fenv(*v)
            elif k == "timer":
                signal.setitimer(signal.ITIMER_REAL, 0)

    # ------------------------------------------------------------------------------------------ running

    def run(self):
        try:
            self.play()
        finally:
            lib.shim_fenv(0, 0)

    def play(self):
        p = self.plan
        accesses = int(lib.shim_accesses())
        h = p.get("heap") or {}
        lib.shim_heap_config(h.get("fill", 0), h.get("seed", 0), h.get("quarantine", 0))
        self.surroundings(p.get("env") or {})
        for i, op in enumerate(p.get("setup") or []):
            self.run_op(-1, i, op)
        th = p.get("threads") or []
        self.switches = []
        self.sched_hash = 0
        self.yields = 0
        if th:
            before = (state(1), self.snapshot()) if p.get("watch") else None
            self.run_threads(th, p.get("sched") or {}, p.get("end"))
            if before:
                self.unchanged(before, (state(1), self.snapshot()), "overlapping calls of %d callers" % len(th))
        if p.get("end"):
            return  # the rest happens while the process ends
        for i, op in enumerate(p.get("final") or []):
            self.run_op(-2, i, op)
        self.close(accesses)

    def close(self, accesses=0):
        self.count("heap_accesses_checked", int(lib.shim_accesses()) - accesses)
        if lib.shim_spawned():
            self.count("native_threads", int(lib.shim_spawned()))

    def end(self, judge):
        """arrange for the calls made while the process ends"""
        p = self.plan
        e = p["end"]
        ops = list(enumerate(p.get("final") or []))
        k = min(e.get("split", 0), len(ops))
        joins = [t for t in self.threads if not t.daemon]

        def calls(some):
            for i, op in some:
                self.run_op(-2, i, op)

        def shutdown():
            if joins or not self.threads:
                lib.shim_thread_exit()
                for t in self.threads:
                    t.join()

        def first():
            calls(ops[k:])
            lib.shim_sched_halt()
            if self.errors:
                raise RuntimeError("harness thread failed: " + self.errors[0])
            if self.threads:
                self.account()
            self.close()
            judge()
        AT_END.update(shutdown=shutdown, first=first)
        atexit.register(calls, ops[:k])
        self.count("fault_process_end")
        self.count("threads_inside_calls_at_the_end", sum(t.is_alive() for t in self.threads))

    def run_threads(self, th, s, end=None):
        n = len(th) + (1 if end else 0)
        lst = s.get("list")
        if lst is not None:
            at = ffi.new("uint64_t[]", max(1, len(lst)))
            to = ffi.new("int[]", max(1, len(lst)))
            for i, (a, b) in enumerate(lst):
                at[i], to[i] = a, b
            lib.shim_sched_init(n, 1, 0, 0, len(lst), at, to)
        else:
            z = ffi.new("uint64_t[1]")
            y = ffi.new("int[1]")
            lib.shim_sched_init(n, 0, s.get("seed", 0), int(s.get("p", 0.05) * 1e6), 0, z, y)
        err = []

        def body(tid, ops):
            lib.shim_thread_enter(tid)
            try:
                for i, op in enumerate(ops):
                    lib.shim_yield(0)
                    self.run_op(tid, i, op)
            except BaseException as e:  # a defect of the harness, not of the code under test
                err.append(repr(e))
            finally:
                sys.settrace(None)
                lib.shim_thread_exit()
        self.threads = ts = [threading.Thread(target=body, args=(i, ops), daemon=bool(end and end["daemon"])) for i, ops in enumerate(th)]
        self.errors = err
        for t in ts:
            t.start()
        if end:  # the main thread is one of those scheduled, and ends the process when it has its turn
            threading.Thread(target=lib.shim_sched_start, daemon=True).start()
            lib.shim_thread_enter(n - 1)
            for _ in range(end.get("delay", 0)):
                lib.shim_yield(0)
            return
        lib.shim_sched_start()
        for t in ts:
            t.join()
        if err:
            raise RuntimeError("harness thread failed: " + err[0])
        self.account()

    def account(self):
        self.yields = int(lib.shim_yields())
        self.sched_hash = int(lib.shim_sched_hash())
        cap = 1 << 16
        at = ffi.new("uint64_t[]", cap)
        to = ffi.new("int[]", cap)
        k = min(int(lib.shim_sched_log(at, to, cap)), cap)
        self.switches = [[int(at[i]), int(to[i])] for i in range(k)]
        self.count("preemptions", k)
        self.count("nogil_regions", int(lib.shim_nogil_regions()))

    def digest(self):
        return dig([r.key() for r in self.recs] + [self.sched_hash, self.yields, [v["cls"] for v in self.viol]])

    def heap_check(self):
        buf = ffi.new("char[]", 2048)
        if lib.shim_heap_check(buf, 2048):
            self.bad("memory", "heap: " + ffi.string(buf).decode())


def about(path):
    i = os.lstat(path)
    return (i.st_size, i.st_mode) + ((i.st_ino, i.st_mtime_ns, i.st_uid) if stat.S_ISREG(i.st_mode) else ())


def state(thread):
    buf = ffi.new("char[]", 8192)
    lib.shim_state(thread, buf, 8192)
    return dict(x.split("=", 1) for x in ffi.string(buf).decode("latin-1").splitlines() if "=" in x)


def link(x):
    try:
        return os.readlink("/proc/self/fd/" + x)
    except OSError:  # the one the listing itself used
        return ""


def handler(*a):
    pass


WF = {"fractional": "fractionWeightFunction", "fractional_squared": "fractionSquaredWeightFunction", "gaussian": "gaussianWeightFunction"}
GW = {"fractional": "getFractionWeights", "fractional_squared": "getFractionSquaredWeights", "gaussian": "getGaussianWeights"}


class BadRepr:
    def __repr__(self):
        raise InputFault("repr")


def vandalise(v):
    if isinstance(v, list):
        for i in range(len(v)):
            if isinstance(v[i], list):
                vandalise(v[i])
            else:
                v[i] = -12345.0
        v.append(-1.0)


def mutate_input(c, op):
    k = op["kind"]
    if isinstance(c, LazySeq):
        if k in ("set", "append", "pop", "clear"):
            c.change(k, op["i"] if k == "set" else op.get("val"), op.get("val"))
        return
    try:
        if k == "set" and len(c):
            c[op["i"] % len(c)] = op["val"]
        elif k == "append":
            c.append(op["val"])
        elif k == "pop" and len(c):
            c.pop()
        elif k == "clear":
            del c[:]
        elif k == "reverse":
            c.reverse()
        elif k == "scale":
            for i in range(len(c)):
                c[i] = c[i] * 3 + 1
    except (TypeError, AttributeError, ValueError):
        pass
