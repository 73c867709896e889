"""Judges a recorded execution against the reference model.

Every operation that ended is judged on its own thread's view; operations on a correlator that several threads share are
judged as a history (some order of the calls, consistent with what returned before what was called, must explain
every observation).  A fault that really fired widens exactly one thing: the operation it hit may fail, never answer wrongly."""
import math

from model import DS, INF, Invalid, lag_grid, parse_file, same, same_list, weight

WKEY = {"fractional": "fractional", "fractional_squared": "fractional_squared", "gaussian": "gaussian"}
ERRNAMES = {"BadDataFileReadException", "EmptyDataStructureException", "BadDataInputException"}


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def settings_of(ds, kw):
    s = ds.settings()
    for k in ("min_lag", "max_lag", "lag_resolution", "alpha"):
        if kw.get(k) is not None:
            s[k] = float(kw[k])
    return s


class Corr:
    """What a correlator must say of itself.  Immutable; apply() gives the next one, or None when the observation is impossible."""
    __slots__ = ("ds", "src", "set", "length", "ent", "valued")

    def __init__(self, ds, set_, length=None, ent=None, valued=True):
        self.ds, self.set = ds, set_
        self.length, self.ent = length, ent if ent is not None else {}
        self.valued = valued

    def key(self):
        return (tuple(sorted((k, repr(v)) for k, v in self.set.items())), self.length,
                tuple(sorted((i, repr(e[0]), e[3]) for i, e in self.ent.items())))

    def with_(self, **kw):
        c = Corr(self.ds, self.set, self.length, self.ent, self.valued)
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def calc(self, sel, w):
        s = self.set
        if math.isinf(s["max_lag"] - s["min_lag"]) and s["max_lag"] - s["min_lag"] > 0 and s["lag_resolution"] != 0:
            raise Invalid("unbounded")
        if s["max_lag"] < s["min_lag"] and s["lag_resolution"] and (s["max_lag"] - s["min_lag"]) / s["lag_resolution"] >= 2 ** 31 - 4:
            raise OverflowError("an empty range that looks long: nothing and a refusal are both fine")
        lags = lag_grid(s["min_lag"], s["max_lag"], s["lag_resolution"])
        ent = {}
        known = sel == "natural" and self.ds.ordered and self.ds.finite
        for i, k in enumerate(lags):
            if known:
                at = self.ds.at_lag(k, s["alpha"], WKEY[w])
                ent[i] = (k, [a for a, _ in at], [t for _, t in at], (w, s["alpha"]))
            else:
                ent[i] = (k, None, None, (sel, w, s["alpha"]))
        return self.with_(length=len(lags), ent=ent)

    def apply(self, op, rec, extra=None):
        """rec: the record, whose failure has been found legitimate already (rec.st 'exc' means: it failed, with no answer)"""
        o = op["o"]
        ok = rec.st == "ok"
        if o == "c_set":
            if not ok:
                return self
            s = dict(self.set)
            s[op["attr"]] = float(op["val"])
            return self.with_(set=s)
        if o == "c_setup":
            if not ok:
                return self.with_(set=dict(self.set))
            s = dict(self.set)
            for k, v in op["kw"].items():
                if v is not None:
                    s[k] = float(v)
            return self.with_(set=s)
        if o in ("c_calc", "c_find"):
            sel, w = ("natural", "fractional") if o == "c_calc" else (op["sel"], op["w"])
            try:
                n = self.calc(sel, w)
            except Invalid:
                n = None
            except OverflowError:
                return self.with_(length=None, ent={})
            if ok:
                return n  # None: it had to raise
            if n is not None and not fault(rec):
                return None  # it had no reason to raise
            return self.with_(length=None, ent={})
        if o == "wild" or (not ok and o in ("c_clear", "c_clean", "it_step")):
            return self.with_(length=None, ent={})
        if not ok:
            return self
        if o == "c_clear":
            return self.with_(length=0, ent={})
        if o == "c_clean":
            return self.with_(length=op["n"], ent={i: e for i, e in self.ent.items() if i < op["n"]})
        if o == "it_step":  # add
            e = dict(self.ent)
            e[op["i"]] = extra
            return self.with_(ent=e, length=self.length if self.length is not None and op["i"] < self.length else None)
        v = rec.val
        if o == "c_get":
            want = dict(self.set, M_datapoints=self.ds.M, N_datasets=len(self.ds.rows))
            return self if all(same(v[k], want[k]) for k in v) else None
        if o == "c_src":
            return self if same_list(v[0], self.ds.nt) and same_list(v[1], self.ds.rows) else None
        if o == "c_lags":
            return self if self.lags_ok(v) else None
        if o == "c_rows":
            return self if self.rows_ok(v) else None
        if o == "c_read":
            return self if self.lags_ok(v[0]) and self.rows_ok(v[1]) and all(len(r) == len(v[0]) for r in v[1]) else None
        if o == "c_wf":
            return self if same(v, weight(WKEY[op["w"]], op["x"], self.set["alpha"]), 1e-12) else None
        raise AssertionError(o)

    def lags_ok(self, v):
        if not isinstance(v, list) or (self.length is not None and len(v) != self.length):
            return False
        return all(i < len(v) and same(v[i], e[0]) for i, e in self.ent.items())

    def rows_ok(self, v):
        if not isinstance(v, list) or len(v) != len(self.ds.rows):
            return False
        for j, r in enumerate(v):
            if not isinstance(r, list) or (self.length is not None and len(r) != self.length):
                return False
            if len(r) != len(v[0]):
                return False
            for i, e in self.ent.items():
                if i >= len(r):
                    return False
                if e[1] is not None and not same(r[i], e[1][j], e[2][j]):
                    return False
        return True


def fault(rec):
    io = rec.io
    return bool(rec.afired or rec.ifired or (io and (io[2 + 3] or io[2 + 7])) or (rec.lazy and rec.lazy[0]))


class Judge:
    def __init__(self, plan, world, solo=None):
        self.alpha = {}
        self.plan, self.w = plan, world
        self.obj = {}      # slot -> DS or ("?",) when its contents are not pinned
        self.corr0 = {}    # slot -> initial Corr (or None: unpinned)
        self.hist = {}     # correlator slot -> [(rec, extra)]
        self.its = {}      # iterator slot -> dict
        self.held = {}
        self.dscache = {}
        self.solo = solo if solo is not None else {}     # (what, inputs) -> first observation, bit for bit
        self.checked = 0

    def bad(self, cls, rec, msg):
        where = {-1: "setup", -2: "final"}.get(rec.th, "thread %d" % rec.th)
        self.w.bad(cls, "%s op %d %s: %s" % (where, rec.i, short({k: v for k, v in rec.op.items() if k != "f"}, 200), msg))

    def dataset(self, i):
        if i not in self.dscache:
            d = self.plan["data"][i]
            try:
                self.dscache[i] = DS(d["t"], d["rows"], d.get("errs"), "d%d" % i)
            except Invalid as e:
                self.dscache[i] = e
        return self.dscache[i]

    # ------------------------------------------------------------------------------------------ main

    def run(self):
        recs = sorted(self.w.recs, key=lambda r: r.inv)
        # creation order within a thread is program order, and shared slots are made in the setup phase
        for th in [-1] + sorted({r.th for r in recs if r.th >= 0}) + [-2]:
            for r in [r for r in recs if r.th == th]:
                if r.st != "skip":
                    self.checked += 1
                    self.op(r)
        for slot, h in self.hist.items():
            self.linear(slot, h)

    def failed(self, r, allowed, why=""):
        """judges an operation that raised; allowed: the model says it has to"""
        if r.ifired:
            want = (r.op["f"]["intr"][1])
            if r.exc != want:
                self.bad("interrupt", r, "a %s delivered inside the call came out as %s: %s" % (want, r.exc, r.msg))
            return
        if r.lazy and r.lazy[0]:
            return
        if r.io and (r.io[5] or r.io[9]):
            return
        if r.afired:
            if r.op["o"] in ("sacf_file", "ds_file") or allowed:
                return
            if r.exc != "MemoryError":
                self.bad("alloc", r, "an allocation failed inside the call, which raised %s: %s" % (r.exc, r.msg))
            return
        if not allowed:
            self.bad("raised", r, "raised %s: %s %s" % (r.exc, r.msg, why))

    def returned(self, r):
        """judges an operation that returned although something happened inside it"""
        if r.ifired:
            self.bad("interrupt", r, "a %s delivered inside the call was swallowed" % r.op["f"]["intr"][1])
            return False
        return True

    def in_child(self, r):
        """a forked child carries on with its own copy of each correlator"""
        on = r.op.get("on")
        if on not in self.corr0:
            return
        a = "%s in the child of %d.%d" % (on, r.forked.th, r.forked.i)
        if a not in self.corr0 and on not in [c.get("to") for c in r.forked.op["ops"]]:
            self.corr0[a] = self.corr0[on]
            self.hist[a] = list(self.hist.get(on, []))
            if on in self.alpha:
                self.alpha[a] = self.alpha[on]
        if a in self.corr0:
            r.op = dict(r.op, on=a)

    def op(self, r):
        if r.forked is not None:
            self.in_child(r)
        op = r.op
        o = op["o"]
        ok = r.st == "ok"
        if ok and not self.returned(r):
            return
        if o in ("sacf", "ds"):
            d = self.dataset(op["data"])
            if r.lazy is not None:
                raised, resized, mutated, hist = r.lazy
                if raised and ok and op["how"] == "lazy":  # (a number that fails once may be asked again)
                    self.bad("input", r, "reading an input raised, and the call returned a dataset")
                if not ok:
                    self.failed(r, bool(resized) or isinstance(d, Invalid))
                else:
                    self.obj[op["to"]] = ("lazy", hist, d, mutated)
                return
            if isinstance(d, Invalid):
                if ok:
                    self.bad("accepted", r, "inputs that do not fit together (%s) were accepted" % d)
                    self.obj[op["to"]] = ("?",)
                else:
                    self.failed(r, True)
                return
            if ok:
                self.obj[op["to"]] = d
            else:
                self.failed(r, False)
            return
        if o in ("sacf_file", "ds_file"):
            return self.file(r)
        if o == "acf":
            return self.acf(r)
        if o == "sum":
            if not ok:
                return self.failed(r, False)
            return self.summary(r)
        if o == "c_new":
            d = self.obj.get(op["on"])
            if not ok:
                return self.failed(r, False)
            self.corr0[op["to"]] = Corr(d, d.settings()) if isinstance(d, DS) else None
            return
        if o == "it_new":
            if not ok:
                return self.failed(r, False)
            self.its[op["to"]] = {"k": float(op.get("setk", op["k"])), "on": op["on"]}
            return
        if o == "it_step":
            return self.step(r)
        if o.startswith("c_"):
            if not ok and o not in ("c_calc", "c_find"):
                self.failed(r, False)
            elif not ok and fault(r):
                self.failed(r, False)
            elif ok and o == "c_setup" and op["kw"].get("alpha") is not None:
                self.alpha[op["on"]] = float(op["kw"]["alpha"])
            elif ok and o == "c_set" and op["attr"] == "alpha":
                self.alpha[op["on"]] = float(op["val"])
            self.hist.setdefault(op["on"], []).append((r, None))
            return
        if o == "wild":  # no answer is wrong, but the answer is judged by the second run in other memory
            if not ok and fault(r):
                self.failed(r, True)
            self.hist.setdefault(op["on"], []).append((r, None))
            return
        if o == "held":
            if not ok:
                return self.failed(r, False)
            want = self.held.get(op["on"])
            if want is not None and repr(r.val) != want:
                self.bad("held", r, "a result handed out earlier changed: %s was %s" % (short(r.val), short(want)))
            return
        if o == "bogus":
            if ok:
                self.bad("accepted", r, "a call that must fail returned")
            else:
                self.failed(r, True)
            return
        if o in ("redata", "copy"):  # neither has to be possible
            if ok and o == "redata":
                self.obj[op["on"]] = self.obj.get(op["from"], ("?",))
            elif ok:
                self.obj[op["to"]] = self.obj.get(op["on"], ("?",))
            return
        if o in ("drop", "gc", "churn", "mutate", "fork"):
            if not ok:
                self.failed(r, False)
            return
        raise AssertionError(o)

    # ------------------------------------------------------------------------------------------ parts

    def same_bits(self, key, r, val):
        v = repr(val)
        if key not in self.solo:
            self.solo[key] = v
        elif self.solo[key] != v:
            self.bad("diverge", r, "the same call on the same data gave %s and before %s" % (short(v), short(self.solo[key])))

    def summary(self, r):
        d = self.obj.get(r.op["on"])
        v = r.val
        if isinstance(d, tuple):
            if d[0] == "lazy":
                self.adopt(r, d)
            return
        if d is None:
            return
        self.compare_summary(r, d)
        self.same_bits(("sum", d.uid), r, v)

    def compare_summary(self, r, d):
        v = r.val
        tol = 64 * 2.3e-16 * d.maxabs * max(1, d.M) if d.finite else INF
        for k, want in d.summary().items():
            got = v[k]
            if k in ("data", "errors", "timeseries", "normalised_timeseries"):
                fine = same_list(got, want)
            elif k == "normalised_data":
                fine = same_list(got, want, [[tol] * len(x) for x in want])
            elif k == "mean_data":
                fine = same_list(got, want, [tol] * len(want))
            else:
                fine = same(got, want)
            if not fine:
                self.bad("summary", r, "%s is %s, not %s" % (k, short(got), short(want)))
                return

    def adopt(self, r, d):
        """a dataset read from inputs that were changing: each element must be one the input held, and the whole consistent"""
        _, hist, base, mutated = d
        v = r.val
        if not mutated and not isinstance(base, Invalid):
            self.obj[r.op["on"]] = base
            return self.compare_summary(r, base)
        rows = v["data"]
        for tag, got in [("t", v["timeseries"])] + [("v%d" % j, x) for j, x in enumerate(rows)] + \
                        [("e%d" % j, x) for j, x in enumerate(v["errors"])]:
            h = hist.get(tag)
            if h is None:
                continue
            lens, vals = h
            if len(got) not in lens:
                self.bad("input", r, "%s has %d entries; the input never had that many" % (tag, len(got)))
                return
            for i, x in enumerate(got):
                if i >= len(vals) or ("nan" if x != x else x) not in vals[i]:
                    self.bad("input", r, "%s[%d] is %r, which the input never held there" % (tag, i, x))
                    return
        try:
            n = DS(v["timeseries"], rows, v["errors"] or None)
        except Invalid as e:
            self.bad("input", r, "the dataset is not consistent (%s): %s" % (e, short(v)))
            return
        self.obj[r.op["on"]] = n
        self.compare_summary(r, n)

    def acf(self, r):
        op = r.op
        kw = op["kw"]
        d = self.obj.get(op["on"])
        ok = r.st == "ok"
        if isinstance(d, tuple):
            if d[0] == "lazy":
                d = d[2] if not d[3] else None
            else:
                d = None
        if d is None or isinstance(d, Invalid):
            if not ok:
                self.failed(r, True)
            return
        w = kw.get("weight_function", "fractional")
        sel = kw.get("selection_function", "natural")
        c = Corr(d, settings_of(d, kw))
        try:
            c = c.calc(sel, w)
        except Invalid as e:
            if ok:
                self.bad("accepted", r, "settings whose lag cannot advance returned %s" % short(r.val))
            else:
                self.failed(r, True)
            return
        except OverflowError:
            if not ok:
                self.failed(r, True)
            return
        if not ok:
            return self.failed(r, False)
        lags, rows = r.val
        one = len(d.rows) == 1
        rr = [rows] if one else rows
        if not c.lags_ok(lags):
            self.bad("model", r, "lags are %s, not %s" % (short(lags), short([c.ent[i][0] for i in range(c.length)])))
        elif not c.rows_ok(rr):
            self.bad("model", r, self.explain(c, rr))
        self.same_bits(("acf", d.uid, repr(sorted((k, v) for k, v in kw.items() if k != "return_correlator"))), r, r.val)
        if op.get("to") and kw.get("return_correlator"):
            self.corr0[op["to"]] = c
        if op.get("keep"):
            self.held[op["keep"]] = repr(([x for x in lags], [x if not isinstance(x, list) else list(x) for x in rows]))

    def explain(self, c, rr):
        for j in range(len(c.ds.rows)):
            if j >= len(rr) or not isinstance(rr[j], list) or len(rr[j]) != c.length:
                return "dataset %d has %s values for %d lags" % (j, len(rr[j]) if j < len(rr) and isinstance(rr[j], list) else "no", c.length)
            for i, e in c.ent.items():
                if e[1] is not None and not same(rr[j][i], e[1][j], e[2][j]):
                    return "dataset %d at lag %r is %r, not %r" % (j, e[0], rr[j][i], e[1][j])
        return "shape %s" % short(rr)

    def step(self, r):
        op = r.op
        it = self.its.get(op["it"])
        if it is None:
            return
        s = op["step"]
        ok = r.st == "ok"
        if not ok:
            self.failed(r, False)
            it["dead"] = True
            if s == "add":
                self.hist.setdefault(op["on"], []).append((r, None))
            return
        if it.get("dead"):
            return
        c = self.corr0.get(op["on"])
        if s == "w":
            it["w"] = op["w"]
        elif s == "sel":
            it["sel"] = op.get("sel", "natural")
        elif s == "corr":
            if c is None:
                return
            alpha = self.alpha.get(op["on"], c.set["alpha"])
            if it.get("sel") == "natural" and c.ds.ordered and c.ds.finite:
                at = c.ds.at_lag(it["k"], alpha, it["w"])
                it["e"] = (it["k"], [a for a, _ in at], [t for _, t in at], (it["w"], alpha))
                if not same_list(r.val, it["e"][1], it["e"][2]):
                    self.bad("model", r, "the correlation at lag %r is %s, not %s" % (it["k"], short(r.val), short(it["e"][1])))
            else:
                it["e"] = (it["k"], None, None, (it.get("sel"), it["w"], alpha))
            self.same_bits(("step", c.ds.uid, it["k"], alpha, it["w"], it.get("sel")), r, r.val)
        elif s == "add":
            self.hist.setdefault(op["on"], []).append((r, it.get("e")))

    def file(self, r):
        op = r.op
        f = self.plan["files"][op["file"]]
        ok = r.st == "ok"
        io = r.io
        kind = f.get("kind", "file")
        if kind != "file":
            if ok:
                self.bad("io", r, "a path that is no readable file (%s) was loaded" % kind)
            return
        if io[9] and ok and io[0] == 0:
            self.bad("io", r, "the file could not be opened, and a dataset was returned")
            return
        if io[5] and ok:
            self.bad("io", r, "a read failed, and a dataset was returned")
            return
        if not ok and (io[5] or io[9]):
            return
        moving = io[6] or io[7] or io[8]
        text = r.got if io[1] and (moving or not ok or r.got) else f["text"]
        if not moving:
            text = f["text"]  # nothing changed under the reader: all of it has to be there
        t, x, e = parse_file(text)
        try:
            if not t:
                raise Invalid("no rows")
            d = DS(t, [x], [e] if e else None)
        except Invalid:
            if ok:
                self.bad("accepted", r, "a file without a single observation was loaded")
            else:
                self.failed(r, True)
            return
        if not ok:
            return self.failed(r, False, "although the file has %d observations" % len(t))
        self.obj[op["to"]] = d

    # ------------------------------------------------------------------------------ shared correlators

    def linear(self, slot, h):
        c0 = self.corr0.get(slot)
        if c0 is None:
            return
        h = sorted(h, key=lambda x: x[0].inv)
        # sequential histories are followed directly, which gives the better message
        if all(h[i][0].ret < h[i + 1][0].inv for i in range(len(h) - 1)):
            c = c0
            for r, extra in h:
                n = c.apply(r.op, r, extra) if not (r.op["o"] == "it_step" and extra is None and r.st == "ok") else c.with_(length=None, ent={})
                if n is None:
                    return self.bad("corr", r, self.why(c, r))
                c = n
            return
        n = len(h)
        seen = set()
        stack = [(0, c0)]
        full = (1 << n) - 1
        best, bestc = 0, c0
        while stack:
            done, c = stack.pop()
            if done == full:
                return
            k = (done, c.key())
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 200000:
                self.w.count("linear_gave_up")
                return
            if bin(done).count("1") > bin(best).count("1"):
                best, bestc = done, c
            lim = min(h[i][0].ret for i in range(n) if not done >> i & 1)
            for i in range(n - 1, -1, -1):
                if done >> i & 1 or h[i][0].inv > lim:
                    continue
                r, extra = h[i]
                nx = c.apply(r.op, r, extra) if not (r.op["o"] == "it_step" and extra is None and r.st == "ok") else c.with_(length=None, ent={})
                if nx is not None:
                    stack.append((done | 1 << i, nx))
        left = [h[i][0] for i in range(n) if not best >> i & 1]
        self.bad("linear", left[0], "no order of the calls on this shared correlator explains what they returned; stuck at %s" %
                 "; ".join("%s->%s" % (r.op["o"], short(r.val if r.st == "ok" else r.exc, 120)) for r in left[:4]))

    def why(self, c, r):
        if r.st != "ok":
            return "raised %s: %s" % (r.exc, r.msg)
        o = r.op["o"]
        if o in ("c_calc", "c_find"):
            return "settings whose lag cannot advance were accepted: %s" % c.set
        if o in ("c_read", "c_rows", "c_lags"):
            rows = r.val[1] if o == "c_read" else r.val
            if o == "c_lags" or (o == "c_read" and not c.lags_ok(r.val[0])):
                return "lags are %s, not %s" % (short(r.val[0] if o == "c_read" else r.val), short([c.ent[i][0] for i in sorted(c.ent)]))
            return self.explain(c, rows) if c.length is not None else "results are %s" % short(rows)
        return "returned %s with settings %s" % (short(r.val), c.set)
