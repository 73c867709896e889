"""Plans: everything one simulated run does, drawn from one seed."""
import hashlib
import random

SACFKINDS = ["list", "list", "list", "tuple", "array", "ints"]


def rng_for(seed, check, i):
    h = hashlib.sha256(("%s:%s:%d" % (seed, check, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:12], "big"))


class G:
    def __init__(self, rng, check, tier):
        self.r = rng
        self.check = check
        self.tier = tier
        self.plan = {"check": check, "data": [], "files": [], "setup": [], "threads": [], "final": []}
        self.n = 0
        self.numpy = False

    def p(self, x):
        return self.r.random() < x

    def pick(self, *a):
        return self.r.choice(a)

    def name(self, pre):
        self.n += 1
        return "%s%d" % (pre, self.n)

    # ------------------------------------------------------------------------------------------ data

    def size(self, small=False):
        r = self.r
        x = r.random()
        if x > 0.994:
            return r.choice([300, 600, 1100])
        if small:
            return r.choice([1, 2, 3]) if x < 0.15 else r.randint(4, 10)
        if x < 0.12:
            return r.choice([1, 2, 2, 3])
        if x < 0.75:
            return r.randint(4, 14)
        if x < 0.97:
            return r.randint(15, 60)
        return r.choice([64, 100, 128, 200, 256, 257])

    def times(self, n, span=None):
        r = self.r
        q = 2.0 ** -r.choice([0, 0, 1, 3, 6, 10])
        style = r.random()
        if style < 0.3:
            gaps = [1] * n
        elif style < 0.45:
            gaps = [r.choice([1, 1, 1, 5]) for _ in range(n)]
        elif style < 0.6:
            gaps = [r.choice([2, 3]) for _ in range(n)]
        else:
            gaps = [r.randint(1, 8) for _ in range(n)]
        if n > 14:
            gaps = [min(g, 3) for g in gaps]
        start = r.choice([0, 0, 0, 1, -7, 1000, 2457000, -50])
        t = [float(start)]
        for g in gaps[1:]:
            t.append(t[-1] + g * q)
        return t, q

    def values(self, n):
        r = self.r
        off = r.choice([0.0, 0.0, 0.0, 1.0, -3.0, 2.0 ** 10, 2.0 ** 20, 2.0 ** 30])
        sc = r.choice([0.125, 1.0, 1.0, 0.25, 2.0 ** 20, 2.0 ** -20, 2.0 ** -40, 2.0 ** 40])
        if off > 2 ** 15 and sc < 0.1:
            sc = 1.0
        if sc > 2 ** 15:
            off = 0.0
        x = r.random()
        if x < 0.06:
            v = [0] * n
        elif x < 0.12:
            v = [0] * n
            v[r.randrange(n)] = r.randint(1, 50)
        elif x < 0.2:
            v = [(i // 2) % 3 for i in range(n)]
        elif x < 0.28:
            v = list(range(n))
        else:
            v = [r.randint(-1000, 1000) for _ in range(n)]
        v = [off + sc * y for y in v]
        if r.random() < 0.1:  # what the interpreter's interface also means an error by
            v[r.randrange(n)] = -1.0
        return v

    def pos(self):
        """how far through a call; what is done once lies near its beginning or end"""
        u = self.r.random()
        x = self.r.random()
        return u if x < 0.6 else u ** 3 if x < 0.85 else min(1 - u ** 3, 0.9999999)

    def data(self, small=False, nan=False, odd=False, many=True, rows=None, n=None):
        r = self.r
        n = n or self.size(small)
        t, q = self.times(n)
        if rows is None:
            rows = 1 if r.random() < 0.55 else r.choice([2, 2, 2, 3, 4])
            if many and r.random() < 0.03:
                rows = r.choice([8, 9, 16, 17, 17, 33, 65] if n < 40 else [8, 9, 16, 17])
        d = {"t": t, "rows": [self.values(n) for _ in range(rows)], "q": q}
        if rows > 1 and r.random() < 0.1:
            d["rows"][-1] = list(d["rows"][0])
        if rows == 1 and r.random() < 0.2:
            d["two"] = True
        if r.random() < 0.25:
            d["errs"] = [[abs(y) / 16 for y in self.values(n)] for _ in range(rows)]
        if nan and r.random() < nan:
            row = r.choice(d["rows"])
            for _ in range(r.randint(1, 2)):
                row[r.randrange(n)] = float("nan")
        if odd and n > 2 and r.random() < odd:
            i = r.randrange(n - 1)
            if r.random() < 0.5:
                d["t"][i + 1] = d["t"][i]
            else:
                d["t"][i], d["t"][i + 1] = d["t"][i + 1], d["t"][i]
        self.plan["data"].append(d)
        return len(self.plan["data"]) - 1

    def like(self, i):
        """data of the same shape and times as data i, with other values"""
        d = self.plan["data"][i]
        e = dict(d, rows=[self.values(len(d["t"])) for _ in d["rows"]])
        self.plan["data"].append(e)
        return len(self.plan["data"]) - 1

    def grid(self, i):
        d = self.plan["data"][i]
        gaps = [b - a for a, b in zip(d["t"], d["t"][1:])]
        return d["q"], d["t"][-1] - d["t"][0], min(gaps) if gaps else None, len(d["t"]) * len(d["rows"])

    # -------------------------------------------------------------------------------------- settings

    def lagkw(self, i, cap=300):
        """min_lag, max_lag, lag_resolution, alpha: each given or left out, at most cap lags"""
        r = self.r
        q, span, gap, cells = self.grid(i)
        if cells > 500:
            cap = min(cap, 40)
        kw = {}
        if 60 <= cap and cells <= 12 and r.random() < 0.025:
            # so many lags that anything done only now and then is done
            lags = r.choice([270, 520, 1030])
            res = q / r.choice([16, 64, 256])
            lo = r.choice([0.0, -q, -res * (lags // 2)])
            return {"min_lag": lo, "max_lag": lo + res * lags, "lag_resolution": res}
        if cap < 60 and cells <= 12 and r.random() < 0.015:
            lags = r.choice([105, 130])
            res = q / r.choice([4, 16])
            lo = r.choice([0.0, -q, -res * (lags // 2)])
            return {"min_lag": lo, "max_lag": lo + res * lags, "lag_resolution": res}
        full = 2 * span / gap + 2 if gap else 2
        res = gap
        if r.random() < 0.45 or full > cap:
            res = r.choice([1, 1, 2, 3, 0.5, 0.25, 5, 8]) * q
            kw["lag_resolution"] = res
        lo, hi = -span, span
        if r.random() < 0.4:
            hi = r.choice([span, span / 2 // q * q, r.randint(0, 12) * q, 3 * span + q, r.randint(0, 12) * q / 2])
            kw["max_lag"] = hi
        if r.random() < 0.4:
            x = r.random()
            lo = 0.0 if x < 0.3 else -r.randint(0, 10) * q if x < 0.6 else r.randint(1, 6) * q if x < 0.7 else -2 * span if x < 0.8 else \
                -r.randint(1, 21) * q / 2
            kw["min_lag"] = lo
        if r.random() < 0.03:
            kw["min_lag"], kw["max_lag"] = hi + q, lo - q
            lo, hi = hi + q, lo - q
        if res and hi > lo and (hi - lo) / res > cap:
            # too many lags: a window of it
            if r.random() < 0.5:
                kw["min_lag"] = lo = r.choice([0.0, -2 * q])
            kw["max_lag"] = lo + res * r.randint(1, max(2, cap - 2))
            if lo == -span:
                kw["min_lag"] = lo
        if r.random() < 0.35:
            kw["alpha"] = r.choice([q, 1.0, 0.3, 10.0, 1e-3, 1e6, span or 1.0, r.random() * 5 + 0.01])
        return kw

    def kw(self, i, cap=300, slowcap=30, slow=0.45, fast=0.15):
        r = self.r
        w = "fractional"
        sel = "natural"
        if r.random() < slow:
            w = r.choice(["gaussian", "fractional_squared", "gaussian", "fractional_squared", "fractional"])
            if r.random() < fast:
                sel = "fast"
        isslow = w != "fractional" or sel != "natural"
        kw = self.lagkw(i, slowcap if isslow else cap)
        if w != "fractional" or r.random() < 0.1:
            kw["weight_function"] = w
        if sel != "natural" or r.random() < 0.1:
            kw["selection_function"] = sel
        return kw

    # ------------------------------------------------------------------------------------ operations

    def make(self, i, to=None, kind=None, how=None):
        return {"o": kind or self.pick("sacf", "sacf", "sacf", "ds"), "to": to or self.name("s"), "data": i,
                "how": how or ("numpy" if self.numpy else self.r.choice(SACFKINDS)), "kwargs": self.p(0.2)}

    def acf(self, on, i, **k):
        return {"o": "acf", "on": on, "kw": self.kw(i, **k)}

    def heap(self, quarantine=True):
        r = self.r
        self.plan["heap"] = {"fill": r.choice([1, 2, 3, 3, 4]), "seed": r.getrandbits(30),
                             "quarantine": r.choice([0, 1 << 14, 1 << 20]) if quarantine else 0}

    def sched(self):
        r = self.r
        self.plan["sched"] = {"seed": r.getrandbits(40), "p": r.choice([0.003, 0.01, 0.03, 0.1, 0.3, 0.6, 1.0])}

    def trace(self, opcode=0.25):
        self.plan["trace"] = "opcode" if self.p(opcode) else "line"

    def text(self, rows=None, errors=None, style=None):
        """a well-formed data file and nothing unusual about it but its layout"""
        r = self.r
        n = rows or r.choice([1, 2, 5, 10, 30, 100])
        t, q = self.times(n)
        v = self.values(n)
        e = [abs(x) / 8 for x in self.values(n)] if (errors if errors is not None else self.p(0.5)) else None
        sep = r.choice([" ", ",", ", ", "\t", "   ", " , "])
        nl = "\r\n" if self.p(0.15) else "\n"
        fmt = r.choice(["%r", "%r", "%r", "%.17g", "%.17g", "%.6e", "%.6e", "%+.4f", "%+.4f", "%.17E", "%.60e", "%080.17g", "%.4000e" if n < 12 else "%.20f"])
        out = []
        if self.p(0.4):
            out.append("# time, flux" + (", error" if e else ""))
        for j in range(n):
            c = [t[j], v[j]] + ([e[j]] if e else [])
            ln = sep.join(fmt % x for x in c)
            if self.p(0.03):
                ln = "  " + ln
            if self.p(0.03):
                out.append(r.choice(["", "# comment 1 2 3", "   "]))
            out.append(ln)
        return nl.join(out) + (nl if self.p(0.8) else ""), n

    def file(self, text, kind="file", name=None):
        f = {"text": text, "kind": kind}
        if name:
            f["name"] = name
        self.plan["files"].append(f)
        return len(self.plan["files"]) - 1

    def load(self, f, to=None, io=None):
        op = {"o": self.pick("sacf_file", "ds_file"), "to": to or self.name("f"), "file": f}
        if self.p(0.1) and self.plan["files"][f]["kind"] == "file" and not (io and ("append" in io or "openfail" in io or any(e[0] > 3 for e in io["ev"]))):
            # not a file but a pipe: no size, no positions, and what was read is gone
            io = dict(io or {"ev": [], "cycle": 0}, pipe=1)
        if io:
            op["f"] = {"io": io}
        return op


BOGUS = ["empty", "uneven", "ragged", "badtype", "none", "missing", "baderr", "missing", "badrepr", "nonfile"]
BOGUS_ON = ["selname", "wname", "res", "argtype", "alpha"]


def bogus(g, on=None):
    r = g.r
    if on and g.p(0.5):
        op = {"o": "bogus", "k": r.choice(BOGUS_ON), "on": on}
        if op["k"] == "res":
            op["res"] = r.choice([0.0, -1.0, float("nan"), 0])
            op["w"] = r.choice(["fractional", "gaussian"])
        return op
    return {"o": "bogus", "k": r.choice(BOGUS)}


# ----------------------------------------------------------------------------------------- one per check

def crowd(g):
    """more callers than a table of threads may have room for"""
    r = g.r
    g.heap()
    g.sched()
    g.plan["trace"] = "line"
    base = [g.data(small=True, n=r.choice([2, 3, 4]), many=False) for _ in range(2)]
    shared = []
    for i in base:
        op = g.make(i, kind="sacf")
        shared.append((op["to"], i))
        g.plan["setup"].append(op)
    for t in range(r.choice([9, 12, 17, 33])):
        ops = []
        for _ in range(r.randint(1, 2)):
            if g.p(0.3):
                op = g.make(r.choice(base), kind="sacf")
                ops += [op, g.acf(op["to"], op["data"], cap=8, slowcap=4)]
            else:
                ops.append(g.acf(*r.choice(shared), cap=8, slowcap=4))
        g.plan["threads"].append(ops)
    g.plan["final"] = [g.acf(on, i, cap=8) for on, i in shared]


def many(g):
    """more objects or more calls than a table or a counter may have room for"""
    r = g.r
    g.heap()
    g.plan["trace"] = "none"
    ops = g.plan["setup"]

    def settings(i, cap=6):
        q = g.grid(i)[0]
        lo = r.choice([0.0, -q, q])
        return {"min_lag": lo, "max_lag": lo + r.randint(0, cap) * q, "lag_resolution": q}
    if g.p(0.5):
        objs = []
        for _ in range(r.choice([40, 70, 140])):
            i = g.data(n=r.choice([2, 3, 4]), rows=r.choice([1, 1, 2]))
            op = g.make(i)
            ops.append(op)
            if g.p(0.5):
                c = g.name("c")
                ops += [{"o": "c_new", "on": op["to"], "to": c}, {"o": "c_setup", "on": c, "kw": settings(i)}]
                if g.p(0.4):
                    ops.append({"o": "c_calc", "on": c})
                objs.append((c, i, "corr"))
            else:
                objs.append((op["to"], i, op["o"]))
        r.shuffle(objs)
        for on, i, kind in objs:
            if kind == "corr":
                ops += [{"o": "c_calc", "on": on}] * g.p(0.8) + [{"o": "c_read", "on": on}]
            elif kind == "ds":
                ops.append({"o": "sum", "on": on})
            else:
                ops.append({"o": "acf", "on": on, "kw": dict(settings(i), **({"weight_function": "gaussian"} if g.p(0.2) else {}))})
        return
    base = [g.data(n=r.choice([2, 3]), rows=1) for _ in range(2)]
    made = [g.make(i, kind="sacf") for i in base]
    ops += made
    ops += [{"o": "c_new", "on": made[0]["to"], "to": "c"}]
    n = r.choice([300, 300, 600, 1100])
    kinds = r.choice([("acf",), ("slow",), ("make",), ("calc",), ("acf", "slow", "make", "calc", "bogus")])
    for k in range(n):
        x = r.choice(kinds)
        m = r.choice(made)
        if x == "make":
            op = g.make(m["data"], to="x")
            ops += [op] + [{"o": "sum", "on": "x"}] * (k % 7 == 0 or k > n - 5)
        elif x == "calc":
            ops += [{"o": "c_setup", "on": "c", "kw": settings(base[0])}, {"o": "c_calc", "on": "c"}, {"o": "c_read", "on": "c"}]
        elif x == "bogus":
            ops.append(bogus(g, m["to"]))
        else:
            ops.append({"o": "acf", "on": m["to"], "kw": dict(settings(m["data"], 4), **({"weight_function": r.choice(["gaussian", "fractional_squared"])} if x == "slow" else {}))})


def c01(g):
    """independent callers in threads"""
    r = g.r
    if g.p(0.02):
        return crowd(g)
    g.heap()
    g.sched()
    g.trace()
    nth = r.choice([2, 2, 2, 3, 4])
    shared = []
    base = [g.data(small=True) for _ in range(r.randint(1, 2))]
    if g.p(0.5):
        base.append(g.like(base[0]))
    if g.p(0.3):
        base.append(g.data())
    if g.p(0.12):
        base.append(g.data(small=True, nan=1.0))
    if g.p(0.08):
        base.append(g.data(small=True, odd=1.0))
    for i in base:
        if g.p(0.6):
            op = g.make(i, kind="sacf")
            shared.append((op["to"], i))
            g.plan["setup"].append(op)
    kws = {i: [g.kw(i, cap=120, slowcap=14) for _ in range(2)] for i in base}
    for t in range(nth):
        ops = []
        mine = []
        for _ in range(r.randint(1, 4)):
            x = r.random()
            if x < 0.3 or not (mine or shared):
                i = r.choice(base)
                op = g.make(i, kind="sacf")
                mine.append((op["to"], i))
                ops.append(op)
            elif x < 0.36:
                tx, n = g.text(rows=r.choice([1, 3, 8]))
                f = g.file(tx, name="t%d_%d.txt" % (t, len(g.plan["files"])))
                op = g.load(f)
                ops.append(op)
                ops.append({"o": "sum", "on": op["to"]})
                continue
            elif x < 0.44:
                ops.append(bogus(g))
                continue
            on, i = r.choice(mine + shared)
            for _ in range(r.randint(1, 2)):
                if g.p(0.12):
                    ops.append({"o": "sum", "on": on})
                elif g.p(0.12):
                    c = g.name("c")
                    ops.append({"o": "c_new", "on": on, "to": c})
                    if g.p(0.5):
                        ops.append({"o": "c_setup", "on": c, "kw": g.lagkw(i, 60)})
                    else:
                        ops.append({"o": "c_setup", "on": c, "kw": dict({"max_lag": 4 * g.grid(i)[0], "min_lag": -4 * g.grid(i)[0]}, lag_resolution=g.grid(i)[0])})
                    ops.append({"o": "c_calc", "on": c} if g.p(0.5) else {"o": "c_find", "on": c, "sel": "natural", "w": r.choice(["gaussian", "fractional_squared", "fractional"])})
                    ops.append({"o": "c_read", "on": c})
                else:
                    kw = dict(r.choice(kws[i])) if g.p(0.7) else g.kw(i, cap=120, slowcap=14)
                    ops.append({"o": "acf", "on": on, "kw": kw, "vandal": g.p(0.15)})
        g.plan["threads"].append(ops)
    for on, i in shared:
        g.plan["final"].append({"o": "sum", "on": on})
        g.plan["final"].append({"o": "acf", "on": on, "kw": dict(r.choice(kws[i]))})


def c02(g):
    """callers sharing one correlator"""
    r = g.r
    g.heap()
    g.sched()
    g.trace(0.1)
    shape = r.random()
    if shape < 0.06:  # more lags, or more points, than anything done only now and then would wait for
        i = g.data(n=r.choice([2, 3, 4]), rows=r.choice([1, 2]))
    elif shape < 0.1:
        i = g.data(n=r.choice([600, 1100, 2100]), rows=r.choice([1, 2]))
    else:
        i = g.data(small=True)
    q, span, gap, _ = g.grid(i)
    units = shape >= 0.1 and g.p(0.3)
    g.plan["setup"].append(g.make(i, to="s"))
    cs = ["c"] if g.p(0.7) else ["c", "d"]
    small = {"min_lag": -2 * q, "max_lag": 3 * q, "lag_resolution": q}
    for c in cs:
        g.plan["setup"].append({"o": "c_new", "on": "s", "to": c})
        g.plan["setup"].append({"o": "c_setup", "on": c, "kw": dict(small) if shape < 0.1 or g.p(0.7) else g.lagkw(i, 60)})
        if g.p(0.7):
            g.plan["setup"].append({"o": "c_calc", "on": c})
    vals = {"max_lag": [k * q for k in (1, 2, 3, 5, 8)], "min_lag": [-k * q for k in (0, 1, 2, 4)], "lag_resolution": [q, 2 * q, q / 2],
            "alpha": [1.0, 0.5, 3 * q]}
    if shape < 0.06:
        small["lag_resolution"] = q / r.choice([64, 256])
        vals["lag_resolution"] = [q, q / 64, q / 256]
        vals["min_lag"] = [0.0, -q]
        vals["max_lag"] = [3 * q, 5 * q]
    elif shape < 0.1:
        small = {"min_lag": 0.0, "max_lag": 2 * q, "lag_resolution": q}
        vals["min_lag"] = [0.0, -q]
        vals["max_lag"] = [q, 2 * q]
        vals["lag_resolution"] = [q, 2 * q]
    if units:
        del vals["alpha"]
    for t in range(r.choice([2, 2, 3])):
        ops = []
        for _ in range(r.randint(2, 4)):
            c = r.choice(cs)
            x = r.random()
            if units and g.p(0.35):
                # a caller's own iterator, stored into the shared correlator; or the storage cut to size
                if g.p(0.15):
                    ops.append({"o": "c_clean", "on": c, "n": r.randint(0, 6)})
                    continue
                it, j, w = g.name("i"), r.randint(0, 9), r.choice(["fractional", "gaussian"])
                ops.append({"o": "it_new", "on": c, "to": it, "k": r.randint(-3, 5) * q})
                ops += [{"o": "it_step", "on": c, "it": it, "step": s, "w": w, "i": j, "sel": "natural"} for s in ("sel", "dt", "w", "corr", "add")]
            elif x < 0.3:
                ops.append({"o": "c_calc", "on": c})
            elif x < 0.55:
                a = r.choice(sorted(vals))
                ops.append({"o": "c_set", "on": c, "attr": a, "val": r.choice(vals[a])})
            elif x < 0.7:
                ops.append({"o": "c_lags", "on": c})
            elif x < 0.88:
                ops.append({"o": "c_rows", "on": c})
            elif x < 0.93:
                ops.append({"o": "c_wf", "on": c, "w": r.choice(["fractional", "gaussian", "fractional_squared"]), "x": r.choice([0.0, 1.0, 0.75])})
            elif x < 0.96:
                ops.append({"o": "c_clear", "on": c})
            else:
                ops.append({"o": "sum", "on": "s"})
        g.plan["threads"].append(ops)
    for c in cs:
        g.plan["final"] += [{"o": "c_calc", "on": c}, {"o": "c_read", "on": c}, {"o": "c_get", "on": c}]
    g.plan["final"].append({"o": "sum", "on": "s"})


def history(g, n, trace=False, slots=None, fault=None):
    """a long single-caller history over several objects; returns its operations"""
    r = g.r
    objs = []
    corrs = []
    ops = []
    held = []
    idx = []
    for _ in range(n):
        x = r.random()
        if not objs or x < 0.16:
            if idx and g.p(0.4):
                i = r.choice(idx) if g.p(0.5) else g.like(r.choice(idx))
            else:
                i = g.data(nan=0.08, odd=0.05)
            idx.append(i)
            op = g.make(i)
            objs.append((op["to"], i, op["o"]))
            ops.append(op)
            if g.p(0.25):
                ops.append({"o": "mutate", "name": op["to"] + r.choice([".t", ".v0", ".v0", ".v1"]),
                            "kind": r.choice(["set", "append", "pop", "clear", "reverse", "scale"]), "i": r.randrange(9), "val": 99.5})
            continue
        on, i, kind = r.choice(objs)
        if x < 0.5:
            if kind == "ds":
                if x < 0.3:
                    ops.append({"o": "sum", "on": on, "vandal": g.p(0.3)})
                    continue
                c = g.name("c")
                ops += [{"o": "c_new", "on": on, "to": c}]
                corrs.append((c, i))
                continue
            op = {"o": "acf", "on": on, "kw": g.kw(i), "vandal": g.p(0.2)}
            if g.p(0.2):
                op["kw"]["return_correlator"] = True
                op["to"] = g.name("c")
                corrs.append((op["to"], i))
            elif g.p(0.2) and not op["vandal"]:
                op["keep"] = g.name("h")
                held.append(op["keep"])
            ops.append(op)
            if g.p(0.3):
                ops.append({"o": "acf", "on": on, "kw": {k: v for k, v in op["kw"].items() if k != "return_correlator"}})
        elif x < 0.58:
            ops.append({"o": "sum", "on": on, "vandal": g.p(0.3)})
        elif x < 0.66:
            ops.append(bogus(g, on if kind == "sacf" else None))
        elif x < 0.7:
            c = g.name("c")
            ops.append({"o": "c_new", "on": on, "to": c})
            corrs.append((c, i))
        elif x < 0.92 and corrs:
            ops += corr_ops(g, *r.choice(corrs))
        elif x < 0.94 and held:
            ops.append({"o": "held", "on": r.choice(held)})
        elif x < 0.96:
            ops.append({"o": "gc"})
        elif x < 0.98:
            tx, _ = g.text(rows=r.choice([1, 3, 12]))
            op = g.load(g.file(tx))
            ops += [op, {"o": "sum", "on": op["to"]}]
        else:
            ops.append({"o": "churn", "n": r.randint(1, 6)})
        if len(objs) > 1 and g.p(0.06):
            k = r.choice([k for k, x in enumerate(objs)])
            if objs[k][2] == "sacf":
                if g.p(0.3):
                    to = g.name("s")
                    ops.append({"o": "copy", "on": objs[k][0], "to": to})
                    objs.append((to, objs[k][1], "sacf"))
                frm = r.choice(objs)
                ops.append({"o": "redata", "on": objs[k][0], "from": frm[0]})
                objs[k] = (objs[k][0], frm[1], "sacf")
    return ops, objs, corrs, held


def corr_ops(g, c, i):
    r = g.r
    x = r.random()
    if x < 0.3:
        q, span, gap, cells = g.grid(i)
        cap = 40 if cells > 500 else 200
        kw = g.lagkw(i, cap)
        # what is left out keeps its present value, so give all three that decide how many lags there are
        for k, v in (("min_lag", -span), ("max_lag", span), ("lag_resolution", gap or 1.0)):
            kw.setdefault(k, v)
        if kw["lag_resolution"] and (kw["max_lag"] - kw["min_lag"]) / kw["lag_resolution"] > cap:
            kw["max_lag"] = kw["min_lag"] + cap * kw["lag_resolution"]
        if g.p(0.5):
            return [{"o": "c_setup", "on": c, "kw": kw}]
        ks = sorted(kw)
        r.shuffle(ks)
        return [{"o": "c_set", "on": c, "attr": k, "val": kw[k]} for k in ks]
    if x < 0.55:
        return [{"o": "c_calc", "on": c}, {"o": "c_read", "on": c}]
    if x < 0.65:
        q, span, gap, cells = g.grid(i)
        lo = r.choice([0.0, -2 * q, q])
        return [{"o": "c_setup", "on": c, "kw": {"min_lag": lo, "max_lag": lo + r.randint(0, 12) * q, "lag_resolution": q}},
                {"o": "c_find", "on": c, "sel": "natural" if g.p(0.8) else "fast", "w": r.choice(["gaussian", "fractional_squared", "fractional"])},
                {"o": "c_read", "on": c}]
    if x < 0.75:
        return [{"o": "c_read", "on": c, "vandal": g.p(0.3)}]
    if x < 0.82:
        return [{"o": "c_get", "on": c}]
    if x < 0.9:
        return [{"o": "c_clear", "on": c}, {"o": "c_read", "on": c}]
    if x < 0.95:
        return [{"o": "c_src", "on": c}]
    return [{"o": "c_wf", "on": c, "w": r.choice(["fractional", "gaussian", "fractional_squared"]), "x": r.choice([0.0, 1.0, 0.5, 7.25])}]


def epilogue(g, objs, corrs, held):
    """afterwards everything still is what it was"""
    out = []
    for on, i, kind in objs:
        out.append({"o": "sum", "on": on})
        if kind == "sacf":
            out.append(g.acf(on, i))
    for c, i in corrs:
        q, span, gap, cells = g.grid(i)
        out += [{"o": "c_setup", "on": c, "kw": {"min_lag": -2 * q, "max_lag": 5 * q, "lag_resolution": q}},
                {"o": "c_calc", "on": c}, {"o": "c_read", "on": c}]
    for h in held:
        out.append({"o": "held", "on": h})
    return out


def vast(g):
    """more points, or more lags, than an index of 16 bits counts"""
    r = g.r
    g.plan["trace"] = "none"
    few = g.p(0.5)
    i = g.data(n=r.choice([2, 3, 5, 9]) if few else r.choice([33000, 66000, 70000]), rows=r.choice([1, 1, 2]))
    q, span, gap, cells = g.grid(i)
    lags = r.choice([33000, 66000, 70000]) if few else r.randint(1, 3)
    res = span / r.choice([32768, 65536, 131072]) if few else q
    lo = r.choice([0.0, -res * (lags // 2), -span]) if few else r.choice([0.0, -q, span // (2 * q) * q, q])
    kw = {"min_lag": lo, "max_lag": lo + lags * res, "lag_resolution": res}
    if g.p(0.3):
        kw["weight_function"] = r.choice(["gaussian", "fractional_squared"])
    ops = [dict(g.make(i, to="s", kind="sacf"))]
    if few and g.p(0.5):
        kw.pop("weight_function", None)
        ops += [{"o": "c_new", "on": "s", "to": "c"}, {"o": "c_setup", "on": "c", "kw": kw}, {"o": "c_calc", "on": "c"}, {"o": "c_read", "on": "c"}]
    else:
        ops += [{"o": "acf", "on": "s", "kw": kw}, {"o": "sum", "on": "s"}]
    g.plan["setup"] = ops


def c03(g):
    if g.p(0.02):
        return many(g)
    if g.p(0.008):
        g.heap(False)
        return vast(g)
    g.heap()
    g.numpy = g.p(0.012)
    g.plan["trace"] = "none"
    ops, objs, corrs, held = history(g, g.r.randint(4, 26))
    g.plan["setup"] = ops
    g.plan["final"] = epilogue(g, objs, corrs, held)


def c04(g):
    """cancellation at any point of any call"""
    r = g.r
    g.heap()
    g.trace(0.4)
    g.plan["probe"] = True
    base = [g.data(small=True) for _ in range(r.randint(1, 2))]
    shared = []
    for i in base:
        op = g.make(i, kind="sacf")
        g.plan["setup"].append(op)
        shared.append((op["to"], i))
    corr = None
    if g.p(0.4):
        corr = ("c", base[0])
        q = g.grid(base[0])[0]
        g.plan["setup"] += [{"o": "c_new", "on": shared[0][0], "to": "c"},
                            {"o": "c_setup", "on": "c", "kw": {"min_lag": -2 * q, "max_lag": 4 * q, "lag_resolution": q}}]
    nth = r.choice([0, 0, 1, 2, 3])

    def seqops(k, private):
        ops = []
        for _ in range(k):
            on, i = r.choice(shared)
            x = r.random()
            if x < 0.7 or not (corr and private):
                op = g.acf(on, i, slow=0.8, slowcap=10, cap=60, fast=0.1)
            else:
                op = {"o": "c_find", "on": "c", "sel": "natural", "w": r.choice(["gaussian", "fractional_squared", "fractional"])}
            if x > 0.92:
                op = g.make(i, kind="sacf")
            hit = g.p(0.6)
            if hit:
                op["f"] = {"intr": [g.pos(), r.choice(["KeyboardInterrupt", "SystemExit", "Cancelled"])]}
            ops.append(op)
            if hit and g.p(0.6):  # and again, undisturbed
                again = {k: v for k, v in op.items() if k != "f"}
                if op["o"] != "c_find":
                    if op["o"] == "sacf":
                        again["ifmissing"] = True
                    ops.append(again)
                else:
                    ops += [again, {"o": "c_read", "on": "c"}]
            if op["o"] == "c_find" and not hit:
                ops.append({"o": "c_read", "on": "c"})
        return ops
    if nth == 0:
        g.plan["setup"] += seqops(r.randint(1, 5), True)
    else:
        g.sched()
        for t in range(nth):
            g.plan["threads"].append(seqops(r.randint(1, 3), t == 0))
    for on, i in shared:
        g.plan["final"] += [{"o": "sum", "on": on}, g.acf(on, i, slowcap=10)]
    if corr:
        g.plan["final"] += [{"o": "c_calc", "on": "c"}, {"o": "c_read", "on": "c"}]


def with_alloc(g, op):
    r = g.r
    x = r.random()
    if x < 0.7:
        a = [g.pos(), r.choice([1, 1, 1, 2, 5, 1000000]), 0, 0]
    elif x < 0.85:
        a = [0, 0, r.choice([16, 40, 64, 100, 200, 500, 1000]), 0]
    else:
        a = [0, 0, 0, r.choice([64, 200, 500, 1000, 2000, 5000])]
    op = dict(op, f={"alloc": a})
    return op


FAULTY = {"sacf", "ds", "sacf_file", "ds_file", "acf", "sum", "c_new", "c_calc", "c_find", "c_read", "c_clear", "c_src", "c_lags",
          "c_rows", "it_new", "it_step", "bogus"}


def first(g):
    """the very first call of a process runs out of memory: small, so that each of its allocations is likely to be the one"""
    r = g.r
    i = g.data(n=r.choice([1, 2, 2, 3, 4]), rows=r.choice([1, 1, 1, 2]))
    q, span, gap, cells = g.grid(i)
    new = g.make(i, to="s", kind="sacf")
    k = r.choice([0, 1, 1, 2])
    kw = {"min_lag": r.choice([0.0, 0.0, -q]), "max_lag": k * q, "lag_resolution": q}
    x = r.random()
    if x < 0.45:
        calc = [{"o": "acf", "on": "s", "kw": dict(kw, **({"weight_function": r.choice(["gaussian", "fractional_squared"])} if g.p(0.4) else {}))}]
    else:
        calc = [{"o": "c_new", "on": "s", "to": "c"}, {"o": "c_setup", "on": "c", "kw": kw},
                {"o": "c_calc", "on": "c"} if g.p(0.6) else {"o": "c_find", "on": "c", "sel": "natural", "w": r.choice(["gaussian", "fractional"])}, {"o": "c_read", "on": "c"}]
    ops = [new] + calc
    if g.p(0.25):
        ops = [g.load(g.file(g.text(rows=r.choice([1, 2, 5]))[0]))] + (ops if g.p(0.5) else [])
    hit = r.choice([j for j, op in enumerate(ops) if op["o"] in FAULTY])
    out = []
    for j, op in enumerate(ops):
        if j == hit:
            out.append(dict(op, f={"alloc": [r.random() if g.p(0.8) else g.pos(), r.choice([1, 1, 1, 2, 5, 1000000]), 0, 0]}))
            op = dict(op, ifmissing=True) if "to" in op else op
        out.append(op)
    g.plan["setup"] = out
    j = g.data(n=r.choice([2, 5]), rows=1)
    last = g.make(j, kind="sacf")
    g.plan["final"] = [last, {"o": "acf", "on": last["to"], "kw": {}}, {"o": "sum", "on": last["to"]}]
    if ops[-1]["o"] in ("acf", "c_read"):
        g.plan["final"] += calc[-2:]


def c05(g):
    """memory runs out anywhere"""
    r = g.r
    g.heap()
    g.plan["trace"] = "none"
    g.plan["probe"] = True
    if g.cold and g.p(0.8):
        return first(g)
    ops, objs, corrs, held = history(g, r.randint(2, 9))
    out = []
    rate = r.choice([0.15, 0.4, 0.8])
    for op in ops:
        if op["o"] in FAULTY and g.p(rate):
            out.append(with_alloc(g, {k: v for k, v in op.items() if not (k in ("keep",) or (k == "to" and op["o"] == "acf"))}))
            if "to" in op and op["o"] != "acf":
                out.append(dict(op, ifmissing=True))
            elif op["o"] != "bogus":
                out.append(op)
        else:
            out.append(op)
    g.plan["setup"] = out
    g.plan["final"] = epilogue(g, objs, corrs, held)


def c06(g):
    """nothing is retained"""
    r = g.r
    g.heap(False)
    g.plan["trace"] = "line" if g.p(0.3) else "none"
    g.plan["mode"] = "leak"
    g.plan["probe"] = True
    ops, objs, corrs, held = history(g, r.randint(1, 8))
    out = []
    for op in ops:
        if op["o"] in FAULTY and g.p(0.3):
            if g.p(0.3) and op["o"] in ("acf", "c_find", "sacf"):
                op = dict(op, f={"intr": [g.pos(), r.choice(["KeyboardInterrupt", "Cancelled"])]})
            elif op["o"] in ("sacf_file", "ds_file") and g.p(0.6):
                op = dict(op, f={"io": {"ev": [[r.choice([3, 1, 2]), 5]], "cycle": 0}})
            else:
                op = with_alloc(g, op)
        out.append(op)
    g.plan["setup"] = out
    if g.p(0.25) and objs:
        g.sched()
        for t in range(2):
            th = []
            for _ in range(r.randint(1, 2)):
                on, i, kind = r.choice(objs)
                th.append(g.acf(on, i, cap=60, slowcap=8) if kind == "sacf" else {"o": "sum", "on": on})
            g.plan["threads"].append(th)


ERRNOS = {"EIO": 5, "ESTALE": 116, "EBADMSG": 74, "ENOMEM": 12, "ETIMEDOUT": 110, "ENXIO": 6, "EACCES": 13}
OPENERR = {"EACCES": 13, "EMFILE": 24, "ENFILE": 23, "ENOENT": 2, "EIO": 5, "ELOOP": 40, "ENOMEM": 12, "ENAMETOOLONG": 36, "EINTR": 4}


def bigtext(g):
    r = g.r
    x = r.random()
    if x < 0.35:
        return g.text(rows=r.choice([1, 3, 10, 40]))[0]
    if x < 0.8:
        return g.text(rows=r.choice([300, 500, 800, 1200]) if r.random() < 0.97 else r.choice([5000, 20000, 33000, 66000, 132000]))[0]
    tx = g.text(rows=r.choice([20, 300]))[0]
    lines = tx.split("\n")
    k = r.randrange(len(lines))
    n = r.choice([100, 255, 1023, 4094, 4095, 4096, 8189, 8190, 8191, 8192, 9000, 17000, 66000, r.choice([135000, 270000, 1100000])])
    body = "x" * n if g.p(0.5) else (" %d 2 3" % k * (n // 5 + 1))[:n]
    lines.insert(k, "#" + body)
    if g.p(0.5):
        k = r.randrange(len(lines))
        if lines[k] and not lines[k].startswith("#"):
            lines[k] = " " * r.choice([250, 1020, 4090, 8180, 8188, 8192, 9000]) + lines[k]
    return "\n".join(lines)


def chunks(g, text, upto=None):
    """how the reads are answered: (events, cycle)"""
    r = g.r
    n = max(1, len(text))
    x = r.random()
    if x < 0.25:
        return [], 0
    if x < 0.45 and n < 6000:
        return [[1, r.choice([1, 2, 3, 7, 16])]], 1
    if x < 0.7:
        return [[1, r.randint(max(1, n // 40), n)] if g.p(0.7) else [2, 0] if g.p(0.5) else [0, 0] for _ in range(r.randint(1, 12))], r.choice([0, 1])
    return [[r.choice([0, 1, 2]), r.choice([1, 10, 100, 1000, 4096])] for _ in range(r.randint(1, 10))], r.choice([0, 1])


def fix_cycle(ev, cycle):
    # a pattern that repeats has to make progress
    if cycle and not any(k in (0, 1) for k, _ in ev):
        cycle = 0
    return ev, cycle


def c07(g):
    """open and read errors"""
    r = g.r
    g.heap()
    g.plan["trace"] = "none"
    ops = []
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.12:
            f = g.file("", kind=r.choice(["dir", "missing", "cut"]))
            op = g.load(f)
            ops += [op, {"o": "sum", "on": op["to"]}]
            continue
        tx = bigtext(g)
        f = g.file(tx)
        if x < 0.3:
            io = {"ev": [], "cycle": 0, "openfail": r.choice([v for k, v in OPENERR.items() if k != "EINTR"])}
        elif x < 0.85:
            n = max(1, len(tx))
            style = r.random()
            if style < 0.5:
                per = 8191
                k = r.randint(0, n // per + 1)
                ev = [[0, 0]] * k + [[3, r.choice(sorted(ERRNOS.values()))]]
            else:
                k = r.randint(0, 12)
                ev = [[1, r.choice([1, 5, 50, 500, n // 10 + 1])] for _ in range(k)] + [[3, r.choice(sorted(ERRNOS.values()))]]
            if g.p(0.2):
                ev.insert(r.randrange(len(ev)), [2, 0])
            io = {"ev": [list(e) for e in ev], "cycle": 1 if g.p(0.3) else 0}
        else:
            ev, cy = fix_cycle(*chunks(g, tx))
            io = {"ev": ev, "cycle": cy}
        op = g.load(f, io=io)
        ops += [op, {"o": "sum", "on": op["to"]}]
        if g.p(0.5):  # the fault is gone: the same load has to work
            op = g.load(f)
            ops += [op, {"o": "sum", "on": op["to"]}]
    g.plan["setup"] = ops


LOCALES = [["de_DE.UTF-8", 1], ["de_DE.UTF-8", 2], ["de_DE.UTF-8", 3]]


def c08(g):
    """how the bytes arrive does not matter"""
    r = g.r
    g.heap()
    g.plan["trace"] = "none"
    ops = []
    for _ in range(r.randint(1, 3)):
        tx = bigtext(g)
        f = g.file(tx)
        for k in range(r.randint(1, 3)):
            ev, cy = fix_cycle(*chunks(g, tx))
            io = {"ev": ev, "cycle": cy}
            if g.p(0.3):
                io["locale"] = r.choice(LOCALES)
            op = g.load(f, io=io)
            ops += [op, {"o": "sum", "on": op["to"]}]
            if op["o"] == "sacf_file" and len(tx) < 2500 and g.p(0.4):
                ops.append({"o": "acf", "on": op["to"], "kw": {"min_lag": 0.0, "max_lag": 4.0, "lag_resolution": 0.5}})
    g.plan["setup"] = ops


def damage(g, tx):
    r = g.r
    for _ in range(r.randint(1, 4)):
        if not tx:
            break
        x = r.random()
        k = r.randrange(len(tx))
        if x < 0.3:
            tx = tx[:k]
        elif x < 0.42:
            tx = tx[k:]
        elif x < 0.55:
            tx = tx[:k] + r.choice(["\0", "nan", "inf", "x", "\xff", "1e999", "-", "1e", ".", "#", "\n", ",", "\t", "--", "0x1p3", "1e-400", "+", "e5", "1_0"]) + tx[k:]
        elif x < 0.68:
            j = min(len(tx), k + r.choice([1, 3, 10, 200]))
            tx = tx[:k] + tx[j:]
        elif x < 0.8:
            lines = tx.split("\n")
            j = r.randrange(len(lines))
            w = lines[j].replace(",", " ").split()
            y = r.random()
            if y < 0.4 and w:
                lines[j] = " ".join(w[:r.randrange(len(w) + 1)])
            elif y < 0.7:
                lines[j] = lines[j] + r.choice([" 5", " 1 2 3", " abc", ",,", " nan", " # note"])
            else:
                lines[j] = r.choice(["abc", "1", "1 x", "x 1", "# 1 2 3", " # 1 2", "1 2 x", "nan nan", "1,2,", ",,1,2", "1 2 0.5 9 9", "-", "5 5e", "7 7 7e+"])
            tx = "\n".join(lines)
        elif x < 0.9:
            tx = tx[:k] + "\0" * r.choice([1, 10, 512]) + tx[k:]
        else:
            j = min(len(tx), k + r.randint(1, 40))
            tx = tx[:k] + "".join(chr(r.choice([10, 32, 48, 49, 46, 45, 101, 44, 35, 120, 200])) for _ in range(j - k)) + tx[j:]
    return tx


def c09(g):
    """torn, damaged and moving files"""
    r = g.r
    g.heap()
    g.plan["trace"] = "none"
    ops = []
    for _ in range(r.randint(1, 3)):
        tx = g.text(rows=r.choice([1, 2, 5, 10, 30]))[0] if g.p(0.6) else bigtext(g)
        if g.p(0.7):
            tx = damage(g, tx)
        f = g.file(tx)
        io = None
        if g.p(0.6):
            n = max(1, len(tx))
            ev = [[1, r.choice([1, 5, 50, 500, n // 5 + 1])] for _ in range(r.randint(0, 8))]
            x = r.random()
            io = {"cycle": 0}
            if x < 0.35:
                ev.append([4, r.randint(0, n)])
            elif x < 0.65:
                ev.append([5, 0])
                if g.p(0.3):
                    ev += [[1, 10], [5, 0]]
                io["append"] = g.text(rows=r.choice([1, 3, 8]))[0] if g.p(0.7) else r.choice(["5", " 7\n", "\n", "0 0\n", "1e3 4 4\n2e3"])
            elif x < 0.9:
                ev.append([6, 0])
            io["ev"] = ev
        op = g.load(f, io=io)
        ops += [op, {"o": "sum", "on": op["to"]}]
    g.plan["setup"] = ops


def c10(g):
    """lifetimes: collection at any time"""
    r = g.r
    g.heap()
    g.plan["heap"]["quarantine"] = r.choice([1 << 14, 1 << 20, 1 << 20])
    g.plan["trace"] = "line" if g.p(0.5) else "none"
    ops = []
    live = []
    corrs = []
    held = []
    its = []
    inputs = []
    for _ in range(r.randint(4, 18)):
        x = r.random()
        if not (live or corrs) or x < 0.15:
            i = g.data(small=True, nan=0.05)
            op = g.make(i)
            live.append((op["to"], i, op["o"]))
            inputs.append(op["to"])
            ops.append(op)
        elif x < 0.3 and live:
            on, i, kind = r.choice(live)
            if kind == "sacf":
                op = g.acf(on, i, cap=80, slowcap=8)
                y = r.random()
                if y < 0.5:
                    op["kw"]["return_correlator"] = True
                    op["to"] = g.name("c")
                    corrs.append((op["to"], i))
                elif y < 0.8:
                    op["keep"] = g.name("h")
                    held.append(op["keep"])
                if g.p(0.3) and g.plan["trace"] == "line":
                    op["f"] = {"gc": [r.randint(1, 60), r.randint(1, 200)]}
                ops.append(op)
            else:
                ops.append({"o": "sum", "on": on})
        elif x < 0.42 and live:
            on, i, kind = r.choice(live)
            c = g.name("c")
            ops.append({"o": "c_new", "on": on, "to": c})
            corrs.append((c, i))
        elif x < 0.6 and live:
            k = r.randrange(len(live))
            ops.append({"o": "drop", "slot": live.pop(k)[0]})
            ops.append({"o": "gc", "n": r.randint(1, 3)})
            if g.p(0.7):
                ops.append({"o": "churn", "n": r.randint(1, 8)})
        elif x < 0.85 and corrs:
            c, i = r.choice(corrs)
            ops += corr_ops(g, c, i)
        elif x < 0.9 and corrs:
            k = r.randrange(len(corrs))
            ops.append({"o": "drop", "slot": corrs.pop(k)[0]})
            ops.append({"o": "gc", "n": r.randint(1, 3)})
        elif x < 0.95 and held:
            ops.append({"o": "held", "on": r.choice(held)})
        elif inputs:
            ops.append({"o": "mutate", "name": r.choice(inputs) + r.choice([".t", ".v0", ".v1"]),
                        "kind": r.choice(["set", "clear", "scale", "append"]), "i": 0, "val": 7.0})
    g.plan["setup"] = ops
    if g.p(0.3) and (live or corrs):
        g.sched()
        for t in range(2):
            th = []
            for _ in range(r.randint(1, 2)):
                if live and g.p(0.7):
                    on, i, kind = r.choice(live)
                    th.append(g.acf(on, i, cap=60, slowcap=8) if kind == "sacf" else {"o": "sum", "on": on})
                th.append({"o": "gc"})
            g.plan["threads"].append(th)
        for on, i, kind in live:
            if g.p(0.5):
                g.plan["threads"][0].append({"o": "gc", "n": 2})
    g.plan["final"] = [{"o": "gc", "n": 3}, {"o": "churn", "n": 6}] + epilogue(g, live, corrs, held)


def script(g, n, kinds):
    r = g.r
    out = {}
    for _ in range(r.choice([0, 1, 1, 2])):
        k = r.choice(kinds)
        at = str(r.randint(1, max(2, 3 * n)))
        if k == "raise":
            out[at] = ["raise", r.choice(["InputFault", "OSError", "ValueError", "TypeError", "MemoryError", "KeyboardInterrupt"])]
        elif k == "append":
            out[at] = ["append", r.choice([1.0, -5.0, 1000.0])]
        elif k == "set":
            out[at] = ["set", r.randrange(n), r.choice([11.0, -3.5, 4096.0])]
        else:
            out[at] = [k]
    return out


def c11(g):
    """inputs that are alive"""
    r = g.r
    g.heap()
    g.sched()
    g.trace(0.1)
    kinds = r.choice([["raise"], ["append", "pop", "set", "clear"], ["reenter", "gc"], ["raise", "append", "pop", "set", "reenter", "gc"]])
    names = []

    def lazy(i, how=None):
        d = g.plan["data"][i]
        op = g.make(i, how=how or r.choice(["lazy", "lazy", "elems"]))
        n = len(d["t"])
        sc = {}
        for tag in ["t"] + ["v%d" % j for j in range(len(d["rows"]))] + (["e%d" % j for j in range(len(d["rows"]))] if d.get("errs") else []):
            if g.p(0.5):
                s = script(g, n, kinds)
                if s:
                    sc[tag] = s
        op["script"] = sc
        names.append((op["to"], len(d["rows"])))
        return op
    nth = r.choice([0, 1, 2, 2, 3])
    i = g.data(small=True, many=False)
    if nth == 0:
        for _ in range(r.randint(1, 4)):
            op = lazy(r.choice([i, g.data(small=True, many=False)]))
            g.plan["setup"] += [op, {"o": "sum", "on": op["to"]}]
            if op["o"] == "sacf" and g.p(0.5):
                g.plan["setup"].append({"o": "acf", "on": op["to"], "kw": {"max_lag": 4 * g.grid(op["data"])[0], "lag_resolution": g.grid(op["data"])[0], "min_lag": 0.0}})
        return
    op = g.make(i, to="base", kind="sacf")
    g.plan["setup"].append(op)
    for t in range(nth):
        ops = []
        for _ in range(r.randint(1, 3)):
            op = lazy(i if g.p(0.6) else g.data(small=True, many=False))
            ops += [op, {"o": "sum", "on": op["to"]}]
            if g.p(0.3):
                ops.append(g.acf("base", i, cap=60, slowcap=8))
        g.plan["threads"].append(ops)
    if nth > 1 and g.p(0.5):  # somebody else changes the inputs while they are read
        ops = []
        for _ in range(r.randint(1, 5)):
            nm, rows = r.choice(names)
            ops.append({"o": "mutate", "name": nm + r.choice([".t"] + [".v%d" % j for j in range(rows)]), "kind": r.choice(["set", "append", "pop"]),
                        "i": r.randrange(9), "val": r.choice([50.0, -1.5])})
        g.plan["threads"].append(ops)
    g.plan["final"] = [{"o": "sum", "on": "base"}, g.acf("base", i)]


def c12(g):
    """memory"""
    r = g.r
    g.heap()
    g.plan["trace"] = "none"
    g.plan["mode"] = "twice"
    g.plan["heap2"] = {"fill": r.choice([1, 2, 3, 4]), "seed": r.getrandbits(30), "quarantine": r.choice([0, 1 << 16])}
    if g.p(0.004):
        return vast(g)
    ops = []
    objs = []
    corrs = []
    for _ in range(r.randint(1, 3)):
        i = g.data(nan=0.15, odd=0.15)
        op = g.make(i, kind="sacf")
        objs.append((op["to"], i, "sacf"))
        ops.append(op)
    mostly = 0.75 if g.p(0.25) else 0.0  # a plan about the steps more than about whole calculations
    for _ in range(r.randint(2, 9)):
        on, i, _k = r.choice(objs)
        q, span, gap, cells = g.grid(i)
        x = mostly + (1 - mostly) * r.random()
        if x < 0.55:
            kw = g.kw(i, slow=0.6, fast=0.5, slowcap=40)
            if g.p(0.25) and "lag_resolution" in kw:
                kw["lag_resolution"] = r.choice([q / 4, q / 8, q / 16])
                lo = kw.get("min_lag", -span)
                kw["min_lag"] = lo
                kw["max_lag"] = lo + r.randint(1, 60) * kw["lag_resolution"]
            if g.p(0.1):
                kw["alpha"] = r.choice([0.0, -1.0, float("inf"), float("nan")])
            ops.append({"o": "acf", "on": on, "kw": kw})
            if kw.get("alpha") is not None and not kw["alpha"] > 0:
                ops[-1]["kw"]["selection_function"] = "fast"
        elif x < 0.6:
            ops.append({"o": "sum", "on": on})
        elif x < 0.64:
            ops.append(bogus(g, on))
        elif x < 0.7:
            f = g.file(damage(g, g.text(rows=r.choice([1, 5, 20]))[0]))
            op = g.load(f)
            ops += [op, {"o": "sum", "on": op["to"]}]
        elif x < 0.78 or not corrs:
            c = g.name("c")
            ops += [{"o": "c_new", "on": on, "to": c}]
            corrs.append((c, i))
        elif x < 0.9:
            ops += corr_ops(g, *r.choice(corrs))
        else:
            ops += wild(g, *r.choice(corrs))
    g.plan["setup"] = ops


def wild(g, c, i):
    """stepwise calls in orders and with arguments nobody intends: whatever they answer, memory stays sound"""
    r = g.r
    q = g.grid(i)[0]
    it = g.name("i")
    rows = len(g.plan["data"][i]["rows"])
    out = [{"o": "wild", "k": "it", "on": c, "to": it, "lag": r.choice([0.0, q, -q, 100 * q, -1000.0, 3.5 * q]),
            "n": r.choice([rows, rows, rows, 0, 1, rows + 1])}]
    follows = {"nat": ["dt"], "fast": ["dt"], "dt": ["w", "w2", "w3"], "w": ["corr"], "w2": ["corr"], "w3": ["corr"], "corr": ["add"], "setk": ["nat", "corr", "fast"],
               "add": ["nat", "read", "setk"]}
    last = None
    order = r.choice([0.0, 0.4, 0.7, 0.85])  # how often a step follows the one it is meant to follow
    for _ in range(r.randint(2, 14)):
        last = r.choice(follows[last]) if last in follows and g.p(order) else \
            r.choice(["nat", "nat", "fast", "dt", "w", "w2", "w3", "corr", "add", "add", "clean", "clear", "read", "setk", "attrs", "calc"])
        out.append({"o": "wild", "k": last,
                    "on": c, "it": it, "i": r.choice([0, 1, 2, 5, 40, -1, 300]), "lag": r.choice([0.0, q, -2 * q, 7 * q])})
    out.append({"o": "wild", "k": "clear", "on": c, "it": it})
    q2, span, gap, cells = g.grid(i)
    out += [{"o": "c_setup", "on": c, "kw": {"min_lag": -q, "max_lag": 3 * q, "lag_resolution": q}}, {"o": "c_calc", "on": c}, {"o": "c_read", "on": c}]
    return out


def c13(g):
    """stepwise work units"""
    r = g.r
    g.heap()
    g.sched()
    g.trace(0.1)
    i = g.data(small=True)
    q, span, gap, _ = g.grid(i)
    w = r.choice(["fractional", "fractional", "gaussian", "fractional_squared"])
    sel = "natural" if g.p(0.85) else "fast"
    lo = r.choice([-3, -2, 0, 1]) * q
    res = r.choice([q, 2 * q, q / 2])
    n = r.randint(1, 7)
    # the lags of the batch, zero included
    lags = []
    k = lo
    pos = False
    while k <= lo + (n - 1) * res:
        if k == 0:
            pos = True
        if k > 0 and not pos:
            lags.append(0.0)
            pos = True
        lags.append(k)
        k += res
    alpha = r.choice([None, 1.0, q])
    g.plan["setup"] += [g.make(i, to="s", kind="sacf"), {"o": "c_new", "on": "s", "to": "c"}]
    kw = {"min_lag": lo, "max_lag": lo + (n - 1) * res, "lag_resolution": res, "alpha": alpha}
    if g.p(0.5) or alpha is not None:
        g.plan["setup"].append({"o": "c_setup", "on": "c", "kw": kw})
    if g.p(0.3):
        g.plan["setup"] += [{"o": "c_calc", "on": "c"}]
    units = []
    for j, lag in enumerate(lags):
        it = "i%d" % j
        mk = {"o": "it_new", "on": "c", "to": it, "k": lag}
        if g.p(0.15):
            mk["k"], mk["setk"] = lag + 5 * q, lag
        u = [mk] + [{"o": "it_step", "on": "c", "it": it, "step": s, "w": w, "i": j, "sel": sel} for s in ("sel", "dt", "w", "corr", "add")]
        units.append(u)
    for j, lag in enumerate(lags):
        # other work on the same correlator, nothing of which is stored
        if g.p(0.12):
            it = "x%d" % j
            u = [{"o": "it_new", "on": "c", "to": it, "k": lag}]
            sel2, w2 = r.choice(["natural", "fast"]), r.choice(["fractional", "gaussian", "fractional_squared"])
            u += [{"o": "it_step", "on": "c", "it": it, "step": s, "w": w2, "i": j, "sel": sel2} for s in ("sel", "dt", "w", "corr")[:r.randint(1, 4)]]
            units.append(u)
    r.shuffle(units)
    nth = r.choice([1, 2, 2, 3])
    if g.p(0.2):
        nth = 0
    if nth == 0 or len(units) == 1:
        # one caller, the units' steps interleaved
        g.plan["setup"] += weave(r, units)
    else:
        ths = [[] for _ in range(nth)]
        for k, u in enumerate(units):
            ths[k % nth].append(u)
        g.plan["threads"] = [weave(r, us) if g.p(0.5) else [o for u in us for o in u] for us in ths if us]
        if g.p(0.3):
            g.plan["threads"].append([g.acf("s", i, cap=60, slowcap=8)])
    g.plan["final"] = [{"o": "c_clean", "on": "c", "n": len(lags)}, {"o": "c_read", "on": "c"}]
    g.plan["final"].append({"o": "acf", "on": "s", "kw": dict({k: v for k, v in kw.items() if v is not None}, weight_function=w, selection_function=sel)})


def weave(r, units):
    units = [list(u) for u in units]
    out = []
    while any(units):
        u = r.choice([u for u in units if u])
        for _ in range(r.randint(1, 3)):
            if u:
                out.append(u.pop(0))
    return out


def c14(g):
    """a correlator used again and again"""
    r = g.r
    g.heap()
    g.plan["trace"] = "none"
    if g.p(0.5):
        g.plan["probe"] = True
    i = g.data()
    op = g.make(i, to="s", kind="sacf")
    ops = [op]
    corrs = []
    for _ in range(r.randint(1, 2)):
        if g.p(0.5):
            a = g.acf("s", i)
            a["kw"]["return_correlator"] = True
            a["to"] = g.name("c")
            ops.append(a)
            corrs.append((a["to"], i))
        else:
            c = g.name("c")
            ops.append({"o": "c_new", "on": "s", "to": c})
            corrs.append((c, i))
    q, span, gap, cells = g.grid(i)
    for _ in range(r.randint(3, 14)):
        c, _i = r.choice(corrs)
        x = r.random()
        if x < 0.1:
            ops += [{"o": "c_set", "on": c, "attr": "lag_resolution", "val": r.choice([0.0, -q, float("nan"), 1e-300])},
                    {"o": r.choice(["c_calc", "c_calc", "c_find"]), "on": c, "sel": "natural", "w": "gaussian"},
                    {"o": "c_set", "on": c, "attr": "lag_resolution", "val": q},
                    {"o": "c_set", "on": c, "attr": "max_lag", "val": 6 * q}, {"o": "c_set", "on": c, "attr": "min_lag", "val": -3 * q},
                    {"o": "c_calc", "on": c}, {"o": "c_read", "on": c}]
        elif x < 0.2 and g.plan.get("probe"):
            ops += [with_alloc(g, {"o": "c_calc", "on": c}), {"o": "c_get", "on": c}, {"o": "c_calc", "on": c}, {"o": "c_read", "on": c}]
        elif x < 0.25:
            ops += [{"o": "c_calc", "on": c}, {"o": "c_calc", "on": c}, {"o": "c_read", "on": c}]
        elif x < 0.3:
            ops.append(g.acf("s", i))
        else:
            ops += corr_ops(g, c, i)
    g.plan["setup"] = ops
    g.plan["final"] = epilogue(g, [("s", i, "sacf")], corrs, [])


def c15(g):
    """bounded work"""
    r = g.r
    if g.p(0.08):
        return large(g)
    g.heap(False)
    g.plan["trace"] = "line"
    i = g.data(nan=0.05, odd=0.15)
    ops = [dict(g.make(i, to="s", kind="sacf"), budget=[20000 + 400 * g.grid(i)[3], 4000, 30000000])]
    q, span, gap, cells = g.grid(i)
    inf = float("inf")
    c = None
    for _ in range(r.randint(1, 4)):
        x = r.random()
        if x < 0.45:
            kw = g.kw(i, slow=0.6, slowcap=20)
        else:
            kw = {"lag_resolution": r.choice([0.0, -q, float("nan"), 1e-300, 5e-324, q, inf, -inf, 1e308, -1e-300, 1e-18 * (span + 1)]),
                  "max_lag": r.choice([span, 0.0, 5 * q, inf, 1e300, float("nan"), -1.0, 1e17, 2.0 ** 53]),
                  "min_lag": r.choice([0.0, -span, -inf, float("nan"), 1e17, 2.0 ** 53, -1e300])}
            for k in list(kw):
                if g.p(0.35):
                    del kw[k]
            if g.p(0.5):
                kw["weight_function"] = r.choice(["gaussian", "fractional_squared"])
        if c and g.p(0.3):
            for k, v in (("min_lag", -span), ("max_lag", span), ("lag_resolution", gap or 1.0)):
                kw.setdefault(k, v)
            ops += [{"o": "c_setup", "on": c, "kw": {k: v for k, v in kw.items() if not k.endswith("_function")}},
                    {"o": "c_calc", "on": c} if g.p(0.5) else {"o": "c_find", "on": c, "sel": "natural", "w": "gaussian"}]
            fit(g, ops[-1], i, kw)
            ops.append({"o": "c_setup", "on": c, "kw": {"min_lag": 0.0, "max_lag": 3 * q, "lag_resolution": q}})
            continue
        if not c and g.p(0.4):
            c = "c"
            ops.append({"o": "c_new", "on": "s", "to": "c"})
        op = {"o": "acf", "on": "s", "kw": kw}
        fit(g, op, i, kw)
        ops.append(op)
    if g.p(0.35):
        ops += [loading(g) for _ in range(r.randint(1, 2))]
    # settings that could legitimately take very long are left to the ones that must refuse them
    g.plan["setup"] = [o for o in ops if not o.pop("toolong", False)]
    g.plan["final"] = [{"o": "sum", "on": "s"}, {"o": "acf", "on": "s", "kw": {"min_lag": 0.0, "max_lag": 4 * q, "lag_resolution": q}}]


def large(g):
    """so many lags, points or rows of a file that work out of proportion to them shows"""
    r = g.r
    g.heap(False)
    g.plan["trace"] = "none"
    x = r.random()
    ops = g.plan["setup"]
    if x < 0.45:  # many lags over few points
        i = g.data(n=r.choice([1, 2, 3, 4]), rows=r.choice([1, 1, 2, 3]))
        q, span, gap, cells = g.grid(i)
        slow = g.p(0.4)
        lags = r.choice([12000, 16000, 20000] if slow else [16000, 24000, 30000])
        res = r.choice([q, q / 64, q / 1024])
        lo = r.choice([0.0, -span, -res * (lags // 2), q])
        kw = {"min_lag": lo, "max_lag": lo + lags * res, "lag_resolution": res}
        # about ten times what it takes
        cost = [5000 + lags * (60 + 30 * cells), 0, 200000 + lags * ((4000 if slow else 1000) + 600 * cells), 400000 + lags * (4000 + 1000 * cells)]
        ops += [dict(g.make(i, to="s", kind="sacf"), budget=[5000, 0, 200000, 400000])]
        y = r.random()
        if y < 0.35:
            ops.append({"o": "acf", "on": "s", "kw": dict(kw, **({"weight_function": r.choice(["gaussian", "fractional_squared"])} if slow else {})), "budget": cost})
        else:
            ops += [{"o": "c_new", "on": "s", "to": "c"}, {"o": "c_setup", "on": "c", "kw": kw}]
            for _ in range(r.randint(1, 2)):
                ops.append(dict({"o": "c_calc", "on": "c"} if not slow else {"o": "c_find", "on": "c", "sel": "natural", "w": "gaussian"}, budget=cost))
            ops.append({"o": "c_read", "on": "c", "budget": cost})
    elif x < 0.75:  # many points, few lags
        n = r.choice([4000, 8000, 16000])
        i = g.data(n=n, rows=r.choice([1, 1, 2]))
        q, span, gap, cells = g.grid(i)
        lags = r.randint(1, 4)
        lo = r.choice([0.0, q, span // (2 * q) * q, -q])
        kw = {"min_lag": lo, "max_lag": lo + lags * q, "lag_resolution": q}
        cost = [20000 + 400 * cells, 0, 200000 + (lags + 2) * 800 * cells, 400000 + (lags + 4) * 1000 * cells]
        new = [20000 + 400 * cells, 0, 200000 + 500 * cells, 400000 + 1000 * cells]
        ops += [dict(g.make(i, to="s", kind=None), budget=new)]
        ops += [{"o": "sum", "on": "s", "budget": new}]
        if ops[0]["o"] == "sacf":
            for _ in range(r.randint(1, 2)):
                ops.append({"o": "acf", "on": "s", "kw": dict(kw, **({"weight_function": r.choice(["gaussian", "fractional_squared"])} if g.p(0.5) else {})), "budget": cost})
    else:  # many rows of a file
        tx, n = g.text(rows=r.choice([3000, 10000, 20000]))
        f = g.file(tx, name="big.txt")
        io = None
        if g.p(0.3):
            ev, cy = fix_cycle(*chunks(g, tx))
            io = {"ev": ev, "cycle": cy}
        op = g.load(f, io=io)
        op["budget"] = [20000 + 60 * n, 0, 400000 + 25 * len(tx), 400000 + 150 * len(tx)]
        ops += [op, {"o": "sum", "on": op["to"]}]


def loading(g):
    """a load, whatever becomes of its file: work in proportion to the bytes"""
    r = g.r
    x = r.random()
    io = None
    if x < 0.12:
        f = g.file("", kind=r.choice(["dir", "dir", "missing", "cut"]))
        n = 0
    else:
        tx = bigtext(g) if g.p(0.7) else g.text()[0]
        if g.p(0.5):
            tx = damage(g, tx)
        n = len(tx)
        f = g.file(tx, name="b%d.txt" % len(g.plan["files"]))
        if x < 0.2:
            io = {"ev": [], "cycle": 0, "openfail": r.choice([v for k, v in OPENERR.items() if k != "EINTR"])}
        elif x < 0.6:
            k = r.randint(0, n // 8191 + 1) if g.p(0.5) else r.randint(0, 12)
            ev = [[0, 0] if g.p(0.5) else [1, r.choice([1, 5, 50, 500, n // 10 + 1])] for _ in range(k)]
            ev.append([3, r.choice(sorted(ERRNOS.values()))])
            io = {"ev": ev, "cycle": 1 if g.p(0.3) else 0}
        elif x < 0.8:
            ev, cy = fix_cycle(*chunks(g, tx))
            io = {"ev": ev, "cycle": cy}
        elif x < 0.9:
            io = {"ev": [[0, 0]] * r.randint(0, 3) + [[r.choice([4, 5, 6]), r.randint(0, n)]], "cycle": 0, "append": "7 1\n8 2"}
    op = g.load(f, io=io)
    op["budget"] = [20000 + 40 * n, 0, 3000000 + 4000 * n]
    return op


def fit(g, op, i, kw):
    """the work these settings are worth: allocations and interpreter steps in proportion to the lags asked for"""
    d = g.plan["data"][i]
    gaps = [b - a for a, b in zip(d["t"], d["t"][1:])]
    span = d["t"][-1] - d["t"][0]
    lo = kw.get("min_lag")
    hi = kw.get("max_lag")
    res = kw.get("lag_resolution")
    lo = -span if lo is None else lo
    hi = span if hi is None else hi
    res = (min(gaps) if gaps else 1.8e308) if res is None else res
    n = 0.0
    if hi >= lo and res > 0:
        if lo + res > lo:
            n = (hi - lo) / res if res != float("inf") else 1.0
            if n != n:
                n = 0.0
    must_refuse = n >= 2 ** 31 - 3
    if n > 2000 and not must_refuse:
        op["toolong"] = True
        return
    lags = 0 if must_refuse else n + 4
    m = len(d["t"])
    op["budget"] = [int(5000 + 40 * m * len(d["rows"]) + lags * (400 + 40 * m * len(d["rows"]))), int(3000 + lags * 400),
                    int(3000000 + 4000 * m * len(d["rows"]) + lags * (20000 + 3000 * m * (len(d["rows"]) + 2) + 300 * m * m))]


def c16(g):
    """every kind of trouble at once, with several callers: each fault stays with the call it hit"""
    r = g.r
    g.heap()
    g.sched()
    g.trace(0.15)
    g.plan["probe"] = True
    kinds = [k for k in ("alloc", "intr", "io", "gc", "bogus", "lazy", "drop", "mutate") if g.p(0.5)] or ["alloc", "intr"]
    rate = r.choice([0.2, 0.4, 0.7])
    base = [g.data(small=True) for _ in range(r.randint(1, 3))]
    shared = []
    for i in base:
        op = g.make(i, kind="sacf")
        shared.append((op["to"], i))
        g.plan["setup"].append(op)

    def hit(op):
        k = [x for x in kinds if x in ("alloc", "gc") or (x == "intr" and op["o"] in ("acf", "sacf", "c_find", "c_setup"))]
        if not k or not g.p(rate):
            return op
        k = r.choice(k)
        if k == "alloc":
            return with_alloc(g, op)
        if k == "gc":
            return dict(op, f={"gc": [r.randint(1, 40), r.randint(1, 200)]})
        return dict(op, f={"intr": [g.pos(), r.choice(["KeyboardInterrupt", "SystemExit", "Cancelled"])]})
    for t in range(r.choice([1, 2, 2, 3])):
        ops = []
        mine = []
        corrs = []
        for _ in range(r.randint(2, 6)):
            x = r.random()
            on, i = r.choice(mine + shared + shared)
            if x < 0.1 and "bogus" in kinds:
                ops.append(bogus(g, on))
            elif x < 0.25:
                i = r.choice(base) if g.p(0.6) else g.data(small=True)
                op = g.make(i, kind="sacf")
                f = hit(op)
                ops.append(f)
                if f is not op:
                    ops.append(dict(op, ifmissing=True))
                mine.append((op["to"], i))
            elif x < 0.33 and "lazy" in kinds:
                op = g.make(i, how=r.choice(["lazy", "elems"]), kind="sacf")
                op["script"] = {tag: script(g, len(g.plan["data"][i]["t"]), ["raise", "set", "append", "reenter", "gc"]) for tag in ("t", "v0") if g.p(0.6)}
                ops += [op, {"o": "sum", "on": op["to"]}]
            elif x < 0.43 and "io" in kinds:
                tx, n = g.text(rows=r.choice([1, 5, 40, 300]))
                f = g.file(tx, name="t%d_%d.txt" % (t, len(g.plan["files"])))
                io = r.choice([{"ev": [[0, 0]] * r.randint(0, 2) + [[3, 5]], "cycle": 0}, {"ev": [], "cycle": 0, "openfail": 24},
                               {"ev": [[1, r.choice([7, 100, 1000])]], "cycle": 1}])
                op = g.load(f, io=io)
                ops += [op, {"o": "sum", "on": op["to"]}]
                if g.p(0.5):
                    op = g.load(f)
                    ops += [op, {"o": "sum", "on": op["to"]}]
            elif x < 0.5 and corrs:
                c, i = r.choice(corrs)
                q = g.grid(i)[0]
                ops += [{"o": "c_setup", "on": c, "kw": {"min_lag": -q, "max_lag": r.randint(1, 5) * q, "lag_resolution": q}},
                        hit({"o": r.choice(["c_calc", "c_find"]), "on": c, "sel": "natural", "w": r.choice(["gaussian", "fractional_squared"])}),
                        {"o": "c_calc", "on": c}, {"o": "c_read", "on": c}]
            elif x < 0.56:
                c = g.name("c")
                ops.append({"o": "c_new", "on": on, "to": c})
                corrs.append((c, i))
            elif x < 0.6 and "drop" in kinds and mine:
                ops += [{"o": "drop", "slot": mine.pop()[0]}, {"o": "gc", "n": 2}, {"o": "churn", "n": 3}]
            elif x < 0.65 and "mutate" in kinds:
                ops.append({"o": "mutate", "name": on + r.choice([".t", ".v0"]), "kind": r.choice(["set", "clear", "scale", "append"]), "i": 1, "val": 7.0})
            elif x < 0.72:
                ops.append(hit({"o": "sum", "on": on}))
            else:
                op = g.acf(on, i, cap=80, slowcap=10)
                f = hit(op)
                ops.append(f)
                if f is not op and g.p(0.6):
                    ops.append(op)
        g.plan["threads"].append(ops)
    for on, i in shared:
        g.plan["final"] += [{"o": "sum", "on": on}, g.acf(on, i, slowcap=10)]


def inner(g, shared, depth=0, tag=""):
    """a few calls that stand on their own: what a signal handler, a finaliser or a child process might do"""
    r = g.r
    out = []
    mine = list(shared)
    for _ in range(r.randint(1, 3)):
        x = r.random()
        if x < 0.5 and mine:
            on, i = r.choice(mine)
            out.append(g.acf(on, i, cap=60, slowcap=6, slow=0.5))
            if g.p(0.2):
                out[-1] = with_alloc_abs(g, out[-1])
        elif x < 0.65:
            op = g.make(g.data(small=True), kind="sacf")
            out += [op, {"o": "sum", "on": op["to"]}]
            mine.append((op["to"], op["data"]))
        elif x < 0.75:
            op = g.load(g.file(g.text(rows=r.choice([1, 3, 8]))[0], name="n%s%d.txt" % (tag, len(g.plan["files"]))))
            out += [op, {"o": "sum", "on": op["to"]}]
        elif x < 0.85:
            out.append(bogus(g, mine[0][0] if mine else None))
        elif x < 0.92 and mine:
            out.append({"o": "sum", "on": r.choice(mine)[0]})
        elif mine:
            on, i = r.choice(mine)
            c = g.name("c")
            q = g.grid(i)[0]
            out += [{"o": "c_new", "on": on, "to": c}, {"o": "c_setup", "on": c, "kw": {"min_lag": -q, "max_lag": 2 * q, "lag_resolution": q}},
                    {"o": "c_calc", "on": c} if g.p(0.5) else {"o": "c_find", "on": c, "sel": "natural", "w": "gaussian"}, {"o": "c_read", "on": c}]
    return out


def with_alloc_abs(g, op):
    return dict(op, f={"alloc": [g.r.randint(1, 60), g.r.choice([1, 3, 1000000]), 0, 0]})


def c17(g):
    """calls made from inside calls, on the same thread"""
    r = g.r
    g.heap()
    g.sched()
    g.trace(0.3)
    g.plan["probe"] = True
    base = [g.data(small=True) for _ in range(r.randint(1, 2))]
    if g.p(0.4):
        base.append(g.like(base[0]))
    shared = []
    for i in base:
        op = g.make(i, kind="sacf")
        shared.append((op["to"], i))
        g.plan["setup"].append(op)

    def seq(k, tag):
        ops = []
        c = None
        for _ in range(k):
            on, i = r.choice(shared)
            x = r.random()
            if x < 0.6:
                op = g.acf(on, i, cap=60, slowcap=10, slow=0.7)
            elif x < 0.72:
                op = g.make(r.choice(base), kind="sacf")
            elif x < 0.84:
                op = g.make(g.data(small=True, many=False), how=r.choice(["lazy", "elems"]), kind=None)
                n = len(g.plan["data"][op["data"]]["t"])
                op["script"] = {t: {str(r.randint(1, 2 * n)): ["nest", inner(g, shared, tag=tag)]} for t in ("t", "v0") if g.p(0.7)}
                ops += [op, {"o": "sum", "on": op["to"]}]
                continue
            elif x < 0.9:
                op = g.load(g.file(g.text(rows=r.choice([1, 5]))[0], name="o%s%d.txt" % (tag, len(g.plan["files"]))))
            else:
                c = g.name("c")
                q = g.grid(i)[0]
                ops += [{"o": "c_new", "on": on, "to": c}, {"o": "c_setup", "on": c, "kw": {"min_lag": -q, "max_lag": 4 * q, "lag_resolution": q}}]
                op = {"o": "c_find", "on": c, "sel": "natural", "w": r.choice(["gaussian", "fractional_squared", "fractional"])}
                if g.p(0.5):
                    # a native calculation is one step; whatever it may let in finds the correlator as before it or after it
                    if g.p(0.5):
                        ops[-1]["kw"]["lag_resolution"] = q / 64
                    same = [{"o": o, "on": c} for o in r.choices(["c_calc", "c_lags", "c_rows", "c_clear"], k=r.randint(1, 3))]
                    ops += [{"o": "c_calc", "on": c, "f": {"nest": [[g.pos(), same if g.p(0.7) else inner(g, shared, tag=tag)]]}}, {"o": "c_read", "on": c}]
                    continue
            f = {}
            if g.p(0.85):
                f["nest"] = [[g.pos(), inner(g, shared, tag=tag)] for _ in range(r.choice([1, 1, 2, 3]))]
            if g.p(0.15):
                f["intr"] = [r.random(), r.choice(["KeyboardInterrupt", "SystemExit", "Cancelled"])]
            if f:
                op["f"] = f
            ops.append(op)
            if op["o"] == "c_find":
                ops += [{"o": "c_calc", "on": c}] * ("intr" in f) + [{"o": "c_read", "on": c}]
            elif op["o"] != "acf" and "intr" not in f:
                ops.append({"o": "sum", "on": op["to"]})
        return ops
    nth = r.choice([0, 0, 0, 2, 2, 3])
    if g.p(0.06):
        # one inside the other, many levels deep
        ops = inner(g, shared, tag="z")
        for k in range(r.randint(4, 13)):
            op = g.make(g.data(n=r.choice([2, 3]), many=False), how=r.choice(["lazy", "elems"]), kind=None)
            op["script"] = {r.choice(["t", "v0"]): {str(r.randint(1, 3)): ["nest", ops]}}
            ops = [op, {"o": "sum", "on": op["to"]}]
            if g.p(0.4):
                ops.insert(r.randint(0, 2), g.acf(*r.choice(shared), cap=20, slowcap=5))
        g.plan["setup"] += ops
    if not nth:
        g.plan["setup"] += seq(r.randint(1, 4), "a")
    for t in range(nth):
        g.plan["threads"].append(seq(r.randint(1, 2), "t%d" % t))
    for on, i in shared:
        g.plan["final"] += [{"o": "sum", "on": on}, g.acf(on, i, slowcap=10)]


def c18(g):
    """processes forked at any point"""
    r = g.r
    g.heap()
    g.sched()
    g.trace(0.15)
    g.plan["probe"] = True
    base = [g.data(small=True) for _ in range(r.randint(1, 2))]
    shared = []
    corrs = []
    for i in base:
        op = g.make(i, kind="sacf")
        shared.append((op["to"], i))
        g.plan["setup"].append(op)
        if g.p(0.5):
            g.plan["setup"].append(g.acf(op["to"], i, cap=60, slowcap=6))
    if g.p(0.5):
        on, i = shared[0]
        q = g.grid(i)[0]
        g.plan["setup"] += [{"o": "c_new", "on": on, "to": "c"}, {"o": "c_setup", "on": "c", "kw": {"min_lag": -q, "max_lag": 4 * q, "lag_resolution": q}}]
        if g.p(0.6):
            g.plan["setup"].append({"o": "c_calc", "on": "c"})
        corrs.append(("c", i))

    def fork(tag, own):
        ops = inner(g, shared, tag=tag)
        if own and g.p(0.5):
            c, i = own[0]
            q = g.grid(i)[0]
            k = r.random()
            if k < 0.6:
                ops += [{"o": "c_setup", "on": c, "kw": {"min_lag": -2 * q, "max_lag": r.randint(0, 4) * q, "lag_resolution": q}}, {"o": "c_calc", "on": c}]
            ops.append({"o": "c_read", "on": c})
        if g.p(0.15):
            ops.append({"o": "gc"})
        return {"o": "fork", "ops": ops}
    nth = r.choice([0, 0, 2, 2, 2, 3])
    seqs = []
    for t in range(max(1, nth)):
        tag = "t%d" % t
        own = corrs if t == 0 else []
        ops = []
        for _ in range(r.randint(1, 3)):
            on, i = r.choice(shared)
            x = r.random()
            if x < 0.45:
                ops.append(fork(tag, own))
            elif x < 0.85:
                op = g.acf(on, i, cap=60, slowcap=8, slow=0.6)
                if g.p(0.3):
                    op["f"] = {"nest": [[g.pos(), [fork(tag, [])]]]}
                ops.append(op)
            elif own:
                ops += [{"o": "c_calc", "on": "c"}, {"o": "c_read", "on": "c"}]
            else:
                op = g.make(r.choice(base), kind="sacf")
                ops += [op, {"o": "sum", "on": op["to"]}]
        seqs.append(ops)
    if nth:
        g.plan["threads"] = seqs
        if not any(o["o"] == "fork" for s in seqs for o in s):
            seqs[0].append(fork("t0", corrs))
    else:
        g.plan["setup"] += seqs[0]
    for on, i in shared:
        g.plan["final"] += [{"o": "sum", "on": on}, g.acf(on, i, slowcap=10)]
    for c, i in corrs:
        g.plan["final"] += [{"o": "c_read", "on": c}, {"o": "c_calc", "on": c}, {"o": "c_read", "on": c}]
    if g.p(0.3):
        g.plan["final"].append(fork("f", corrs))


def c19(g):
    """the process is left as it was found"""
    r = g.r
    g.heap()
    g.sched()
    g.trace(0.15)
    g.plan["probe"] = True
    g.plan["watch"] = True
    env = {"gc": g.p(0.6)}
    for k, v in (("umask", r.choice([0o022, 0o077, 0])), ("cwd", "somewhere"), ("recursion", r.choice([500, 5000])), ("switch", r.choice([0.001, 0.01])),
                 ("warn", r.choice(["error", "ignore", "always"])), ("environ", {"OMP_NUM_THREADS": "3", "SACF": "1"}), ("seed", r.getrandbits(20)),
                 ("signal", [r.choice([2, 8, 10, 14, 15])])):
        if g.p(0.35):
            env[k] = v
    if g.p(0.3):
        env["locale"] = r.choice(LOCALES)
    if g.p(0.3):
        env["float"] = [r.choice([0, 0x400, 0x800, 0xc00]), int(g.p(0.5))]
    g.plan["env"] = env
    ops, objs, corrs, held = history(g, r.randint(2, 7))
    kinds = [k for k in ("alloc", "intr", "io", "bogus", "nest") if g.p(0.6)]
    rate = r.choice([0.2, 0.5, 0.8])
    rough = []

    def hit(op):
        k = [x for x in kinds if x == "alloc" and op["o"] in FAULTY or x in ("intr", "nest") and op["o"] in ("acf", "sacf", "c_find") or
             x == "io" and op["o"] in ("sacf_file", "ds_file")]
        if not k or not g.p(rate):
            return op
        k = r.choice(k)
        op = {a: b for a, b in op.items() if not (a == "keep" or (a == "to" and op["o"] == "acf"))}
        if k == "alloc":
            return with_alloc(g, op)
        if k == "nest":
            return dict(op, f={"nest": [[g.pos(), inner(g, [], tag="n")]]})
        if k == "io":
            return dict(op, f={"io": r.choice([{"ev": [[0, 0]] * r.randint(0, 2) + [[3, 5]], "cycle": 0}, {"ev": [], "cycle": 0, "openfail": 24},
                                               {"ev": [[1, 5]], "cycle": 1}])})
        return dict(op, f={"intr": [g.pos(), r.choice(["KeyboardInterrupt", "SystemExit", "Cancelled"])]})
    for op in ops:
        f = hit(op)
        rough.append(f)
        if f is not op and "f" in f and "io" not in f["f"] and op["o"] != "bogus":
            if "to" in op and op["o"] != "acf":
                rough.append(dict(op, ifmissing=True))
            else:
                rough.append(op)
        if "bogus" in kinds and g.p(0.2):
            rough.append(bogus(g))
    g.plan["setup"] = rough
    sacfs = [(on, i) for on, i, kind in objs if kind == "sacf"]
    if sacfs and g.p(0.4):
        for t in range(r.choice([2, 2, 3])):
            th = []
            for _ in range(r.randint(1, 3)):
                on, i = r.choice(sacfs)
                x = r.random()
                if x < 0.7:
                    th.append(hit(g.acf(on, i, cap=60, slowcap=8, slow=0.7)))
                elif x < 0.85:
                    th.append(hit(g.load(g.file(g.text(rows=r.choice([1, 3]))[0], name="t%d_%d.txt" % (t, len(g.plan["files"]))))))
                else:
                    th.append(bogus(g, on))
            g.plan["threads"].append(th)
    g.plan["final"] = epilogue(g, objs[:1], [], [])
    if "float" in env and any(f["kind"] == "file" for f in g.plan["files"]):
        env["float"][0] = 0  # numbers are read as the rounding has it


def c20(g):
    """the process ends, with whatever goes on in it"""
    r = g.r
    g.heap()
    g.sched()
    g.trace(0.15)
    ops, objs, corrs, held = history(g, r.choice([0, 1, 2, 4, 6]))
    rough = []
    for op in ops:
        if op["o"] in FAULTY and g.p(0.08):
            rough.append(with_alloc_abs(g, {a: b for a, b in op.items() if not (a == "keep" or (a == "to" and op["o"] == "acf"))}))
            if "to" in op and op["o"] != "acf":
                op = dict(op, ifmissing=True)
        rough.append(op)
    shared = [(on, i) for on, i, kind in objs if kind == "sacf"]
    if not shared and g.p(0.8):
        op = g.make(g.data(small=True), kind="sacf")
        rough.append(op)
        shared.append((op["to"], op["data"]))
    g.plan["setup"] = rough
    daemon = g.p(0.5)
    for t in range(r.choice([0, 0, 1, 2, 2, 3])):
        th = []
        for _ in range(r.randint(1, 3)):
            th += inner(g, shared, tag="t%d" % t)
        if daemon:  # a stream such a thread is stuck in is for the C library to deal with
            gone = {o["to"] for o in th if o["o"] in ("sacf_file", "ds_file")}
            th = [o for o in th if o.get("to") not in gone and o.get("on") not in gone]
        g.plan["threads"].append(th)
    last = inner(g, shared, tag="e") if g.p(0.7) else []
    if g.p(0.5):
        last += inner(g, shared, tag="l")
    for c, i in corrs[:2]:
        if g.p(0.5):
            last += [{"o": "c_read", "on": c}, {"o": "c_calc", "on": c}, {"o": "c_read", "on": c}]
    g.plan["final"] = last
    g.plan["end"] = {"how": r.choice(["exit", "exit", "return", "exception"]), "status": r.choice([0, 3, 7]), "daemon": daemon,
                     "delay": r.choice([0, 0, 3, 30, 300]), "split": r.randint(0, len(last))}


ODD = ["a b.txt", "#1", "%s%n", "data", "d\u00e4ta \u2603.dat", "x" * 250, " lead", "trail ", "trail\n", ".hidden", "-n", "a'b\"c", "new\nline", "back\\slash", "*?", "~", "data.csv.gz", "0"]


def swapped(text):
    """the same text but for a digit here and there"""
    import re
    return "\n".join(re.sub(r"^(\s*[^\s,]+[\s,]+)(.*)$", lambda m: m.group(1) + re.sub(r"[eE][-+]?\d+|[34]", lambda d: {"3": "4", "4": "3"}.get(d.group(), d.group()), m.group(2)), ln)
                     if not ln.startswith("#") else ln for ln in text.split("\n"))


def places(g):
    """where the files of the set-up lie, what they are called, and what lay there before"""
    r = g.r
    mine = [f for f in g.plan["files"] if "name" not in f]
    if not mine:
        return
    style = r.choice(["odd", "rel", "same", "same", "same"])
    for f in mine:
        if style == "odd":
            f["name"] = r.choice(ODD)
            if g.plan.get("mode") == "leak":
                f["name"] = f["name"].encode("ascii", "replace").decode()  # PyPy keeps a few bytes of each other str that C code is given
        elif f["kind"] == "file" and style == "rel":
            f["rel"] = r.choice(["d1", "d2"])
            f["name"] = "data.txt"
        elif style == "same":
            f["name"] = "data.txt"
            f["when"] = 1500000000
    if style == "same" and any(f["kind"] != "file" for f in mine):
        return
    for op in list(g.plan["setup"]):
        if style != "odd" and op["o"] in ("sacf_file", "ds_file") and g.plan["files"][op["file"]] in mine and not (op.get("f") or {}).get("io") and g.p(0.7):
            f = g.plan["files"][op["file"]]
            two = swapped(f["text"])
            if two != f["text"]:
                k = g.file(two)
                g.plan["files"][k] = dict(f, text=two)
                if "rel" in f:
                    g.plan["files"][k]["rel"] = "d1" if f["rel"] == "d2" else "d2"
                again = g.load(k)
                g.plan["setup"] += [again, {"o": "sum", "on": again["to"]}]


PROFILES = {"C20": c20, "C17": c17, "C18": c18, "C19": c19, "C16": c16, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10,
            "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15}


COLD = 0.08


def plan(check, seed, i, tier="quick"):
    g = G(rng_for(seed, check, i), check, tier)
    g.cold = check != "C06" and rng_for(seed, check + " cold", i).random() < COLD * (1.5 if check == "C05" else 1)
    PROFILES[check](g)
    p = g.plan
    if g.p(0.3):
        places(g)
    if g.cold:
        p["cold"] = True  # in a process that has imported the package and made no call of it yet
    p["id"] = "%s:%s:%d" % (seed, check, i)
    return p
