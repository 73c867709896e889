"""Reference model: the sequential meaning of the package, written from its documentation and public API.

Plain lists, no sharing, no state outside the objects.  Comparisons use a tolerance derived from the magnitude of
the summed terms, so that a different order of summation in the code under test is not a difference.
"""
import math
from bisect import bisect_left

INF = float("inf")
NAN = float("nan")
DBL_MAX = 1.7976931348623157e308
EPS = 2.220446049250313e-16


class Invalid(Exception):
    """the model says construction or calculation must raise"""


def div(a, b):
    """IEEE division"""
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return NAN
        neg = (a < 0) != (math.copysign(1.0, b) < 0)
        return -INF if neg else INF


def fadd(a, b):
    return a + b


def weight(kind, dt, alpha):
    r = div(dt, alpha)
    if kind == "fractional":
        return div(1.0, 1.0 + r)
    if kind == "fractional_squared":
        return div(1.0, 1.0 + r * r)
    if kind == "gaussian":
        x = div(-(dt * dt), 2.0 * alpha * alpha)
        if x != x:
            return NAN
        return math.exp(x) if x < 700 else INF
    raise KeyError(kind)


def lag_grid(lo, hi, res, cap=200000):
    """the lags of a calculation; raises Invalid where the lag cannot advance"""
    out = []
    k = lo
    positive = False
    while k <= hi:
        if not (k + res > k):
            raise Invalid("lag does not advance")
        if k == 0:
            positive = True
        if k > 0 and not positive:
            out.append(0.0)
            positive = True
        out.append(k)
        if len(out) > cap:
            raise OverflowError("grid too long for the model")
        k += res
    return out


def lag_count(lo, hi, res):
    """upper bound on the number of lags, None when it has no finite bound"""
    if not (hi >= lo):
        return 0
    if not (res > 0):
        return 0
    n = (hi - lo) / res if (hi - lo) / res < 1e15 else None
    return None if n is None else int(n) + 3


_uid = [0]


class DS:
    def __init__(self, t, rows, errs=None, uid=None):
        _uid[0] += 1
        self.uid = uid if uid is not None else _uid[0]
        self.t = [float(x) for x in t]
        self.rows = [[float(x) for x in r] for r in rows]
        self.errs = [[float(x) for x in r] for r in errs] if errs else []
        if self.errs and not any(self.errs):
            self.errs = []
        if not self.t or not self.rows or not any(self.rows):
            raise Invalid("empty")
        if any(len(r) != len(self.t) for r in self.rows):
            raise Invalid("lengths")
        if self.errs and (len(self.errs) != len(self.rows) or any(len(r) != len(self.t) for r in self.errs)):
            raise Invalid("error lengths")
        self.M = len(self.t)
        self.nt = [x - self.t[0] for x in self.t]
        self.mean = []
        self.norm = []
        self.N = []
        for r in self.rows:
            ok = [x for x in r if x == x]
            s = 0.0
            for x in ok:
                s += x
            m = div(s, float(len(ok)))
            self.mean.append(m)
            self.norm.append([x - m for x in r])
            n = 0.0
            for x in ok:
                n += (x - m) * (x - m)
            self.N.append(n)
        h = self.M // 2
        self.median = (self.nt[h - 1] + self.nt[h]) / 2 if self.M % 2 == 0 else self.nt[h]
        self.max_time = self.t[-1]
        self.maxabs = max([abs(x) for r in self.rows for x in r if x == x] or [0.0])
        d = DBL_MAX
        for a, b in zip(self.nt, self.nt[1:]):
            if b - a < d:
                d = b - a
        self.def_res = d
        self.def_max = self.nt[-1]
        self.ordered = all(b > a for a, b in zip(self.t, self.t[1:])) and all(math.isfinite(x) for x in self.t)
        self.finite = all(math.isfinite(x) for r in self.rows for x in r)
        self._cache = {}

    def summary(self):
        return {
            "data": self.rows, "errors": self.errs, "timeseries": self.t, "normalised_timeseries": self.nt,
            "normalised_data": self.norm, "mean_data": self.mean, "median_time": self.median,
            "max_time": self.max_time, "N_datasets": len(self.rows), "M_datapoints": self.M,
        }

    def at_lag(self, k, alpha, wkind):
        """natural selection: [(value, tolerance)] per dataset"""
        key = (k, alpha, wkind)
        if key in self._cache:
            return self._cache[key]
        nt = self.nt
        back = nt[-1]
        terms = []
        for i, x in enumerate(nt):
            s = x + k
            if s > back:
                break
            j = bisect_left(nt, s)
            if j != 0 and abs(s - nt[j - 1]) < abs(s - nt[j]):
                j -= 1
            terms.append((i, j, weight(wkind, abs(nt[j] - s), alpha)))
        out = []
        for r, N in zip(self.norm, self.N):
            tot = mag = lin = 0.0
            for i, j, w in terms:
                v = w * r[i] * r[j]
                tot += v
                mag += abs(v)
                lin += abs(w) * (abs(r[i]) + abs(r[j]))
            inv = div(1.0, N)
            tol = (1e-9 * mag + 32 * EPS * self.maxabs * lin) * abs(inv) + 1e-290
            out.append((tot * inv, tol))
        self._cache[key] = out
        return out

    def acf(self, lo, hi, res, alpha, wkind):
        """(lags, rows of values, rows of tolerances)"""
        lags = lag_grid(lo, hi, res)
        per = [self.at_lag(k, alpha, wkind) for k in lags]
        rows = [[p[j][0] for p in per] for j in range(len(self.rows))]
        tols = [[p[j][1] for p in per] for j in range(len(self.rows))]
        return lags, rows, tols

    def settings(self):
        return {"max_lag": self.def_max, "min_lag": -self.def_max, "lag_resolution": self.def_res, "alpha": self.median}


def same(a, b, tol=0.0):
    """two floats agree (NaN agrees with NaN)"""
    try:
        if a != a or b != b:
            return a != a and b != b
        return a == b or abs(a - b) <= tol
    except TypeError:
        return False


def same_list(a, b, tol=None):
    if not isinstance(a, (list, tuple)) or len(a) != len(b):
        return False
    for i in range(len(b)):
        x, y = a[i], b[i]
        if isinstance(y, (list, tuple)):
            if not same_list(x, y, tol[i] if tol is not None else None):
                return False
        elif isinstance(x, (list, tuple)) or not same(x, y, tol[i] if tol is not None else 0.0):
            return False
    return True


# ---------------------------------------------------------------------------------------------- files

WS = " \t\r\v\f"


def parse_number(s, i):
    """What reading a double from position i of text s yields: (value or None, next position).

    The grammar of a formatted stream read in the classic locale: optional sign, digits with an optional point, optional
    exponent; the longest such run is taken and must be a complete number."""
    n = len(s)
    while i < n and s[i] in WS:
        i += 1
    if i >= n:
        return None, i
    j = i
    tok = ""
    if j < n and s[j] in "+-":
        tok += s[j]
        j += 1
    digits = dot = exp = False
    while j < n:
        c = s[j]
        if "0" <= c <= "9":
            digits = True
            tok += c
        elif c == "." and not dot and not exp:
            dot = True
            tok += c
        elif c in "eE" and not exp and digits:
            exp = True
            tok += c
            if j + 1 < n and s[j + 1] in "+-":
                j += 1
                tok += s[j]
        else:
            break
        j += 1
    if not digits:
        return None, j
    if exp and tok[-1] in "eE+-":
        return None, j
    v = float(tok)
    if math.isinf(v):
        return None, j
    return v, j


def parse_file(data):
    """(times, values, errors or []) of the bytes of a data file"""
    t, x, e = [], [], []
    has_err = None
    lines = data.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    for ln in lines:
        if ln[:1] == "#":
            continue
        ln = ln.replace(",", " ")
        a, i = parse_number(ln, 0)
        if a is None:
            continue
        b, i = parse_number(ln, i)
        if b is None:
            continue
        c, i = parse_number(ln, i)
        t.append(a)
        x.append(b)
        if has_err is None:
            has_err = c is not None
        e.append(NAN if c is None else c)
    return t, x, (e if has_err else [])
