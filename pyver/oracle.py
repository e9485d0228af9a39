"""Concrete counterparts of the properties: generators of inputs and judges on the real code.

A judge answers whether one input, run on CPython with /repo's code, breaks the property.  They only look for
failing inputs of obligations the verifier did not accept, and sample the accepted ones (labelled as sampled)."""
import copy
import datetime as dt
import gc
import math
import os
import pickle
import random
import time
import types
import warnings
from fractions import Fraction
from . import contract as ct
from . import conc
from .conc import Skip, UTC, aware, args_for, allowed, call, tojson
from .contract import R, When, Local, NumM

SOLAR = "pysolar.solar."
REG = ct.REG


def fromjson(v):
    if isinstance(v, dict):
        if set(v) == {"datetime"}:
            return dt.datetime.fromisoformat(v["datetime"])
        if "summer" in v:
            return dt.datetime.fromisoformat(v["summer"]).replace(tzinfo=conc.SUMMER, fold=v["fold"])
        if "naive" in v:
            return dt.datetime.fromisoformat(v["naive"]).replace(fold=v.get("fold", 0))
        return {k: fromjson(x) for k, x in v.items()}
    if isinstance(v, list):
        return [fromjson(x) for x in v]
    return v


JUDGE, GEN = {}, {}


def judge(f):
    JUDGE[f.__name__[2:]] = f
    return f


def gen(f):
    GEN[f.__name__[2:]] = f
    return f


def show(kind, v):
    return "raised %s: %s" % (type(v).__name__, v) if kind == "raise" else "%r" % (v,)


def close(a, b, tol, angle=None):
    a, b = conc.flat(a), conc.flat(b)
    if len(a) != len(b):
        return False
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(x, dt.datetime) or isinstance(y, dt.datetime):
            if conc.dist(x, y, None) > 2e-6:
                return False
            continue
        ang = angle[i] if isinstance(angle, tuple) and i < len(angle) else angle if not isinstance(angle, tuple) else None
        try:
            d = conc.dist(x, y, ang)
            d = d / max(1.0, abs(float(y)))
        except (TypeError, ValueError, OverflowError):
            return x == y
        if not d <= tol:
            return False
    return True


def spread(fn, args, base, robust=True):
    """how much the result moves under rounding-size changes of the arguments"""
    s = 0.0
    for e in (1e-13, -1e-13, 7e-13):
        a = [conc.perturb(x, e, robust) for x in args]
        k, v, _ = call(fn, a)
        if k != "value":
            raise Skip
        for x, y in zip(conc.flat(v), conc.flat(base)):
            if isinstance(x, dt.datetime):
                continue
            try:
                d = conc.dist(x, y, 360 if abs(float(x)) > 1 else None)
            except (TypeError, ValueError):
                continue
            if math.isinf(d):
                raise Skip
            s = max(s, d)
    return s


# ---------------------------------------------------------------- contract of one function
def contract_gen(quals, hint=None):
    def g(real, rng):
        q = rng.choice(quals)
        c = REG[q]
        modes = c.ways()
        return {"function": q, "backend": rng.choice(("math", "numpy")), "mode": rng.choice(modes), "args": args_for(c, rng)}
    return g


@judge
def j_contract(real, d, robust=False, tol=None):
    c = REG[d["function"]]
    real.use(d["backend"])
    args = copy.deepcopy(d["args"])
    return conc.check_call(c, real, args, "" if d["mode"] == "positional" else d["mode"], tol, robust)


# ---------------------------------------------------------------- P01
def instants():
    return [q for q, c in REG.items() if any(type(k) is When for _, k in c.params) and not any(isinstance(k, Local) for _, k in c.params)]


def rezone(w, rng):
    if rng.random() < 0.1:
        try:
            return w.astimezone(conc.SUMMER)
        except (OverflowError, ValueError):
            pass
    for _ in range(5):
        off = rng.choice(conc.OFFSETS + (1800, -5400, 45900, 50400, -43200, 3661, -1, 59, 86340))
        try:
            return w.astimezone(dt.timezone(dt.timedelta(seconds=off)))
        except (OverflowError, ValueError):
            pass
    raise Skip


@gen
def g_zones(real, rng, only=None):
    q = rng.choice(only or instants())
    c = REG[q]
    a = args_for(c, rng)
    i = [j for j, (n, k) in enumerate(c.params) if isinstance(k, When)][0]
    b = list(a)
    b[i] = rezone(a[i], rng)
    return {"function": q, "backend": rng.choice(("math", "numpy")), "args": a, "same": b}


@judge
def j_zones(real, d):
    c = REG[d["function"]]
    if not allowed(c, real, d["args"]):
        raise Skip
    real.use(d["backend"])
    f = real.function(d["function"])
    k1, v1, w1 = call(f, copy.deepcopy(d["args"]))
    k2, v2, w2 = call(f, copy.deepcopy(d["same"]))
    if k1 != k2 or (k1 == "value" and repr(v1) != repr(v2)) or (k1 == "raise" and type(v1) is not type(v2)) or bool(w1) != bool(w2):
        return "%s(%r) %s but for the same instant %r it %s" % (d["function"], d["args"], show(k1, v1), d["same"], show(k2, v2))


# ---------------------------------------------------------------- P02
class Thing:
    def __repr__(self):
        return "<thing>"


class ArrayLike(Thing):
    """offers itself to numpy, and is no array"""
    dtype, ndim, size = "datetime64[s]", 0, 1

    def __array__(self, *a, **k):
        import numpy as np
        return np.array("2020-06-01T12:00", dtype="datetime64[s]")

    def __len__(self): return 1
    def __getitem__(self, i): raise IndexError
    def __iter__(self): return iter(())


class Stamp(dt.datetime):
    """a naive datetime of another class, with more attributes"""
    nanosecond, unit = 0, "us"

    def __array__(self, *a, **k):
        import numpy as np
        return np.array(self.replace(tzinfo=None), dtype="datetime64[us]")

    def to_pydatetime(self): return dt.datetime(*self.timetuple()[:6])
    def to_datetime64(self): return self.__array__()[()]


BAD = {"array-like": ArrayLike, "naive of a subclass": lambda: Stamp(2020, 6, 1, 12, 30), "naive": lambda: dt.datetime(2020, 6, 1, 12, 30), "none": lambda: None, "int": lambda: 20200601, "float": lambda: 1.5e9,
       "str": lambda: "2020-06-01T12:00:00+00:00", "date": lambda: dt.date(2020, 6, 1), "object": Thing, "list": lambda: [2020, 6, 1],
       "naive far": lambda: dt.datetime(2300, 1, 1), "naive old": lambda: dt.datetime(1800, 1, 1), "dict": lambda: {"tz": UTC},
       "timedelta": lambda: dt.timedelta(1), "tuple": lambda: (2020, 6, 1), "zero": lambda: 0, "naive fold": lambda: dt.datetime(2020, 10, 25, 2, 30, fold=1)}


def _naive(rng):
    d = aware(rng).replace(tzinfo=None, fold=rng.randrange(2))
    if rng.random() < 0.15:
        d = rng.choice((dt.datetime.min, dt.datetime.max, dt.datetime(1, 1, 1), dt.datetime(9999, 12, 31), dt.datetime(1970, 1, 1), dt.datetime(1900, 1, 1),
                        d.replace(year=rng.randint(1, 30), day=min(d.day, 28)), d.replace(hour=0, minute=0, second=0, microsecond=0)))
    return d.replace(microsecond=rng.choice((d.microsecond, 0, 999999)))


@gen
def g_refuse(real, rng, only=None):
    from .tasks import refuse_targets
    q = rng.choice(only or refuse_targets())
    c = REG[q]
    return {"function": q, "backend": rng.choice(("math", "numpy")), "bad": _naive(rng) if rng.random() < 0.4 else rng.choice(sorted(BAD)),
            "how": rng.choice(("positional", "keyword", "defaults", "short", "mixed")), "others": rng.choice(("valid", "junk")), "cut": rng.randrange(2),
            "args": [None if isinstance(k, When) else v for (n, k), v in zip(c.params, args_for(c, rng))]}


@judge
def j_refuse(real, d):
    c = REG[d["function"]]
    real.use(d["backend"])
    f = real.function(d["function"])
    odd = isinstance(d["bad"], dt.datetime)
    val = d["bad"] if odd else BAD[d["bad"]]()
    vals = [val if isinstance(k, When) else (object() if d["others"] == "junk" else a) for (n, k), a in zip(c.params, d["args"])]
    names = [n for n, _ in c.params]
    kw = dict(zip(names, vals))
    at = [i for i, (n, k) in enumerate(c.params) if isinstance(k, When)][0]
    cut = at + (d.get("cut", 1) if at else 1)
    if d["how"] == "positional":
        k, v, w = call(f, vals)
    elif d["how"] == "short" and all(n in c.defaults for n in names[at + 1:]):
        k, v, w = call(f, vals[:at + 1])
    elif d["how"] in ("mixed", "short"):
        k, v, w = call(f, vals[:cut], dict(list(zip(names, vals))[cut:]))
    else:
        k, v, w = call(f, [], {n: x for n, x in kw.items() if d["how"] == "keyword" or n not in c.defaults})
    err = real.module("pysolar.tzinfo_check").NoTimeZoneInfoError
    want = err if odd or d["bad"].startswith("naive") else ValueError
    if k != "raise" or not isinstance(v, want) or not isinstance(v, ValueError):
        return "%s given %s (%s): %s instead of %s" % (d["function"], d["bad"], d["how"], show(k, v), want.__name__)
    if w:
        return "%s given %s computed something first (it warned: %s)" % (d["function"], d["bad"], w[0])


@gen
def g_transparent(real, rng):
    return {"shape": rng.randrange(9), "when": aware(rng) if rng.random() < 0.6 else _naive(rng)}


@judge
def j_transparent(real, d):
    deco = real.module("pysolar.tzinfo_check").check_aware_dt
    got, out, w = [], object(), d["when"]
    a, b, c = object(), object(), object()

    def p1(when):
        got.append((when,))
        return out

    def p3(a, when, b, c=7):
        got.append((a, when, b, c))
        return out

    def p6(lat, lon, when, elevation=0, temperature=1, pressure=2):
        got.append((lat, lon, when, elevation, temperature, pressure))
        return out

    def pk(a, *, when, b=3):
        got.append((a, when, b))
        return out
    f, pos, kw, want = [(p1, (w,), {}, (w,)), (p1, (), {"when": w}, (w,)), (p3, (a, w, b), {}, (a, w, b, 7)),
                        (p3, (a,), {"when": w, "b": b, "c": c}, (a, w, b, c)), (p6, (a, b, w, c), {}, (a, b, w, c, 1, 2)),
                        (p6, (a, b), {"when": w, "pressure": c}, (a, b, w, 0, 1, c)), (pk, (a,), {"when": w}, (a, w, 3)),
                        (p6, (a, b, w, a, b, c), {}, (a, b, w, a, b, c)),
                        (p6, (a, b, w), {"pressure": c}, (a, b, w, 0, 1, c))][d["shape"]]
    k, v, ws = call(deco("when")(f), pos, kw)
    if w.tzinfo is None:
        if k == "raise" and isinstance(v, ValueError) and not got:
            return None
        return "the decorated function (call shape %d) given the naive %r %s%s" % (d["shape"], w, show(k, v), " after it ran" if got else "")
    if k != "value" or v is not out or len(got) != 1 or any(x is not y for x, y in zip(got[0], want)) or ws:
        return "the decorated function (call shape %d) %s with arguments %r" % (d["shape"], show(k, v), got)


# ---------------------------------------------------------------- P13
def _site(rng, q=SOLAR + "get_position"):
    return args_for(REG[q], rng)


@gen
def g_pair(real, rng):
    return {"backend": rng.choice(("math", "numpy")), "args": _site(rng), "use": rng.choice(("all", "some"))}


@judge
def j_pair(real, d):
    a = d["args"]
    real.use(d["backend"])
    f = {n: real.function(SOLAR + n) for n in ("get_position", "get_azimuth", "get_altitude")}
    x = a if d["use"] == "all" else a[:3]
    k1, v1, _ = call(f["get_position"], x)
    k2, v2, _ = call(f["get_azimuth"], x[:4])
    k3, v3, _ = call(f["get_altitude"], x)
    if k1 != "value" or k2 != "value" or k3 != "value":
        if k1 == "raise" and "raise" in (k2, k3):
            raise Skip
        return "position %s, azimuth %s, altitude %s" % (show(k1, v1), show(k2, v2), show(k3, v3))
    if not close(v1, (v2, v3), 1e-11, (360, None)):
        return "get_position%r = %r, but azimuth and altitude are %r" % (tuple(x), v1, (v2, v3))


@gen
def g_longitude(real, rng):
    return {"backend": rng.choice(("math", "numpy")), "args": _site(rng), "turns": rng.choice((1, -1))}


@judge
def j_longitude(real, d):
    a = list(d["args"])
    b = list(a)
    b[1] = a[1] + 360 * d["turns"]
    real.use(d["backend"])
    f = real.function(SOLAR + "get_position")
    k1, v1, _ = call(f, a)
    k2, v2, _ = call(f, b)
    if k1 != "value" or k2 != "value":
        if k1 == k2:
            raise Skip
        return "at longitude %r %s, at %r %s" % (a[1], show(k1, v1), b[1], show(k2, v2))
    if close(v1, v2, 1e-6, (360, None)):
        return None
    if close(v1, v2, 1e-6 + 1000 * spread(f, a, v1), (360, None)):
        raise Skip
    return "get_position%r = %r, with the longitude changed by a turn %r" % (tuple(a), v1, v2)


# ---------------------------------------------------------------- P17
@gen
def g_radiation(real, rng):
    a, b = sorted((rng.choice((-90, -1e-9, -1e-300, 0, 1e-300, 5e-324, 1e-12, 1e-3, 90, rng.uniform(-90, 90))),
                   rng.choice((0, 90, 1e-6, 0.05, rng.uniform(-90, 90), rng.uniform(0, 3)))))
    return {"backend": rng.choice(("math", "numpy")), "when": aware(rng), "low": float(a), "high": float(b)}


@judge
def j_radiation(real, d):
    real.use(d["backend"])
    f = real.function("pysolar.radiation.get_radiation_direct")
    r = []
    for a in (d["low"], d["high"]):
        k, v, _ = call(f, [d["when"], a])
        if k != "value" or not (isinstance(float(v), float) and math.isfinite(float(v))) or not 0 <= v <= 1235.0000001:
            return "get_radiation_direct(%s, %r) %s" % (d["when"], a, show(k, v))
        if a <= 0 and v != 0:
            return "get_radiation_direct(%s, %r) = %r with the sun down" % (d["when"], a, v)
        r.append(float(v))
    if r[1] < r[0] - 1e-9:
        return "radiation falls from %r to %r when the sun rises from %r to %r" % (r[0], r[1], d["low"], d["high"])
    k, v, _ = call(real.function("pysolar.radiation.get_air_mass_ratio"), [0])
    if k != "value" or not (isinstance(v, float) and math.isinf(v)):
        return "the air mass ratio at 0 degrees %s" % show(k, v)


# ---------------------------------------------------------------- P18
SEL = ("pysolar.use_math", "pysolar.use_numpy", "pysolar.numeric.use_math", "pysolar.numeric.use_numpy")
ONE = ("degrees", "cos", "sin", "radians", "tan", "acos", "atan", "asin", "exp", "log")


@gen
def g_selection(real, rng):
    return {"history": [rng.choice(SEL) for _ in range(rng.randint(1, 5))], "x": rng.choice((0.5, 1.0, 0.25, rng.uniform(0.01, 1))),
            "when": aware(rng)}


@judge
def j_selection(real, d):
    import numpy as np
    for s in d["history"]:
        k, v, _ = call(real.function(s), [])
        if k != "value":
            return "%s %s" % (s, show(k, v))
    b = "math" if d["history"][-1].endswith("math") else "numpy"
    num = real.module("pysolar.numeric")
    x = d["x"]
    for n in ONE + ("atan2",):
        f = getattr(num, n, None)
        args = [x, 0.75] if n == "atan2" else [x]
        k, v, _ = call(f, args)
        want = getattr(math, n)(*args)
        if k != "value" or abs(float(v) - want) > 1e-12 * max(1, abs(want)):
            return "after %s, %s%r %s, not %r" % (d["history"], n, tuple(args), show(k, v), want)
        k, v, _ = call(f, [np.array([x, x / 2, 1.0]), 0.75] if n == "atan2" else [np.array([x, x / 2, 1.0])])
        if b == "numpy" and (k != "value" or np.shape(v) != (3,)):
            return "after %s, %s of an array %s" % (d["history"], n, show(k, v))
        if b == "math" and k == "value":
            return "after %s, %s accepts an array: it is not the builtin one" % (d["history"], n)
    for c in (True, False):
        k, v, _ = call(num.where, [c, x, 2.0])
        if k != "value" or float(v) != (x if c else 2.0):
            return "after %s, where(%r, %r, 2.0) %s" % (d["history"], c, x, show(k, v))
    k, v, _ = call(num.where, [np.array([True, False]), x, 2.0])
    if b == "numpy" and (k != "value" or list(v) != [x, 2.0]):
        return "after %s, where of an array %s" % (d["history"], show(k, v))
    if b == "math" and k == "value":
        return "after %s, where accepts an array" % d["history"]
    if abs(float(num.pi) - math.pi) > 0:
        return "after %s, pi is %r" % (d["history"], num.pi)
    M = NumM(real)
    w = d["when"]
    for n, want in (("tm_yday", M.utc_yday(w)), ("tm_hour", M.utc(w)[3]), ("tm_min", M.utc(w)[4])):
        k, v, _ = call(getattr(num, n), [w])
        if k != "value" or int(v) != want or float(v) != want:
            return "after %s, %s(%s) %s, not %r" % (d["history"], n, w, show(k, v), want)
        a = np.array([w.astimezone(UTC).replace(tzinfo=None)] * 3, dtype="datetime64[us]")
        k, v, _ = call(getattr(num, n), [a])
        if b == "numpy" and (k != "value" or list(np.asarray(v)) != [want] * 3):
            return "after %s, %s of an array %s" % (d["history"], n, show(k, v))
        if b == "math" and k == "value":
            return "after %s, %s accepts an array" % (d["history"], n)


@gen
def g_backends(real, rng, only=None):
    q = rng.choice(only or list(REG))
    return {"function": q, "args": args_for(REG[q], rng), "history": [rng.choice(("math", "numpy")) for _ in range(rng.randint(0, 3))]}


@judge
def j_backends(real, d):
    c = REG[d["function"]]
    if not allowed(c, real, d["args"]):
        raise Skip
    for b in d["history"]:
        real.use(b)
    out = {}
    for b in ("math", "numpy"):
        real.use(b)
        out[b] = call(real.function(d["function"]), copy.deepcopy(d["args"]))
    (k1, v1, w1), (k2, v2, w2) = out["math"], out["numpy"]
    if k1 == "value":
        import numpy as np
        if any(isinstance(x, (np.generic, np.ndarray)) for x in conc.flat(v1)):
            return "with the math backend %s returns %r, which comes from numpy" % (d["function"], v1)
    if k1 == "raise" and k2 == "raise" and (isinstance(v1, type(v2)) or isinstance(v2, type(v1))):
        return None
    real.use("math")
    if k1 != "value" or k2 != "value":
        if isinstance(v1, (ZeroDivisionError, OverflowError)) and k2 == "value" and not all(math.isfinite(float(x)) for x in conc.flat(v2)):
            return None
        if k1 == "value":
            spread(real.function(d["function"]), d["args"], v1)
        else:
            for e in (1e-12, -1e-12):
                if call(real.function(d["function"]), [conc.perturb(x, e) for x in d["args"]])[0] == "value":
                    raise Skip
        return "%s%r: math %s, numpy %s" % (d["function"], tuple(d["args"]), show(k1, v1), show(k2, v2))
    if close(v2, v1, 1e-9, c.angle):
        return None
    if close(v2, v1, 1e-9 + 1000 * spread(real.function(d["function"]), d["args"], v1), c.angle):
        return None
    return "%s%r: math %r, numpy %r" % (d["function"], tuple(d["args"]), v1, v2)


# ---------------------------------------------------------------- P19
@gen
def g_arrays(real, rng, only=None):
    from .tasks import ARRAYS
    q, pat = rng.choice(only or ARRAYS)
    c = REG[q]
    n = rng.choice((1, 2, 3, 5, 8, 4, 6))
    shape = rng.choice(((n,), (n // 2, 2), (2, n // 2), (1, n), (n, 1))) if n in (4, 6) else (n,)
    rows = []
    while len(rows) < n:
        a = args_for(c, rng)
        if allowed(c, real, a):
            rows.append(a)
    if rng.random() < 0.4:                      # few or close values
        for i in range(1, n):
            if rng.random() < 0.8:
                r = [near(v, rng) for v in rows[rng.choice((0, i - 1))]]
                if allowed(c, real, r):
                    rows[i] = r
    args = [[r[i] for r in rows] if p == "A" else rows[0][i] for i, p in enumerate(pat)]
    return {"function": q, "pattern": pat, "args": args, "unit": rng.choice(("us", "us", "ns")), "shape": list(shape)}


GEN["kept"] = g_arrays


@judge
def j_kept(real, d):
    r = j_arrays(real, d)
    return r if r == CHANGED else None


CHANGED = "the array passed in was changed"


@judge
def j_arrays(real, d):
    import numpy as np
    real.use("numpy")
    f = real.function(d["function"])
    c = REG[d["function"]]

    def arr(v):
        if isinstance(v[0], dt.datetime):
            if d["unit"] == "ns" and any(not 1700 < x.year < 2250 for x in v):
                raise Skip
            return np.array([x.astimezone(UTC).replace(tzinfo=None) for x in v], dtype="datetime64[%s]" % d["unit"])
        return np.array([float(x) for x in v])
    shape = tuple(d.get("shape") or (len([v for p, v in zip(d["pattern"], d["args"]) if p == "A"][0]),))
    args = [arr(v).reshape(shape) if p == "A" else v for p, v in zip(d["pattern"], d["args"])]
    keep = copy.deepcopy(args)
    k, v, _ = call(f, args)
    if any(not np.array_equal(x, y) for x, y in zip(args, keep) if isinstance(x, np.ndarray)):
        return CHANGED
    if k != "value":
        return "%s[%s] on arrays of shape %r %s" % (d["function"], d["pattern"], shape, show(k, v))
    cols = list(v) if isinstance(c.result, tuple) else [v]
    if any(np.shape(x) != shape for x in cols):
        return "%s[%s] on arrays of shape %r returned %r" % (d["function"], d["pattern"], shape, v)
    cols = [np.reshape(x, -1) for x in cols]
    for i in range(len(cols[0])):
        one = [x[i] if p == "A" else x for p, x in zip(d["pattern"], d["args"])]
        if any(isinstance(x, dt.datetime) for x in one):
            one = [x.astimezone(UTC) if isinstance(x, dt.datetime) else x for x in one]
        one = [float(x) if p == "A" and not isinstance(x, dt.datetime) else x for p, x in zip(d["pattern"], one)]
        k1, s, _ = call(f, one)
        e = tuple(x[i] for x in cols)
        if k1 != "value":
            return "element %d: scalar call %s, array element %r" % (i, show(k1, s), e)
        s = s if isinstance(c.result, tuple) else (s,)
        ang = c.angle if isinstance(c.angle, tuple) else (c.angle,) * len(s)
        if not close(e, s, 1e-5, ang):
            if close(e, s, 1e-5 + 1000 * spread(f, one, s), ang):
                continue
            return "element %d of %s[%s] is %r, the scalar call %r gives %r" % (i, d["function"], d["pattern"], e, one, s)


# ---------------------------------------------------------------- P20
@gen
def g_sunrise(real, rng):
    q = "pysolar.util.get_sunrise_sunset_transit"
    return {"backend": rng.choice(("math", "numpy")), "args": args_for(REG[q], rng), "hour": rng.randint(0, 23), "sec": rng.randint(0, 3599)}


@judge
def j_sunrise(real, d):
    real.use(d["backend"])
    f = real.function("pysolar.util.get_sunrise_sunset_transit")
    a = d["args"]
    if not allowed(REG["pysolar.util.get_sunrise_sunset_transit"], real, a):
        raise Skip
    k, v, _ = call(f, a)
    if k != "value":
        if isinstance(v, ValueError):
            return None
        if isinstance(v, OverflowError) and not 2 < a[2].year < 9998:
            raise Skip
        return "get_sunrise_sunset_transit%r %s" % (tuple(a), show(k, v))
    r, s, t = v
    if not (r <= t <= s <= r + dt.timedelta(hours=24, microseconds=2)):
        return "sunrise %s, transit %s, sunset %s are not in order" % (r, t, s)
    if any(x.tzinfo is not a[2].tzinfo for x in v):
        return "the time zone of the caller is lost: %r" % (v,)
    other = a[2].replace(hour=d["hour"], minute=d["sec"] // 60, second=d["sec"] % 60)
    if other.utcoffset() != a[2].utcoffset():
        return None
    k2, v2, _ = call(f, [a[0], a[1], other])
    if k2 != "value" or v2 != v:
        return "on the same local day, at %s: %r, at %s: %s" % (a[2], v, other, show(k2, v2))
    for n, i in (("get_sunrise_time", 0), ("get_sunset_time", 1), ("get_transit_time", 2)):
        k3, v3, _ = call(real.function("pysolar.util." + n), a)
        if k3 != "value" or v3 != v[i]:
            return "%s%r %s, not %s" % (n, tuple(a), show(k3, v3), v[i])
    k3, v3, _ = call(real.function("pysolar.util.get_sunrise_sunset"), a)
    if k3 != "value" or tuple(v3) != tuple(v[:2]):
        return "get_sunrise_sunset%r %s" % (tuple(a), show(k3, v3))


# ---------------------------------------------------------------- P24 P25
@gen
def g_range(real, rng):
    start = aware(rng)
    if not 3 < start.year < 9990:
        raise Skip
    step = rng.choice((1, 10, 30, 60, 7, 90, 1440, 0.5, 1.5, 0.25, 2.75, 10.0, 0.05, 12.5, 1 / 60, 61, 1439, 4321, 0.125))
    if rng.random() < 0.25:
        step = rng.choice((rng.randint(1, 4000) / 4096, rng.randint(1, 9000) / 60000, rng.uniform(0.02, 3)))
    if rng.random() < 0.15:
        step = round(10.0 ** rng.uniform(0, 7.3), rng.choice((0, 0, 2)))          # up to decades
    n = rng.randint(0, 60)
    span = dt.timedelta(seconds=rng.choice((n * step * 60, n * step * 60 + rng.uniform(-1, 1) * step * 60, rng.randint(-100, 90000),
                                            86400 * rng.randint(0, 4))))
    span = rng.choice((span, dt.timedelta(seconds=int(span.total_seconds())), span + dt.timedelta(microseconds=rng.randint(0, 999999))))
    try:
        end = start + span
    except OverflowError:
        raise Skip
    if rng.random() < 0.3:
        end = rezone(end, rng)
    d = {"backend": rng.choice(("math", "numpy")), "start": start, "end": end, "step": step}
    if rng.random() < 0.3:
        # another range is read in turns with this one
        other = min(start, dt.datetime(9900, 1, 1, tzinfo=start.tzinfo)) + dt.timedelta(days=rng.randint(0, 300))
        d["beside"] = [other, min(other, dt.datetime(9990, 1, 1, tzinfo=start.tzinfo)) + rng.choice((span, dt.timedelta(hours=5))), rng.choice((step, 30, 7))]
    return d


def beside(real, d):
    if "beside" not in d:
        return None
    g = real.function("pysolar.simulate.datetime_range")(*d["beside"])
    if not isinstance(g, types.GeneratorType):
        return None
    return lambda: next(g, None)


def times(d):
    span = d["end"] - d["start"]
    secs = span.days * 86400 + span.seconds
    step = Fraction(d["step"]) * 60
    n = max(0, math.floor(Fraction(secs) / step))
    for near in (1 - Fraction(1, 10**9), 1 + Fraction(1, 10**9)):
        if max(0, math.floor(Fraction(secs) * near / step)) != n and Fraction(secs) / step != n:
            raise Skip
    if Fraction(secs) / step == n and Fraction(d["step"]).denominator > 2**20:
        raise Skip
    if n > 3000:
        raise Skip
    return n, [d["start"] + dt.timedelta(microseconds=round(step * 10**6)) * i for i in range(n)]


@judge
def j_range(real, d):
    real.use(d["backend"])
    n, want = times(d)
    k, v, _ = call(real.function("pysolar.simulate.datetime_range"), [d["start"], d["end"], d["step"]], None, beside(real, d))
    if k != "value":
        return "datetime_range(%s, %s, %r) %s" % (d["start"], d["end"], d["step"], show(k, v))
    if len(v) != n:
        return "datetime_range(%s, %s, %r) gives %d times instead of %d" % (d["start"], d["end"], d["step"], len(v), n)
    for i, (x, y) in enumerate(zip(v, want)):
        if not isinstance(x, dt.datetime) or x.tzinfo is not d["start"].tzinfo or abs((x - y).total_seconds()) > 2e-6 * (i + 1) + 1e-6:
            return "time %d of datetime_range(%s, %s, %r) is %s, not %s" % (i, d["start"], d["end"], d["step"], x, y)


@gen
def g_span(real, rng):
    d = GEN["range"](real, rng)
    a = args_for(REG[SOLAR + "get_position"], rng)
    d.update(lat=a[0], lon=a[1], elevation=a[3], temperature=a[4], pressure=a[5], seed=rng.randrange(10**6),
             horizon=rng.choice(("random", "random", "ramp", "low", "high")), how=rng.choice(REG[SOLAR + "get_position"].ways()))
    return d


def horizon(d):
    r = random.Random(d["seed"])
    size = random.Random(d["seed"] + 1).choice((360, 360, 360, 361, 400, 720))
    return [{"random": r.randint(0, 400), "ramp": i, "low": 0, "high": 1000}[d["horizon"]] for i in range(size)]


@judge
def j_span(real, d):
    n, want = times(d)
    if n > 60:
        raise Skip
    real.use(d["backend"])
    g = {x: real.function(SOLAR + x) for x in ("get_altitude", "get_azimuth")}
    rad = real.function("pysolar.radiation.get_radiation_direct")
    f = real.function("pysolar.simulate.simulate_span")
    h = horizon(d)
    atm = dict(elevation=d["elevation"], temperature=d["temperature"], pressure=d["pressure"])
    turns = beside(real, d)
    if d["how"] in ("", "positional"):
        k, v, _ = call(f, [d["lat"], d["lon"], h, d["start"], d["end"], d["step"], d["elevation"], d["temperature"], d["pressure"]], None, turns)
    elif d["how"] == "keywords":
        k, v, _ = call(f, [], dict(latitude_deg=d["lat"], longitude_deg=d["lon"], horizon=h, start_datetime=d["start"],
                                   end_datetime=d["end"], step_minutes=d["step"], **atm), turns)
    else:
        out = REG[SOLAR + "get_position"].way(d["how"])[1]
        atm = {x: v for x, v in atm.items() if x not in out}
        k, v, _ = call(f, [d["lat"], d["lon"], h, d["start"], d["end"], d["step"]], atm, turns)
    if h != horizon(d):
        return "the horizon passed in was changed"
    if k != "value":
        k2, _, _ = call(lambda: [(g["get_altitude"](d["lat"], d["lon"], t, **atm)) for t in want], [])
        if k2 != "value":
            raise Skip
        return "simulate_span %s" % show(k, v)
    if len(v) != n:
        return "simulate_span gives %d results instead of %d" % (len(v), n)
    for i, (row, t) in enumerate(zip(v, want)):
        if len(row) != 5 or abs((row[0] - t).total_seconds()) > 2e-6 * (i + 1) + 1e-6:
            return "result %d is %r, the time is %s" % (i, row, t)
        alt = g["get_altitude"](d["lat"], d["lon"], row[0], **atm)
        azi = g["get_azimuth"](d["lat"], d["lon"], row[0], atm.get("elevation", 0))
        if not close(row[1], alt, 1e-9) or not close(row[2], azi, 1e-9, 360):
            return "result %d reports altitude %r and azimuth %r, the library gives %r and %r" % (i, row[1], row[2], alt, azi)
        if abs(azi - math.floor(azi) - 0.5) < 1e-7:
            continue
        if row[4] != h[round(float(azi)) % 360]:
            return "result %d: horizon entry %r at azimuth %r, expected %r" % (i, row[4], azi, h[round(float(azi)) % 360])
        s = 380 * math.sin(math.radians(float(alt)))
        if abs(s - math.floor(s) - 0.5) < 1e-7:
            continue
        exp = 0 if row[4] < 380 - round(s) else rad(row[0], row[1])
        if not close(row[3], exp, 1e-9) or abs(row[3] - exp) > 1e-9 * abs(exp):
            return "result %d: radiation %r, expected %r (altitude %r, horizon entry %r)" % (i, row[3], exp, alt, row[4])


# ---------------------------------------------------------------- P26
CALLS = None


SPANS = ("pysolar.simulate.datetime_range", "pysolar.simulate.simulate_span")


def callables():
    return list(REG) + list(SPANS)


def span_args(q, rng):
    r = GEN["range"](None, rng)
    try:
        r["end"] = min(r["end"], r["start"] + dt.timedelta(minutes=20 * float(r["step"])))
    except OverflowError:
        raise Skip
    if q.endswith("datetime_range"):
        return [r["start"], r["end"], r["step"]]
    a = args_for(REG[SOLAR + "get_position"], rng)
    h = horizon({"seed": rng.randrange(10**6), "horizon": rng.choice(("random", "ramp", "low", "high"))})
    return [a[0], a[1], h, r["start"], r["end"], r["step"], a[3], a[4], a[5]]


WRITERS = set()     # names of functions that leave something behind: histories prefer them


def one_call(rng, q=None):
    if q is None and WRITERS and rng.random() < 0.6:
        pref = [c for c in callables() if c.rpartition(".")[2] in WRITERS]
        q = rng.choice(pref) if pref else None
    q = q or rng.choice(callables())
    if q in SPANS:
        return {"function": q, "args": span_args(q, rng), "mode": ""}
    c = REG[q]
    return {"function": q, "args": args_for(c, rng), "mode": rng.choice([m for m in c.ways() if m != "keywords"])}


@gen
def g_history(real, rng, only=None):
    hist = []
    for _ in range(rng.randint(1, 6)):
        hist.append(one_call(rng) if rng.random() < 0.85 else {"use": rng.choice(("math", "numpy"))})
    q = rng.choice(only or callables())
    t = one_call(rng, q)
    t["mode"] = ""
    r = rng.random()
    if q in SPANS:
        if r < 0.7:
            hist.append(copy.deepcopy(t))
    elif r < 0.7:
        # the same function before, with related arguments
        for _ in range(rng.randint(1, 3)):
            b = []
            for (n, k), v in zip(REG[q].params, t["args"]):
                if isinstance(k, When):
                    b.append(rezone(v, rng) if rng.random() < 0.6 else v)
                elif rng.random() < 0.5:
                    b.append(v)
                else:
                    b.append(args_for(REG[q], rng)[[m for m, _ in REG[q].params].index(n)])
            hist.append({"function": q, "args": b, "mode": ""})
    return {"history": hist, "call": t, "backend": rng.choice(("math", "numpy"))}


def data_of(v, depth=0, seen=None):
    seen = seen or ()
    if id(v) in seen or depth > 6:
        return "..."
    s = seen + (id(v),)
    if isinstance(v, (int, float, complex, str, bytes, type(None), bool)):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return [type(v).__name__] + [data_of(x, depth + 1, s) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(map(repr, v))
    if isinstance(v, dict):
        return {repr(k): data_of(x, depth + 1, s) for k, x in v.items()}
    if isinstance(v, types.FunctionType):
        return ["function", id(v), data_of(v.__defaults__, depth + 1, s), data_of(v.__kwdefaults__, depth + 1, s),
                data_of({k: x for k, x in v.__dict__.items() if k != "__wrapped__"}, depth + 1, s),
                [data_of(c.cell_contents, depth + 1, s) if _full(c) else "empty" for c in v.__closure__ or ()]]
    return [type(v).__name__, id(v)]


def _full(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def library_state(real):
    import sys
    out = {}
    for name, m in sorted(sys.modules.items()):
        if name == "pysolar" or name.startswith("pysolar."):
            for k, v in vars(m).items():
                if k.startswith("__") or isinstance(v, types.ModuleType):
                    continue
                if name == "pysolar.constants" and k == "aberration_coeffs":
                    out[name + "." + k] = None if v is None else {n: [call(p, [x])[1] for x in (0.0, 1.0, -0.5, 2.25)] for n, p in v.items()} \
                        if isinstance(v, dict) else repr(v)
                    continue
                out[name + "." + k] = data_of(v)
    try:
        import numpy as np
        out["numpy error state"] = repr(np.geterr())
    except ImportError:
        pass
    import decimal
    out["interpreter"] = repr((decimal.getcontext().prec, sys.getrecursionlimit(), time.tzname, os.getcwd(), sorted(os.environ.items()),
                               gc.isenabled(), hash(random.getstate()), sys.getswitchinterval()))
    return out


def do(real, c):
    f = real.function(c["function"])
    args = copy.deepcopy(c["args"])
    con = REG.get(c["function"])
    if c["mode"]:
        first, out = con.way(c["mode"])
        return call(f, args[:first], {n: a for (n, _), a in zip(con.params[first:], args[first:]) if n not in out}), None
    r = call(f, args)
    if conc.FILTERS:
        return r, "%s changed the warning filters" % c["function"]
    return r, (None if repr(args) == repr(c["args"]) else "%s changed an argument" % c["function"])


def in_child(thunk):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(thunk()))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        d = f.read()
    os.waitpid(pid, 0)
    if not d:
        raise Skip
    return pickle.loads(d)


def summary(r):
    k, v, w = r
    return (k, repr(v) if k == "value" else type(v).__name__, bool(w))


@judge
def j_history(real, d):
    # `real` has not been used to compute anything in this process (see fresh())
    t = d["call"]
    if t["function"] in REG and not allowed(REG[t["function"]], real, t["args"]):
        raise Skip

    def alone():
        real.use(d["backend"])
        return summary(do(real, t)[0])

    def after():
        real.use(d["backend"])
        s0 = library_state(real)
        for h in d["history"]:
            if "use" in h:
                real.use(h["use"])
                continue
            _, bad = do(real, h)
            if bad:
                return ("bad", bad)
        real.use(d["backend"])
        s1 = library_state(real)
        for k in sorted(set(s0) | set(s1)):
            if s0.get(k, "absent") != s1.get(k, "absent") and not (k == "pysolar.constants.aberration_coeffs" and s0[k] is None):
                return ("bad", "%s was changed by the calls" % k)
        r, bad = do(real, t)
        if bad:
            return ("bad", bad)
        first = summary(r)
        second = summary(do(real, t)[0])
        if first != second:
            return ("bad", "the same call gives %r, then %r" % (first, second))
        s2 = library_state(real)
        for k in sorted(s2):
            if s1.get(k, "absent") != s2[k] and not (k == "pysolar.constants.aberration_coeffs" and s1[k] is None):
                return ("bad", "%s was changed by %s" % (k, t["function"]))
        return ("ok", first)
    a = in_child(alone)
    b = in_child(after)
    if b[0] == "bad":
        return b[1]
    if a != b[1]:
        return "%s%r gives %r in a fresh process and %r after the calls" % (t["function"], tuple(t["args"]), a, b[1])


# ---------------------------------------------------------------- P27
EDGE = ("get_altitude_fast", "get_azimuth_fast", "get_topocentric_elevation_angle", "get_topocentric_azimuth_angle",
        "get_topocentric_zenith_angle", "get_incidence_angle", "get_position", "get_altitude", "get_azimuth")


@gen
def g_total(real, rng, only=None):
    n = rng.choice(only or EDGE + ("get_radiation_direct",))
    q = "pysolar.radiation." + n if n == "get_radiation_direct" else SOLAR + n
    c = REG[q]
    a = args_for(c, rng)
    names = [x for x, _ in c.params]
    real.use("math")
    near = lambda v: float(v) + rng.choice((0, 0, 0, 1e-12, -1e-12, 1e-9))
    if n in ("get_altitude_fast", "get_azimuth_fast") and rng.random() < 0.8:
        w = a[2]
        d = real.function(SOLAR + "get_declination")(real.module("pysolar.numeric").tm_yday(w))
        h = real.function(SOLAR + "get_hour_angle")(w, 0.0)
        turn = rng.choice((0, 180, 90, -90))
        a[1] = near(-h + turn)
        a[1] = a[1] - 360 * round(a[1] / 360)
        a[0] = rng.choice((near(d), near(-d), near(90 - abs(d)), near(abs(d) - 90), near(d), rng.uniform(-90, 90), 90.0, -90.0))
    elif n.startswith("get_topocentric_"):
        i, j, k = [names.index(x) for x in ("latitude", "topocentric_sun_declination", "topocentric_local_hour_angle")]
        a[j] = rng.choice((a[j], rng.uniform(-24, 24), 0.0, 23.44))
        a[i] = rng.choice((near(a[j]), near(-a[j]), near(90 - abs(a[j])), rng.uniform(-90, 90), 90.0, -90.0, 0.0))
        a[k] = rng.choice((0.0, 180.0, 360.0, 90.0, 270.0, near(0), near(180), rng.uniform(0, 360), -180.0))
    elif n == "get_incidence_angle":
        z = a[0]
        a[1] = rng.choice((near(z), 0.0, 180.0 - z, a[1]))
        az = rng.choice((a[3], rng.uniform(0, 360)))
        a[3] = az
        a[2] = rng.choice((az - 180, az, a[2], near(az - 180)))
    elif n in ("get_position", "get_altitude", "get_azimuth") and rng.random() < 0.7:
        w = a[2]
        lon, lat = 0.0, 0.0
        try:
            for _ in range(4):
                d, h = real.function(SOLAR + "get_topocentric_position")(lat, lon, w, 0)
                lon -= h
                lon -= 360 * round(lon / 360)
                lat = max(-90.0, min(90.0, d))
        except Exception:
            pass
        a[0], a[1] = rng.choice(((lat, lon), (near(lat), near(lon)), (-lat, near(lon) - 180), (90.0, lon), (-90.0, lon),
                                 (rng.uniform(-90, 90), lon), (rng.uniform(-90, 90), lon + 180), (a[0], lon + 90)))
    for x in ("latitude_deg", "latitude"):
        if x in names:
            i = names.index(x)
            a[i] = max(-90.0, min(90.0, a[i]))
    return {"function": q, "backend": rng.choice(("math", "numpy")), "args": a}


@judge
def j_total(real, d):
    c = REG[d["function"]]
    if not allowed(c, real, d["args"]):
        raise Skip
    real.use(d["backend"])
    k, v, _ = call(real.function(d["function"]), copy.deepcopy(d["args"]))
    if k != "value":
        return "%s%r %s" % (d["function"], tuple(d["args"]), show(k, v))
    try:
        ok = all(math.isfinite(float(x)) for x in conc.flat(v))
    except (TypeError, ValueError):
        ok = False
    if not ok and c.inf is None:
        return "%s%r returned %r" % (d["function"], tuple(d["args"]), v)


# ---------------------------------------------------------------- any property, after other calls
def near(v, rng):
    if rng.random() < 0.6:
        return v
    if isinstance(v, dt.datetime):
        try:
            return v + dt.timedelta(seconds=rng.choice((1, 60, 3600, 86400, -86400, 7 * 86400, 365 * 86400)) * rng.randint(1, 3))
        except OverflowError:
            return v
    if isinstance(v, float):
        return v + rng.choice((1e-9, 1e-7, 1e-5, 1e-3, 0.1, 0.4)) * rng.choice((1, -1, v))
    return v


def aftermath(base, fns):
    def g(real, rng):
        kind, gg = rng.choice(base)
        d = gg(real, rng)
        hist = [one_call(rng) for _ in range(rng.choice((0, 0, 1, 3)))]
        q = d.get("function") if d.get("function") in REG else rng.choice([f for f in fns if f in REG] or list(REG))
        for _ in range(rng.randint(1, 3)):
            t = one_call(rng, q)
            t["mode"] = ""
            if isinstance(d.get("args"), list) and q == d.get("function"):
                t["args"] = [(rezone(v, rng) if isinstance(k, When) and rng.random() < 0.5 and isinstance(v, dt.datetime) and v.tzinfo is not None
                              else near(v, rng)) if rng.random() < 0.6 else new for (n, k), v, new in zip(REG[q].params, d["args"], t["args"])]
            hist.append(t)
        if kind == "refuse":
            bad = d["bad"] if isinstance(d["bad"], dt.datetime) else BAD[d["bad"]]()
            if isinstance(bad, dt.datetime):         # the same wall clock time with a zone, before
                for h in hist:
                    if h["function"] in REG:
                        h["args"] = [bad.replace(tzinfo=UTC) if isinstance(k, When) else v for (n, k), v in zip(REG[h["function"]].params, h["args"])]
        if rng.random() < 0.3:
            hist.append(rng.choice(hist))
        return {"history": hist, "backend": rng.choice(("math", "numpy")), "then": kind, "data": d}
    return g


@judge
def j_aftermath(real, d):
    def f():
        real.use(d["backend"])
        for h in d["history"]:
            do(real, h)
        return JUDGE[d["then"]](real, d["data"], True) if d["then"] == "contract" else JUDGE[d["then"]](real, d["data"])
    bad = in_child(f)
    if bad:
        return "after %s: %s" % ("; ".join("%s%r" % (h["function"].rpartition(".")[2], tuple(h["args"])) for h in d["history"]), bad)


# ---------------------------------------------------------------- which ones belong to a property
def searches(pid, own):
    """[(kind, generator, weight)]"""
    con = lambda quals: ("contract", contract_gen(quals))
    out = []
    from . import props
    if pid in props.FUNCTIONAL or pid == "P13":
        out.append(con(own))
    extra = {"P01": ["zones"], "P02": ["refuse", "transparent"], "P13": ["pair", "longitude"], "P17": ["radiation"],
             "P18": ["selection", "backends"], "P19": ["arrays"], "P20": ["sunrise"], "P24": ["range"],
             "P25": ["span", "range"], "P26": ["history", "history", "history", "kept"], "P27": ["total"]}
    if pid == "P18":
        out.append(con([q for q in REG if "P18" in REG[q].pids]))
    for k in extra.get(pid, ()):
        out.append((k, GEN[k]))
    return out


def focus(pid, failed, frames=False):
    out = aimed(pid, failed)
    base = [x for x in out or searches(pid, failed) if x[0] not in ("history", "kept", "selection")]
    if frames and base:
        out = out + [("aftermath", aftermath(base, failed))]
    return out


def aimed(pid, failed):
    """generators aimed at the functions of failed obligations"""
    out = []
    fns = [f for f in failed if f in REG or pid == "P26" and f in SPANS]
    if pid == "P01":
        fs = [f for f in fns if f in instants()]
        if fs:
            out.append(("zones", lambda r, g: GEN["zones"](r, g, fs)))
    if pid == "P02":
        from .tasks import refuse_targets
        fs = [f for f in fns if f in refuse_targets()]
        if fs:
            out.append(("refuse", lambda r, g: GEN["refuse"](r, g, fs)))
    if pid == "P18" and fns:
        out.append(("backends", lambda r, g: GEN["backends"](r, g, fns)))
    if pid == "P26" and fns:
        out.append(("history", lambda r, g: GEN["history"](r, g, fns)))
        out.append(("kept", GEN["kept"]))
    if pid == "P19":
        from .tasks import ARRAYS
        fs = [a for a in ARRAYS if a[0] in fns]
        if fs:
            out.append(("arrays", lambda r, g: GEN["arrays"](r, g, fs)))
    if pid == "P27":
        fs = [f.rpartition(".")[2] for f in fns if f.rpartition(".")[2] in EDGE + ("get_radiation_direct",)]
        if fs:
            out.append(("total", lambda r, g: GEN["total"](r, g, fs)))
    from . import props
    if (pid in props.FUNCTIONAL or pid == "P13") and fns:
        out.append(("contract", contract_gen(fns)))
    return out


def one(real, rng, what, robust, tol):
    """(input, what is wrong with it); Skip when the input does not count.  what = (kind, input or generator)"""
    kind, d = what
    if callable(d):
        d = d(real, rng)
    bad = JUDGE[kind](real, d, robust, tol) if kind == "contract" else JUDGE[kind](real, d)
    return d, bad


def alone(real, rng, what, robust, tol):
    """the same in a child process, so that nothing one sample leaves behind reaches the next"""
    g = random.Random(rng.getrandbits(64))

    def f():
        try:
            d, bad = one(real, g, what, robust, tol)
        except Skip:
            return None
        return tojson(d), bad
    r = in_child(f)
    if r is None:
        raise Skip
    return r


def run(searchlist, rng, seconds, robust=False, stats=None, models=(), tol=None, limit=10**9, isolate=False):
    """first failing input found, as a replay record"""
    real = conc.Real()
    t_end = time.time() + seconds
    n = ev = broken = 0
    queue = [("contract", dict(function=q, backend=b, mode=m, args=a)) for q, b, m, a in models]
    while n < limit and (time.time() < t_end or queue):
        n += 1
        pick = queue.pop(0) if queue else searchlist[n % len(searchlist)]
        try:
            d, what = (alone if isolate else one)(real, rng, pick, robust, tol)
            ev += 1
        except Skip:
            continue
        except Exception as e:        # a sample that this code cannot make or judge is no sample
            broken += 1
            if stats is not None:
                stats["not sampled"] = "%s: %s" % (type(e).__name__, str(e)[-200:])
            if broken > 200:
                raise
            continue
        if stats is not None and len(stats.setdefault("samples", [])) < 3 and ev % 7 == 1:
            stats["samples"].append(dict(tojson(d), kind=pick[0]))
        if what:
            r = {"kind": pick[0], "data": tojson(d), "what": what}
            if stats is not None:
                stats["evaluations"] = ev
            return r
    if stats is not None:
        stats["evaluations"] = ev
    return None


def replay(rec, robust=False):
    real = conc.Real()
    d = fromjson(rec["data"])
    return JUDGE[rec["kind"]](real, d)
