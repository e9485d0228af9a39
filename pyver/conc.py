"""Replay on the real code: search for an input on which CPython running /repo breaks a contract.

Nothing here decides a property; it turns a failed obligation into a failing input where there is one,
and samples the contracts on the real code (which checks the extraction and the library models)."""
import copy
import datetime as dt
import importlib
import math
import os
import random
import sys
import time
import types
import warnings
from fractions import Fraction
from . import contract as ct
from .contract import R, When, Local, Nut, Choice, Table, NumM

UTC = dt.timezone.utc


class Real:
    """the real pysolar, imported from /repo"""
    MODS = ("pysolar", "pysolar.elevation", "pysolar.rest", "pysolar.simulate", "pysolar.tzinfo_check")

    def __init__(self, root=os.environ.get("PYSOLAR_ROOT", "/repo")):
        sys.dont_write_bytecode = True
        if root not in sys.path:
            sys.path.insert(0, root)
        warnings.simplefilter("ignore")
        self.mods = {m: importlib.import_module(m) for m in self.MODS}
        self.backend = None
        # a machine whose own zone is unlike any other: nothing in the library depends on it
        os.environ["TZ"] = "Australia/Lord_Howe" if os.path.exists("/usr/share/zoneinfo/Australia/Lord_Howe") else "XST-10:30XDT-11,M10.1.0,M4.1.0"
        time.tzset()
        global REAL
        REAL = self

    def use(self, backend):
        p = self.mods["pysolar"]
        (p.use_math if backend == "math" else p.use_numpy)()
        self.backend = backend

    def module(self, name):
        return importlib.import_module(name)

    def function(self, qual):
        m, _, n = qual.rpartition(".")
        return getattr(self.module(m), n, None)


# ---------------------------------------------------------------- arguments
class Summer(dt.tzinfo):
    """a zone with summer time: +1 h, and +2 h from the last Sunday of March to the last Sunday of October, 01:00 UTC"""

    def __repr__(self): return "Summer()"
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __reduce__(self): return (_summer, ())
    def tzname(self, w): return "SUM"

    @staticmethod
    def switch(y, m):
        d = dt.datetime(y, m, 31, 1)
        return d - dt.timedelta(days=(d.weekday() + 1) % 7)

    def utcoffset(self, w):
        a, b = self.switch(w.year, 3) + dt.timedelta(hours=1), self.switch(w.year, 10) + dt.timedelta(hours=1)
        t = w.replace(tzinfo=None, fold=0)
        hour = dt.timedelta(hours=1)
        if a <= t < a + hour:                      # skipped
            return hour * (1 if not w.fold else 2)
        if b <= t < b + hour:                      # repeated
            return hour * (1 if w.fold else 2)
        return hour * (2 if a + hour <= t < b else 1)

    def dst(self, w):
        return self.utcoffset(w) - dt.timedelta(hours=1)

    def fromutc(self, w):
        t = w.replace(tzinfo=None)
        s, e = self.switch(t.year, 3), self.switch(t.year, 10)
        hour = dt.timedelta(hours=1)
        off = 2 * hour if s <= t < e else hour
        return (t + off).replace(tzinfo=self, fold=1 if e <= t < e + hour else 0)


SUMMER = Summer()


def _summer():
    return SUMMER


def summer(rng):
    """a datetime in that zone, often in the hour that occurs twice"""
    y = rng.choice((1971, 1975, 1994, 2005, 2012, 2016, 2021, rng.randint(1900, 2100)))
    if rng.random() < 0.6:
        u = Summer.switch(y, 10) + dt.timedelta(seconds=rng.randint(-3600, 3599))
    else:
        u = dt.datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59))
    return u.replace(tzinfo=UTC).astimezone(SUMMER)


OFFSETS = (0, 0, 3600, -3600, 5400 * 5, 3600 * 14, -3600 * 12, 12345, -86399, 86399, 20700, -34200)


def aware(rng):
    if rng.random() < 0.06:
        return summer(rng)
    r = rng.random()
    if r < 0.45:
        y, m, d = rng.randint(1900, 2100), rng.randint(1, 12), rng.randint(1, 28)
        t = dt.datetime(y, m, d, rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice((0, 0, rng.randint(0, 999999))))
    elif r < 0.6:
        y = rng.choice((1971, 1972, 1973, 1974, 1979, 1980, 1985, 1990, 1992, 2005, 2006, 2008, 2009, 2012, 2014, 2015, 2016, 2017,
                        2025, 2026, 2027))
        t = dt.datetime(y, *rng.choice(((1, 1), (7, 1), (6, 30), (12, 31), (2, 1), (4, 30), (5, 1)))) + dt.timedelta(
            seconds=rng.choice((0, -1, 1, 86399, 86400, -86400, 3600)))
    elif r < 0.8:
        y, m = rng.randint(1965, 2035), rng.randint(1, 12)
        t = dt.datetime(y, m, 1) + dt.timedelta(seconds=rng.choice((0, -1, 0, 1, 43200, -3600)))
    elif r < 0.9:
        y = rng.choice((1904, 2000, 2004, 2100, 2024, 1900))
        t = dt.datetime(y, *rng.choice(((2, 28), (3, 1), (12, 31), (1, 1)))) + dt.timedelta(seconds=rng.randint(-86400, 86400))
    else:
        t = dt.datetime(rng.randint(2, 9998), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59))
    if rng.random() < 0.12:
        # the last moments before a whole second, and the first after it
        t += dt.timedelta(microseconds=rng.choice((-1, -1, 1, -rng.randint(1, 1000), -rng.randint(1, 500000))))
    off = rng.choice(OFFSETS)
    tz = UTC if off == 0 else dt.timezone(dt.timedelta(seconds=off))
    try:
        return t.replace(tzinfo=UTC).astimezone(tz)
    except (OverflowError, ValueError):
        return t.replace(tzinfo=UTC)


REAL = None         # the code places of the sun are taken from


def aim(names, args, rng):
    """move the place to one where the sun is overhead, underfoot, on the meridian, due east or at the horizon, about"""
    i, j, k = (names.index(n) for n in ("latitude_deg", "longitude_deg", "when"))
    w, lat, lon = args[k], 0.0, 0.0
    back = REAL.backend
    try:
        REAL.use("math")
        if rng.random() < 0.3:                  # of the fast model
            d = float(REAL.function("pysolar.solar.get_declination")(REAL.module("pysolar.numeric").tm_yday(w)))
            lon = -float(REAL.function("pysolar.solar.get_hour_angle")(w, 0.0))
        else:
            el = args[names.index("elevation")] if "elevation" in names else 0
            for _ in range(4):
                d, h = REAL.function("pysolar.solar.get_topocentric_position")(lat, lon, w, el)
                lon, lat = lon - h, max(-90.0, min(90.0, d))
        lon -= 360 * round(lon / 360)
        if not (-90 <= d <= 90 and -180 <= lon <= 180):
            return
    except Exception:
        return
    finally:
        if back:
            REAL.use(back)
    off = lambda: rng.choice((0, 0, 0, 1e-12, -1e-12, 1e-9, 1e-4, -1e-3, 0.3))
    any_lat = rng.uniform(-89, 89)
    try:
        rise = math.degrees(math.acos(-math.tan(math.radians(any_lat)) * math.tan(math.radians(d))))
    except ValueError:
        rise = 90.0
    lat, turn = rng.choice(((d, 0), (d, 0), (-d, 180), (any_lat, 0), (any_lat, 180), (any_lat, rise), (any_lat, -rise), (any_lat, 90), (90.0, 0)))
    args[i] = max(-90.0, min(90.0, lat + off()))
    args[j] = lon + turn + off()
    if args[j] > 180:
        args[j] -= 360


def chase(fn, args, c, rng):
    """walk along one argument to a point where the result jumps"""
    num = [i for i, (n, k) in enumerate(c.params) if isinstance(k, R) and not k.integer and isinstance(args[i], (int, float))]
    if not num:
        return args
    i = rng.choice(num)
    k = c.params[i][1]
    width = (k.hi if k.hi is not None else 1000) - (k.lo if k.lo is not None else -1000)
    at = lambda x: [float(v) for v in flat(c.unpack(fn(*(args[:i] + [x] + args[i + 1:]))))]
    try:
        a = float(args[i])
        b = a + rng.choice((1e-6, 1e-3, 0.1, 1)) * width * rng.uniform(-1, 1)
        fa, fb = at(a), at(b)
        for _ in range(200):
            m = (a + b) / 2
            if m in (a, b):
                break
            fm = at(m)
            if max(abs(x - y) for x, y in zip(fa, fm)) > max(abs(x - y) for x, y in zip(fm, fb)):
                b, fb = m, fm
            else:
                a, fa = m, fm
        x = rng.choice((a, b))
        for _ in range(rng.choice((0, 0, 1, 2, rng.randint(0, 60)))):
            x = math.nextafter(x, rng.choice((-math.inf, math.inf)))
        if k.lo is not None and x < k.lo or k.hi is not None and x > k.hi:
            return args
        return args[:i] + [x] + args[i + 1:]
    except Exception:
        return args


WIDE = False        # look beyond the usual range of the arguments too


def num(rng, k, pool):
    r = rng.random()
    lo = k.lo if k.lo is not None else -1000
    hi = k.hi if k.hi is not None else 1000
    if k.integer:
        return rng.choice(list(k.special)) if k.special and r < 0.3 else rng.randint(int(lo), int(hi))
    if k.req and k.dom != (k.lo, k.hi) and rng.random() < 0.25:
        # the wider domain
        lo = k.dom[0] if k.dom[0] is not None else lo - 10 * (hi - lo)
        hi = k.dom[1] if k.dom[1] is not None else hi + 10 * (hi - lo)
        v = rng.uniform(lo, hi)
    elif WIDE and not k.req and None not in (k.lo, k.hi) and rng.random() < 0.3:
        # the contract claims all reals here; lo..hi are the usual ones
        v = rng.uniform(lo - (hi - lo) if lo < 0 else lo / 4, hi + (hi - lo))
        if r < 0.06:
            v = rng.choice((0, 0, 1, -1))
        elif r < 0.25 and hi > 0:                # of any size
            v = hi * 10.0 ** rng.uniform(-6, 2) * (-1 if lo < 0 and rng.random() < 0.5 else 1)
    elif r < 0.25 and k.special:
        v = rng.choice(k.special)
        if WIDE and rng.random() < 0.4:        # close to it, at any scale
            w = v + rng.choice((-1, 1)) * 10.0 ** rng.uniform(-12, 0)
            v = w if lo <= w <= hi else v
    elif r < 0.32:
        v = rng.choice((lo, hi))
    elif r < 0.45:
        v = float(rng.randint(math.ceil(lo), math.floor(hi))) if math.ceil(lo) <= math.floor(hi) else rng.uniform(lo, hi)
    elif r < 0.7 and pool:
        x = rng.choice(pool)
        v = rng.choice((x, -x, 90 - x, 180 - x, 180 + x, x - 180, 360 - x))
        if not lo <= v <= hi:
            v = rng.uniform(lo, hi)
    else:
        v = rng.uniform(lo, hi)
    v = float(v) if rng.random() < 0.8 or v != int(v) else int(v)
    pool.append(v)
    return v


def table(rng):
    from contracts import tables as tb
    r = rng.random()
    if r < 0.2:
        return rng.choice((tb.L, tb.B, tb.RR))
    return [[(rng.uniform(-9, 9), rng.uniform(-7, 7), rng.uniform(-9, 9)) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 4))]


def args_for(c, rng, choice=None):
    pool, out = [], []
    for n, k in c.params:
        if choice and n in choice:
            out.append(choice[n])
        elif isinstance(k, Choice):
            out.append(rng.choice(k.vals))
        elif isinstance(k, When):
            out.append(aware(rng))
        elif isinstance(k, Nut):
            out.append({"longitude": rng.choice((0.0, rng.uniform(-0.006, 0.006))), "obliquity": rng.choice((0.0, rng.uniform(-0.003, 0.003)))})
        elif isinstance(k, Table):
            out.append(table(rng))
        else:
            out.append(num(rng, k, pool))
    names = [n for n, _ in c.params]
    if REAL is not None and {"latitude_deg", "longitude_deg", "when"} <= set(names) and rng.random() < 0.08:
        aim(names, out, rng)
    if WIDE and REAL is not None and c.strict and rng.random() < 0.2 and REAL.function(c.qual) is not None:
        out = chase(REAL.function(c.qual), out, c, rng)
    return out


def from_model(c, model, choice, rng):
    """arguments from a solver model (missing parts at random)"""
    base = args_for(c, rng, choice)
    if not model:
        return None

    def val(n):
        v = model.get(n)
        try:
            return None if v is None else float(Fraction(str(v)))
        except (ValueError, ZeroDivisionError):
            return None
    out, hit = [], False
    for (n, k), b in zip(c.params, base):
        v = b
        if isinstance(k, R):
            x = val(n)
            if x is not None:
                v, hit = (int(x) if k.integer else x), True
        elif isinstance(k, Nut):
            v = {p: (val("%s.%s" % (n, p)) if val("%s.%s" % (n, p)) is not None else b[p]) for p in b}
            hit = hit or v != b
        elif isinstance(k, When):
            pre = "local_" if isinstance(k, Local) else "utc_"
            f = [val("%s.%s%s" % (n, pre, s)) for s in ("year", "month", "day", "hour", "minute", "second", "microsecond")]
            o = val("%s.offset_us" % n)
            if any(x is not None for x in f):
                d = [2005, 3, 9, 11, 20, 0, 0]
                f = [int(x) if x is not None else y for x, y in zip(f, d)]
                try:
                    tz = dt.timezone(dt.timedelta(microseconds=int(o))) if o else UTC
                    v = dt.datetime(*f, tzinfo=tz if pre == "local_" else UTC)
                    if pre == "utc_":
                        v = v.astimezone(tz)
                    hit = True
                except (ValueError, OverflowError):
                    pass
        out.append(v)
    return out if hit else None


def perturb(v, e, integers=False):
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        if v == int(v) and not integers:
            return v
        return v + e * max(1.0, abs(v))
    if isinstance(v, dict):
        return {k: perturb(x, e, integers) for k, x in v.items()}
    return v


# ---------------------------------------------------------------- one evaluation
class Skip(Exception):
    pass


FILTERS = False     # whether the last call changed the warning filters


def call(f, pos, kw=None, between=None):
    """(kind, value, warnings); between: run after every item of a generator"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        warnings.filterwarnings("ignore", "never said")     # not at the top otherwise: adding "always" again would change nothing
        filters = list(warnings.filters)
        try:
            v = f(*pos, **(kw or {}))
            if isinstance(v, types.GeneratorType):
                items = []
                for x in v:
                    items.append(x)
                    if between is not None:
                        between()
                v = items
            r = ("value", v)
        except Exception as e:
            r = ("raise", e)
        global FILTERS
        FILTERS = list(warnings.filters) != filters
    ws = [str(x.message) for x in w if not issubclass(x.category, (RuntimeWarning, DeprecationWarning)) and
          not str(x.message).startswith("no explicit representation of timezones")]
    return r + (ws,)


def specify(c, real, args, effective=True):
    """what the contract says: (kind, value, must warn or None)"""
    M = NumM(real)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = bool(c.warns(M, *args)) if c.warns is not None else None
            for exc, cond in c.raises:
                if cond(M, *args):
                    return ("raise", exc, w)
            if c.inf is not None and c.inf(M, *args):
                return ("value", float("inf"), w)
            if c.ensures is not None and c.spec is None:
                raise Skip
            f = c.deviation if effective and c.deviation is not None else c.spec
            return ("value", f(M, *args), w)
    except (OverflowError, ZeroDivisionError, ValueError, TypeError, ArithmeticError, AttributeError) as e:
        raise Skip(str(e))


def allowed(c, real, args):
    M = NumM(real)
    for (n, k), v in zip(c.params, args):
        if isinstance(k, R) and k.req and not (
                (k.dom[0] is None or v >= k.dom[0]) and (k.dom[1] is None or v <= k.dom[1])):
            return False
    if c.requires is not None:
        try:
            return all(c.requires(M, *args))
        except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            return False
    return True


def flat(v):
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in flat(v[k])]
    if isinstance(v, (tuple, list)):
        return [x for y in v for x in flat(y)]
    return [v]


def dist(a, b, angle):
    if isinstance(a, dt.datetime) or isinstance(b, dt.datetime):
        if not (isinstance(a, dt.datetime) and isinstance(b, dt.datetime)) or a.tzinfo != b.tzinfo:
            return float("inf")
        return abs((a.replace(tzinfo=None) - b.replace(tzinfo=None)).total_seconds())
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return float("inf")
    if a != a and b != b:
        return 0.0
    if a == b:
        return 0.0
    if angle and angle < 0:
        d = (a - b) % -angle
        return min(d, -angle - d) if 2 * abs(a) <= 1e-9 - angle else abs(a - b)
    if angle and abs(a) < 1e9 and abs(b) < 1e9:
        d = (a - b) % angle
        return min(d, angle - d) if 0 <= a < angle + 1e-9 or not 0 <= b < angle else abs(a - b)
    d = abs(a - b)
    return float("inf") if d != d else d


def compare(c, got, want, scale=True):
    vals = c.unpack(got)
    if vals is None:
        return float("inf")
    worst = 0.0
    for i, (g, w) in enumerate(zip(vals, c.unpack(want))):
        ang = c.angle[i] if isinstance(c.angle, tuple) else c.angle
        d = dist(g, w, ang)
        if not isinstance(w, dt.datetime):
            try:
                d /= max(1.0, abs(float(w)))
            except (TypeError, ValueError, OverflowError):
                pass
        worst = max(worst, d) if d == d else float("inf")
    return worst


def angles(c):
    return c.angle if isinstance(c.angle, tuple) else (c.angle,)


def within(k, v):
    """a value moved past the end of its domain goes back to it"""
    if isinstance(k, R) and k.req and isinstance(v, (int, float)):
        lo, hi = k.dom
        return lo if lo is not None and v < lo else hi if hi is not None and v > hi else v
    return v


def check_call(c, real, args, mode="", tol=None, robust=False):
    """None, or a description of the violation"""
    fn = real.function(c.qual)
    if fn is None:
        return "no function %s" % c.qual
    if not allowed(c, real, args):
        raise Skip
    names = [n for n, _ in c.params]
    eff = list(args)
    pos, kw = list(args), {}
    if mode == "keywords":
        pos, kw = [], dict(zip(names, args))
    elif mode and mode != "positional":
        first, out = c.way(mode)
        eff = [float(Fraction(c.defaults[n])) if n in out else a for n, a in zip(names, args)]
        pos, kw = eff[:first], {n: a for n, a in zip(names[first:], eff[first:]) if n not in out}
        if not allowed(c, real, eff):
            raise Skip
    kind, want, warn = specify(c, real, eff)
    before = copy.deepcopy((pos, kw))
    k, got, ws = call(fn, pos, kw)
    if repr((pos, kw)) != repr(before):
        return "the arguments passed in were changed: %r" % (pos,)

    def again(e):
        a2 = [within(kd, perturb(a, e, robust)) for (_, kd), a in zip(c.params, eff)]
        if not allowed(c, real, a2):
            raise Skip
        s = specify(c, real, a2)
        if mode:
            return a2, s
        return a2, s

    def stable(e1=1e-12):
        for e in (e1, -e1):
            _, s = again(e)
            if s[0] != kind or s[2] != warn:
                return False
        return True
    if k == "raise":
        if kind == "raise" and isinstance(got, want):
            return None
        if isinstance(got, ZeroDivisionError) and kind == "value" and flat(want) and any(
                isinstance(x, float) and math.isinf(x) for x in flat(want)):
            return None
        if not stable():
            raise Skip
        return "raised %s: %s; the contract says %s" % (type(got).__name__, got, _show(kind, want))
    if kind == "raise":
        if c.qual.endswith("clear_index") and real.backend == "numpy" and not math.isfinite(float(got)):
            return None
        if not stable():
            raise Skip
        return "returned %r; the contract says it raises %s" % (got, want.__name__)
    if warn is not None and warn != bool(ws):
        if not stable():
            raise Skip
        return "%s although the contract says it %s" % ("warned" if ws else "did not warn", "warns" if warn else "does not")
    t = c.tol if tol is None else tol
    d = compare(c, got, want)
    if tol is None and c.strict and any(isinstance(x, float) and x == a for x, a in zip(flat(got), angles(c))):
        return "returned %r, outside [0, %g)" % (got, max(a for a in angles(c) if a))
    if d <= t:
        return None
    if c.deviation is not None:          # the published formula itself is no violation
        k2, w2, _ = specify(c, real, eff, False)
        if k2 == "value" and compare(c, got, w2) <= t:
            return None
    # how far the results move when the arguments do: rounding may be amplified that much
    spread = own = 0.0
    agrees = not mode
    for e in (3e-15, -3e-15, 1e-14, -1e-14):
        a2, s = again(e)
        if s[0] != kind:
            raise Skip
        spread = max(spread, compare(c, s[1], want))
        if not mode:
            k2, g2, _ = call(fn, a2)
            if k2 == "value":
                own = max(own, compare(c, g2, got))
            agrees = agrees and k2 == "value" and compare(c, g2, s[1]) <= t
    if agrees and d > 1000 * t:
        own = 0.0          # right everywhere near by: a jump of the code at this very point
    if d > t + 50 * max(spread, own):
        return "returned %r; the contract says %s" % (got, _show(kind, want))
    return None


def _show(kind, want):
    return "%r" % (want,) if kind == "value" else "it raises %s" % want.__name__


# ---------------------------------------------------------------- JSON
def tojson(v):
    if isinstance(v, dt.datetime):
        if isinstance(v.tzinfo, Summer):
            return {"summer": v.replace(tzinfo=None).isoformat(), "fold": v.fold}
        if v.tzinfo is None:
            return {"naive": v.replace(fold=0).isoformat(), "fold": v.fold}
        return {"datetime": v.isoformat()}
    if isinstance(v, dict):
        return {k: tojson(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [tojson(x) for x in v]
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v
    try:
        return float(v)
    except (TypeError, ValueError):
        return repr(v)


# ---------------------------------------------------------------- search
def search_contract(real, qual, backends, rng, seconds, modes=None, choice=None, model=None, tol=None, robust=False,
                    limit=10**9, stats=None):
    c = ct.REG[qual]
    if modes is None:
        modes = c.ways()
    t_end = time.time() + seconds
    n = 0
    todo = []
    if model:
        for _ in range(3):
            a = from_model(c, model, choice, rng)
            if a is not None:
                todo.append(a)
    while n < limit and (n < 3 or time.time() < t_end):
        a = todo.pop() if todo else args_for(c, rng, choice)
        b = backends[n % len(backends)]
        m = modes[(n // len(backends)) % len(modes)]
        n += 1
        real.use(b)
        try:
            bad = check_call(c, real, copy.deepcopy(a), m, tol, robust)
            if stats is not None:
                stats["evaluated"] = stats.get("evaluated", 0) + 1
                if len(stats.setdefault("samples", [])) < 2:
                    stats["samples"].append({"function": qual, "backend": b, "mode": m or "positional", "args": tojson(a)})
        except Skip:
            continue
        if bad:
            return {"kind": "contract", "function": qual, "backend": b, "mode": m or "positional", "args": tojson(a),
                    "what": bad}
        if time.time() > t_end:
            break
    return None
