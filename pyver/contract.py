"""The contract language: a specification function per function of /repo.

A specification is written once against an abstract mathematics `M` and read two ways:
  SymM  terms of the verifier (used to discharge obligations),
  NumM  Python floats (used to replay counterexamples on the real code, and to sample).
"""
import itertools
import contextlib
import datetime as _dt
import inspect
import math as _math
from fractions import Fraction
from . import terms as tm
from . import models as md
from . import norm as nm
from .terms import T
from .engine import cur


# ---------------------------------------------------------------- parameter kinds
class Kind:
    pass


class R(Kind):
    """a real number.  lo..hi guide the concrete search.  With req they are also the precondition, unless `dom` gives a
    wider one; the facts a contract offers are then still only claimed within lo..hi."""

    def __init__(self, lo=None, hi=None, req=False, special=(), integer=False, dom=None):
        self.lo, self.hi, self.req, self.special, self.integer = lo, hi, req, tuple(special), integer
        self.dom = dom if dom is not None else (lo, hi)

    def fresh(self, name):
        v = tm.var(name, "I" if self.integer else "R")
        return v, []

    def fits(self, v):
        return (md.num(v) and not tm.isspecial(v)) or (isinstance(v, md.Arr) and md.num(v.elem))

    def keys(self, v):
        return [tm.toreal(md.el(v)) if not self.integer else tm.lift(md.el(v))]

    def cond(self, v):
        return self._between(v, *self.dom) if self.req else []

    def narrow(self, v):
        return self._between(v, self.lo, self.hi) if self.req and self.dom != (self.lo, self.hi) else []

    @staticmethod
    def _between(v, lo, hi):
        return ([v >= lo] if lo is not None else []) + ([v <= hi] if hi is not None else [])


class When(Kind):
    """an aware datetime read as an instant"""
    what = "instant"

    def fresh(self, name):
        return md.DT.fresh(name)

    def fits(self, v):
        return (isinstance(v, md.DT) and v.tzinfo is not None) or isinstance(v, md.NDT)

    def keys(self, v):
        return [tm.obj(md.DTObj(self.what, v.dt if isinstance(v, md.NDT) else v))]

    def cond(self, v):
        return []


class Local(When):
    """a datetime read through its local calendar day and offset"""
    what = "local"


class Nut(Kind):
    def fresh(self, name):
        return {"longitude": tm.var(name + ".longitude"), "obliquity": tm.var(name + ".obliquity")}, []

    def fits(self, v):
        return isinstance(v, dict) and set(v) >= {"longitude", "obliquity"} and all(R().fits(v[k]) for k in ("longitude", "obliquity"))

    def keys(self, v):
        return [tm.toreal(v["longitude"]), tm.toreal(v["obliquity"])]

    def cond(self, v):
        return []


class Choice(Kind):
    """one of finitely many constants (the verifier enumerates them)"""

    def __init__(self, *vals):
        self.vals = vals

    def fresh(self, name):
        raise TypeError("enumerated")

    def fits(self, v):
        return isinstance(v, str) and v in self.vals

    def keys(self, v):
        return [tm.obj(Str(v))]

    def cond(self, v):
        return []


class Str:
    def __init__(self, s):
        self.s = s

    def nkey(self, N):
        return ("str", self.s)


class Table(Kind):
    """nested list of coefficient rows"""

    def fits(self, v):
        return isinstance(v, (list, tuple)) and all(
            isinstance(r, (list, tuple)) and all(isinstance(e, (list, tuple)) and len(e) >= 3 and
                                                 all(md.num(x) and not tm.isspecial(x) for x in e) for e in r) for r in v)

    def keys(self, v):
        return [tm.obj(TabObj(v))]

    def cond(self, v):
        return []


class TabObj:
    def __init__(self, v):
        self.v = v

    def terms(self):
        return [tm.lift(x) for r in self.v for e in r for x in e]

    def nkey(self, N):
        return ("table", tuple(tuple(tuple(N.norm(x).key for x in e[:3]) for e in r) for r in self.v))


# ---------------------------------------------------------------- mathematics
@contextlib.contextmanager
def pure():
    """specifications neither fork nor record divisions"""
    h = tm.hooks
    saved = (h.decide, h.divisor)
    h.decide, h.divisor = _nodecide, (lambda b: None)
    try:
        yield
    finally:
        h.decide, h.divisor = saved


def _nodecide(t):
    raise tm.Unsupported("a specification branches on a symbolic condition")


class SymM:
    sym = True
    pi = tm.PI

    def __init__(self):
        self.S = _Proxy(self)

    def q(self, s):
        return tm.const(Fraction(s), "R")

    def sin(self, x): return tm.fn("sin", x)
    def cos(self, x): return tm.fn("cos", x)
    def tan(self, x): return tm.fn("tan", x)
    def asin(self, x): return tm.fn("asin", x)
    def acos(self, x): return tm.fn("acos", x)
    def atan(self, x): return tm.fn("atan", x)
    def atan2(self, y, x): return tm.fn("atan2", y, x)
    def exp(self, x): return tm.fn("exp", x)
    def log(self, x): return tm.fn("log", x)
    def sqrt(self, x): return tm.fn("sqrt", x)
    def power(self, a, b): return tm.power(tm.lift(a), tm.lift(b))
    def radians(self, x): return md.radians(tm.lift(x))
    def degrees(self, x): return md.degrees(tm.lift(x))
    def mod(self, x, y): return tm.mod(x, y)
    def floor(self, x): return tm.floor(x)
    def round(self, x): return tm.roundi(x)
    def trunc(self, x): return tm.trunc(x)
    def abs(self, x): return abs(tm.lift(x))
    def min(self, a, b): return tm.minimum(tm.lift(a), tm.lift(b))
    def max(self, a, b): return tm.maximum(tm.lift(a), tm.lift(b))
    def ite(self, c, a, b): return tm.ite(c, a() if callable(a) else a, b() if callable(b) else b)
    def and_(self, *a): return tm.and_(*a)
    def or_(self, *a): return tm.or_(*a)
    def not_(self, a): return tm.not_(a)
    def implies(self, a, b): return tm.implies(a, b)
    def eq(self, a, b): return tm.eq(a, b)
    def clip(self, x): return tm.ite(tm.lt(1, x), 1, tm.ite(tm.lt(x, -1), -1, x))

    def lookup(self, table, i):
        """table[i], i in range (balanced decision tree)"""
        def go(lo, hi):
            if hi - lo == 1:
                return tm.const(Fraction(repr(table[lo])), "R") if not isinstance(table[lo], T) else table[lo]
            mid = (lo + hi) // 2
            return tm.ite(tm.lt(i, mid), go(lo, mid), go(mid, hi))
        return go(0, len(table))

    def num(self, x):
        return tm.lift(x)

    # datetimes
    @staticmethod
    def _d(w): return w.dt if isinstance(w, md.NDT) else w
    def utc(self, w): return tuple(self._d(w)._utcf())
    def utc_yday(self, w): return md.yday(*self._d(w)._utcf()[:3])
    def timestamp(self, w): return tm.toreal(self._d(w).utcsec() - 86400 * 719163)
    def local(self, w): return tuple(w._loc())
    def local_yday(self, w): return md.yday(*w._loc()[:3])
    def offset_seconds(self, w): return tm.toreal(w._offset().us) * Fraction(1, 10**6)

    def local_midnight_plus(self, w, hours):
        """datetime at local midnight + hours, in the zone of w"""
        y, m, d = w._loc()[:3]
        return WallTime(86400 * (md.jan1(y) + md.yday(y, m, d) - 1) + hours * 3600, w.tzinfo)

    def dt_plus_seconds(self, w, s):
        return WallTime(w.wall + s, w.tzinfo)


class WallTime:
    """specified datetime: exact local seconds and zone"""

    def __init__(self, wall, tz):
        self.wall, self.tz = wall, tz


class NumM:
    sym = False
    pi = _math.pi

    def __init__(self, real):
        self.S = _RealProxy(real)

    def q(self, s): return float(Fraction(s))
    sin = staticmethod(_math.sin)
    cos = staticmethod(_math.cos)
    tan = staticmethod(_math.tan)
    atan = staticmethod(_math.atan)
    atan2 = staticmethod(_math.atan2)
    exp = staticmethod(_math.exp)
    log = staticmethod(_math.log)
    sqrt = staticmethod(_math.sqrt)
    radians = staticmethod(_math.radians)
    degrees = staticmethod(_math.degrees)
    floor = staticmethod(_math.floor)
    trunc = staticmethod(_math.trunc)
    abs = staticmethod(abs)
    min = staticmethod(min)
    max = staticmethod(max)
    def asin(self, x): return _math.asin(_near(x))
    def acos(self, x): return _math.acos(_near(x))
    def power(self, a, b): return a ** b
    def round(self, x): return round(x)
    def mod(self, x, y): return x % y
    def ite(self, c, a, b):
        x = a if c else b
        return x() if callable(x) else x
    def and_(self, *a): return all(a)
    def or_(self, *a): return any(a)
    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or b
    def eq(self, a, b): return a == b
    def clip(self, x): return min(1.0, max(-1.0, x))
    def lookup(self, table, i): return table[int(i)]
    def num(self, x): return x
    def utc(self, w):
        u = w.utctimetuple()
        return (u.tm_year, u.tm_mon, u.tm_mday, u.tm_hour, u.tm_min, u.tm_sec, w.microsecond)
    def utc_yday(self, w): return w.utctimetuple().tm_yday
    def timestamp(self, w): return (w - _dt.datetime(1970, 1, 1, tzinfo=_dt.timezone.utc)).total_seconds()
    def local(self, w): return (w.year, w.month, w.day, w.hour, w.minute, w.second, w.microsecond)
    def local_yday(self, w): return w.timetuple().tm_yday
    def offset_seconds(self, w): return w.utcoffset().total_seconds()
    def local_midnight_plus(self, w, hours):
        return _dt.datetime(w.year, w.month, w.day, tzinfo=w.tzinfo) + _dt.timedelta(seconds=hours * 3600)
    def dt_plus_seconds(self, w, s):
        return w + _dt.timedelta(seconds=s)


def _near(x):
    if x > 1 and x < 1 + 1e-9:
        return 1.0
    if x < -1 and x > -1 - 1e-9:
        return -1.0
    return x


class _Proxy:
    """S.f(...): the opaque result of the contracted function f"""

    def __init__(self, M):
        self._M = M

    def __getattr__(self, name):
        c = BYNAME[name]
        return lambda *a: c.apply(list(a))


class _RealProxy:
    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return self._real.function(BYNAME[name].qual)


REG, BYNAME, APPINFO = {}, {}, {}


class Contract:
    def __init__(self, qual, pids, params, spec, result="R", requires=None, facts=None, raises=(), deviation=None,
                 finding=None, angle=None, tol=1e-9, ensures=None, expand=True, alias=None, sample=None, warns=None,
                 order=None, close=True, inf=None, defaults=None, transparent=False, proof=None, strict=False):
        self.qual, self.pids, self.spec = qual, tuple(pids), spec
        self.params = params                     # list of (name, Kind)
        self.result = result
        self.requires, self.facts, self.raises = requires, facts, raises
        self.deviation, self.finding, self.angle, self.tol = deviation, finding, angle, tol
        self.ensures = ensures                   # relational postcondition instead of an equation
        self.expand = expand
        self.name = alias or qual.rpartition(".")[2]
        self.sample, self.warns = sample, warns
        self.close = close
        self.strict = strict                     # a result of exactly a full turn is wrong even though it equals 0 modulo a turn
        self.inf = inf                           # condition under which the result is +inf
        self.defaults = defaults or {}
        self.proof = proof                       # cuts for the lemma that the facts follow
        self.transparent = transparent           # callers see the specification itself
        REG[qual] = self
        BYNAME[self.name] = self

    def __repr__(self):
        return "<contract %s>" % self.qual

    def ways(self):
        """the ways to pass the arguments: all by position, all by keyword, with every combination of the arguments
        that have defaults left out (with more than three of them: each alone, and every tail)"""
        if not self.defaults:
            return [""]
        d = [n for n, _ in self.params if n in self.defaults]
        if len(d) <= 3:
            out = [s for k in range(1, len(d)) for s in itertools.combinations(d, k)]
        else:
            out = [(n,) for n in d] + [tuple(d[k:]) for k in range(1, len(d) - 1)]
        return ["", "keywords", "defaults"] + ["without " + ", ".join(s) for s in out]

    def way(self, mode):
        """(how many arguments are given by position, the names of those left out)"""
        names = [n for n, _ in self.params]
        if not mode or mode == "positional":
            return len(names), ()
        if mode == "keywords":
            return 0, ()
        out = tuple(self.defaults) if mode == "defaults" else tuple(mode[8:].split(", "))
        return min(names.index(n) for n in out), out

    def whenparams(self):
        return [n for n, k in self.params if isinstance(k, When)]

    # -- symbolic use -----------------------------------------------------------------
    def precondition(self, args):
        out = []
        with pure():
            for (n, k), v in zip(self.params, args):
                if isinstance(k, R):
                    out += [tm.lift(c) for c in k.cond(md.el(v))]
            if self.requires is not None:
                out += [tm.lift(c) for c in self.requires(SYM, *[md.el(v) for v in args])]
        return out

    def narrow(self, args):
        with pure():
            return [tm.lift(x) for (n, k), v in zip(self.params, args) if isinstance(k, R) for x in k.narrow(md.el(v))]

    def comps(self):
        r = self.result
        if isinstance(r, str):
            return [("", r)]
        if isinstance(r, dict):
            return [("." + k, v) for k, v in r.items()]
        return [(".%d" % i, v) for i, v in enumerate(r)]

    def apply(self, args, arr=False):
        if self.transparent:
            v = self.value([_elem(a) for a in args])
            return md.Arr(v) if arr else v
        ks = []
        for (n, k), v in zip(self.params, args):
            ks += k.keys(v)
        vals = []
        for suf, sort in self.comps():
            t = tm.app(self.name + suf, ks, "R" if sort == "DT" else sort)
            if t.id not in APPINFO:
                APPINFO[t.id] = (self, suf, [_elem(a) for a in args], t)
            if sort == "DT":
                vals.append(md.DT.make(t, args[[n for n, _ in self.params].index(self.whenparams()[0])].tzinfo, None))
            else:
                vals.append(md.Arr(t) if arr else t)
        return self.pack(vals)

    def pack(self, vals):
        if isinstance(self.result, str):
            return vals[0]
        if isinstance(self.result, dict):
            return dict(zip(self.result, vals))
        return tuple(vals)

    def unpack(self, v):
        """components of a value of the result shape, or None"""
        if isinstance(self.result, str):
            return [v]
        if isinstance(self.result, dict):
            if not isinstance(v, dict) or set(v) != set(self.result):
                return None
            return [v[k] for k in self.result]
        if not isinstance(v, (tuple, list)) or len(v) != len(self.result):
            return None
        return list(v)

    def value(self, args, effective=False):
        with pure():
            f = self.deviation if effective and self.deviation is not None else self.spec
            return f(SYM, *args)

    def factlist(self, r, args):
        if self.facts is None:
            return []
        with pure():
            fs = [tm.lift(f) for f in self.facts(SYM, r, *args)]
            pre = self.precondition(args) + self.narrow(args)
            if pre:
                fs = [tm.implies(tm.and_(*pre), f) for f in fs]
        return fs

    def bind(self, fn, args, kw):
        """arguments in contract order, or None"""
        try:
            b = inspect.signature(fn).bind(*args, **kw)
        except TypeError:
            return None
        b.apply_defaults()
        names = [n for n, _ in self.params]
        have = b.arguments
        if all(n in have for n in names):
            extra = [n for n in have if n not in names]
            for n in extra:
                d = b.signature.parameters[n].default
                if have[n] is not d:
                    return None
            return [have[n] for n in names]
        if len(have) == len(names):
            return list(have.values())
        return None


def _elem(a):
    if isinstance(a, md.Arr):
        return a.elem
    if isinstance(a, md.NDT):
        return a.dt
    return a


SYM = SymM()


def contract(qual, pids, params, **kw):
    def deco(f):
        return Contract(qual, pids.split() if isinstance(pids, str) else pids, list(params.items()), f, **kw)
    return deco


def expand_apps(t, only=None, keep=()):
    """replace the outermost opaque applications by their specification; returns (term, changed)"""
    changed = [False]
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        z = x
        if x.op == "app":
            info = APPINFO.get(x.id)
            if info is not None and info[0].expand and info[0].spec is not None and \
                    (only is None or info[0].name in only) and info[0].name not in keep:
                c, suf, args, _ = info
                v = c.unpack(c.value(args, effective=True))
                i = [s for s, _ in c.comps()].index(suf)
                changed[0] = True
                z = tm.lift(v[i].wall if isinstance(v[i], WallTime) else v[i])
            elif info is None and any(isinstance(a, T) and a.sort in "RIB" for a in x.args):
                na = tuple(go(a) if isinstance(a, T) and a.sort in "RIB" else a for a in x.args)
                if any(a is not b for a, b in zip(na, x.args)):
                    z = tm._remk(x.op, na, x.sort)
        else:
            na = tuple(go(a) if isinstance(a, T) else a for a in x.args)
            if any(a is not b for a, b in zip(na, x.args)):
                z = tm._remk(x.op, na, x.sort)
        memo[x.id] = z
        return z
    with pure():
        return go(t), changed[0]


def app_facts(t):
    """facts known about an application (callback of the solver)"""
    info = APPINFO.get(t.id)
    if info is None:
        return md.calendar_facts(t)
    c, suf, args, _ = info
    if c.facts is None:
        return []
    ks = [t.args[1:]]
    r = c.pack([tm.app(c.name + s, t.args[1:], "R" if so == "DT" else so) for s, so in c.comps()])
    for s, so in c.comps():
        x = tm.app(c.name + s, t.args[1:], "R" if so == "DT" else so)
        APPINFO.setdefault(x.id, (c, s, args, x))
    return c.factlist(r, args)


def handler(c):
    def h(fn, args, kw):
        vals = c.bind(fn, args, kw)
        if vals is None:
            return NotImplemented
        for (n, k), v in zip(c.params, vals):
            if not k.fits(v):
                return NotImplemented
        arr = any(isinstance(v, (md.Arr, md.NDT)) for v in vals)
        if arr and (c.raises or "DT" in [s for _, s in c.comps()]):
            return NotImplemented
        e = cur()
        e.elsewhere()
        pre = c.precondition(vals)
        if not arr and c.qual not in e.world.relational:
            for p in pre:
                if not e.entails(p, 2.0):
                    e.pinfo.setdefault("inlined", set()).add(c.name)
                    return NotImplemented       # outside the contract: the body is used instead
        e.pinfo.setdefault("callees", set()).add(c.qual)
        e.pinfo["pre"] = e.pinfo.get("pre", 0) + len(pre)
        for exc, cond in c.raises:
            with pure():
                g = cond(SYM, *vals)
            if e.decide(tm.lift(g)):
                raise exc("contract of %s" % c.name)
        if arr:
            e.pinfo.setdefault("arrcalls", set()).add((c.qual, tuple(isinstance(v, (md.Arr, md.NDT)) for v in vals)))
        elif c.inf is not None:
            with pure():
                g = c.inf(SYM, *vals)
            if e.decide(tm.lift(g)):
                return float("inf")
        return c.apply(vals, arr)
    return h


def install(world, skip=(), relational=()):
    """use the contracts of all functions except `skip` at call sites; `relational`: calls are kept opaque
    without their precondition (nothing is then known about the result: facts are guarded by the precondition)"""
    world.contracts.clear()
    world.relational = set(relational)
    for q, c in REG.items():
        if q in skip or c.name in skip:
            continue
        names = TMFUNCS.get(q, [q])
        for n in names:
            f = world.function(n)
            if f is not None and callable(f):
                world.contracts[id(f)] = handler(c)


TMFUNCS = {"pysolar.numeric.tm_%s" % n: ["pysolar.numeric.tm_%s_math" % n, "pysolar.numeric.tm_%s_numpy" % n,
                                        "pysolar.numeric.tm_%s" % n] for n in ("yday", "hour", "min")}
