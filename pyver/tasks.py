"""The obligations of every property, as independent tasks (each runs in its own process)."""
import inspect
import re
from fractions import Fraction
from . import terms as tm
from . import models as md
from . import norm as nm
from . import smt
from . import contract as ct
from . import facts as fa
from . import world as wd
from . import ival
from .contract import R, When, Local, Nut, Choice, Table, SYM, pure
from .engine import Engine, cur
from .prove import Prover, Verdict
from .terms import T, Unsupported
from .verify import (functional, world, Sink, symargs, check_outcome, prove_goal, argsnap, match_dt, elems, call_modes, effect_ok, CACHE)

import contracts.specs  # noqa: F401  (fills the registry)

REG = ct.REG
BOTH = ("math", "numpy")
SOLAR = "pysolar.solar."


# ================================================================ comparing two explorations
def cmpval(P, keys, a, b):
    """keys entail a == b (any result shape)"""
    if a is b:
        return Verdict(True, "ring")
    if isinstance(a, md.DT) or isinstance(b, md.DT):
        if not (isinstance(a, md.DT) and isinstance(b, md.DT)):
            return Verdict(False, "direct", None, "%r and %r" % (type(a), type(b)))
        return match_dt(P, keys, a, b)
    if isinstance(a, md.Arr) or isinstance(b, md.Arr):
        return cmpval(P, keys, md.el(a), md.el(b))
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b)):
            return Verdict(False, "direct", None, "shape")
        last = Verdict(True, "ring")
        for x, y in zip(a, b):
            v = cmpval(P, keys, x, y)
            if not v.ok:
                return v
            last = v if v.how != "ring" else last
        return last
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b)):
            return Verdict(False, "direct", None, "shape")
        return cmpval(P, keys, [a[k] for k in sorted(a)], [b[k] for k in sorted(a)])
    if md.num(a) and md.num(b):
        if tm.isspecial(a) or tm.isspecial(b):
            same = tm.isspecial(a) and tm.isspecial(b) and (a == b or (a != a and b != b))
            return Verdict(True, "direct") if same else P.infeasible(keys)
        return P.eq(keys, tm.lift(a), tm.lift(b))
    return Verdict(type(a) is type(b) and a == b, "direct", None, "%r and %r" % (a, b))


ODD = (TypeError, AttributeError, NameError, NotImplementedError)    # never a correct outcome of these functions


def product(sink, tag, P, A, B, allow_raise=True, **ctx):
    """every pair of jointly possible paths of A and B ends the same way"""
    n = 0
    for i, a in enumerate(A):
        for j, b in enumerate(B):
            ka = [k for k in a.keys if k is not True]
            have = set(k for k in ka if isinstance(k, tuple))
            N = smt.enc().normer
            kb = [k for k in b.keys if k is not True and k not in have]
            if any(N._neg(k) in have for k in kb if isinstance(k, tuple)):
                continue
            keys = ka + kb
            if not smt.feasible(keys, 400):
                continue
            n += 1
            name = "%s: paths %d/%d" % (tag, i + 1, j + 1)
            if a.kind != b.kind:
                v = P.infeasible(keys)
                if not v.ok:
                    v = Verdict(False, v.how, v.model, "%s here, %s there" % (_end(a), _end(b)))
                sink.add(name + " end alike", v, **ctx)
                continue
            if a.kind == "raise":
                if isinstance(a.value, ODD):
                    sink.add(name + " executed to the end", Verdict(False, "direct", None, _end(a)), **ctx)
                    continue
                same = type(a.value) is type(b.value) or type(a.value).__name__ == type(b.value).__name__
                sink.add(name + " raise alike", Verdict(same, "direct", None, "%s here, %s there" % (_end(a), _end(b))), **ctx)
                continue
            if bool(a.warnings) != bool(b.warnings):
                sink.add(name + " warn alike", P.infeasible(keys), **ctx)
                continue
            sink.add(name + " agree", cmpval(P, keys, a.value, b.value), **ctx)
    sink.add("%s: some path" % tag, Verdict(n > 0, "direct", None, "no joint path"), **ctx)


def _end(o):
    return "%s %s" % (o.kind, type(o.value).__name__ + ": " + str(o.value)[:80] if o.kind == "raise" else "")


def short(q):
    return q.replace("pysolar.", "")


def explore(sink, tag, w, hyps, thunk, budget, **ctx):
    e = Engine(w, hyps, budget)
    try:
        outs = e.explore(thunk)
    except Unsupported as ex:
        sink.add("%s: executed symbolically" % tag, Verdict(False, "engine", None, str(ex)), **ctx)
        return None
    for o in outs:
        sink.outcome(o)
    return outs


def missing(sink, q, fn):
    if fn is None or not callable(fn):
        sink.add("%s: function exists" % short(q), Verdict(False, "direct", None, "no such function"))
        return True
    return False


def whens(c):
    return [(n, k) for n, k in c.params if isinstance(k, When)]


# ================================================================ runners
RUN = {}


def runner(f):
    RUN[f.__name__] = f
    return f


@runner
def fn(qual, backend, scale=1.0, arr=None, modes=None):
    return functional(qual, backend, arr=arr, modes=modes, seconds=4.0 * scale, budget=60.0 * scale)


@runner
def facts(qual, scale=1.0):
    return fa.lemma(qual, 5.0 * scale, 60.0 * scale)


@runner
def lemma(name, scale=1.0):
    from . import lemmas
    return lemmas.run(name, scale)


# ---------------------------------------------------------------- P01
TZVAR = re.compile(r"\.(local_\w+|offset_us|fold)$")


def zone_dependent(o):
    """parts of an outcome that look at the zone rather than the instant"""
    seen = set()
    ts = list(o.pc)
    stack = [o.value]
    while stack:
        v = stack.pop()
        if isinstance(v, T):
            ts.append(v)
        elif isinstance(v, (list, tuple)):
            stack.extend(v)
        elif isinstance(v, dict):
            stack.extend(v.values())
        elif isinstance(v, md.Arr):
            stack.append(v.elem)
        elif isinstance(v, md.DT):
            stack.append(v.wall)
            seen.add("datetime result")
    for t in ts:
        for x in tm.subterms(t):
            if x.op == "var" and TZVAR.search(x.args[0]):
                seen.add(x.args[0])
            elif x.op == "app" and x.args[0] == "utcoff":
                seen.add("utcoffset")
            elif x.op == "obj" and isinstance(x.args[0], (md.DTObj, md.TZ)):
                d = x.args[0]
                if isinstance(d, md.TZ) or d.what != "instant":
                    seen.add("zone of %s" % d.name)
    return seen


@runner
def instant(qual, backend, scale=1.0):
    """the result is a function of the instant: no path condition and no result mentions the zone"""
    c, w = REG[qual], world(backend)
    sink = Sink(qual, {"contract": qual, "backend": backend})
    f = w.function(qual)
    if missing(sink, qual, f):
        return sink
    ct.install(w, {qual})
    for label, args, hyps in symargs(c):
        tag = "%s[%s%s] equal instants" % (short(qual), backend, ", " + label if label else "")
        pre = c.precondition(args)
        outs = explore(sink, tag, w, hyps + pre, lambda: f(*args), 60 * scale)
        if outs is None:
            continue
        dep = set()
        for o in outs:
            dep |= zone_dependent(o)
        if not dep:
            sink.add("%s: no dependence on the zone" % tag, Verdict(True, "free variables"))
            continue
        # relational: the same instant in another zone
        args2, hyps2 = [], []
        for (n, k), a in zip(c.params, args):
            if isinstance(a, md.DT):
                b, h = md.DT.fresh(a.name + "'")
                ren = {"%s'.%s" % (a.name, s): tm.var("%s.%s" % (a.name, s), "I") for s in
                       ("utc_year", "utc_month", "utc_day", "utc_hour", "utc_minute", "utc_second", "utc_microsecond")}
                b.utc = a.utc
                hyps2 += [x for x in h if not any(v in ren for v in tm.free_vars(x))]
                hyps2 += [tm.eq(b.wall - b.off.us * Fraction(1, 10**6), a.utcsec()),
                          tm.eq(a.wall - a.off.us * Fraction(1, 10**6), a.utcsec())]
                args2.append(b)
            else:
                args2.append(a)
        outs2 = explore(sink, tag, w, hyps + pre + hyps2, lambda: f(*args2), 60 * scale)
        if outs2 is not None:
            product(sink, tag, Prover(4 * scale, 60 * scale), outs, outs2)
    return sink


# ---------------------------------------------------------------- P02
class Other:
    """any object that carries no time-zone information and is not an array: has neither tzinfo nor shape"""

    def __getattr__(self, n):
        if n in ("tzinfo", "shape") or n.startswith("__") and n not in OPEN:
            raise AttributeError("no attribute %r" % n)
        raise Unsupported("attribute %s of an arbitrary object" % n)

    def __str__(self):
        return "<object>"
    __repr__ = __str__

    def __format__(self, s):
        return "<object>"


OPEN = {"__array__", "__array_interface__", "__array_struct__", "__array_function__", "__array_ufunc__", "__len__", "__iter__",
        "__getitem__", "__float__", "__int__", "__index__"}       # attributes such an object may or may not have


class Poison(Other):
    """argument that must not be looked at"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("an argument is used before the datetime is checked")


def refuse_targets():
    return [q for q, c in REG.items() if whens(c) and q not in NOCHECK]


NOCHECK = {"pysolar.radiation.get_radiation_direct", "pysolar.numeric.tm_yday", "pysolar.numeric.tm_hour", "pysolar.numeric.tm_min"}


@runner
def refuse(qual, backend, scale=1.0):
    c, w = REG[qual], world(backend)
    sink = Sink(qual, {"contract": qual, "backend": backend, "refuse": True})
    f = w.function(qual)
    if missing(sink, qual, f):
        return sink
    ct.install(w, {qual})
    exc = w.function("pysolar.tzinfo_check.NoTimeZoneInfoError")
    names = [n for n, _ in c.params]
    wn = whens(c)[0][0]
    naive, hyps = md.DT.fresh("when", naive=True)
    sym = next(symargs(c))[1]
    bad = [("naive", naive, exc if isinstance(exc, type) else ValueError), ("arbitrary object", Other(), ValueError),
           ("None", None, ValueError), ("int", 5, ValueError), ("str", "2020-01-01", ValueError)]
    for what, val, want in bad:
        for others in ("numbers", "unread"):
            vals = [val if n == wn else (s if others == "numbers" else Poison()) for n, s in zip(names, sym)]
            dropped = {n for n in names if n in c.defaults}
            ways = [("positional", vals, {}), ("keyword", [], dict(zip(names, vals)))]
            if dropped:
                ways.append(("defaults", [], {n: v for n, v in zip(names, vals) if n not in dropped}))
            for cut, title in ((names.index(wn), "keyword after positional"), (names.index(wn) + 1, "positional before keyword")):
                if 0 < cut < len(names):
                    ways.append((title, vals[:cut], dict(zip(names[cut:], vals[cut:]))))
                    if set(names[cut:]) & dropped:
                        ways.append((title + ", defaults", vals[:cut], {n: v for n, v in zip(names[cut:], vals[cut:]) if n not in dropped}))
            for way, pos, kw in ways:
                tag = "%s[%s] refuses %s (%s, others %s)" % (short(qual), backend, what, way, others)
                outs = explore(sink, tag, w, hyps, lambda: f(*pos, **kw), 20 * scale)
                if outs is None:
                    continue
                for o in outs:
                    if o.kind == "raise" and isinstance(o.value, want) and issubclass(want, ValueError):
                        sink.add(tag, Verdict(not o.warnings, "direct", None, "warned first"))
                    else:
                        v = P_inf(o, scale)
                        sink.add(tag, v if v.ok else Verdict(False, "direct", None, _end(o)))
    return sink


def P_inf(o, scale):
    return Prover(3 * scale, 20 * scale).infeasible(o.keys)


@runner
def transparent(backend, scale=1.0):
    """check_aware_dt hands an aware datetime through untouched"""
    w = world(backend)
    q = "pysolar.tzinfo_check.check_aware_dt"
    sink = Sink(q, {"backend": backend})
    deco = w.function(q)
    if deco is None:
        return sink
    ct.install(w)
    dt, hyps = md.DT.fresh("when")
    seen, result = [], object()
    marks = [tm.var("a"), tm.var("b"), tm.var("c")]

    def probe3(a, when, b, c=7):
        seen.append((a, when, b, c))
        return result

    def probe1(when):
        seen.append((when,))
        return result

    def probek(a, *, when, b=3):
        seen.append((a, when, b))
        return result

    def probe2(lat, lon, when, elevation=0, temperature=1, pressure=2):
        seen.append((lat, lon, when, elevation, temperature, pressure))
        return result
    a, b, c = marks
    shapes = [(probe3, (a, dt, b), {}, (a, dt, b, 7)), (probe3, (a, dt, b, c), {}, (a, dt, b, c)),
              (probe3, (), {"when": dt, "b": b, "a": a}, (a, dt, b, 7)), (probe3, (a,), {"when": dt, "b": b, "c": c}, (a, dt, b, c)),
              (probe1, (dt,), {}, (dt,)), (probe1, (), {"when": dt}, (dt,)), (probek, (a,), {"when": dt}, (a, dt, 3)),
              (probe2, (a, b, dt), {}, (a, b, dt, 0, 1, 2)), (probe2, (a, b, dt, c), {}, (a, b, dt, c, 1, 2)),
              (probe2, (a, b, dt), {"pressure": c}, (a, b, dt, 0, 1, c)), (probe2, (a, b), {"when": dt}, (a, b, dt, 0, 1, 2)),
              (probe2, (a,), {"lon": b, "when": dt, "elevation": c}, (a, b, dt, c, 1, 2))]
    for i, (p, pos, kw, want) in enumerate(shapes):
        tag = "check_aware_dt[%s] passes an aware datetime through, call shape %d" % (backend, i + 1)
        del seen[:]
        outs = explore(sink, tag, w, hyps, lambda: deco("when")(p)(*pos, **kw), 20 * scale)
        if outs is None:
            continue
        for o in outs:
            if o.kind == "return" and o.value is result and seen and all(
                    len(s) == len(want) and all(x is y for x, y in zip(s, want)) for s in seen) and not o.warnings:
                sink.add(tag, Verdict(True, "direct"))
            else:
                v = P_inf(o, scale)
                sink.add(tag, v if v.ok else Verdict(False, "direct", None, "%s, arguments %r" % (_end(o), seen)))
    # and hands nothing else through
    naive, hyps = md.DT.fresh("when", naive=True)
    exc = w.function("pysolar.tzinfo_check.NoTimeZoneInfoError")
    for what, val, want in (("naive", naive, exc if isinstance(exc, type) else ValueError), ("arbitrary object", Other(), ValueError),
                            ("None", None, ValueError)):
        for i, (p, pos, kw, _) in enumerate(shapes):
            tag = "check_aware_dt[%s] refuses %s, call shape %d" % (backend, what, i + 1)
            del seen[:]
            put = lambda v: val if v is dt else v
            outs = explore(sink, tag, w, hyps, lambda: deco("when")(p)(*map(put, pos), **{k: put(v) for k, v in kw.items()}), 20 * scale)
            for o in outs or ():
                if o.kind == "raise" and isinstance(o.value, want) and issubclass(want, ValueError) and not seen:
                    sink.add(tag, Verdict(not o.warnings, "direct", None, "warned first"))
                else:
                    v = P_inf(o, scale)
                    sink.add(tag, v if v.ok else Verdict(False, "direct", None, "%s, the function ran with %r" % (_end(o), seen)))
    return sink


# ---------------------------------------------------------------- two calls agree
@runner
def pair(name, backend, scale=1.0):
    """P13: relations between calls"""
    w = world(backend)
    c = REG[SOLAR + "get_position"]
    sink = Sink(SOLAR + "get_position", {"contract": SOLAR + "get_position", "backend": backend, "pair": name})
    g = {n: w.function(SOLAR + n) for n in ("get_position", "get_azimuth", "get_altitude", "get_topocentric_position")}
    for n, f in g.items():
        if missing(sink, SOLAR + n, f):
            return sink
    _, args, hyps = next(symargs(c))
    pre = c.precondition(args)
    P = Prover(4 * scale, 60 * scale)
    lat, lon, when, el, Tk, pr = args
    if name == "pair":
        ct.install(w, {SOLAR + n for n in ("get_position", "get_azimuth", "get_altitude")})
        tag = "get_position[%s] = (get_azimuth, get_altitude)" % backend
        A = explore(sink, tag, w, hyps + pre, lambda: g["get_position"](*args), 60 * scale)
        B = explore(sink, tag, w, hyps + pre, lambda: (g["get_azimuth"](lat, lon, when, el), g["get_altitude"](*args)), 60 * scale)
        if A is not None and B is not None:
            product(sink, tag, P, A, B)
    else:
        ct.install(w, {SOLAR + n for n in ("get_position", "get_azimuth", "get_altitude", "get_topocentric_position",
                                           "get_local_hour_angle")})
        for n in ("get_position", "get_azimuth", "get_altitude"):
            rest = args[3:] if n != "get_azimuth" else [el]
            tag = "%s[%s] longitude + 360" % (n, backend)
            A = explore(sink, tag, w, hyps + pre, lambda: g[n](lat, lon, when, *rest), 60 * scale)
            B = explore(sink, tag, w, hyps + pre, lambda: g[n](lat, lon + 360, when, *rest), 60 * scale)
            if A is not None and B is not None:
                product(sink, tag, P, A, B)
    return sink


# ---------------------------------------------------------------- P18
@runner
def backends(qual, scale=1.0):
    """the same function under both backends"""
    c = REG[qual]
    sink = Sink(qual, {"contract": qual, "backend": "numpy", "product": "backends"})
    P = Prover(4 * scale, 60 * scale)
    sets = {b: world(b) for b in BOTH}
    for label, args, hyps in symargs(c):
        tag = "%s%s: math and numpy backends" % (short(qual), "[%s]" % label if label else "")
        pre = c.precondition(args)
        outs = {}
        for b, w in sets.items():
            f = w.function(qual)
            if missing(sink, qual, f):
                return sink
            ct.install(w, {qual})
            outs[b] = explore(sink, "%s (%s)" % (tag, b), w, hyps + pre, lambda: f(*args), 60 * scale)
            if outs[b] is not None:
                used = {p for o in outs[b] for p in o.pinfo.get("prims", ())}
                wrong = sorted({"%s.%s" % p for p in used if p[0] != b})
                sink.add("%s: %s uses only the selected primitives" % (tag, b), Verdict(not wrong, "direct", None, ", ".join(wrong)))
        if None in outs.values():
            continue
        product(sink, tag, P, outs["math"], outs["numpy"], choice={n: a for (n, k), a in zip(c.params, args) if isinstance(k, Choice)})
    return sink


@runner
def limit(backend, scale=1.0):
    """the helper that keeps sines and cosines within [-1, 1] changes nothing else (for every real, what rounding may produce included)"""
    w = world(backend)
    q = "pysolar.numeric.clip_unit"
    sink = Sink(q, {"backend": backend})
    f = w.function(q)
    if not callable(f):
        sink.add("no such helper", Verdict(True, "direct"))     # the domain obligations of P27 cover its absence
        return sink
    ct.install(w)
    x = tm.var("x")

    def want():
        return 1 if x > 1 else -1 if x < -1 else x
    A = explore(sink, "clip_unit[%s]" % backend, w, [], lambda: f(x), 20 * scale)
    B = explore(sink, "clip_unit[%s] specification" % backend, w, [], want, 20 * scale)
    if A is not None and B is not None:
        product(sink, "clip_unit[%s] = max(-1, min(1, x))" % backend, Prover(4 * scale, 30 * scale), A, B)
    return sink


PRIMS = {"degrees": "degrees", "cos": "cos", "sin": "sin", "radians": "radians", "tan": "tan", "acos": "acos", "atan": "atan",
         "asin": "asin", "atan2": "atan2", "exp": "exp", "log": "log"}


@runner
def bindings(scale=1.0):
    """every sequence of backend selections leads to one of two states, with every primitive bound to that backend"""
    from .world import World
    from . import verify as vf
    sink = Sink("pysolar.numeric.use_math", {"bindings": True}, False)
    w = World(vf.ROOT[0], numpy=True)
    for m in vf.MODULES:
        w.load(m)
    num = w.modules.get("pysolar.numeric")
    if num is None:
        sink.add("module numeric exists", False)
        return sink
    sel = {}
    for b in BOTH:
        for owner, m in (("pysolar", w.modules["pysolar"]), ("pysolar.numeric", num)):
            f = m.__dict__.get("use_" + b)
            sink.add("%s.use_%s exists" % (owner, b), Verdict(callable(f), "direct"))
            if callable(f):
                sel[(owner, b)] = f
    if any(not o.ok for o in sink):
        return sink

    def state():
        return {m.__name__ + "." + k: v for m in w.modules.values() for k, v in m.__dict__.items() if not k.startswith("__")}

    # closure: from the import state, apply every selector until no new state appears
    init = w.snapshot()
    states, todo = {}, [(("import",), None)]
    sig = lambda s: tuple(sorted((k, id(v)) for k, v in s.items()))
    snaps = {}
    first = sig(state())
    states[first] = ("import",)
    snaps[first] = w.snapshot()
    work = [first]
    edges = 0
    while work and len(states) < 40:
        s = work.pop()
        for (owner, b), f in sel.items():
            w.restore(snaps[s])
            try:
                f()
            except Unsupported as ex:
                sink.add("%s.use_%s executed" % (owner, b), Verdict(False, "engine", None, str(ex)))
                continue
            except Exception as ex:
                sink.add("%s.use_%s raises nothing" % (owner, b), Verdict(False, "direct", None, repr(ex)))
                continue
            edges += 1
            t = sig(state())
            trail = states[s] + ("%s.use_%s" % (owner, b),)
            if t not in states:
                states[t] = trail
                snaps[t] = w.snapshot()
                work.append(t)
            w.restore(snaps[t])
            check_bound(sink, w, num, b, " > ".join(trail), scale)
    sink.add("selections reach finitely many states (%d, %d edges)" % (len(states), edges),
             Verdict(len(states) < 40, "direct", None, "no closure"))
    # without numpy: import must leave the math backend
    w2 = World(vf.ROOT[0], numpy=False)
    try:
        w2.load("pysolar")
        n2 = w2.modules["pysolar.numeric"]
        check_bound(sink, w2, n2, "math", "import without numpy", scale)
    except Exception as ex:
        sink.add("import without numpy", Verdict(False, "direct", None, repr(ex)))
    w.restore(init)
    return sink


def check_bound(sink, w, num, b, trail, scale):
    """behaviour of every name bound in numeric"""
    d = num.__dict__
    x, y = tm.var("x"), tm.var("y")
    P = Prover(2 * scale, 20 * scale)
    dom = [tm.le(-1, x), tm.le(x, 1), tm.lt(0, x), tm.lt(0, y)]
    ct.install(w, {"pysolar.numeric.tm_" + n for n in ("yday", "hour", "min")})

    def one(name, want, *args, hyps=dom):
        f = d.get(name)
        tag = "%s: %s is %s" % (trail, name, b)
        if not callable(f):
            sink.add(tag, Verdict(False, "direct", None, "unbound"))
            return
        outs = explore(sink, tag, w, list(hyps), lambda: f(*args), 10 * scale)
        if outs is None:
            return
        ok = True
        for o in outs:
            wrong = {"%s.%s" % p for p in o.pinfo.get("prims", ()) if p[0] != b}
            if wrong:
                sink.add(tag, Verdict(False, "direct", None, ", ".join(sorted(wrong))))
                return
            if o.kind != "return":
                v = P.infeasible(o.keys)
                if not v.ok:
                    sink.add(tag, Verdict(False, "direct", None, _end(o)))
                    return
                continue
            with pure():
                v = cmpval(P, o.keys, o.value, want())
            if not v.ok:
                sink.add(tag, v)
                return
        sink.add(tag, Verdict(ok, "ring"))

    for n, f in PRIMS.items():
        one(n, lambda f=f: getattr(SYM, f)(*((x, y) if f == "atan2" else (x,))), *((x, y) if f == "atan2" else (x,)))
    cnd = tm.lt(y, x)
    one("where", lambda: tm.ite(cnd, x, y), cnd, x, y, hyps=[])
    # arrays: elementwise with numpy, refused by the builtins
    for n in list(PRIMS) + ["where"]:
        f = d.get(n)
        if not callable(f):
            continue
        tag = "%s: %s on arrays (%s)" % (trail, n, b)
        given = lambda t: md.Arr(t, False)
        args = (given(x), given(y)) if n == "atan2" else (given(cnd), x, y) if n == "where" else (given(x),)
        outs = explore(sink, tag, w, dom, lambda: f(*args), 10 * scale)
        if outs is None:
            continue
        arr = [o for o in outs if o.kind == "return" and isinstance(o.value, md.Arr)]
        if b == "numpy":
            sink.add(tag, Verdict(len(arr) == len(outs), "direct", None, _end(outs[0])))
        else:
            sink.add(tag, Verdict(not arr, "direct", None, "an array came back"))
    pi = d.get("pi")
    sink.add("%s: pi" % trail, Verdict(isinstance(pi, T) and smt.enc().normer.norm(tm.sub(pi, tm.PI)).is_zero(), "ring"))
    dt, hyps = md.DT.fresh("when")
    with pure():
        vals = {"tm_yday": SYM.utc_yday(dt), "tm_hour": SYM.utc(dt)[3], "tm_min": SYM.utc(dt)[4]}
    for n, v in vals.items():
        one(n, lambda v=v: v, dt, hyps=hyps)
        f = d.get(n)
        if not callable(f):
            continue
        tag = "%s: %s on arrays (%s)" % (trail, n, b)
        outs = explore(sink, tag, w, hyps, lambda: f(md.NDT(dt.as_utc(), "us", True)), 10 * scale)
        if outs is not None:
            arr = [o for o in outs if o.kind == "return" and isinstance(o.value, md.Arr)]
            if b == "numpy":
                ok = len(arr) == len(outs)
                vd = Verdict(ok, "direct", None, _end(outs[0]))
                if ok:
                    with pure():
                        vd = cmpval(P, outs[0].keys, arr[0].value.elem, v)
                sink.add(tag, vd)
            else:
                sink.add(tag, Verdict(not arr, "direct", None, "an array came back"))


# ---------------------------------------------------------------- P19
ARRAYS = [(SOLAR + "get_position", "AA...."), (SOLAR + "get_altitude", "AA...."), (SOLAR + "get_azimuth", "AA.."),
          (SOLAR + "get_position", "A....."), (SOLAR + "get_position", ".A...."),
          (SOLAR + "get_altitude_fast", "A.."), (SOLAR + "get_azimuth_fast", "A.."),
          (SOLAR + "get_altitude_fast", ".A."), (SOLAR + "get_azimuth_fast", ".A."),
          (SOLAR + "get_altitude_fast", "AA."), (SOLAR + "get_azimuth_fast", "AA."), (SOLAR + "get_altitude_fast", "AAA"),
          (SOLAR + "get_azimuth_fast", "AAA"), (SOLAR + "get_altitude_fast", "..A"), (SOLAR + "get_azimuth_fast", "..A"),
          ("pysolar.radiation.get_radiation_direct", "AA"), ("pysolar.radiation.get_radiation_direct", "A."),
          ("pysolar.radiation.get_radiation_direct", ".A")]


@runner
def lift(qual, pattern, scale=1.0):
    """the array call, element by element, against the scalar call (same code, numpy backend)"""
    c, w = REG[qual], world("numpy")
    mask = [x == "A" for x in pattern]
    sink = Sink(qual, {"contract": qual, "backend": "numpy", "arr": mask})
    f = w.function(qual)
    if missing(sink, qual, f):
        return sink
    ct.install(w, {qual})
    P = Prover(4 * scale, 60 * scale)
    gen = list(symargs(c, mask))
    for label, args, hyps in gen:
        tag = "%s[arrays %s%s]" % (short(qual), pattern, ", " + label if label else "")
        pre = c.precondition(args)
        sc = [(a.dt if isinstance(a, md.NDT) else a.elem) if m and isinstance(a, (md.NDT, md.Arr)) else a for a, m in zip(args, mask)]
        A = explore(sink, tag, w, hyps + pre, lambda: f(*args), 60 * scale)
        S = explore(sink, tag + " scalar", w, hyps + pre, lambda: f(*sc), 60 * scale)
        if A is None or S is None:
            continue
        for o in A:
            if o.kind != "return":
                v = P.infeasible(o.keys)
                sink.add("%s: returns an array" % tag, v if v.ok else Verdict(False, "direct", None, _end(o)))
                continue
            vals = c.unpack(o.value)
            if vals is None or not all(isinstance(v, md.Arr) for v in vals):
                sink.add("%s: returns arrays" % tag, Verdict(False, "direct", None, repr(o.value)[:100]))
                continue
            sink.add("%s: returns new arrays" % tag, Verdict(all(v.own for v in vals), "direct", None, "an argument is returned"))
            for i, s in enumerate(S):
                keys = list(o.keys) + [k for k in s.keys if k is not True]
                if not smt.feasible([k for k in keys if k is not True], 400):
                    continue
                if s.kind != "return":
                    v = P.infeasible(keys)
                    sink.add("%s: scalar call %d returns" % (tag, i + 1), v if v.ok else Verdict(False, "direct", None, _end(s)))
                    continue
                if tm.isspecial(s.value) and c.inf is not None:
                    with pure():
                        g = tm.lift(c.inf(SYM, *elems(args)))
                    sink.add("%s: infinite where specified" % tag, P.prove(keys, g))
                    continue
                sv = c.unpack(s.value)
                v = cmpval(P, keys, [x.elem for x in vals], sv) if sv is not None else Verdict(False, "direct", None, "shape")
                if not v.ok:
                    v2 = _both_meet(c, f, w, P, o, s, args, mask, keys)
                    v = v2 if v2 is not None and v2.ok else v
                sink.add("%s: every element is the scalar result, path %d" % (tag, i + 1), v)
    return sink


def _both_meet(c, f, w, P, o, s, args, mask, keys):
    """both the array element and the scalar result equal the specification"""
    if c.spec is None or c.ensures is not None:
        return None
    for sp in (c.spec, c.deviation):
        if sp is None:
            continue
        with pure():
            want = c.unpack(sp(SYM, *elems(args)))
        a = cmpval(P, o.keys, [x.elem for x in c.unpack(o.value)], want)
        if a.ok:
            b = cmpval(P, keys, c.unpack(s.value), want)
            if b.ok:
                return b
    return None


# ---------------------------------------------------------------- P24 P25
def range_spec(start, end, step):
    """(count, element k) of the time range"""
    span = end - start
    secs = tm.floor(tm.toreal(span.us) * Fraction(1, 10**6))
    n = tm.maximum(tm.const(0), tm.floor(tm.div(tm.toreal(secs), step * 60)))
    return n


@runner
def timerange(backend, scale=1.0):
    w = world(backend)
    q = "pysolar.simulate.datetime_range"
    sink = Sink(q, {"backend": backend, "generator": "datetime_range"})
    f = w.function(q)
    if missing(sink, q, f):
        return sink
    ct.install(w)
    start, h1 = md.DT.fresh("start")
    end, h2 = md.DT.fresh("end")
    for same in (True, False):
        if same:
            end.tz = start.tz
        else:
            end, h2 = md.DT.fresh("end")
        for kind in ("integer", "real"):
            step = tm.var("step", "I" if kind == "integer" else "R")
            tag = "datetime_range[%s, %s step, %s zone]" % (backend, kind, "same" if same else "another")
            outs = explore(sink, tag, w, h1 + h2 + [tm.lt(0, step)], lambda: f(start, end, step), 60 * scale)
            if outs is None:
                continue
            P = Prover(4 * scale, 60 * scale)
            body, ended, sites = 0, [], set()
            with pure():
                n = range_spec(start, end, tm.toreal(step))
            for o in outs:
                if o.kind == "raise":
                    v = P.infeasible(o.keys)
                    sink.add("%s: raises nothing" % tag, v if v.ok else Verdict(False, v.how, v.model, _end(o)))
                    continue
                bodies = [l for l in o.loops if l.mode == "body"]
                if o.kind == "loopend" and not bodies and not o.yields:
                    continue
                if o.kind == "generated" and not bodies and not o.yields:
                    ended.append((tag, o))
                    continue
                if len(bodies) != 1 or len(o.yields) != 1:
                    sink.add("%s: one time per step" % tag, Verdict(False, "direct", None, "%d loops, %d yields" % (len(bodies), len(o.yields))))
                    continue
                body += 1
                L = bodies[0]
                sites.add(L.site)
                k = L.k
                with pure():
                    within(sink, "%s: number of times" % tag, P, o, L, n)
                    y = o.yields[0][0]
                    check_time(sink, tag, P, o.keys, y, start, end, tm.toreal(step), k, kind)
            ends(sink, P, ended, sites, n)
            sink.add("%s: yields times" % tag, Verdict(body > 0, "direct", None, "no loop body"))
    return sink


def ends(sink, P, ended, sites, n):
    """paths on which the generator ends outside any iteration: they have passed through the one loop that yields"""
    for tag, o in ended:
        with pure():
            L = [l for l in o.loops if l.site in sites]
            if not L:
                sink.add("%s: empty only without a whole step" % tag, P.prove(o.keys, tm.le(n, 0)))
            for l in L:
                if isinstance(l, wd.While):      # the iterations before k have been made, iteration k has not
                    sink.add("%s: ends after the last step" % tag, P.prove(o.keys, tm.eq(l.k, n)))
    if len(sites) > 1:
        sink.add("%s: one loop yields" % (ended[0][0] if ended else ""), Verdict(False, "direct", None, "%d loops yield" % len(sites)))


def within(sink, name, P, o, L, n):
    if isinstance(L, wd.While):
        sink.add(name, P.prove(o.keys, tm.and_(tm.le(0, L.k), tm.lt(L.k, n))))
    else:
        sink.add(name, P.eq(o.keys, tm.lift(L.it.n), n))


def check_time(sink, tag, P, keys, y, start, end, step, k, kind):
    if not isinstance(y, md.DT) or y.tz is not start.tz:
        sink.add("%s: a datetime in the zone of the start" % tag, Verdict(False, "direct", None, repr(y)))
        return False
    us = tm.mul(tm.sub(y.wall, start.wall), 10**6)
    exact = tm.mul(tm.mul(step, 60 * 10**6), tm.toreal(k))
    if kind == "integer":
        v = P.eq(keys, us, exact)
    else:
        # step lengths are rounded to whole microseconds by timedelta
        v = P.eq(keys, us, tm.mul(tm.toreal(tm.roundi(tm.mul(step, 60 * 10**6))), tm.toreal(k)))
        if not v.ok:
            v = P.eq(keys, us, tm.toreal(tm.roundi(exact)))
    return sink.add("%s: element k is start + k steps" % tag, v)


RELATED = (SOLAR + "get_altitude", SOLAR + "get_azimuth", "pysolar.radiation.get_radiation_direct")


def horizons():
    """any horizon of at least 360 entries"""
    n = tm.var("entries", "I")
    return md.SymSeq(n, lambda i: tm.app("horizon", (tm.lift(i),), "R"), "horizon"), [tm.le(360, n)]


@runner
def span(backend, way, scale=1.0):
    w = world(backend)
    q = "pysolar.simulate.simulate_span"
    sink = Sink(q, {"backend": backend, "generator": "simulate_span"})
    f = w.function(q)
    if missing(sink, q, f):
        return sink
    ct.install(w, (), RELATED)
    start, h1 = md.DT.fresh("start")
    end, h2 = md.DT.fresh("end")
    end.tz = start.tz
    step = tm.var("step")
    lat, lon, el, Tk, pr = (tm.var(n) for n in ("latitude_deg", "longitude_deg", "elevation", "temperature", "pressure"))
    horizon, h3 = horizons()
    hyps = h1 + h2 + h3 + [tm.lt(0, step), tm.le(-90, lat), tm.le(lat, 90)]
    one = lambda s: tm.const(Fraction(s), "R")
    air = REG[SOLAR + "get_position"]
    for way in (way,):
        out = set(air.way(way)[1])
        H = hyps + ([tm.lt(0, Tk)] if "temperature" not in out else [])
        tag = "simulate_span[%s, %s]" % (backend, way or "positional")
        given = {"elevation": el, "temperature": Tk, "pressure": pr}
        e, tk, p = (one(air.defaults[x]) if x in out else v for x, v in given.items())
        if not way:
            th = lambda: f(lat, lon, horizon, start, end, step, el, Tk, pr)
        elif way == "keywords":
            th = lambda: f(latitude_deg=lat, longitude_deg=lon, horizon=horizon, start_datetime=start, end_datetime=end,
                           step_minutes=step, elevation=el, temperature=Tk, pressure=pr)
        else:
            th = lambda: f(lat, lon, horizon, start, end, step, **{x: v for x, v in given.items() if x not in out})
        outs = explore(sink, tag, w, H, th, 60 * scale)
        if outs is None:
            continue
        P = Prover(4 * scale, 90 * scale)
        body, ended, sites = 0, [], set()
        with pure():
            n = range_spec(start, end, step)
        for i, o in enumerate(outs):
            t = "%s path %d/%d" % (tag, i + 1, len(outs))
            if o.kind == "raise":
                v = P.infeasible(o.keys)
                sink.add("%s: raises nothing" % t, v if v.ok else Verdict(False, v.how, v.model, _end(o)))
                continue
            bodies = [l for l in o.loops if l.mode == "body"]
            if o.kind == "loopend" and not bodies and not o.yields:
                continue
            if o.kind == "generated" and not bodies and not o.yields:
                ended.append((t, o))
                continue
            if len(bodies) != 1 or len(o.yields) != 1:
                sink.add("%s: one result per time" % t, Verdict(False, "direct", None, "%d loops, %d yields" % (len(bodies), len(o.yields))))
                continue
            body += 1
            sites.add(bodies[0].site)
            y = o.yields[0][0]
            if not isinstance(y, (tuple, list)) or len(y) != 5:
                sink.add("%s: five values per time" % t, Verdict(False, "direct", None, repr(y)[:100]))
                continue
            time, alt, azi, rad, shade = y
            with pure():
                within(sink, "%s: number of results" % t, P, o, bodies[0], n)
                if not check_time(sink, t, P, o.keys, time, start, end, step, bodies[0].k, "real"):
                    continue
                S = SYM.S
                walt = S.get_altitude(lat, lon, time, e, tk, p)
                wazi = S.get_azimuth(lat, lon, time, e)
                idx = tm.mod(tm.roundi(wazi), 360)
                wsh = tm.app("horizon", (idx,), "R")
                va = cmpval(P, o.keys, alt, walt)
                sink.add("%s: the altitude of that time" % t, va)
                sink.add("%s: the azimuth of that time" % t, cmpval(P, o.keys, azi, wazi))
                vs = cmpval(P, o.keys, shade, wsh)
                sink.add("%s: the horizon entry of the azimuth" % t, vs)
                # from here on in terms of the yielded values, just proved equal
                walt, wsh = tm.lift(alt) if va.ok else walt, tm.lift(shade) if vs.ok else wsh
                dark = tm.lt(wsh, 380 - tm.roundi(380 * tm.fn("sin", md.radians(walt))))
                d = P.prove(o.keys, dark)
                if d.ok:
                    sink.add("%s: no radiation below the horizon line" % t, cmpval(P, o.keys, rad, tm.const(0)))
                    continue
                u = P.prove(o.keys, tm.not_(dark))
                sink.add("%s: the horizon decides" % t, u)
                if u.ok:
                    sink.add("%s: direct radiation of that time and altitude" % t, cmpval(P, o.keys, rad, S.get_radiation_direct(time, walt)))
        ends(sink, P, ended, sites, n)
        sink.add("%s: yields results" % tag, Verdict(body > 0, "direct", None, "no loop body"))
    return sink


# ---------------------------------------------------------------- P26


def generator_calls(w, backend):
    start, h1 = md.DT.fresh("start")
    end, h2 = md.DT.fresh("end")
    end.tz = start.tz
    step = tm.var("step")
    lat, lon, el, Tk, pr = (tm.var(n) for n in ("latitude_deg", "longitude_deg", "elevation", "temperature", "pressure"))
    horizon, h3 = horizons()
    hy = h1 + h2 + h3 + [tm.lt(0, step), tm.le(-90, lat), tm.le(lat, 90), tm.lt(0, Tk)]
    return {"datetime_range": (lambda f: f(start, end, step), hy, [start, end]),
            "simulate_span": (lambda f: f(lat, lon, horizon, start, end, step, el, Tk, pr), hy, [horizon, start, end])}


CACHE_GETTER = "pysolar.constants.get_aberration_coeffs"


@runner
def effects(qual, backend, scale=1.0):
    """nothing reachable from the library, and no argument, is changed by a call"""
    w = world(backend)
    sink = Sink(qual, {"contract": qual if qual in REG else None, "backend": backend, "effects": True}, False)
    f = w.function(qual)
    if missing(sink, qual, f):
        return sink
    ct.install(w, {qual})
    calls = []
    if qual in REG:
        c = REG[qual]
        for label, args, hyps in symargs(c):
            calls.append((label, lambda args=args: f(*args), hyps + c.precondition(args), args))
    else:
        th, hy, args = generator_calls(w, backend)[qual.rpartition(".")[2]]
        calls.append(("", lambda th=th: th(f), hy, args))
    for label, th, hyps, args in calls:
        tag = "%s[%s%s] changes nothing" % (short(qual), backend, ", " + label if label else "")
        snap = argsnap(args)
        state = {"bad": set()}

        def run():
            if argsnap(args) != snap:
                raise Unsupported("arguments changed on an earlier path")
            r = th()
            if inspect.isgenerator(r):
                return _drain(r, state, args, snap)
            if argsnap(args) != snap:
                state["bad"].add("an argument")
            return r
        outs = explore(sink, tag, w, hyps, run, 60 * scale)
        if outs is None:
            if state["bad"]:
                sink.add(tag, Verdict(False, "direct", None, ", ".join(state["bad"])))
            continue
        bad = {e for o in outs for e in o.effects if not effect_ok(e)} | state["bad"]
        odd = [o for o in outs if o.kind == "raise" and isinstance(o.value, ODD)]
        sink.add("%s: executed to the end" % tag, Verdict(not odd, "direct", None, "; ".join(sorted({_end(o) for o in odd}))))
        if argsnap(args) != snap:
            bad.add("an argument")
        sink.add("%s: frame" % tag, Verdict(not bad, "heap difference", None, ", ".join(sorted(bad))))
        if qual != CACHE_GETTER:
            held = {p for o in outs if o.kind == "return" for p in shared(w, o.value)}
            sink.add("%s: the result shares no mutable object with the library" % tag,
                     Verdict(not held, "heap reachability", None, ", ".join(sorted(held))))
    return sink


@runner
def keeps(qual, pattern, scale=1.0):
    """a call with arrays changes none of them and nothing of the library"""
    c, w = REG[qual], world("numpy")
    mask = [x == "A" for x in pattern]
    sink = Sink(qual, {"contract": qual, "backend": "numpy", "arr": mask, "keeps": True}, False)
    f = w.function(qual)
    if missing(sink, qual, f):
        return sink
    ct.install(w, {qual})
    for label, args, hyps in symargs(c, mask):
        tag = "%s[arrays %s%s] changes nothing" % (short(qual), pattern, ", " + label if label else "")
        given = [a.elem if isinstance(a, md.Arr) else None for a in args]
        outs = explore(sink, tag, w, hyps + c.precondition(args), lambda: f(*args), 60 * scale)
        if outs is None:
            continue
        bad = {e for o in outs for e in o.effects if not effect_ok(e)}
        if any(isinstance(a, md.Arr) and a.elem is not g for a, g in zip(args, given)):
            bad.add("an argument")
        sink.add("%s: frame" % tag, Verdict(not bad, "heap difference", None, ", ".join(sorted(bad))))
        for o in outs:
            vals = c.unpack(o.value) if o.kind == "return" else None
            for v in vals or ():
                if isinstance(v, md.Arr) and not v.own:
                    sink.add("%s: the result shares no memory with an argument" % tag, Verdict(False, "direct", None, "an argument is returned"))
    return sink


def _drain(r, state, args, snap):
    for y in r:
        if argsnap(args) != snap:
            state["bad"].add("an argument")
        yield y


def shared(w, v):
    """paths of mutable library objects that a result gives access to"""
    mine = {id(o): path for kind, path, o, _ in w.snapshot() if kind in ("list", "dict", "set", "deque", "obj")}
    out, stack, seen = set(), [v], set()
    while stack:
        x = stack.pop()
        if id(x) in seen or isinstance(x, T):
            continue
        seen.add(id(x))
        if id(x) in mine:
            out.add(mine[id(x)])
        if isinstance(x, (list, tuple)):
            stack.extend(x)
        elif isinstance(x, dict):
            stack.extend(x.values())
    return out


@runner
def cache(backend, scale=1.0):
    """the cached table has the same content whenever it is created, and reading it changes nothing"""
    w = world(backend)
    q = "pysolar.constants.get_aberration_coeffs"
    sink = Sink(q, {"backend": backend, "cache": True}, False)
    f = w.function(q)
    if missing(sink, q, f):
        return sink
    ct.install(w)
    x = tm.var("x")
    from contracts import tables as tb
    names = ("MeanElongationOfMoon", "MeanAnomalyOfSun", "MeanAnomalyOfMoon", "ArgumentOfLatitudeOfMoon", "LongitudeOfAscendingNode")

    def first():
        t = f()
        return tuple(w.call(t[n], x) for n in names)

    def second():
        f()
        t = f()
        u = f()
        if t is not u and set(t) != set(u):
            raise Unsupported("different tables")
        return tuple(w.call(t[n], x) for n in names)
    A = explore(sink, "first use", w, [], first, 20 * scale)
    B = explore(sink, "later use", w, [], second, 20 * scale)
    if A is None or B is None:
        return sink
    P = Prover(4 * scale, 30 * scale)
    product(sink, "get_aberration_coeffs[%s]: later uses see the content of the first" % backend, P, A, B)
    for o in A + B:
        bad = sorted(e for e in o.effects if not e.startswith("pysolar.constants."))
        sink.add("get_aberration_coeffs[%s]: creates the cache only" % backend, Verdict(not bad, "heap difference", None, ", ".join(bad)))
    # once it exists, nothing changes
    import functools
    snap = w.snapshot()
    try:
        f()
        outs = explore(sink, "cached", w, [], first, 20 * scale)
        for o in outs or []:
            sink.add("get_aberration_coeffs[%s]: the cache is never changed again" % backend,
                     Verdict(not o.effects, "heap difference", None, ", ".join(o.effects)))
    finally:
        w.restore(snap)
    return sink


# ---------------------------------------------------------------- P27
TOTAL = ["get_position", "get_altitude", "get_azimuth", "get_topocentric_position", "get_altitude_fast", "get_azimuth_fast",
         "get_incidence_angle", "get_topocentric_zenith_angle"]


def total_targets():
    pids = {"P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17"}
    return [q for q, c in REG.items() if pids & set(c.pids) and q != SOLAR + "get_topocentric_sun_right_ascension"]


EXTRA = {SOLAR + "get_geocentric_sun_declination": lambda lam, eps, beta: [
    tm.le(20, eps), tm.le(eps, 27), tm.le(beta, Fraction(1, 50)), tm.le(Fraction(-1, 50), beta)]}


@runner
def total(qual, backend, scale=1.0):
    """no exception, finite result, and no inverse sine or cosine that rounding could push out of its domain"""
    c, w = REG[qual], world(backend)
    sink = Sink(qual, {"contract": qual, "backend": backend, "total": True})
    f = w.function(qual)
    if missing(sink, qual, f):
        return sink
    ct.install(w, {qual})
    P = Prover(4 * scale, 90 * scale)
    extra = EXTRA.get(qual)
    stronger(w, {q: g for q, g in EXTRA.items() if q != qual})
    for label, args, hyps in symargs(c):
        tag = "%s[%s%s] total" % (short(qual), backend, ", " + label if label else "")
        pre = c.precondition(args) + (extra(*args) if extra else [])
        pre += latitudes(c, args)
        ctx = {"choice": {n: a for (n, k), a in zip(c.params, args) if isinstance(k, Choice)}}
        outs = explore(sink, tag, w, hyps + pre, lambda: f(*args), 60 * scale, **ctx)
        if outs is None:
            continue
        for i, o in enumerate(outs):
            t = "%s path %d/%d" % (tag, i + 1, len(outs))
            if o.kind != "return":
                v = P.infeasible(o.keys)
                sink.add("%s: returns" % t, v if v.ok else Verdict(False, v.how, v.model, _end(o)), **ctx)
                continue
            vals = c.unpack(o.value)
            ok = vals is not None and all(md.num(v) for v in vals)
            if ok and any(tm.isspecial(v) for v in vals) and c.inf is None:
                v = P.infeasible(o.keys)
                sink.add("%s: finite" % t, v if v.ok else Verdict(False, v.how, v.model, "%r" % (vals,)), **ctx)
                continue
            sink.add("%s: finite" % t, Verdict(ok, "direct", None, repr(o.value)[:100]), **ctx)
            for n, call in enumerate(o.calls):
                if call[0] == "pre":
                    sink.add("%s: stronger precondition of %s" % (t, call[1]), P.prove(o.keys, call[2]), **ctx)
                elif call[0] == "domain":
                    sink.add("%s: argument of %s %d stays in its domain in floating point" % (t, call[1], n), robust(P, o, call, pre), **ctx)
    return sink


def latitudes(c, args):
    return [x for (n, k), a in zip(c.params, args) if n in ("latitude_deg", "latitude") for x in (tm.le(-90, a), tm.le(a, 90))]


def stronger(w, extra):
    """record at call sites the stronger preconditions P27 relies on"""
    for q, g in extra.items():
        fnc = w.function(q)
        h = w.contracts.get(id(fnc))
        if h is None:
            continue
        c = REG[q]

        def h2(fn, args, kw, h=h, c=c, g=g):
            vals = c.bind(fn, args, kw)
            r = h(fn, args, kw)
            e = cur()
            if r is not NotImplemented and vals is not None and not any(isinstance(v, md.Arr) for v in vals):
                with pure():
                    for x in g(*vals):
                        e.calls.append(("pre", c.name, x, len(e.keys)))
            return r
        w.contracts[id(fnc)] = h2


def robust(P, o, call, pre=()):
    """the argument is in the domain whatever the rounding"""
    _, name, x, nk = call
    x = tm.lift(x)
    if name == "exp":
        return P.prove(o.keys, tm.le(x, 700))
    lits = set()
    from .prove import literals
    have = literals([k for k in o.keys if k is not True])
    N = smt.enc().normer

    def known(cond):
        """the comparison was made on exactly this term"""
        k = N.bkey(cond)
        if k is True:
            return True
        if k is False:
            return False
        return have.get(k) is True or k in have and have[k] is True or any(k == z for z in lits)

    def leaf(t, conds):
        if tm.isconst(t):
            return abs(tm.cval(t)) <= 1
        keys = [N.bkey(z) for z in conds]
        if len(keys) > 1:      # a condition on an already clamped value, where the other conditions select the branch
            for i, z in enumerate(conds):
                keys.append(nm.Normer(literals([k for j, k in enumerate(keys[:len(conds)]) if j != i and isinstance(k, tuple)])).bkey(z))
        pos = {k for k in keys if isinstance(k, tuple)} | {k for k, v in have.items() if v is True}
        neg = {k for k, v in have.items() if v is False}

        def holds(cond):
            k = N.bkey(cond)
            return k is True or k in pos or (isinstance(k, tuple) and k[0] == "not" and k[1] in neg)
        if holds(tm.le(t, 1)) and holds(tm.le(-1, t)):
            return True
        m = Fraction(10**9 - 1, 10**9)
        ks = [k for k in o.keys if k is not True] + [k for k in keys if k is not True]
        if P.prove(ks, tm.and_(tm.le(t, m), tm.le(-m, t))).ok:
            return True
        return ival.bnb([tm.le(t, m), tm.le(-m, t)], list(pre) + conds, 4000)[0]

    def go(t, conds):
        if t.op == "ite":
            return go(t.args[1], conds + [t.args[0]]) and go(t.args[2], conds + [tm.not_(t.args[0])])
        ks = [N.bkey(z) for z in conds]
        if any(k is False for k in ks):
            return True
        return leaf(t, conds)
    with pure():
        ok = go(x, [])
    return Verdict(ok, "clamp or margin", None, "rounding may push the argument of %s out of [-1, 1]" % name)
