"""Functional obligations: the body of every function meets its contract, for all arguments."""
import itertools
import os
import time
from fractions import Fraction
from . import terms as tm
from . import models as md
from . import norm as nm
from . import smt
from . import contract as ct
from . import cells
from .contract import R, When, Nut, Choice, Table, WallTime, SYM, pure
from .engine import Engine, UNBOUND
from .prove import Prover, Verdict
from .world import World
from .terms import T, Unsupported

MODULES = ("pysolar", "pysolar.elevation", "pysolar.rest", "pysolar.simulate")
ROOT = [os.environ.get("PYSOLAR_ROOT", "/repo")]
_worlds = {}


def world(backend):
    """'math': builtin-math backend (numpy not importable); 'numpy': numpy backend"""
    w = _worlds.get(backend)
    if w is None:
        w = World(ROOT[0], numpy=True)
        for m in MODULES:
            w.load(m)
        f = w.function("pysolar." + ("use_math" if backend == "math" else "use_numpy"))
        f()
        w.cells = cells.find(w)
        _worlds[backend] = w
    return w


class Obl:
    """one proof obligation"""
    __slots__ = ("name", "fn", "ok", "how", "why", "model", "ctx", "finding", "secs")

    def __init__(self, name, fn, ok, how="", why="", model=None, ctx=None, finding=None, secs=0.0):
        self.name, self.fn, self.ok, self.how, self.why = name, fn, bool(ok), how, why
        self.model, self.ctx, self.finding, self.secs = model, ctx or {}, finding, secs

    def pack(self):
        return {k: getattr(self, k) for k in self.__slots__}


CACHE = "pysolar.constants.aberration_coeffs"


def effect_ok(e):
    """the table created on first use (P26 shows that it is always the same one)"""
    return e == CACHE or e.startswith(CACHE + ":") or e == CACHE + " added"


class Sink(list):
    def __init__(self, fn, ctx=None, frames=True):
        self.fn, self.ctx, self.frames = fn, ctx or {}, frames
        self.info = {"callees": set(), "inlined": set(), "float facts": set(), "pre": 0, "paths": 0, "arrcalls": set()}

    def add(self, name, v, finding=None, **ctx):
        c = dict(self.ctx)
        c.update(ctx)
        if isinstance(v, bool):
            v = Verdict(v, "direct")
        self.append(Obl(name, self.fn, v.ok, v.how, v.why, v.model, c, finding))
        return v.ok

    def outcome(self, o):
        """accounting, and the frame condition: contracts speak about functions without memory"""
        bad = sorted({e for e in o.effects if not effect_ok(e) and e.partition(" ")[0].partition(":")[0] not in o.cells
                      or e.endswith("another kind")}) if self.frames else ()
        name = "%s: changes no state of the library" % self.fn.replace("pysolar.", "")
        if self.frames and not any(b.name == name and not (b.ok and bad) for b in self):
            self[:] = [b for b in self if b.name != name]
            self.add(name, Verdict(not bad, "heap difference", None, ", ".join(bad)), frame=True)
        self.info["paths"] += 1
        for k in ("callees", "inlined", "float facts", "arrcalls"):
            self.info[k] |= o.pinfo.get(k, set())
        self.info["pre"] += o.pinfo.get("pre", 0)


def symtable():
    v = tm.var
    return [[(v("a%d%d" % (i, j)), v("b%d%d" % (i, j)), v("c%d%d" % (i, j))) for j in range(2)] for i in range(2)]


def symargs(c, arr=None, fixed=None):
    """argument lists (one per combination of choices): (label, args, hyps)"""
    from contracts import tables as tb
    opts = []
    for n, k in c.params:
        if fixed and n in fixed:
            opts.append([fixed[n]])
        elif isinstance(k, Choice):
            opts.append(list(k.vals))
        elif isinstance(k, Table):
            opts.append([("L", tb.L), ("B", tb.B), ("R", tb.RR), ("generic", symtable())])
        else:
            opts.append([None])
    for combo in itertools.product(*opts):
        args, hyps, label = [], [], []
        for i, ((n, k), o) in enumerate(zip(c.params, combo)):
            if isinstance(k, Choice):
                args.append(o)
                label.append(o)
            elif isinstance(k, Table):
                args.append([[tuple(_c(x) for x in e) for e in r] for r in o[1]])
                label.append("table " + o[0])
            elif o is not None:
                args.append(o)
            else:
                v, h = k.fresh(n)
                hyps += h
                if arr and arr[i]:
                    v = md.Arr(v, False) if isinstance(k, R) else md.NDT(v.as_utc(), "us", True)
                args.append(v)
        yield ", ".join(label), args, hyps


def _c(x):
    return x if isinstance(x, T) else tm.const(Fraction(str(x)), "R")


def elems(args):
    return [ct._elem(a) for a in args]


def call_modes(c):
    """ways to call: (label, positional count, contract-default substitution)"""
    for m in c.ways():
        npos, out = c.way(m)
        yield m, npos, {n: c.defaults[n] for n in out}


def functional(qual, backend, arr=None, modes=None, seconds=4.0, budget=60.0, fixed=None, inline=(), cont=None):
    """obligations of one function against its contract"""
    c = ct.REG[qual]
    w = world(backend)
    sink = Sink(qual, {"contract": qual, "backend": backend, "arr": list(arr) if arr else None})
    fn = w.function(qual)
    short = qual.replace("pysolar.", "")
    if fn is None or not callable(fn):
        sink.add("%s: function exists" % short, Verdict(False, "direct", None, "no such function"))
        return sink
    ct.install(w, {qual} | set(inline))
    names = [n for n, _ in c.params]
    for mlabel, npos, dflt in call_modes(c):
        if modes is not None and mlabel not in modes:
            continue
        fx = dict(fixed or {})
        fx.update({n: tm.const(Fraction(str(v)), "R") for n, v in dflt.items()})
        for label, args, hyps in symargs(c, arr, fx):
            tag = "%s[%s%s%s%s]" % (short, backend, ", " + mlabel if mlabel else "", ", " + label if label else "",
                                    ", arrays " + "".join("A" if x else "." for x in arr) if arr else "")
            choice = {n: a for (n, k), a in zip(c.params, args) if isinstance(k, Choice)}
            tab = next((label for n, k in c.params if isinstance(k, Table)), None)
            pre = c.precondition(args)
            pos = args[:npos]
            kw = {n: a for n, a in zip(names[npos:], args[npos:]) if n not in dflt}
            eng = Engine(w, hyps + pre, budget)
            try:
                outs = eng.explore(lambda: fn(*pos, **kw))
            except Unsupported as e:
                sink.add("%s: executed symbolically" % tag, Verdict(False, "engine", None, str(e)), mode=mlabel, choice=choice)
                continue
            P = Prover(seconds, budget)
            for i, o in enumerate(outs):
                sink.outcome(o)
                check_outcome(sink, P, c, tag if len(outs) == 1 else "%s path %d/%d" % (tag, i + 1, len(outs)),
                              o, args, arr, dict(mode=mlabel, choice=choice, table=tab))
    return sink


def argsnap(args):
    def s(a):
        if isinstance(a, dict):
            return tuple((k, s(v)) for k, v in a.items())
        if isinstance(a, (list, tuple)):
            return tuple(s(x) for x in a)
        return id(a)
    return [s(a) for a in args]


def check_outcome(sink, P, c, tag, o, args, arr, ctx):
    ea = elems(args)
    keys = o.keys
    if o.kind == "raise":
        for exc, cond in c.raises:
            if isinstance(o.value, exc):
                with pure():
                    g = tm.lift(cond(SYM, *ea))
                sink.add("%s: raises %s only where specified" % (tag, exc.__name__), P.prove(keys, g), **ctx)
                return
        v = P.infeasible(keys)
        if v.ok:
            return
        sink.add("%s: raises nothing (%s: %s)" % (tag, type(o.value).__name__, o.value), v, **ctx)
        return
    if o.kind != "return":
        sink.add("%s: returns" % tag, Verdict(False, "engine", None, o.kind), **ctx)
        return
    for exc, cond in c.raises:
        with pure():
            g = tm.not_(tm.lift(cond(SYM, *ea)))
        sink.add("%s: %s where specified" % (tag, exc.__name__), P.prove(keys, g), **ctx)
    if c.warns is not None:
        with pure():
            g = tm.lift(c.warns(SYM, *ea))
        g = g if o.warnings else tm.not_(g)
        sink.add("%s: %s" % (tag, "warns only where specified" if o.warnings else "warns where specified"), P.prove(keys, g), **ctx)
    vals = c.unpack(o.value)
    if vals is None:
        sink.add("%s: shape of the result" % tag, Verdict(False, "direct", None, repr(o.value)[:200]), **ctx)
        return
    if c.inf is not None:
        with pure():
            g = tm.lift(c.inf(SYM, *ea))
        if isinstance(vals[0], float) and vals[0] == float("inf"):
            sink.add("%s: infinite only where specified" % tag, P.prove(keys, g), **ctx)
            return
        if not arr:
            sink.add("%s: infinite where specified" % tag, P.prove(keys, tm.not_(g)), **ctx)
    if c.ensures is not None:
        r = vals[0]
        if arr:
            if not isinstance(r, md.Arr):
                sink.add("%s: an array" % tag, False, **ctx)
                return
            r = r.elem
        if not md.num(r) or tm.isspecial(r):
            sink.add("%s: a number" % tag, Verdict(False, "direct", None, repr(r)), **ctx)
            return
        with pure():
            posts = c.ensures(SYM, tm.lift(r), *ea)
        for n, g in posts:
            sink.add("%s: %s" % (tag, n), prove_goal(P, keys, g), **ctx)
        return
    variants = [("spec", c.spec, None)] + ([("deviation", c.deviation, c.finding)] if c.deviation is not None else [])
    res = None
    for vn, f, finding in variants:
        with pure():
            want = c.unpack(f(SYM, *ea))
        res = []
        for (suf, sort), v, s in zip(c.comps(), vals, want):
            i = len(res)
            ang = c.angle[i] if isinstance(c.angle, tuple) else c.angle
            res.append((suf, match(P, keys, sort, v, s, ang, arr, args)))
        if all(r.ok for _, r in res):
            for suf, r in res:
                sink.add("%s: result%s equals the specification" % (tag, suf), r, finding=finding, **ctx)
            return
        first = res if vn == "spec" else first
    for suf, r in first:
        sink.add("%s: result%s equals the specification" % (tag, suf), r, **ctx)


def prove_goal(P, keys, g):
    g = tm.lift(g)
    if g.op == "eq":
        v = P.eq(keys, g.args[0], g.args[1])
        if v.ok:
            return v
    return P.prove(keys, g)


def match(P, keys, sort, v, s, angle, arr, args):
    if sort == "DT":
        return match_dt(P, keys, v, s)
    if arr:
        if not isinstance(v, md.Arr):
            return Verdict(False, "direct", None, "not an array: %r" % (v,))
        v = v.elem
    if not md.num(v):
        return Verdict(False, "direct", None, "not a number: %r" % (v,))
    if tm.isspecial(v):
        return Verdict(False, "direct", None, "result is %r" % v)
    if not md.num(s):
        return Verdict(False, "direct", None, "specification")
    v, s = tm.lift(v), tm.lift(s)
    r = P.eq(keys, v, s)
    if r.ok or angle is None:
        return r
    # angle > 0: equal directions within [0, angle); angle < 0: within [angle/2, -angle/2]
    lo, hi = (0, angle) if angle > 0 else (Fraction(angle, 2), Fraction(-angle, 2))
    a = P.prove(keys, tm.and_(tm.le(lo, v), tm.lt(v, hi) if angle > 0 else tm.le(v, hi)))
    if not a.ok:
        return r
    with pure():
        for f in ("sin", "cos"):
            q = P.eq(keys, tm.fn(f, v * tm.PI * Fraction(2, abs(angle))), tm.fn(f, s * tm.PI * Fraction(2, abs(angle))))
            if not q.ok:
                return r
    return q


TOLDT = Fraction(3, 2 * 10**6)


def match_dt(P, keys, v, s):
    if isinstance(s, md.DT):
        sw, tz = s.wall, s.tz
    else:
        sw, tz = s.wall, s.tz
    if not isinstance(v, md.DT):
        return Verdict(False, "direct", None, "not a datetime: %r" % (v,))
    if v.tz is not tz:
        return Verdict(False, "direct", None, "time zone of the result")
    with pure():
        d = tm.sub(v.wall, sw)
    if near_zero(d):
        return Verdict(True, "ring, rounding to microseconds bounded")
    r = P.eq(keys, d, 0)
    if r.ok:
        return r
    return P.prove(keys, tm.and_(tm.le(-TOLDT, d), tm.le(d, TOLDT)))


def near_zero(d):
    """|d| <= TOLDT because d is a ring zero once round(x) is replaced by x (an error of at most 1/2 each)"""
    try:
        p = smt.enc().normer.norm(d)
        err, q = Fraction(0), nm.Poly({})
        for m, c in p.d.items():
            at = nm.get_atom(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
            if at is not None and at.kind == "round":
                err += abs(c) / 2
                q = nm.padd(q, at.data[0], c)
            else:
                q = nm.padd(q, nm.Poly({m: c}))
        if err > TOLDT:
            return False
        if q.is_zero():
            return True
        return nm.clear_denoms(q).is_zero()
    except nm.TooBig:
        return False
