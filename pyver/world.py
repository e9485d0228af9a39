"""Loading /repo/pysolar into the verifier, and the dispatch of calls."""
import builtins
import collections
import copy
import functools
import inspect
import itertools
import os
import sys
import types
from fractions import Fraction
from . import terms as tm
from . import xform
from . import models as md
from .cells import UNKNOWN
from .terms import T, Unsupported, lift
from .engine import cur, UNBOUND, PathEnd, Restart


class SymRange(md.SymSeq):
    pass


def sym_range(*a):
    a = [tm.py(x) if isinstance(x, T) else x for x in a]
    for x in a:
        if isinstance(x, float) or (isinstance(x, T) and x.sort == "R"):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(x, md.Arr):
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
    if not any(isinstance(x, T) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if isinstance(st, T):
        raise Unsupported("symbolic range step")
    if st == 0:
        raise ValueError("range() arg 3 must not be zero")
    lo, hi = lift(lo), lift(hi)
    n = tm.maximum(tm.const(0), tm.mul(-1, tm.idiv(lo - hi, st)) if st > 0 else tm.mul(-1, tm.idiv(hi - lo, -st)))
    return SymRange(tm.py(n), lambda k: lo + st * k)


def _whole(x):
    """an argument that has to be a non-negative whole number"""
    if isinstance(x, float) or isinstance(x, T) and x.sort == "R":
        raise ValueError("must be an integer: 0 <= x <= sys.maxsize")
    e = cur()
    if isinstance(x, T) and not e.domain("index", tm.le(0, x)):
        raise ValueError("must be an integer: 0 <= x <= sys.maxsize")
    return lift(x)


def sym_islice(it, *a):
    s = slice(*a)
    lo, hi, st = s.start, s.stop, s.step
    if not isinstance(it, md.SymSeq) and not any(isinstance(x, T) for x in (lo, hi, st)):
        return itertools.islice(it, *a)
    it = _endless(it)
    if isinstance(it, (list, tuple)):
        it = md.SymSeq(*md.SymSeq._parts(it), name="list")
    if not isinstance(it, md.SymSeq) or isinstance(st, T) or st not in (None, 1):
        raise Unsupported("islice of %s" % type(it).__name__)
    it.use()
    lo = _whole(0 if lo is None else lo)
    if hi is None:
        n = it.n if it.n is None else lift(it.n) - lo
    else:
        n = _whole(hi) - lo if it.n is None else tm.minimum(_whole(hi), lift(it.n)) - lo
    return md.SymSeq(n if n is None else tm.py(tm.maximum(n, tm.const(0))), lambda k: it.elem(lo + k), "islice", once=True)


def _endless(it):
    """an endless native iterator as a sequence"""
    if isinstance(it, itertools.count):
        start, step = (tuple(it.__reduce__()[1]) + (1,))[:2]
        return md.SymSeq(None, lambda k: start + step * lift(k), "count", once=True)
    if isinstance(it, itertools.repeat) and len(it.__reduce__()[1]) == 1:
        x = it.__reduce__()[1][0]
        return md.SymSeq(None, lambda k: x, "repeat", once=True)
    return it


def sym_count(start=0, step=1):
    if not isinstance(start, T) and not isinstance(step, T):
        return itertools.count(start, step)
    return md.SymSeq(None, lambda k: start + step * lift(k), "count", once=True)


def sym_repeat(x, times=None):
    if times is None:
        return itertools.repeat(x)
    if not isinstance(times, T):
        return itertools.repeat(x, times)
    return md.SymSeq(tm.py(tm.maximum(lift(times), tm.const(0))), lambda k: x, "repeat", once=True)


class While:
    """while-loop protocol.  Loops with decided conditions run natively.  A loop that keeps forking at its head is
    handled by induction: the first iteration from the actual state, then a later iteration k >= 1, reached from the
    state v0 + (k-1) d of an arbitrary earlier iteration by executing that one as well (so that its conditions are
    known to have held); at the end of each the induction variables must have moved by d."""
    LIMIT = 4

    def __init__(self, getters, site, mut, carried):
        self.getters, self.site, self.mut, self.carried = getters, site, mut, carried
        self.count, self.mode, self.k = 0, None, tm.const(0)
        self.sym = True
        e = cur()
        self.ind = e is not None and site in e.induct
        self.t0 = len(e.trail) if e is not None else 0

    def _get(self, n):
        return _getname(self.getters, n)

    def step(self):
        """at the loop head; True when the variables are to be set for an arbitrary iteration"""
        e = cur()
        if e is None:
            return False
        self.count += 1
        if not self.ind:
            if not e.native and self.site not in e.world.native_loops and self.count > self.LIMIT and len(e.trail) - self.t0 >= self.LIMIT and not any(l.mode in ("body", "ghost") for l in e.loops):
                e.induct.add(self.site)
                raise Restart()
            return False
        if self.count == 1:
            if any(l.mode in ("body", "ghost") for l in e.loops):
                raise Unsupported("nested symbolic loops")
            self.init = {m: self._get(m) for m in self.mut}
            self.heap0 = _mutables({k: self._get(k) for k in self.getters})
            which = e.choose(("first", "later"))
            self.no = len(e.loops)
            e.loops.append(self)
            if which == "first":
                self.mode = "body"
                return False
            for m in self.carried:
                if self.init[m] is not UNBOUND and (self.site, m) not in e.delta:
                    raise PathEnd()      # no first iteration ends: there is no later one
            self.k = tm.var("w%d_%d" % (self.site[1], self.no), "I")
            e.assume(tm.le(0, self.k))
            self.mode = "ghost"
            e.elsewhere()
            return True
        if self.mode == "ghost":
            self.k = self.k + 1
            self.mode = "body"
            return False
        self._check()
        raise PathEnd()

    def enter(self, m):
        v0 = self.init[m]
        if v0 is UNBOUND or m not in self.carried:
            return v0
        return _shift(v0, cur().delta[(self.site, m)], self.k)

    def leave(self):
        if self.mode == "ghost":
            raise PathEnd()              # the earlier iteration does not end: contradiction with being earlier
        if self.mode == "body":
            self.mode = "after"

    def _check(self):
        e = cur()
        learned = False
        for m in self.carried:
            v0 = self.init[m]
            if v0 is UNBOUND:
                continue
            v1 = self._get(m)
            if self.k.op == "const":
                start, steps = v0, 1
            else:
                start = _shift(v0, e.delta[(self.site, m)], self.k)
            nd = _diff(start, v1)
            if nd is None:
                raise Unsupported("loop variable %s is not an induction variable" % m)
            d = e.delta.get((self.site, m))
            if d is None:
                e.delta[(self.site, m)] = nd
                learned = True
            elif not _zero(_sub(nd, d)):
                raise Unsupported("induction variable %s is not preserved" % m)
        _heap_same(self)
        if learned:
            raise Restart()


def _getname(getters, n):
    try:
        return getters[n]()
    except NameError:
        return UNBOUND


def _heap_same(L):
    now = _mutables({k: L._get(k) for k in L.getters})
    for i, (o, c) in now.items():
        if i in L.heap0 and not _same(L.heap0[i][1], c):
            raise Unsupported("a mutable object changes in a loop of symbolic length")


class Loop:
    """for-loop protocol: native iterables pass through; a sequence of symbolic length is handled by
    the inductive rule (an arbitrary iteration, plus the continuation after all iterations)."""

    def __init__(self, it, getters, site, mut, carried):
        self.sym = isinstance(it, md.SymSeq)
        self.it, self.getters, self.site, self.mut, self.carried = it, getters, site, mut, carried
        self.mode = None

    def _get(self, n):
        try:
            return self.getters[n]()
        except NameError:
            return UNBOUND

    def __iter__(self):
        e = cur()
        if not self.sym:
            it = self.it
            if e is None or not isinstance(it, types.GeneratorType):
                yield from iter(it)
                return
            # the generator may itself be inside an arbitrary iteration: then this body is executed for an arbitrary
            # element, and may not carry anything from one element to the next
            outer = [l for l in e.loops if l.mode in ("body", "ghost")]
            for x in it:
                inner = [l for l in e.loops if l.mode in ("body", "ghost") and l not in outer]
                if inner:
                    before = {m: self._get(m) for m in self.carried}
                    self.heap0 = _mutables({k: self._get(k) for k in self.getters})
                yield x
                if inner:
                    for m, v in before.items():
                        if v is not UNBOUND and self._get(m) is not v:
                            raise Unsupported("%s is carried through a loop of symbolic length" % m)
                    _heap_same(self)
            return
        if e is None:
            raise Unsupported("symbolic loop outside the engine")
        if self.it.n is None:
            raise Unsupported("endless sequence")
        if any(l.mode in ("body", "ghost") for l in e.loops):
            raise Unsupported("nested symbolic loops")
        self.it.use()
        n = lift(self.it.n)
        self.init = {m: self._get(m) for m in self.mut}
        self.heap0 = _mutables({k: self._get(k) for k in self.getters})
        self.deltas = {}
        for m in self.mut:
            self.deltas[m] = e.delta.get((self.site, m), "?")
        self.k = tm.var("k%d_%d" % (self.site[1], len(e.loops)), "I")
        if getattr(e, "listing", None) is not None:
            yield from self._listed(e, n)
            return
        body = e.choose(("body", "after"))
        e.loops.append(self)
        e.elsewhere()
        if body == "body":
            self.mode = "body"
            e.assume(tm.le(0, self.k))
            e.assume(tm.lt(self.k, n))
            if not e.sat(True) or _inconsistent(e):
                raise PathEnd()
            yield self.it.elem(self.k)
            self._check()
            raise PathEnd()
        self.mode = "after"

    def _listed(self, e, n):
        """the loop of a generator whose values are put in a list: an arbitrary iteration is checked as always, and
        then run once more for the value it gives, as a function of the iteration"""
        L = e.listing
        check = e.choose(("collect", "check")) == "check"
        e.loops.append(self)
        e.elsewhere()
        self.mode = "body"
        base = (list(e.pc), list(e.keys), set(e.keyset), e.bounds)
        e.bounds = copy.deepcopy(e.bounds)
        e.assume(tm.le(0, self.k))
        e.assume(tm.lt(self.k, n))
        inside = list(e.keys)
        L.loops.append(self)
        L.inside = self
        calls = len(e.calls), len(e.warnings)
        if check and (not e.sat(True) or _inconsistent(e)):
            raise PathEnd()
        yield self.it.elem(self.k)
        self._check()
        L.inside = None
        e.loops.remove(self)
        if check:
            raise PathEnd()
        if (len(e.calls), len(e.warnings)) != calls:
            raise Unsupported("a list of what a generator gives, which calls or warns")
        for x in e.keys[len(inside):]:
            if x is not True and not e.proves(inside, x):
                raise Unsupported("a list of what a generator gives, in one of several ways")
        e.pc, e.keys, e.keyset, e.bounds = base
        self.mode = "after"

    def enter(self, m):
        e = cur()
        v0 = self.init[m]
        d = self.deltas[m]
        if v0 is UNBOUND or m not in self.carried:
            return v0
        if isinstance(d, str) and d == "?":
            self.entry = getattr(self, "entry", {})
            self.entry[m] = v0
            # first exploration: guess that it is unchanged, learn the increment at the end
            return _shift(v0, None, tm.var("h_%s_%s" % (m, self.site[1]), "R")) if _shiftable(v0) else v0
        return _shift(v0, d, self.k)

    def leave(self, m):
        v0, d = self.init[m], self.deltas[m]
        if v0 is UNBOUND:
            return UNBOUND
        if isinstance(d, str) and d == "?":
            return UNBOUND
        return _shift(v0, d, self.it.n)

    def _check(self):
        e = cur()
        learned = False
        for m in self.carried:
            v0 = self.init[m]
            if v0 is UNBOUND:
                continue
            v1 = self._get(m)
            d = self.deltas[m]
            if isinstance(d, str) and d == "?":
                h = tm.var("h_%s_%s" % (m, self.site[1]), "R")
                start = _shift(v0, None, h) if _shiftable(v0) else v0
                nd = _diff(start, v1)
                if nd is None:
                    raise Unsupported("loop variable %s is not an induction variable" % m)
                if any(x.startswith("k%d_" % self.site[1]) or x.startswith("h_") for x in _fv(nd)):
                    raise Unsupported("loop variable %s is not an induction variable" % m)
                e.delta[(self.site, m)] = nd
                learned = True
            else:
                nd = _diff(_shift(v0, d, self.k), v1)
                if nd is None or not _zero(_sub(nd, d)):
                    raise Unsupported("induction variable %s is not preserved" % m)
        _heap_same(self)
        if learned:
            raise Restart()


class _Listing:
    def __init__(self):
        self.loops, self.inside = [], None


def _listed(g, image=None):
    """what a generator gives (or the image of that), one after the other: a sequence of symbolic length, without the
    image, if it has a loop of symbolic length"""
    e = cur()
    if e is None or not isinstance(g, types.GeneratorType):
        return g
    if any(l.mode in ("body", "ghost") for l in e.loops):
        return g
    L, saved = _Listing(), getattr(e, "listing", None)
    e.listing = L
    got = []
    try:
        for x in g:
            if image is not None and not L.loops:
                e.listing = saved
                x = image(x)
                e.listing = L
            got.append((x, L.inside))
    finally:
        e.listing = saved
    if not L.loops:
        return [x for x, _ in got]
    if len(L.loops) != 1 or len(got) != 1 or got[0][1] is not L.loops[0]:
        raise Unsupported("a list of what a generator with loops gives")
    x, loop = got[0]
    k = loop.k.args[0]
    if not _at(x, k, loop.k):
        raise Unsupported("a list of %s from a generator" % type(x).__name__)
    return md.SymSeq(loop.it.n, lambda j: _at(x, k, j), "listed", True)


def _at(x, k, j):
    """x with j for the variable k, or None"""
    j = lift(j)
    if isinstance(x, T):
        return tm.subst(x, {k: j})
    if isinstance(x, md.DT):
        if x.off is not None and k in _fv(x.off) or x.utc is not None or x.loc is not None or k in _fv(x.fold):
            return None
        return md.DT.make(tm.subst(lift(x.wall), {k: j}), x.tz, x.off, None, None, x.name, x.fold)
    return None


def _inconsistent(e):
    from . import smt
    return not smt.feasible([x for x in e.keys if isinstance(x, tuple)])


def _same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def _mutables(env):
    out = {}

    def visit(v, depth):
        if isinstance(v, (list, dict, set)) or isinstance(v, (md.SymSeq, md.Arr)) and v.own:
            if id(v) in out:
                return
            out[id(v)] = (v, _content(v))
        elif not isinstance(v, tuple):
            return
        if depth and not isinstance(v, (md.SymSeq, md.Arr)) and len(v) <= 100:
            for x in (v.values() if isinstance(v, dict) else v):
                visit(x, depth - 1)
    for v in env.values():
        visit(v, 3)
    return out


def _content(v):
    if isinstance(v, md.SymSeq):
        return [v.n, v.elem]
    if isinstance(v, md.Arr):
        return [v.elem]
    if isinstance(v, dict):
        return [x for kv in v.items() for x in kv]
    return list(v)


def _fv(d):
    return tm.free_vars(lift(d.us if isinstance(d, md.TD) else d))


def _shiftable(v):
    return isinstance(v, (int, T, md.DT, md.TD)) and not isinstance(v, bool)


def _shift(v, d, k):
    """v + k*d  (d None: v + k, of the type of v)"""
    if isinstance(v, md.DT):
        us = lift(k) if d is None else tm.mul(d.us, k)
        if d is None:
            us = tm.roundi(us)
        return md.DT.make(v.wall + tm.mul(us, Fraction(1, 10**6)), v.tz, None)
    if isinstance(v, md.TD):
        us = tm.roundi(k) if d is None else tm.mul(d.us, k)
        return md.TD(v.us + us)
    if d is None:
        return lift(v) + (k if lift(v).sort == "R" else tm.roundi(k))
    if isinstance(d, int) and d == 0 and not _shiftable(v):
        return v
    return tm.py(lift(v) + tm.mul(d, k)) if _shiftable(v) else v


def _diff(a, b):
    """b - a"""
    if a is b:
        return 0 if not isinstance(a, (md.DT, md.TD)) else md.TD(0)
    if isinstance(a, md.DT) and isinstance(b, md.DT) and a.tz is b.tz:
        from . import smt
        d = tm.mul(tm.sub(b.wall, a.wall), 10**6)
        return md.TD(_simplify(d))
    if isinstance(a, md.TD) and isinstance(b, md.TD):
        return md.TD(_simplify(tm.sub(b.us, a.us)))
    if isinstance(a, (int, T)) and isinstance(b, (int, T)):
        return _simplify(tm.sub(b, a))
    return None


def _simplify(d):
    """rebuild a term from its normal form (cancels the loop-entry value)"""
    from . import smt, norm as nm
    p = smt.enc().normer.norm(d)
    t = tm.const(0, "I")
    for m, c in p.d.items():
        x = tm.const(int(c), "I") if c.denominator == 1 else tm.const(c, "R")
        for a, k in m:
            x = tm.mul(x, tm.power(_aterm(nm.get_atom(a)), k))
        t = tm.add(t, x)
    return tm.py(t)


def _aterm(at):
    from . import norm as nm
    if at.term is not None:
        return at.term
    if at.kind == "pi":
        return tm.PI
    args = [_pterm(x) for x in at.data]
    if at.kind == "floor":
        return tm.floor(args[0])
    if at.kind == "round":
        return tm.roundi(args[0])
    if at.kind == "inv":
        return tm.power(args[0], -1)
    if at.kind == "pow":
        return tm.power(*args)
    return tm.fn(at.kind, *args)


def _pterm(p):
    from . import norm as nm
    t = tm.const(0, "I")
    for m, c in p.d.items():
        x = tm.const(int(c), "I") if c.denominator == 1 else tm.const(c, "R")
        for a, k in m:
            x = tm.mul(x, tm.power(_aterm(nm.get_atom(a)), k))
        t = tm.add(t, x)
    return t


def _sub(a, b):
    a = a.us if isinstance(a, md.TD) else a
    b = b.us if isinstance(b, md.TD) else b
    return tm.sub(a, b)


def _zero(t):
    from . import smt
    return smt.enc().normer.norm(t).is_zero()


# ------------------------------------------------------------------------------------------------
def memoised(maxsize=128, typed=False):
    """functools.lru_cache / cache: the function itself.  That is what it computes as long as results are immutable and
    equal keys mean equal results; what can break this is noted as an effect on state"""
    if not callable(maxsize):
        return lambda f: memoised(f)
    f = maxsize

    @functools.wraps(f)
    def g(*a, **k):
        e = cur()
        note = (lambda s: e.notes.append("cache of %s %s" % (f.__name__, s))) if e is not None else (lambda s: None)
        for x in list(a) + list(k.values()):
            if isinstance(x, md.Arr) or isinstance(x, md.NDT) and x.array:
                raise TypeError("unhashable type: 'numpy.ndarray'")
            if isinstance(x, (list, dict, set)):
                raise TypeError("unhashable type: '%s'" % type(x).__name__)
            if isinstance(x, md.DT) and x.tz is not None and x.tz is not md.UTC:
                note("keyed by a datetime")
        r = f(*a, **k)
        if isinstance(r, (list, dict, set, types.GeneratorType)):
            note("hands out a shared mutable object")
        return r
    g.cache_clear = lambda: None
    return g


class _Environ(dict):
    """os.environ: what the process happens to have; reading it in a call makes the result depend on it"""
    def _no(self, *a, **k):
        if cur() is not None:
            raise Unsupported("the environment of the process")
        return None
    __getitem__ = __contains__ = __iter__ = __len__ = keys = items = values = _no

    def get(self, k, d=None):
        self._no()
        return d

    def __contains__(self, k):
        self._no()
        return False


def _os():
    env = _Environ()
    m = md.Module("os", path=os.path, sep=os.sep, linesep=os.linesep, fspath=os.fspath, environ=env,
                  getenv=lambda k, d=None: env.get(k, d), PathLike=os.PathLike, pathsep=os.pathsep, curdir=os.curdir)
    m.__dict__["name"] = os.name
    return m


def _isint(x):
    """a number argument may be given as an int: both are followed"""
    if x.sort != "R" or x.op != "var" or cur() is None:
        return False
    e = cur()
    known = e.pinfo.setdefault("int arguments", {})
    if x.id not in known:
        known[x.id] = e.choose([False, True])
        if known[x.id]:
            e.assume(tm.eq(x, tm.floor(x)))
    return known[x.id]


def _catchable(t):
    """what an except clause may catch here: the verifier's own control flow passes through"""
    if t is BaseException:
        return Exception
    if isinstance(t, tuple):
        return tuple(_catchable(x) for x in t)
    return t


def _iterstate(o):
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return repr(o.__reduce__()[1:])
    except (TypeError, Unsupported):
        return "?"


class World:
    """All modules of pysolar, executed over symbolic values."""

    def __init__(self, root="/repo", numpy=True):
        self.root = root
        self.numpy_available = numpy
        self.modules = {}
        self.libs = {"math": md.make_math(), "numpy": md.make_numpy() if numpy else None, "datetime": md.make_datetime(),
                     "calendar": md.make_calendar()}
        self.libs["functools"] = md.Module("functools", **{n: getattr(functools, n) for n in (
            "wraps", "update_wrapper", "partial", "reduce", "cmp_to_key", "total_ordering", "WRAPPER_ASSIGNMENTS", "WRAPPER_UPDATES")},
            lru_cache=memoised, cache=memoised)
        self.libs["importlib"] = md.Module("importlib", import_module=self._import_module)
        self.libs["sys"] = md.Module("sys", modules=self.modules, version_info=sys.version_info, version=sys.version,
                                     maxsize=sys.maxsize, float_info=sys.float_info, platform=sys.platform)
        self.cells, self.busy, self.held = {}, False, None
        self.contracts = {}        # id(function) -> handler(fn, args, kwargs)
        self.keep = []
        self.relational = set()
        self.muted = False         # a warnings filter installed by the library hides warnings
        self.warnings_mod = md.Module("warnings", warn=self.warn, filterwarnings=self.filter_warnings,
                                      simplefilter=self.filter_warnings)
        self.libs["os"] = _os()
        self.intercept = True
        self.native_loops = set()
        self.overrides = self._overrides()
        self.files = {}

    # -- builtins -------------------------------------------------------------
    def warn(self, message, category=None, stacklevel=1, source=None):
        e = cur()
        if e is not None and not self.muted:
            e.warnings.append(message)

    def filter_warnings(self, action="", *a, **k):
        if cur() is not None:
            cur().notes.append("the filter of warnings")
            if action not in ("always", "default"):
                raise Unsupported("a warnings filter set by a call")
        elif action not in ("always", "default", "once", "module"):
            self.muted = True

    def _overrides(self):
        def sym_isinstance(x, c):
            if isinstance(c, tuple):
                if isinstance(x, T) and int in c and float in c:
                    return True
                return any(sym_isinstance(x, d) for d in c)
            if isinstance(x, T):
                if c is float:
                    return x.sort == "R" and not _isint(x)
                if c is int:
                    return x.sort in "IB" or _isint(x)
                if c is bool:
                    return x.sort == "B"
                if c is object:
                    return True
                return False
            if c is md.TDType:
                return isinstance(x, md.TD)
            if isinstance(x, md.SymSeq) and (x.own or x.name in ("horizon", "tuple")):
                if x.own:
                    return c in (list, object) or isinstance(c, type) and c.__module__ in ("collections.abc", "typing") and issubclass(list, c)
                if x.name == "tuple":
                    return c in (tuple, object) or isinstance(c, type) and c.__module__ in ("collections.abc", "typing") and issubclass(tuple, c)
                if c in (list, tuple):          # the caller's sequence may be of either kind
                    return tm.var("%s_is_%s" % (x.name.replace(" ", "_"), c.__name__), "B")
            if c is md.DateType:
                return isinstance(x, (md.DT, md.DATE))
            if not isinstance(c, type) and not isinstance(c, types.GenericAlias):
                return False
            try:
                return isinstance(x, c)
            except TypeError:
                raise Unsupported("isinstance")

        def sym_float(*a):
            x = a[0] if a else 0
            if isinstance(x, tm.SymStr):
                if x.term is None:
                    raise Unsupported("a number from the text of a symbolic value")
                return tm.toreal(tm.lift(x.term))
            if isinstance(x, str):
                v = float(x)
                return v if tm.isspecial(v) else tm.const(Fraction(x.strip().replace("_", "")), "R")
            if isinstance(x, md.Arr):
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            if tm.isspecial(x):
                return x
            if not isinstance(x, (T, int, float, Fraction)):
                raise TypeError("float() argument must be a string or a real number")
            return tm.toreal(x)

        def sym_int(*a, **k):
            if len(a) == 1 and not k:
                x = a[0]
                if isinstance(x, tm.SymStr):
                    if x.term is None:
                        raise Unsupported("a number from the text of a symbolic value")
                    return x.term
                if isinstance(x, T):
                    return tm.py(tm.trunc(x))
                if isinstance(x, md.Arr):
                    raise TypeError("only length-1 arrays can be converted to Python scalars")
                if tm.isspecial(x):
                    raise ValueError("cannot convert float NaN to integer")
            return int(*a, **k)

        def sym_bool(*a):
            return bool(*a)

        def sym_round(x, *nd):
            if isinstance(x, T):
                return x.__round__(*nd)
            if tm.isspecial(x):
                raise ValueError("cannot convert float NaN to integer")
            return round(x, *nd)

        def red(f):
            nat = min if f is md._mn else max

            def g(*a, key=None, default=UNBOUND):
                xs = list(a[0]) if len(a) == 1 else list(a)
                if not xs and default is not UNBOUND:
                    return default
                if any(isinstance(x, md.Arr) for x in xs):
                    raise ValueError("The truth value of an array with more than one element is ambiguous.")
                if key is not None or not any(isinstance(x, T) for x in xs) or any(tm.isspecial(x) for x in xs) or not all(md.num(x) for x in xs):
                    k = {} if key is None else {"key": lambda v: self.call(key, v)}
                    return nat(xs, **k)
                return functools.reduce(f, xs)
            return g

        def sym_len(x):
            if isinstance(x, md.SymSeq):
                if x.once:
                    raise TypeError("object of type '%s' has no len()" % x.name)
                return x.n
            return len(x)

        def sym_map(f, *its):
            if any(isinstance(x, md.SymSeq) for x in its):
                if len(its) == 1 and its[0].n is not None:
                    its[0].use()
                    return md.SymSeq(its[0].n, lambda k: self.call(f, its[0].elem(k)), "map", once=True)
                z = sym_zip(*its)
                return md.SymSeq(z.n, lambda k: self.call(f, *z.elem(k)), "map", once=True)
            return iter([self.call(f, *a) for a in zip(*its)])

        def sym_sum(xs, start=0):
            r = start
            for x in xs:
                r = r + x
            return r

        def sym_pow(a, b, *m):
            return md.xpow(a, b) if not m else pow(a, b, *m)

        def sym_divmod(a, b):
            return a // b, a % b

        def sym_list(*a):
            if len(a) == 1:
                a = (_listed(a[0]),)
            if a and isinstance(a[0], md.SymSeq):
                a[0].use()
                return a[0].copy()
            return list(*a)

        def sym_tuple(*a):
            if len(a) == 1:
                a = (_listed(a[0]),)
            if a and isinstance(a[0], md.SymSeq):
                a[0].use()
                return md.SymSeq(a[0].n, a[0].elem, "tuple")
            return tuple(*a)

        def sym_enumerate(x, start=0):
            if isinstance(x, md.SymSeq):
                x.use()
                return md.SymSeq(x.n, lambda k: (k + start, x.elem(k)), "enumerate", once=True)
            return enumerate(x, start)

        def sym_zip(*xs, **k):
            if any(isinstance(x, md.SymSeq) for x in xs):
                xs = [_endless(x) for x in xs]
                if k or not all(isinstance(x, md.SymSeq) for x in xs):
                    raise Unsupported("zip of symbolic sequences and others")
                for x in xs:
                    x.use()
                ns = [lift(x.n) for x in xs if x.n is not None]
                n = tm.py(functools.reduce(tm.minimum, ns)) if ns else None
                return md.SymSeq(n, lambda i: tuple(x.elem(i) for x in xs), "zip", once=True)
            return zip(*xs, **k)

        def sym_type(*a):
            if len(a) == 1 and isinstance(a[0], T):
                return {"R": int if _isint(a[0]) else float, "I": int, "B": bool}[a[0].sort]
            return type(*a)

        def sym_abs(x):
            return abs(x)

        def sym_sorted(x, key=None, reverse=False):
            k = {} if key is None else {"key": lambda v: self.call(key, v)}
            return sorted(x, reverse=reverse, **k)

        def sym_filter(f, x):
            return iter([v for v in x if (self.call(f, v) if f is not None else v)])

        def sym_str(*a):
            if a and isinstance(a[0], (T, md.Arr)):
                return tm.SymStr("<sym>")
            return str(*a)

        def sym_print(*a, **k):
            return None

        def sym_dict(*a, **k):
            return dict(*a, **k)

        o = {isinstance: sym_isinstance, float: sym_float, int: sym_int, bool: sym_bool, round: sym_round,
             min: red(md._mn), max: red(md._mx), len: sym_len, map: sym_map, sum: sym_sum, pow: sym_pow,
             divmod: sym_divmod, range: sym_range, list: sym_list, tuple: sym_tuple, enumerate: sym_enumerate,
             itertools.islice: sym_islice, itertools.count: sym_count, itertools.repeat: sym_repeat,
             zip: sym_zip, type: sym_type, sorted: sym_sorted, filter: sym_filter, str: sym_str, repr: sym_str,
             print: sym_print, Fraction: lambda *a: _unsup("Fraction"), complex: lambda *a: _unsup("complex"),
             hash: lambda *a: _unsup("hash"), open: lambda *a, **k: _unsup("open"), input: lambda *a: _unsup("input")}
        return o

    def call(self, f, *args, **kw):
        try:
            o = self.overrides.get(f)
        except (TypeError, Unsupported):
            o = None
        if o is not None:
            return o(*args, **kw)
        h = self.contracts.get(id(f))
        if h is not None and self.intercept and cur() is not None:
            r = h(f, args, kw)
            if r is not NotImplemented:
                return r
        if type(f) in (types.BuiltinFunctionType, types.MethodDescriptorType, type, functools.partial, types.BuiltinMethodType) \
                or f in (functools.reduce,):
            args = tuple(self._wrap(a) for a in args)
        return f(*args, **kw)

    def _wrap(self, a):
        try:
            o = self.overrides.get(a)
        except (TypeError, Unsupported):
            return a
        return o if o is not None else a

    def getitem(self, o, i):
        if isinstance(i, slice) and isinstance(o, (list, tuple, str, range)) and any(isinstance(x, T) for x in (i.start, i.stop, i.step)):
            e, n = cur(), len(o)

            def bound(b):
                if not isinstance(b, T):
                    return b
                if b.sort == "R":
                    raise TypeError("slice indices must be integers or None or have an __index__ method")
                if e is None or n > 300:
                    raise Unsupported("slice with a symbolic bound")
                b = tm.ite(tm.lt(b, 0), tm.maximum(b + n, tm.const(0)), tm.minimum(b, tm.const(n)))
                return e.pick(b)
            if isinstance(i.step, T):
                raise Unsupported("symbolic slice step")
            return o[bound(i.start):bound(i.stop):i.step]
        if isinstance(i, T) and isinstance(o, (list, tuple, range, str)):
            i = tm.py(i)
        if isinstance(i, T) and isinstance(o, (list, tuple)):
            if i.sort == "R":
                raise TypeError("list indices must be integers or slices, not float")
            e = cur()
            n = len(o)
            if not e.domain("index", tm.and_(tm.le(-n, i), tm.lt(i, n))):
                raise IndexError("list index out of range")
            if all(md.num(x) and not tm.isspecial(x) for x in o):
                if not e.entails(tm.le(0, i)):
                    i = tm.ite(tm.lt(i, 0), i + n, i)
                r = lift(o[-1])
                for j in range(n - 2, -1, -1):
                    r = tm.ite(tm.le(i, j), o[j], r)
                return tm.py(r)
            return o[e.pick(i)]
        return o[i]

    # -- loading ----------------------------------------------------------------
    def load(self, name):
        """module object (a namespace) of pysolar.<...>"""
        m = self.modules.get(name)
        if m is not None:
            return m
        rel = name.replace(".", "/")
        path = os.path.join(self.root, rel + ".py")
        pkg = False
        if os.path.isdir(os.path.join(self.root, rel)):
            path = os.path.join(self.root, rel, "__init__.py")
            pkg = True
        if not os.path.isfile(path):
            raise ImportError("No module named %r" % name)
        src = open(path, encoding="utf-8").read()
        self.files[name] = path
        code, consts, tree = xform.compile_source(src, path)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        d = m.__dict__
        d["__builtins__"] = self._builtins()
        for i, c in enumerate(consts):
            d["__fc%d__" % i] = tm.const(Fraction(repr(c)), "R") if not tm.isspecial(c) else c
        d.update(__vcall__=self.call, __vexc__=_catchable, __vunsup__=_unsup, __vaug__=md.xaug, __vdiv__=md.xdiv, __vpow__=md.xpow, __vmod__=md.xmod, __vgetitem__=self.getitem,
                 __vciter__=self._citer, __vloop__=Loop, __vwhile__=While, __vcomp__=self._vcomp)
        self.modules[name] = m
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
        exec(code, d)
        if "." in name:
            setattr(self.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        return m

    def _citer(self, x):
        if isinstance(x, md.SymSeq):
            raise Unsupported("comprehension over a symbolic sequence")
        return x

    def _vcomp(self, kind, it, elem, native):
        """[e for x in it] and (e for x in it): over a sequence of symbolic length, the sequence of the images"""
        if kind == "list" and isinstance(it, types.GeneratorType) and cur() is not None \
                and not any(l.mode in ("body", "ghost") for l in cur().loops):
            it = _listed(it, elem)
            if not isinstance(it, md.SymSeq):
                return it
        if not isinstance(it, md.SymSeq):
            return native(it)
        it.use()
        r = md.SymSeq(it.n, lambda k: elem(it.elem(k)), "comprehension", kind == "list", once=kind != "list")
        e = cur()
        if kind == "list" and e is not None:
            # the list is built at once: an arbitrary element raises nothing
            if e.choose(("go", "check")) == "check":
                k = tm.var("kc%d_%d" % (len(e.trail), len(e.loops)), "I")
                e.assume(tm.le(0, k))
                e.assume(tm.lt(k, lift(it.n)))
                if not e.sat(True) or _inconsistent(e):
                    raise PathEnd()
                r.elem(k)
                raise PathEnd()
        return r

    def _builtins(self):
        b = dict(vars(builtins))
        b["__import__"] = self._import
        return b

    PASS = {"inspect", "itertools", "operator", "collections", "typing", "dataclasses", "enum", "os",
            "abc", "types", "bisect", "string", "__future__", "contextlib", "logging", "copy"}

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top == "pysolar":
            m = self.load(name)
            for f in fromlist or ():
                if f != "*" and not hasattr(m, f):
                    try:
                        self.load(name + "." + f)
                    except ImportError:
                        pass
            return m if fromlist else self.load(top)
        if name in self.libs:
            if self.libs[name] is None:
                raise ImportError("No module named %r" % name)
            return self.libs[name]
        if name == "warnings":
            return self.warnings_mod
        if top in self.PASS:
            return __import__(name, {}, {}, fromlist or (), 0)
        if name == "time":
            return md.Module("time")
        return md.Module(name)

    def _import_module(self, name, package=None):
        if name.startswith("."):
            raise Unsupported("relative import_module")
        m = self._import(name, {"__package__": package or ""}, {}, ("*",))
        if name.startswith("pysolar"):
            return self.modules[name]
        return m

    # -- heap ---------------------------------------------------------------------
    def roots(self):
        return list(self.modules.values())

    def snapshot(self):
        """contents of every mutable object reachable from the modules"""
        snap, seen = [], set()
        stack = [(m.__name__, m) for m in self.modules.values()]
        while stack:
            path, o = stack.pop()
            if id(o) in seen or type(o) in UNKNOWN:
                continue
            seen.add(id(o))
            kids = []
            if isinstance(o, types.ModuleType):
                if o.__name__ not in self.modules:
                    continue
                path = o.__name__
                c = {k: v for k, v in o.__dict__.items() if not k.startswith("__")}
                snap.append(("mod", path, o, c))
                kids = [("%s.%s" % (path, k), v) for k, v in c.items()]
            elif isinstance(o, list):
                snap.append(("list", path, o, list(o)))
                kids = [("%s[%d]" % (path, i), v) for i, v in enumerate(o)]
            elif isinstance(o, dict):
                snap.append(("dict", path, o, dict(o)))
                kids = [("%s[%r]" % (path, k), v) for k, v in o.items()]
            elif isinstance(o, set):
                snap.append(("set", path, o, set(o)))
            elif isinstance(o, collections.deque):
                snap.append(("deque", path, o, list(o)))
                kids = [("%s[%d]" % (path, i), v) for i, v in enumerate(o)]
            elif hasattr(type(o), "__next__") and type(o).__module__ in ("itertools", "builtins"):
                snap.append(("iter", path, o, _iterstate(o)))
            elif isinstance(o, tuple):
                kids = [("%s[%d]" % (path, i), v) for i, v in enumerate(o)]
            elif isinstance(o, types.FunctionType):
                cells = o.__closure__ or ()
                snap.append(("func", path, o, (o.__defaults__, o.__kwdefaults__ and dict(o.__kwdefaults__),
                                               dict(o.__dict__), tuple(_cell(c) for c in cells))))
                kids = [("%s.__closure__[%d]" % (path, i), _cell(c)) for i, c in enumerate(cells)]
                kids += [("%s.__defaults__[%d]" % (path, i), v) for i, v in enumerate(o.__defaults__ or ())]
                kids += [("%s.%s" % (path, k), v) for k, v in o.__dict__.items()]
            elif isinstance(o, type) and getattr(o, "__module__", "").startswith("pysolar"):
                c = {k: v for k, v in o.__dict__.items() if not k.startswith("__")}
                snap.append(("class", path, o, c))
                kids = [("%s.%s" % (path, k), v) for k, v in c.items()]
            elif type(o).__module__.startswith("pysolar") and hasattr(o, "__dict__"):
                snap.append(("obj", path, o, dict(o.__dict__)))
                kids = [("%s.%s" % (path, k), v) for k, v in o.__dict__.items()]
            for p, v in kids:
                if type(v) not in UNKNOWN and not isinstance(v, (T, str, int, float, type(None))):
                    stack.append((p, v))
        return snap

    def diff(self, snap):
        out = []
        for kind, path, o, c in snap:
            if kind == "mod":
                d = {k: v for k, v in o.__dict__.items() if not k.startswith("__")}
                out += _ddiff(path + ".", c, d)
            elif kind == "list":
                if not _same(c, o):
                    out.append(path)
            elif kind == "dict":
                out += _ddiff(path + ":", c, o)
            elif kind == "set":
                if c != o:
                    out.append(path)
            elif kind == "deque":
                if not _same(c, list(o)):
                    out.append(path)
            elif kind == "iter":
                if c == "?":
                    out.append(path + ", an iterator kept between calls")
                elif _iterstate(o) != c:
                    raise Unsupported("advances %s, an iterator kept between calls" % path)
            elif kind == "func":
                if o.__defaults__ is not c[0] or (o.__kwdefaults__ or None) != (c[1] or None):
                    out.append(path + ".__defaults__")
                out += _ddiff(path + ".", c[2], o.__dict__)
                for i, cell in enumerate(o.__closure__ or ()):
                    if _cell(cell) is not c[3][i]:
                        out.append("%s.__closure__[%d]" % (path, i))
            elif kind == "class":
                d = {k: v for k, v in o.__dict__.items() if not k.startswith("__")}
                out += _ddiff(path + ".", c, d)
            elif kind == "obj":
                out += _ddiff(path + ".", c, o.__dict__)
        return out

    def restore(self, snap):
        for kind, path, o, c in snap:
            if kind == "mod":
                d = {k: v for k, v in o.__dict__.items() if not k.startswith("__")}
                for k in list(d):
                    if k not in c:
                        del o.__dict__[k]
                for k, v in c.items():
                    if o.__dict__.get(k, UNBOUND) is not v:
                        o.__dict__[k] = v
            elif kind == "list":
                if not _same(c, o):
                    o[:] = c
            elif kind == "dict":
                if _ddiff("", c, o):
                    o.clear()
                    o.update(c)
            elif kind == "set":
                if c != o:
                    o.clear()
                    o.update(c)
            elif kind == "deque":
                if not _same(c, list(o)):
                    o.clear()
                    o.extend(c)
            elif kind == "func":
                o.__defaults__ = c[0]
                if o.__kwdefaults__ or c[1]:
                    o.__kwdefaults__ = c[1]
                if _ddiff("", c[2], o.__dict__):
                    o.__dict__.clear()
                    o.__dict__.update(c[2])
                for i, cell in enumerate(o.__closure__ or ()):
                    if _cell(cell) is not c[3][i] and c[3][i] is not UNBOUND:
                        cell.cell_contents = c[3][i]
            elif kind == "class":
                d = {k: v for k, v in o.__dict__.items() if not k.startswith("__")}
                for k in d:
                    if k not in c:
                        delattr(o, k)
                for k, v in c.items():
                    if d.get(k, UNBOUND) is not v:
                        setattr(o, k, v)
            elif kind == "obj":
                if _ddiff("", c, o.__dict__):
                    o.__dict__.clear()
                    o.__dict__.update(c)

    def function(self, qualname):
        """pysolar.module.function -> the function object, or None"""
        mod, _, name = qualname.rpartition(".")
        m = self.modules.get(mod)
        if m is None:
            try:
                m = self.load(mod)
            except ImportError:
                return None
        return m.__dict__.get(name)


def _cell(c):
    try:
        return c.cell_contents
    except ValueError:
        return UNBOUND


def _ddiff(prefix, a, b):
    out = []
    for k in a:
        if k not in b:
            out.append("%s%s deleted" % (prefix, k))
        elif a[k] is not b[k]:
            out.append("%s%s" % (prefix, k))
    for k in b:
        if k not in a:
            out.append("%s%s added" % (prefix, k))
    return out


def _unsup(w):
    raise Unsupported(w)
