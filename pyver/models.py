"""Models (trusted contracts) of the library functions that pysolar uses."""
import builtins
import functools
import math as _m
from fractions import Fraction
from . import terms as tm
from .terms import T, Unsupported, lift
from .engine import cur, UNBOUND


# ---------------------------------------------------------------- arrays (generic element)
class Arr:
    """A numpy array of arbitrary shape, represented by its generic element."""
    __array_ufunc__ = None

    def __init__(self, elem, own=True):
        self.elem, self.own = elem, own      # own: made by the code being executed, so that it may be changed in place

    def _write(self, v):
        if not self.own:
            raise Unsupported("changes in place an array that was passed in")
        v = el(v)
        if lift(self.elem).sort != lift(v).sort:
            if lift(self.elem).sort != "R" or lift(v).sort != "I":
                raise Unsupported("in-place change of the type of an array")
            v = tm.toreal(v)
        self.elem = v
        return self

    def _ip(self, r):
        return r if r is NotImplemented else self._write(r)

    def __iadd__(self, o): return self._ip(self + o if not isinstance(o, NTD) else NotImplemented)
    def __isub__(self, o): return self._ip(self - o)
    def __imul__(self, o): return self._ip(self * o)
    def __itruediv__(self, o): return self._ip(self / o)
    def __ifloordiv__(self, o): return self._ip(self // o)
    def __imod__(self, o): return self._ip(self % o)
    def __ipow__(self, o): return self._ip(self ** o)

    def __setitem__(self, i, v):
        if isinstance(i, Arr):
            if isinstance(v, Arr) or lift(i.elem).sort != "B":
                raise Unsupported("array item assignment")
            v = tm.toreal(v) if lift(self.elem).sort == "R" else lift(v)
            self._write(tm.ite(i.elem, v, self.elem))
        elif i is Ellipsis or isinstance(i, slice) and i == slice(None):
            v = tm.toreal(el(v)) if lift(self.elem).sort == "R" else lift(el(v))
            self._write(v)
        else:
            raise Unsupported("array item assignment")

    def fill(self, v): self[...] = v

    def _b(self, o, f):
        if isinstance(o, Arr):
            return Arr(f(self.elem, o.elem))
        if isinstance(o, (T, int, float, Fraction)):
            return Arr(f(self.elem, o))
        return NotImplemented

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, adiv)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: adiv(b, a))
    def __floordiv__(self, o): return self._b(o, lambda a, b: _nofork(tm.idiv, a, b))
    def __mod__(self, o): return self._b(o, lambda a, b: _nofork(tm.mod, a, b))
    def __rmod__(self, o): return self._b(o, lambda a, b: _nofork(tm.mod, b, a))
    def __pow__(self, o): return self._b(o, lambda a, b: tm.power(a, b))
    def __rpow__(self, o): return self._b(o, lambda a, b: tm.power(b, a))
    def __neg__(self): return Arr(-lift(self.elem))
    def __pos__(self): return Arr(self.elem)
    def __abs__(self): return Arr(abs(lift(self.elem)))
    def __lt__(self, o): return self._b(o, tm.lt)
    def __le__(self, o): return self._b(o, tm.le)
    def __gt__(self, o): return self._b(o, lambda a, b: tm.lt(b, a))
    def __ge__(self, o): return self._b(o, lambda a, b: tm.le(b, a))
    def __eq__(self, o): return self._b(o, tm.eq)
    def __ne__(self, o): return self._b(o, lambda a, b: tm.not_(tm.eq(a, b)))
    def __and__(self, o): return self._b(o, tm.and_)
    def __or__(self, o): return self._b(o, tm.or_)
    def __invert__(self): return Arr(tm.not_(self.elem))
    __hash__ = None

    def __bool__(self):
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    __int__ = __index__ = __float__

    def __iter__(self):
        raise Unsupported("iteration over an array")

    def __len__(self):
        raise Unsupported("len of an array")

    def astype(self, dt, *a, **k):
        if _isint_dtype(dt):
            return Arr(tm.trunc(self.elem))
        return Arr(tm.toreal(self.elem))

    def copy(self): return Arr(self.elem)

    @property
    def shape(self): return Shape()

    @property
    def size(self): raise Unsupported("array size")

    @property
    def dtype(self): raise Unsupported("dtype")

    @property
    def ndim(self): return Ndim()

    def __getattr__(self, n):
        if n.startswith("__") or n == "tzinfo":
            raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % n)
        raise Unsupported("array attribute " + n)


class Shape:
    """the shape of an array: any, with at least one dimension"""

    def __bool__(self): return True

    def __eq__(self, o):
        if isinstance(o, tuple) and not o:
            return False
        raise Unsupported("the shape of an array")
    __hash__ = None

    def _no(self, *a):
        raise Unsupported("the shape of an array")
    __len__ = __getitem__ = __iter__ = _no


class Ndim:
    """number of dimensions: at least one"""

    def __bool__(self): return True

    def _cmp(op):
        def f(self, o):
            r = {"eq": False, "ne": True, "gt": True, "ge": True, "le": False, "lt": False}[op]
            edge = {"eq": 0, "ne": 0, "gt": 0, "ge": 1, "le": 0, "lt": 1}[op]
            if isinstance(o, int) and o <= edge:
                return r
            raise Unsupported("the number of dimensions of an array")
        return f
    __eq__, __ne__, __gt__ = _cmp("eq"), _cmp("ne"), _cmp("gt")
    __ge__, __le__, __lt__ = _cmp("ge"), _cmp("le"), _cmp("lt")
    __hash__ = None


def _nofork(f, a, b):
    h, tm.hooks.divisor = tm.hooks.divisor, (lambda x: None)
    try:
        return f(a, b)
    finally:
        tm.hooks.divisor = h


def adiv(a, b):
    """array division never raises"""
    a, b = lift(a), lift(b)
    return _nofork(tm.div, a, b)


def anyarr(*xs):
    return any(isinstance(x, Arr) for x in xs)


def el(x):
    return x.elem if isinstance(x, Arr) else x


def num(x):
    if isinstance(x, (T, bool, int, float, Fraction)):
        return True
    return False


# ---------------------------------------------------------------- math functions
OVER = Fraction(70978, 100)


def radians(x): return x * tm.PI * Fraction(1, 180) if not isinstance(x, float) else x
def degrees(x): return tm.mul(lift(x), tm.mul(180, tm.mk("pow", (tm.PI, tm.const(-1)), "R"))) if not isinstance(x, float) else x


def r1(name):
    def f(x):
        return tm.fn(name, x if isinstance(x, float) else lift(x))
    return f


def f_asin(x):
    return tm.fn("asin", x)


def f_tan(x):
    return tm.fn("tan", x)


def f_exp(x):
    return tm.fn("exp", x)


def prim(kind, name):
    """note which library's primitive was used"""
    e = cur()
    if e is not None:
        e.pinfo.setdefault("prims", set()).add((kind, name))


def guarded(name, kind):
    """scalar function with its domain condition; kind 'math' raises, 'numpy' gives nan/inf"""
    def f(x):
        if not num(x):
            raise TypeError("must be real number, not %s" % type(x).__name__)
        if tm.isspecial(x):
            if kind == "numpy" and name in ("asin", "acos", "log", "sqrt", "sin", "cos", "tan") and not (
                    x > 0 and name in ("log", "sqrt")):
                return float("nan")
            return tm.fn(name, x)
        x = lift(x)
        e = cur()
        if name in ("asin", "acos"):
            if e is not None:
                e.calls.append(("domain", name, x, len(e.keys)))
                if not e.domain(name, tm.and_(tm.le(-1, x), tm.le(x, 1))):
                    if kind == "math":
                        raise ValueError("math domain error")
                    return float("nan")
        elif name == "exp" and e is not None:
            e.calls.append(("domain", name, x, len(e.keys)))
            if not e.domain(name, tm.le(x, OVER)):
                if kind == "math":
                    raise OverflowError("math range error")
                return float("inf")
        elif name == "log" and e is not None:
            if not e.domain(name, tm.lt(0, x)):
                if kind == "math":
                    raise ValueError("math domain error")
                return float("nan")
        elif name == "sqrt" and e is not None:
            if not e.domain(name, tm.le(0, x)):
                if kind == "math":
                    raise ValueError("math domain error")
                return float("nan")
        if name == "radians":
            return radians(x)
        if name == "degrees":
            return degrees(x)
        return tm.fn(name, x)
    f.__name__ = name

    def g(x, *a, **k):
        prim(kind, name)
        if isinstance(x, Arr):
            if kind == "math":
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            if a or k:
                raise Unsupported("ufunc keyword")
            y = x.elem
            return Arr(radians(y) if name == "radians" else degrees(y) if name == "degrees" else tm.fn(name, y))
        if a or k:
            raise TypeError("%s() takes exactly one argument" % name)
        return f(x)
    g.__name__ = name
    g.impl = (kind, name)
    return g


def atan2_(kind):
    def g(y, x):
        prim(kind, "atan2")
        if anyarr(x, y):
            if kind == "math":
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return Arr(tm.fn("atan2", el(y), el(x)))
        if not (num(x) and num(y)):
            raise TypeError("must be real number")
        if tm.isspecial(x) or tm.isspecial(y):
            raise Unsupported("atan2 of a special value")
        return tm.fn("atan2", lift(y), lift(x))
    g.__name__ = "atan2"
    g.impl = (kind, "atan2")
    return g


class Module:
    def __init__(self, name, **kw):
        self.__dict__["__name__"] = name
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s is not modelled" % (self.__name__, n))


def sym_floor(x):
    if isinstance(x, T):
        return tm.py(tm.floor(x))
    return _m.floor(x)


def sym_ceil(x):
    if isinstance(x, T):
        return x.__ceil__()
    return _m.ceil(x)


def sym_trunc(x):
    if isinstance(x, T):
        return x.__trunc__()
    if isinstance(x, str):
        return int(x)
    return int(x)


def sym_fmod(a, b):
    a, b = lift(a), lift(b)
    return tm.sub(a, tm.mul(b, tm.trunc(tm.div(a, b))))


def make_math():
    d = {n: guarded(n, "math") for n in
         ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "sqrt", "radians", "degrees")}
    lg = d["log"]

    def log(x, *b):
        return lg(x) if not b else xdiv(lg(x), lg(b[0]))
    log.impl = ("math", "log")
    d["log"] = log
    d.update(atan2=atan2_("math"), pi=tm.PI, e=tm.fn("exp", tm.const(1)), tau=tm.mul(2, tm.PI),
             inf=float("inf"), nan=float("nan"),
             floor=sym_floor, ceil=sym_ceil, trunc=sym_trunc, fmod=sym_fmod,
             fabs=lambda x: abs(tm.toreal(x)), pow=lambda a, b: xpow(tm.toreal(a), b),
             hypot=lambda *a: d["sqrt"](sum((x * x for x in a), tm.const(0, "R"))),
             fsum=lambda xs: sum(xs, tm.const(0, "R")), prod=lambda xs, start=1: functools.reduce(lambda a, b: a * b, xs, start),
             isnan=lambda x: isinstance(x, float) and x != x, isinf=lambda x: isinstance(x, float) and x in (float("inf"), float("-inf")),
             isfinite=lambda x: not isinstance(x, float), copysign=_copysign,
             log10=lambda x: xdiv(log(x), log(tm.const(10, "R"))),
             cbrt=None)
    del d["cbrt"]
    return Module("math", **d)


def _copysign(a, b):
    a, b = lift(a), lift(b)
    return tm.ite(tm.lt(b, 0), tm.mul(-1, abs(a)), abs(a))


def lift2(f):
    def g(a, b, *r, **k):
        if r or k:
            raise Unsupported("ufunc keyword")
        if anyarr(a, b):
            return Arr(_nofork(f, el(a), el(b)))
        return f(a, b)
    return g


def lift1(f):
    def g(a, *r, **k):
        if r or k:
            raise Unsupported("ufunc keyword")
        return Arr(f(a.elem)) if isinstance(a, Arr) else f(a)
    return g


def np_where(c, *xy):
    prim("numpy", "where")
    if len(xy) != 2:
        raise Unsupported("numpy.where with one argument")
    x, y = xy
    if isinstance(c, (DT, str)) or c is None:
        return x if c else y
    if not num(el(x)) or not num(el(y)):
        raise Unsupported("numpy.where of objects")
    if tm.isspecial(el(x)) or tm.isspecial(el(y)):
        if anyarr(c, x, y):
            raise Unsupported("special value in an array")
        return x if bool(c) else y
    r = tm.ite(tbool(el(c)), el(x), el(y))
    return Arr(r) if anyarr(c, x, y) else r


np_where.impl = ("numpy", "where")


def tbool(c):
    c = lift(c)
    return c if c.sort == "B" else tm.not_(tm.eq(c, 0))


def np_clip(x, lo, hi):
    f = lambda a, b, c: _mx(b, _mn(a, c)) if c is not None and b is not None else (_mx(a, b) if c is None else _mn(a, c))
    r = f(el(x), el(lo), el(hi))
    return Arr(r) if anyarr(x, lo, hi) else r


def _mn(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return builtins.min(a, b)
    return tm.minimum(lift(a), lift(b))


def _mx(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        return builtins.max(a, b)
    return tm.maximum(lift(a), lift(b))


def _isint_dtype(d):
    return d is builtins.int or d in ("int", "int64", "int32", "i8", "i4", "<i8") or getattr(d, "isint", False)


def np_array(x, dtype=None, copy=True, **k):
    if k:
        raise Unsupported("numpy.array keyword")
    if dtype is not None and isinstance(dtype, str) and dtype.startswith(("datetime64", "M8", "<M8")):
        unit = dtype[dtype.index("[") + 1:-1] if "[" in dtype else "us"
        if isinstance(x, NDT):
            return x.conv(unit)
        if isinstance(x, DT):
            return NDT(x.numpy_utc(), unit, False)
        raise Unsupported("datetime64 of %r" % type(x))
    if isinstance(x, Arr) and dtype is None:
        return Arr(x.elem) if copy else x
    if isinstance(x, (Arr, NDT)):
        return x if dtype is None else x.astype(dtype)
    if isinstance(x, (T, int, float)):
        if dtype is not None and _isint_dtype(dtype):
            return tm.trunc(x)
        return x if dtype is None else tm.toreal(x)
    raise Unsupported("numpy.array of %s" % type(x).__name__)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, (Arr, NDT)) and not k:
        if dtype is None:
            return x
        y = x.astype(dtype)
        if isinstance(x, Arr) and lift(y.elem).sort == lift(x.elem).sort:
            return x                   # numpy shares the memory when nothing is to be converted
        if isinstance(y, Arr):
            y.own = x.own
        return y
    return np_array(x, dtype, False, **k)


class _NpInt:
    isint = True

    def __call__(self, x=0):
        return Arr(tm.trunc(x.elem)) if isinstance(x, Arr) else sym_trunc(x)


def np_timedelta64(n=0, unit=None):
    if isinstance(n, int) and unit in TDUS:
        return NTD(n, unit, False)
    raise Unsupported("numpy.timedelta64")


def np_datetime64(x, unit=None):
    if isinstance(x, (NDT, DT)):
        if isinstance(x, DT) and x.tz is not None:
            raise Unsupported("numpy.datetime64 of an aware datetime")
        return np_array(x, "datetime64[%s]" % (unit or "us"))
    raise Unsupported("numpy.datetime64")


class _NpFloat:
    def __call__(self, x=0):
        return Arr(tm.toreal(x.elem)) if isinstance(x, Arr) else tm.toreal(x)


def make_numpy():
    d = {}
    for np_name, name in (("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("arcsin", "asin"), ("arccos", "acos"),
                          ("arctan", "atan"), ("exp", "exp"), ("log", "log"), ("sqrt", "sqrt"),
                          ("radians", "radians"), ("degrees", "degrees"), ("deg2rad", "radians"),
                          ("rad2deg", "degrees"), ("asin", "asin"), ("acos", "acos"), ("atan", "atan")):
        d[np_name] = guarded(name, "numpy")
    sq = d["sqrt"]
    d.update(arctan2=atan2_("numpy"), atan2=atan2_("numpy"), pi=tm.PI, e=tm.fn("exp", tm.const(1)),
             inf=float("inf"), nan=float("nan"),
             where=np_where, clip=np_clip, array=np_array, asarray=np_asarray, asanyarray=np_asarray,
             minimum=lift2(_mn), maximum=lift2(_mx), fmin=lift2(_mn), fmax=lift2(_mx),
             mod=lift2(tm.mod), remainder=lift2(tm.mod), fmod=lift2(sym_fmod),
             floor=lift1(lambda x: tm.toreal(tm.floor(x))), ceil=lift1(lambda x: tm.toreal(lift(x).__ceil__())),
             trunc=lift1(lambda x: tm.toreal(tm.trunc(lift(x)))),
             abs=lift1(lambda x: abs(lift(x))), absolute=lift1(lambda x: abs(lift(x))), fabs=lift1(lambda x: abs(tm.toreal(x))),
             square=lift1(lambda x: x * x), power=lift2(lambda a, b: xpow(a, b)),
             add=lift2(lambda a, b: a + b), subtract=lift2(lambda a, b: a - b), multiply=lift2(lambda a, b: a * b),
             divide=lift2(lambda a, b: xdiv(a, b)), negative=lift1(lambda x: -x),
             hypot=lift2(lambda a, b: sq(a * a + b * b)),
             logical_and=lift2(lambda a, b: tm.and_(tbool(a), tbool(b))), logical_or=lift2(lambda a, b: tm.or_(tbool(a), tbool(b))),
             logical_not=lift1(lambda a: tm.not_(tbool(a))),
             isnan=lift1(lambda x: isinstance(x, float) and x != x),
             float64=_NpFloat(), int64=_NpInt(), int32=_NpInt(), ndarray=Arr, sum=_np_sum,
             timedelta64=np_timedelta64, datetime64=np_datetime64,
             errstate=_ErrState)
    return Module("numpy", **d)


class _ErrState:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


def _np_sum(x, *a, **k):
    if isinstance(x, (list, tuple)) and not a and not k:
        return sum(x, tm.const(0, "R"))
    raise Unsupported("numpy.sum")


# ---------------------------------------------------------------- arithmetic hooks of the extraction
def xdiv(a, b):
    if isinstance(a, (bool, int, float, Fraction)) and isinstance(b, (bool, int, float, Fraction)):
        if tm.isspecial(a) or tm.isspecial(b):
            return a / b
        return tm.div(tm.const(Fraction(a), "R"), tm.const(Fraction(b), "R"))
    return a / b


def xpow(a, b):
    na, nb = (isinstance(v, (bool, int, float, Fraction, T)) for v in (a, b))
    if not (na and nb):
        return a ** b
    if isinstance(a, int) and isinstance(b, int) and b >= 0:
        return a ** b
    if tm.isspecial(a) or tm.isspecial(b):
        raise Unsupported("power of a special value")
    a, b = lift(a), lift(b)
    e = cur()
    if tm.isconst(b) and Fraction(tm.cval(b)).denominator == 1:
        if tm.cval(b) < 0 and e is not None:
            e.divisor(a)
        return tm.power(a, b)
    if e is not None and not (tm.isconst(a) and tm.cval(a) > 0):
        # non-integer exponent
        if not e.domain("pow", tm.le(0, a)):
            raise Unsupported("negative base of a fractional power (complex result)")
        if not e.entails(tm.le(0, b)):
            z = tm.and_(tm.eq(a, 0), tm.lt(b, 0))
            if not e.contracts_give(tm.not_(z)) and e.decide(z):
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
    return tm.power(a, b)


def xmod(a, b):
    if isinstance(a, (str, bytes)):
        try:
            return a % _plain(b)
        except Unsupported:
            return a
        except TypeError:
            return a
    return a % b


def _plain(b):
    def p(x):
        if isinstance(x, T):
            return tm.cval(x) if tm.isconst(x) and x.sort != "R" else float(tm.cval(x)) if tm.isconst(x) else 0
        if isinstance(x, (DT, TD, Arr, NDT)):
            return "<sym>"
        return x
    if isinstance(b, tuple):
        return tuple(p(x) for x in b)
    return p(b)


# ---------------------------------------------------------------- dates
def jan1(y):
    """proleptic ordinal of January 1st of year y"""
    y = lift(y)
    if tm.isconst(y):
        import datetime
        return datetime.date(tm.cval(y), 1, 1).toordinal()
    return tm.app("jan1", (y,), "I")


def yday(y, m, d):
    if all(not isinstance(v, T) or tm.isconst(v) for v in (y, m, d)):
        import datetime
        y, m, d = (tm.cval(lift(v)) for v in (y, m, d))
        return (datetime.date(y, m, d) - datetime.date(y, 1, 1)).days + 1
    return tm.app("yday", (lift(y), lift(m), lift(d)), "I")


def leap_term(y):
    y = lift(y)
    return tm.and_(tm.eq(tm.mod(y, 4), 0), tm.or_(tm.not_(tm.eq(tm.mod(y, 100), 0)), tm.eq(tm.mod(y, 400), 0)))


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
MD = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def calendar_facts(t):
    """definitional facts of jan1/yday"""
    n = t.args[0]
    if n == "jan1":
        y = t.args[1]
        z = y - 1
        return [tm.eq(t, 365 * z + tm.idiv(z, 4) - tm.idiv(z, 100) + tm.idiv(z, 400) + 1)]
    if n == "yday":
        y, m, d = t.args[1:]
        base = tm.const(CUM[11])
        for i in range(10, -1, -1):
            base = tm.ite(tm.le(m, i + 1), CUM[i], base)
        return [tm.le(1, t), tm.le(t, 366),
                tm.eq(t, base + d + tm.ite(tm.and_(tm.lt(2, m), leap_term(y)), 1, 0))]
    return []


class TZ:
    def __init__(self, name, isutc=False):
        self.name, self.isutc = name, isutc

    def nkey(self, N):
        return ("tz", self.name)

    def utcoffset(self, dt):
        if self.isutc:
            return TD(0)
        if isinstance(dt, DT):
            return dt._offset()
        raise Unsupported("tz.utcoffset")

    def __getattr__(self, n):
        if n.startswith("__") or n in ("shape", "terms", "map_terms", "nkey"):
            raise AttributeError(n)
        raise Unsupported("tzinfo." + n)


UTC = TZ("UTC", True)


class TimeTuple(tuple):
    names = ("tm_year", "tm_mon", "tm_mday", "tm_hour", "tm_min", "tm_sec", "tm_wday", "tm_yday", "tm_isdst")

    def __getattr__(self, n):
        if n in TimeTuple.names:
            v = self[TimeTuple.names.index(n)]
            if v is UNBOUND:
                raise Unsupported(n)
            return v
        raise AttributeError(n)


def secs(y, m, d, H, M, S, us):
    """seconds since proleptic ordinal 0"""
    return 86400 * (jan1(y) + yday(y, m, d) - 1) + 3600 * H + 60 * M + S + us * Fraction(1, 1000000)


class DTObj:
    """argument key of a datetime in an opaque application"""

    def __init__(self, what, dt):
        self.what, self.dt = what, dt
        self.name = "dt"
        if what == "instant":
            self._t = [tm.lift(dt.utcsec())]
        else:
            self._t = [tm.lift(dt.wall)] + ([tm.lift(dt._offset().us)] if dt.tzinfo is not None else [])
            if dt.loc:
                self._t += [tm.lift(x) for x in dt.loc]

    def terms(self):
        return self._t

    def nkey(self, N):
        return (self.what,) + tuple(N.norm(x).key for x in self._t) + (
            () if self.what == "instant" else (id(self.dt.tzinfo),))


class DT:
    """datetime.datetime.  `utc`: civil fields in UTC or None, `loc`: civil local fields or None,
    `wall`: local seconds since ordinal 0, `tz`."""

    def __new__(cls, year=None, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
        self = object.__new__(cls)
        loc = (year, month, day, hour, minute, second, microsecond)
        self.loc = loc
        self.wall = secs(*loc)
        self.tz = tzinfo
        self.utc = loc if tzinfo is UTC else None
        self.off = None
        self.name = "dt"
        self.fold = fold
        return self

    @classmethod
    def make(cls, wall, tz, off=None, loc=None, utc=None, name="dt", fold=0):
        self = object.__new__(cls)
        self.fold = fold
        self.loc, self.wall, self.tz, self.off, self.utc, self.name = loc, wall, tz, off, utc, name
        return self

    @classmethod
    def fresh(cls, name, tz="tz", naive=False):
        """an arbitrary aware datetime (or naive one) and its well-formedness conditions"""
        hyps = []

        def civil(p):
            f = [tm.var("%s.%s%s" % (name, p, s), "I") for s in ("year", "month", "day", "hour", "minute", "second", "microsecond")]
            y, m, d, H, M, S, us = f
            hyps.extend([tm.le(1, y), tm.le(y, 9999), tm.le(1, m), tm.le(m, 12), tm.le(1, d), tm.le(d, 31),
                         tm.le(0, H), tm.le(H, 23), tm.le(0, M), tm.le(M, 59), tm.le(0, S), tm.le(S, 59),
                         tm.le(0, us), tm.le(us, 999999)])
            return tuple(f)
        loc = civil("local_")
        fold = tm.var("%s.fold" % name, "I")
        hyps += [tm.le(0, fold), tm.le(fold, 1)]
        if naive:
            return cls.make(secs(*loc), None, None, loc, None, name, fold), hyps
        utc = civil("utc_")
        off = tm.var("%s.offset_us" % name, "I")
        hyps += [tm.lt(-86400 * 10**6, off), tm.lt(off, 86400 * 10**6)]
        self = cls.make(secs(*loc), TZ("%s.%s" % (name, tz)), TD(off), loc, utc, name, fold)
        return self, hyps

    derived = False         # the UTC fields were computed from the instant, not given

    # instants
    def utcsec(self):
        if self.utc is not None and not self.derived:
            return secs(*self.utc)
        if self.tz is None:
            raise Unsupported("instant of a naive datetime")
        return self.wall - self._offset().us * Fraction(1, 10**6)

    def _offset(self):
        if self.off is not None:
            return self.off
        if self.tz is UTC:
            return TD(0)
        if isinstance(self.fold, T) or self.fold:
            return TD(tm.app("utcoff", (tm.obj(self.tz), tm.toreal(self.wall), lift(self.fold)), "I"))
        return TD(tm.app("utcoff", (tm.obj(self.tz), tm.toreal(self.wall)), "I"))

    def utcoffset(self):
        return None if self.tz is None else self._offset()

    def as_utc(self):
        if self.tz is None:
            return DT.make(self.wall, UTC, TD(0), self.loc, self.loc)
        r = DT.make(self.utcsec(), UTC, TD(0), self.utc, self.utc, self.name)
        r.derived = self.derived
        return r

    def numpy_utc(self):
        """what numpy.array(d, dtype='datetime64') stores: it only applies whole minutes of the offset"""
        if self.tz is None or self.tz is UTC:
            return self.as_utc()
        off = self._offset().us
        rest = tm.sub(off, tm.mul(60 * 10**6, tm.trunc(tm.div(tm.toreal(off), 60 * 10**6))))
        return DT.make(self.utcsec() + rest * Fraction(1, 10**6), UTC, TD(0))

    def astimezone(self, tz=None):
        if self.tz is None:
            raise Unsupported("astimezone of a naive datetime")
        if tz is self.tz:
            return self
        if tz is not None and getattr(tz, "isutc", False):
            return self.as_utc()
        raise Unsupported("astimezone")

    def _loc(self):
        if self.loc is None:
            w = tm.toreal(self.wall)
            self.loc = tuple(tm.app("civil_" + s, (w,), "I") for s in
                             ("year", "month", "day", "hour", "minute", "second", "microsecond"))
        return self.loc

    def _utcf(self):
        if self.utc is None:
            self.derived = True
            if self.tz is UTC:
                self.utc = self._loc()
            else:
                w = tm.toreal(self.utcsec())
                self.utc = tuple(tm.app("civil_" + s, (w,), "I") for s in
                                 ("year", "month", "day", "hour", "minute", "second", "microsecond"))
        return self.utc

    year = property(lambda s: s._loc()[0])
    month = property(lambda s: s._loc()[1])
    day = property(lambda s: s._loc()[2])
    hour = property(lambda s: s._loc()[3])
    minute = property(lambda s: s._loc()[4])
    second = property(lambda s: s._loc()[5])
    microsecond = property(lambda s: s._loc()[6])
    tzinfo = property(lambda s: s.tz)
    def utctimetuple(self):
        f = self._utcf() if self.tz is not None else self._loc()
        return TimeTuple(f[:6] + (UNBOUND, yday(*f[:3]), 0))

    def timetuple(self):
        f = self._loc()
        return TimeTuple(f[:6] + (UNBOUND, yday(*f[:3]), UNBOUND))

    def timestamp(self):
        if self.tz is None:
            raise Unsupported("timestamp of a naive datetime")
        return tm.toreal(self.utcsec() - 86400 * 719163)

    def toordinal(self):
        f = self._loc()
        return jan1(f[0]) + yday(*f[:3]) - 1

    def date(self):
        return DATE(*self._loc()[:3])

    def replace(self, **k):
        tz = k.pop("tzinfo", self.tz)
        fold = k.pop("fold", self.fold)
        names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
        loc = tuple(k.pop(n, v) for n, v in zip(names, self._loc()))
        if k:
            raise TypeError("replace")
        same = all(a is b for a, b in zip(loc, self.loc))
        still = same and tz is self.tz and (fold is self.fold or bool(tm.eq(fold, self.fold)))
        return DT.make(self.wall if same else secs(*loc), tz, self.off if still else None, loc,
                       loc if tz is UTC else (self.utc if still else None), fold=fold)

    def __sub__(self, o):
        if isinstance(o, TD):
            return self + TD(-lift(o.us))
        if isinstance(o, DT):
            if (self.tz is None) != (o.tz is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            if self.tz is o.tz:
                a = self.wall - o.wall
            else:
                a = self.utcsec() - o.utcsec()
            return TD(tm.roundi(a * 10**6))     # exact: both are whole microseconds
        return NotImplemented

    def __add__(self, o):
        if isinstance(o, TD):
            return DT.make(self.wall + o.us * Fraction(1, 10**6), self.tz, None if self.tz is not UTC else TD(0))
        return NotImplemented
    __radd__ = __add__

    def _cmp(self, o, f):
        if not isinstance(o, DT):
            return NotImplemented
        if (self.tz is None) != (o.tz is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        if self.tz is o.tz:
            return f(self.wall, o.wall)
        return f(self.utcsec(), o.utcsec())

    def __lt__(self, o): return self._cmp(o, tm.lt)
    def __le__(self, o): return self._cmp(o, tm.le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: tm.lt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: tm.le(b, a))
    def __eq__(self, o): return self is o or self._cmp(o, tm.eq)
    def __hash__(self): raise Unsupported("hash of a datetime")

    def __format__(self, s): return "<datetime>"
    def __str__(self): return tm.SymStr("<datetime>")
    __repr__ = ctime = __str__
    def isoformat(self, *a, **k): return tm.SymStr("<datetime>")

    def strftime(self, f):
        r = tm.SymStr("<datetime>")
        get = {"%Y": lambda: self.year, "%m": lambda: self.month, "%d": lambda: self.day, "%H": lambda: self.hour,
               "%M": lambda: self.minute, "%S": lambda: self.second, "%f": lambda: self.microsecond,
               "%j": lambda: self.timetuple()[7]}.get(f)
        if get is not None:
            r.term = get()
        return r

    def __getattr__(self, n):
        if n in _dtattrs:
            raise Unsupported("datetime." + n)
        raise AttributeError("'datetime.datetime' object has no attribute '%s'" % n)

    @classmethod
    def now(cls, tz=None): raise Unsupported("datetime.now")
    utcnow = today = now

    @classmethod
    def combine(cls, d, t, tzinfo=UNBOUND):
        if isinstance(d, DT):
            d = d.date()
        if not isinstance(d, DATE) or not isinstance(t, TIME):
            raise TypeError("combine() argument")
        return cls(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond, t.tzinfo if tzinfo is UNBOUND else tzinfo)

    @classmethod
    def fromordinal(cls, n):
        return cls.make(86400 * lift(n), None)

    def time(self):
        return TIME(*self._loc()[3:])

    def timetz(self):
        return TIME(*self._loc()[3:], tzinfo=self.tz)

    def weekday(self):
        return tm.py(tm.mod(self.toordinal() + 6, 7))

    def isoweekday(self):
        return tm.py(tm.mod(self.toordinal() - 1, 7) + 1)

    @classmethod
    def fromtimestamp(cls, ts, tz=None):
        if tz is not None and getattr(tz, "isutc", False):
            return cls.make(tm.toreal(ts) + 86400 * 719163, UTC, TD(0))
        raise Unsupported("fromtimestamp")


import datetime as _dt
_dtattrs = frozenset(n for n in dir(_dt.datetime) if not n.startswith("__"))


DT.min = DT(1, 1, 1)
DT.max = DT(9999, 12, 31, 23, 59, 59, 999999)


class TIME:
    def __init__(self, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, fold=0):
        self.hour, self.minute, self.second, self.microsecond, self.tzinfo, self.fold = hour, minute, second, microsecond, tzinfo, fold

    def replace(self, **k):
        return TIME(**{**{n: getattr(self, n) for n in ("hour", "minute", "second", "microsecond", "tzinfo")}, **k})

    def __getattr__(self, n):
        raise Unsupported("time." + n)


class DATE:
    def __init__(self, year, month, day):
        self.year, self.month, self.day = year, month, day

    def replace(self, year=None, month=None, day=None):
        return DATE(self.year if year is None else year, self.month if month is None else month, self.day if day is None else day)

    def weekday(self):
        return tm.py(tm.mod(self.toordinal() + 6, 7))

    def _cmp(self, o, f):
        return f(self.toordinal(), o.toordinal()) if isinstance(o, DATE) else NotImplemented

    def __lt__(self, o): return self._cmp(o, tm.lt)
    def __le__(self, o): return self._cmp(o, tm.le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: tm.lt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: tm.le(b, a))
    def __eq__(self, o): return self._cmp(o, tm.eq)
    def __hash__(self): raise Unsupported("hash of a date")

    def toordinal(self):
        return jan1(self.year) + yday(self.year, self.month, self.day) - 1

    def timetuple(self):
        return TimeTuple((self.year, self.month, self.day, 0, 0, 0, UNBOUND, yday(self.year, self.month, self.day), -1))

    def __sub__(self, o):
        if isinstance(o, DATE):
            return TD(86400 * 10**6 * (self.toordinal() - o.toordinal()))
        raise Unsupported("date arithmetic")

    def __getattr__(self, n):
        raise Unsupported("date." + n)


class TD:
    def __new__(cls, us=None, **k):
        self = object.__new__(cls)
        self.us = us if us is not None else 0
        return self

    @staticmethod
    def create(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        tot = 0
        for v, f in ((days, 86400 * 10**6), (seconds, 10**6), (microseconds, 1), (milliseconds, 1000), (minutes, 60 * 10**6),
                     (hours, 3600 * 10**6), (weeks, 7 * 86400 * 10**6)):
            if tm.isspecial(v):
                raise ValueError("cannot convert float NaN to integer")
            if not num(v):
                raise TypeError("unsupported type for timedelta component")
            tot = tot + v * f
        return TD(tm.py(tm.roundi(tot)) if isinstance(tot, T) else tot)

    days = property(lambda s: tm.py(s.us // (86400 * 10**6)))
    seconds = property(lambda s: tm.py((s.us % (86400 * 10**6)) // 10**6))
    microseconds = property(lambda s: tm.py(s.us % 10**6))

    def total_seconds(self):
        return tm.toreal(self.us) * Fraction(1, 10**6)

    def __add__(self, o):
        return TD(self.us + o.us) if isinstance(o, TD) else NotImplemented

    def __sub__(self, o):
        return TD(self.us - o.us) if isinstance(o, TD) else NotImplemented

    def __neg__(self): return TD(-lift(self.us))
    def __pos__(self): return self
    def __abs__(self): return TD(abs(lift(self.us)))

    def __mul__(self, o):
        if not num(o):
            return NotImplemented
        r = self.us * o
        return TD(tm.py(tm.roundi(r)) if isinstance(r, (T, Fraction)) else round(r))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, TD):
            return tm.div(tm.toreal(self.us), tm.toreal(o.us))
        return TD(tm.roundi(tm.div(tm.toreal(self.us), o)))

    def __floordiv__(self, o):
        if isinstance(o, TD):
            return tm.py(tm.idiv(self.us, o.us))
        return TD(tm.idiv(self.us, o))

    def __mod__(self, o):
        return TD(tm.mod(self.us, o.us))

    def __lt__(self, o): return tm.lt(self.us, o.us)
    def __le__(self, o): return tm.le(self.us, o.us)
    def __gt__(self, o): return tm.lt(o.us, self.us)
    def __ge__(self, o): return tm.le(o.us, self.us)

    def __eq__(self, o):
        return tm.eq(self.us, o.us) if isinstance(o, TD) else NotImplemented

    def __bool__(self): return bool(tm.not_(tm.eq(self.us, 0)))
    def __hash__(self): raise Unsupported("hash of a timedelta")
    def __getattr__(self, n): raise Unsupported("timedelta." + n)


UNITS = {"Y": 0, "M": 1, "D": 2, "h": 3, "m": 4, "s": 5, "ms": 6, "us": 7, "ns": 8}


DTATTR = {"tzinfo", "year", "month", "day", "hour", "minute", "second", "microsecond", "fold", "utctimetuple", "timetuple",
          "utcoffset", "dst", "tzname", "astimezone", "date", "time", "timetz", "replace", "timestamp", "toordinal",
          "weekday", "isoweekday", "isocalendar", "isoformat", "strftime", "ctime", "terms", "map_terms"}


class NDT:
    """numpy datetime64 scalar/array truncated to a unit; dt: DT in UTC"""

    def __init__(self, dt, unit, array):
        self.dt, self.unit, self.array = dt, unit, array
        if unit not in UNITS:
            raise Unsupported("datetime64[%s]" % unit)

    def conv(self, unit):
        if UNITS[unit] > UNITS[self.unit] and self.unit != "us":
            raise Unsupported("refining a datetime64")
        return NDT(self.dt, unit, self.array)

    def astype(self, d, *a, **k):
        if isinstance(d, str) and "[" in d:
            return self.conv(d[d.index("[") + 1:-1])
        if _isint_dtype(d) or d in ("float", float, "float64"):
            n = self.epoch()
            n = n if _isint_dtype(d) else tm.toreal(n)
            return Arr(n) if self.array else n
        raise Unsupported("datetime64.astype")

    def epoch(self):
        """what numpy stores: units since 1970"""
        if UNITS[self.unit] < 2:
            f = self.dt._utcf()
            return f[0] - 1970 if self.unit == "Y" else 12 * (f[0] - 1970) + f[1] - 1
        per = {"D": 1, "h": 24, "m": 1440, "s": 86400, "us": 86400 * 10**6}
        if self.unit not in per:
            raise Unsupported("datetime64 unit")
        return self.count(self.unit) - 719163 * per[self.unit]

    @property
    def shape(self): return Shape() if self.array else ()

    def count(self, unit):
        """position in `unit`s (D or finer) of this value"""
        f = self.dt._utcf()
        u = UNITS[self.unit]
        y = f[0]
        mo = f[1] if u >= 1 else 1
        d = f[2] if u >= 2 else 1
        n = jan1(y) + yday(y, mo, d) - 1 if u >= 1 else jan1(y)
        U = UNITS[unit]
        if U == 2:
            return n
        n = n * 24 + (f[3] if u >= 3 else 0)
        if U == 3:
            return n
        n = n * 60 + (f[4] if u >= 4 else 0)
        if U == 4:
            return n
        n = n * 60 + (f[5] if u >= 5 else 0)
        if U == 5:
            return n
        n = n * 10**6 + (f[6] if u >= 7 else 0)
        if U == 7 and u != 6:
            return n
        raise Unsupported("datetime64 unit")

    def __sub__(self, o):
        if isinstance(o, NDT):
            u = self.unit if UNITS[self.unit] >= UNITS[o.unit] else o.unit
            if UNITS[u] < 2:
                if u == "Y":
                    return NTD(self.dt._utcf()[0] - o.dt._utcf()[0], "Y", self.array)
                raise Unsupported("datetime64 month arithmetic")
            return NTD(self.count(u) - o.count(u), u, self.array)
        raise Unsupported("datetime64 arithmetic")

    def _ip(self, *a):
        raise Unsupported("in-place change of a datetime64 array")
    __iadd__ = __isub__ = __setitem__ = _ip

    def __getattr__(self, n):
        if n.startswith("__") or n in DTATTR:
            raise AttributeError("'numpy.ndarray' object has no attribute '%s'" % n)
        raise Unsupported("datetime64." + n)


TDUS = {"W": 7 * 86400 * 10**6, "D": 86400 * 10**6, "h": 3600 * 10**6, "m": 60 * 10**6, "s": 10**6, "ms": 1000, "us": 1}


def xaug(f, a, b):
    """a op= b for the operators that are called by name"""
    if isinstance(a, (NDT, NTD)):
        raise Unsupported("in-place change of a datetime64 array")
    return a._write(f(a, b)) if isinstance(a, Arr) else f(a, b)


class NTD:
    """numpy timedelta64"""

    def __init__(self, n, unit, array):
        self.n, self.unit, self.array = n, unit, array

    def _two(self, o):
        if not isinstance(o, NTD):
            raise Unsupported("timedelta64 arithmetic")
        if self.unit == o.unit:
            return self.n, o.n, self.unit
        if self.unit not in TDUS or o.unit not in TDUS:
            raise Unsupported("timedelta64 unit")
        u = min(self.unit, o.unit, key=TDUS.get)
        return self.n * (TDUS[self.unit] // TDUS[u]), o.n * (TDUS[o.unit] // TDUS[u]), u

    def _val(self, o, v):
        return Arr(v) if self.array or o.array else tm.py(v)

    def __truediv__(self, o):
        if not isinstance(o, NTD):
            raise Unsupported("timedelta64 arithmetic")
        a, b, _ = self._two(o)
        if isinstance(b, T) and not tm.isconst(b) or tm.cval(lift(b)) == 0:
            raise Unsupported("timedelta64 division")
        return self._val(o, tm.div(tm.toreal(lift(a)), tm.toreal(lift(b))))

    def __floordiv__(self, o):
        a, b, _ = self._two(o)
        if isinstance(b, T) and not tm.isconst(b) or tm.cval(lift(b)) == 0:
            raise Unsupported("timedelta64 division")
        return self._val(o, tm.idiv(lift(a), lift(b)))

    def __mod__(self, o):
        a, b, u = self._two(o)
        if isinstance(b, T) and not tm.isconst(b) or tm.cval(lift(b)) == 0:
            raise Unsupported("timedelta64 division")
        return NTD(tm.mod(lift(a), lift(b)), u, self.array or o.array)

    def __add__(self, o):
        a, b, u = self._two(o)
        return NTD(a + b, u, self.array or o.array)

    def __sub__(self, o):
        a, b, u = self._two(o)
        return NTD(a - b, u, self.array or o.array)

    def astype(self, d, *a, **k):
        if _isint_dtype(d):
            return Arr(self.n) if self.array else self.n
        if d in ("float", float):
            return Arr(tm.toreal(self.n)) if self.array else tm.toreal(self.n)
        raise Unsupported("timedelta64.astype")

    def _ip(self, *a):
        raise Unsupported("in-place change of timedelta64")
    __iadd__ = __isub__ = __imul__ = __itruediv__ = __ifloordiv__ = __imod__ = __setitem__ = _ip

    def __getattr__(self, n):
        raise Unsupported("timedelta64." + n)


class _TDType:
    """callable standing for datetime.timedelta"""

    def __call__(self, *a, **k):
        names = ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks")
        k.update(zip(names, a))
        return TD.create(**k)

    def __instancecheck__(self, o):
        return isinstance(o, TD)


class _Timezone:
    utc = UTC

    def __call__(self, off, name=None):
        if isinstance(off, TD) and not isinstance(off.us, T):
            return UTC if off.us == 0 else TZ("fixed%d" % off.us)
        raise Unsupported("timezone(...)")


TDType = _TDType()
Timezone = _Timezone()


class _DateType:
    min, max = DATE(1, 1, 1), DATE(9999, 12, 31)

    def __call__(self, year, month, day): return DATE(year, month, day)


def timegm(t):
    """calendar.timegm: whole seconds of a UTC time tuple since 1970"""
    y, mo, d, H, M, S = t[:6]
    days = jan1(y) + yday(y, mo, 1) - 1 - 719163 + lift(d) - 1
    return tm.py(((lift(days) * 24 + H) * 60 + M) * 60 + S)


def make_calendar():
    import calendar as c
    return Module("calendar", timegm=timegm, isleap=lambda y: leap_term(y) if isinstance(y, T) else c.isleap(y), EPOCH=1970,
                  month_name=list(c.month_name), month_abbr=list(c.month_abbr), day_name=list(c.day_name), day_abbr=list(c.day_abbr))


DateType = _DateType()


def make_datetime():
    return Module("datetime", datetime=DT, timedelta=TDType, timezone=Timezone, date=DateType, time=TIME, tzinfo=TZ, UTC=UTC,
                  MINYEAR=1, MAXYEAR=9999)


# ---------------------------------------------------------------- sequences of symbolic length
class SymSeq:
    """n elements; element k is elem(k)"""

    def __init__(self, n, elem, name="seq", own=False, once=False):
        self.n, self.elem, self.name = n, elem, name      # n is None for an endless one
        self.own = own                    # a list the code under verification made itself
        self.once = once                  # an iterator: it can be gone through once
        self.used = False

    def use(self):
        if self.once and self.used:
            raise Unsupported("goes through an iterator (%s) a second time" % self.name)
        self.used = True

    def copy(self):
        if self.n is None:
            raise Unsupported("a list of an endless sequence")
        return SymSeq(self.n, self.elem, self.name + " copy", True)

    def _change(self):
        if not self.own:
            raise Unsupported("changes the sequence '%s', which it did not make" % self.name)

    @staticmethod
    def _parts(o):
        if isinstance(o, SymSeq):
            if o.n is None:
                raise Unsupported("an endless sequence joined")
            o.use()
            return lift(o.n), o.elem
        if not isinstance(o, (list, tuple)):
            raise Unsupported("sequence joined with %s" % type(o).__name__)
        o = list(o)

        def elem(k):
            k = lift(k)
            if not o:
                return tm.const(0)
            if not all(num(x) and not tm.isspecial(x) for x in o):
                raise Unsupported("sequence of objects joined")
            r = lift(o[-1])
            for j in range(len(o) - 2, -1, -1):
                r = tm.ite(tm.le(k, j), o[j], r)
            return r
        return tm.const(len(o)), elem

    @staticmethod
    def _join(a, b):
        (n1, e1), (n2, e2) = SymSeq._parts(a), SymSeq._parts(b)

        def elem(k):
            k = lift(k)
            c = tm.lt(k, n1)
            if tm.isconst(c):
                return e1(k) if c.val else e2(k - n1)
            x, y = e1(k), e2(k - n1)
            if not (num(x) and num(y)):
                raise Unsupported("sequences of objects joined")
            return tm.ite(c, x, y)
        return SymSeq(tm.py(n1 + n2), elem, "joined", True)

    def __add__(self, o):
        return self._join(self, o)

    def __radd__(self, o):
        return self._join(o, self)

    def __iadd__(self, o):
        self._change()
        r = self._join(self.copy(), o)
        self.n, self.elem = r.n, r.elem
        return self

    def extend(self, o):
        self.__iadd__(o)

    def append(self, x):
        self.__iadd__([x])

    def __setitem__(self, i, v):
        self._change()
        raise Unsupported("assignment to an element of a symbolic sequence")

    def __delitem__(self, i):
        self._change()
        raise Unsupported("deletion from a symbolic sequence")

    def __len__(self):
        raise Unsupported("native len of a symbolic sequence")

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic sequence")

    def _slice(self, i):
        n = lift(self.n)
        if i.step not in (None, 1):
            raise Unsupported("slice step of a symbolic sequence")

        def bound(b, d):
            if b is None:
                return d
            b = lift(b)
            return tm.ite(tm.lt(b, 0), tm.maximum(b + n, tm.const(0)), tm.minimum(b, n))
        lo, hi = bound(i.start, tm.const(0)), bound(i.stop, n)
        f = self.elem
        return SymSeq(tm.py(tm.maximum(hi - lo, tm.const(0))), lambda k: f(lo + k), self.name + " slice", True)

    def __getitem__(self, i):
        e = cur()
        if self.once:
            raise TypeError("'%s' object is not subscriptable" % self.name)
        if isinstance(i, slice):
            return self._slice(i)
        i = lift(i)
        if isinstance(i, T) and i.sort == "R":
            raise TypeError("list indices must be integers")
        n = lift(self.n)
        if e is not None:
            if not e.domain("index", tm.and_(tm.le(tm.mul(-1, n), i), tm.lt(i, n))):
                raise IndexError("list index out of range")
            if not e.entails(tm.le(0, i)):
                i = tm.ite(tm.lt(i, 0), i + n, i)
        return self.elem(i)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("pop", "clear", "sort", "reverse", "insert", "remove"):
            self._change()
        raise Unsupported("sequence attribute " + n)
