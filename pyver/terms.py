"""Hash-consed terms: the language of verification conditions.

Sorts: 'R' (mathematical real, stands for a float), 'I' (mathematical integer, a Python int),
'B' (bool), 'O' (opaque object, only as argument of an application).
"""
from fractions import Fraction
import math as _math


class T:
    __slots__ = ("op", "args", "sort", "id")

    def __repr__(self):
        return show(self)

    # arithmetic -------------------------------------------------------
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return div(self, o)
    def __rtruediv__(self, o): return div(o, self)
    def __floordiv__(self, o): return idiv(self, o)
    def __rfloordiv__(self, o): return idiv(o, self)
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o): return mod(o, self)
    def __pow__(self, o): return power(self, o)
    def __rpow__(self, o): return power(o, self)
    def _bits(self, o, f):
        if self.sort == "B" and (isinstance(o, bool) or isinstance(o, T) and o.sort == "B"):
            return f(self, lift(o))
        raise Unsupported("bit operation on numbers")
    def __and__(self, o): return self._bits(o, and_)
    def __rand__(self, o): return self._bits(o, and_)
    def __or__(self, o): return self._bits(o, or_)
    def __ror__(self, o): return self._bits(o, or_)
    def __xor__(self, o): return self._bits(o, lambda a, b: not_(eq(a, b)))
    __rxor__ = __xor__
    def __invert__(self): raise Unsupported("bit operation on a truth value")
    def __neg__(self): return mul(-1, self)
    def __pos__(self): return self
    def __abs__(self): return ite(lt(self, 0), mul(-1, self), self)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)
    def __divmod__(self, o): return idiv(self, o), mod(self, o)
    def __rdivmod__(self, o): return idiv(o, self), mod(o, self)
    def __floor__(self): return py(floor(self))
    def __ceil__(self): return py(mul(-1, floor(mul(-1, self))))
    def __trunc__(self): return py(trunc(self))

    def __round__(self, nd=None):
        if nd is None:
            return py(roundi(self))
        if isinstance(nd, int) and 0 <= nd <= 12:
            return div(roundi(mul(self, 10 ** nd)), 10 ** nd)
        raise Unsupported("round(x, n)")

    # == is the formula a == b (the verifier itself compares terms with `is`)
    def __eq__(self, o):
        try:
            return eq(self, o)
        except TypeError:
            return NotImplemented

    def __ne__(self, o):
        try:
            return not_(eq(self, o))
        except TypeError:
            return NotImplemented

    def __hash__(self):
        if self.op == "const":
            return hash(self.args[0])
        raise Unsupported("hash of a symbolic value")

    def __bool__(self):
        if self.op == "const":
            return bool(self.args[0])
        if hooks.decide is None:
            raise TypeError("symbolic truth value used by the verifier itself: %s" % show(self))
        return hooks.decide(self if self.sort == "B" else not_(eq(self, 0)))

    def __index__(self):
        if self.op == "const" and self.sort in "IB":
            return int(self.args[0])
        if self.sort == "R":
            raise TypeError("'float' object cannot be interpreted as an integer")
        if hooks.pick is None:
            raise Unsupported("symbolic integer used as an index")
        return hooks.pick(self)

    def __float__(self):
        raise Unsupported("native float() of a symbolic value")

    def __int__(self):
        raise Unsupported("native int() of a symbolic value")

    def __format__(self, spec):
        return "<sym>"

    # attributes of a python float/int
    @property
    def real(self): return self
    @property
    def imag(self): return 0

    def is_integer(self):
        return eq(self, floor(self))

    def __getattr__(self, name):
        if name in _numattrs:
            raise Unsupported("attribute %s of a symbolic number" % name)
        raise AttributeError("'float' object has no attribute '%s'" % name)


class SymStr(str):
    """text of a symbolic value: it can be shown, not inspected; `term` is its numeric value where it has one"""
    term = None


def _opaque(name):
    def f(self, *a, **k):
        raise Unsupported("the text of a symbolic value (%s)" % name)
    return f


class Unsupported(BaseException):
    """A construct outside the verifier's subset: the obligation stays undecided."""


class hooks:
    decide = None    # bool term -> bool
    pick = None      # int term -> int
    divisor = None   # called with the divisor of every symbolic division


_numattrs = frozenset(n for n in dir(float) + dir(int) if not n.startswith("__"))


def py(t):
    """integer/boolean constants as native values"""
    if isinstance(t, T) and t.op == "const" and t.sort in "IB":
        return t.args[0]
    return t


_table = {}
_n = [0]


def mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, T) else (type(a).__name__, a) for a in args), sort)
    t = _table.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort = op, tuple(args), sort
        _n[0] += 1
        t.id = _n[0]
        _table[key] = t
    return t


def const(v, sort=None):
    if sort is None:
        sort = "B" if isinstance(v, bool) else "I" if isinstance(v, int) else "R"
    if sort == "R":
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                raise ValueError("special float in a term")
            v = Fraction(repr(v))
        v = Fraction(v)
    return mk("const", (v,), sort)


def _binary(f):
    def op(self, o):
        return f(self, o) if type(o) in _NUMS else NotImplemented
    return op


_NUMS = (T, int, float, bool, Fraction)
for _o in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "divmod"):
    for _m in ("__%s__" % _o, "__r%s__" % _o):
        setattr(T, _m, _binary(T.__dict__[_m]))
for _m in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
    setattr(T, _m, _binary(T.__dict__[_m]))


TRUE = const(True)
FALSE = const(False)


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, int, float, Fraction)):
        return const(x)
    tt = getattr(x, "as_term", None)
    if tt is not None:
        return tt()
    raise TypeError("cannot lift %r to a term" % (x,))


def var(name, sort="R"):
    return mk("var", (name,), sort)


def obj(o):
    return mk("obj", (o,), "O")


def isconst(t):
    return t.op == "const"


def cval(t):
    return t.args[0]


def b2i(t):
    if t.sort == "B":
        if isconst(t):
            return const(int(cval(t)))
        return ite(t, const(1), const(0))
    return t


def _num2(a, b):
    a, b = b2i(lift(a)), b2i(lift(b))
    return a, b, ("I" if a.sort == "I" and b.sort == "I" else "R")


_spec = (float("inf"), float("-inf"))


def isspecial(x):
    return isinstance(x, float) and (x != x or x in _spec)


def _sign(x):
    """sign of the other operand of an infinity, by path splitting"""
    if isinstance(x, T):
        if bool(lt(x, 0)):
            return -1
        if bool(lt(0, x)):
            return 1
        return 0
    return (x > 0) - (x < 0)


def _special(op, a, b):
    """IEEE rules when an operand is an infinity or NaN"""
    if (isspecial(a) and a != a) or (isspecial(b) and b != b):
        return float("nan")
    if op == "add":
        if isspecial(a) and isspecial(b):
            return a + b
        return a if isspecial(a) else b
    if op == "mul":
        return float(_sign(a)) * float(_sign(b)) * float("inf")
    if op == "div":
        if isspecial(b):
            return float("nan") if isspecial(a) else const(0, "R")
        sb = _sign(b)
        if sb == 0:
            raise ZeroDivisionError("division by zero")
        return a * sb
    if op in ("lt", "le", "eq"):
        x = a if isspecial(a) else 0.0
        y = b if isspecial(b) else 0.0
        return const(bool(x < y if op == "lt" else x <= y if op == "le" else x == y))
    raise Unsupported("infinity in " + op)


def add(a, b):
    if isspecial(a) or isspecial(b):
        return _special("add", a, b)
    a, b, s = _num2(a, b)
    if isconst(a) and isconst(b):
        return const(cval(a) + cval(b), s)
    if isconst(a) and cval(a) == 0 and b.sort == s:
        return b
    if isconst(b) and cval(b) == 0 and a.sort == s:
        return a
    return mk("add", (a, b), s)


def sub(a, b):
    return add(a, mul(-1, b))


def mul(a, b):
    if isspecial(a) or isspecial(b):
        return _special("mul", a, b)
    a, b, s = _num2(a, b)
    if isconst(a) and isconst(b):
        return const(cval(a) * cval(b), s)
    for x, y in ((a, b), (b, a)):
        if isconst(x):
            if cval(x) == 0:
                return const(0, s)
            if cval(x) == 1 and y.sort == s:
                return y
    return mk("mul", (a, b), s)


def _chk(b):
    if hooks.divisor is not None:
        hooks.divisor(b)
    elif isconst(b) and cval(b) == 0:
        raise ZeroDivisionError("division by zero")


def div(a, b):
    if isspecial(a) or isspecial(b):
        return _special("div", a, b)
    a, b, _ = _num2(a, b)
    _chk(b)
    if isconst(b) and cval(b) != 0:
        if isconst(a):
            return const(Fraction(cval(a)) / Fraction(cval(b)), "R")
        return mk("mul", (a, const(1 / Fraction(cval(b)), "R")), "R")
    return mk("div", (a, b), "R")


def idiv(a, b):
    a, b, s = _num2(a, b)
    _chk(b)
    if isconst(a) and isconst(b) and cval(b) != 0:
        return const(_math.floor(Fraction(cval(a)) / Fraction(cval(b))), s)
    return mk("idiv", (a, b), s)


def mod(a, b):
    a, b, s = _num2(a, b)
    _chk(b)
    if isconst(a) and isconst(b) and cval(b) != 0:
        q = _math.floor(Fraction(cval(a)) / Fraction(cval(b)))
        return const(cval(a) - q * cval(b), s)
    return mk("mod", (a, b), s)


def power(a, b):
    a, b, s = _num2(a, b)
    if isconst(b):
        e = cval(b)
        if isinstance(e, Fraction) and e.denominator == 1 and abs(e) <= 64:
            e = int(e)
        if isinstance(e, int):
            if isconst(a) and (e >= 0 or cval(a) != 0):
                if e >= 0:
                    return const(cval(a) ** e, s)
                return const(Fraction(cval(a)) ** e, "R")
            if s == "I" and e < 0:
                s = "R"
            return mk("pow", (a, const(e, "I")), s)
    if s == "I":
        s = "R"
    return mk("pow", (a, b), s)


def toreal(a):
    a = b2i(lift(a))
    if a.sort == "R":
        return a
    if isconst(a):
        return const(Fraction(cval(a)), "R")
    return mk("toreal", (a,), "R")


def floor(a):
    a = b2i(lift(a))
    if a.sort == "I":
        return a
    if isconst(a):
        return const(_math.floor(cval(a)), "I")
    return mk("floor", (a,), "I")


def roundi(a):
    """Python round(x) to an int (half to even)."""
    a = b2i(lift(a))
    if a.sort == "I":
        return a
    if isconst(a):
        return const(round(cval(a)), "I")
    return mk("round", (a,), "I")


def trunc(a):
    a = b2i(lift(a))
    if a.sort == "I":
        return a
    return ite(lt(a, 0), mul(-1, floor(mul(-1, a))), floor(a))


def fn(name, *args):
    if any(isspecial(a) for a in args):
        a = args[0]
        if name == "exp" and a == a:
            return const(0, "R") if a < 0 else a
        if name == "atan" and a == a:
            return mul(Fraction(1 if a > 0 else -1, 2), PI)
        if name in ("degrees", "radians", "sqrt") and (a != a or a > 0):
            return a
        if a != a:
            return a
        raise ValueError("math domain error")
    return mk("fn", (name,) + tuple(toreal(a) for a in args), "R")


PI = mk("fn", ("pi",), "R")


def app(name, args, sort="R"):
    return mk("app", (name,) + tuple(args), sort)


def ite(c, a, b):
    c = lift(c)
    a, b = lift(a), lift(b)
    if isconst(c):
        return a if cval(c) else b
    if a is b:
        return a
    if a.sort == b.sort:
        s = a.sort
    else:
        a, b, s = _num2(a, b)
        if a.sort != s:
            a = toreal(a)
        if b.sort != s:
            b = toreal(b)
    return mk("ite", (c, a, b), s)


def _cmp(op, a, b, f):
    if isspecial(a) or isspecial(b):
        return _special(op, a, b)
    a, b, s = _num2(a, b)
    if isconst(a) and isconst(b):
        return const(bool(f(cval(a), cval(b))))
    if a is b:
        return const(op != "lt")
    return mk(op, (a, b), "B")


def lt(a, b): return _cmp("lt", a, b, lambda x, y: x < y)
def le(a, b): return _cmp("le", a, b, lambda x, y: x <= y)


def eq(a, b):
    if isspecial(a) or isspecial(b):
        return _special("eq", a, b)
    a, b = lift(a), lift(b)
    if a.sort == "B" and b.sort == "B":
        if a is b:
            return TRUE
        if isconst(a):
            return b if cval(a) else not_(b)
        if isconst(b):
            return a if cval(b) else not_(a)
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return _cmp("eq", a, b, lambda x, y: x == y)


def not_(a):
    a = lift(a)
    if isconst(a):
        return const(not cval(a))
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        x = lift(x)
        if isconst(x):
            if not cval(x):
                return FALSE
            continue
        if not any(x is y for y in out):
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", out, "B")


def or_(*xs):
    out = []
    for x in xs:
        x = lift(x)
        if isconst(x):
            if cval(x):
                return TRUE
            continue
        if not any(x is y for y in out):
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", out, "B")


def implies(a, b):
    return or_(not_(a), b)


def minimum(a, b):
    return ite(le(a, b), a, b)


def maximum(a, b):
    return ite(le(b, a), a, b)


_sh = {"add": "+", "mul": "*", "div": "/", "idiv": "//", "mod": "%", "pow": "**", "lt": "<", "le": "<=",
       "eq": "==", "and": "and", "or": "or"}


def show(t, depth=12):
    if not isinstance(t, T):
        return repr(t)
    if depth <= 0:
        return "..."
    if t.op == "const":
        v = cval(t)
        if isinstance(v, Fraction):
            try:
                return repr(float(v))
            except OverflowError:
                return str(v)
        return repr(v)
    if t.op in ("var",):
        return t.args[0]
    if t.op == "obj":
        return getattr(t.args[0], "name", "obj")
    d = depth - 1
    if t.op in _sh:
        return "(" + (" %s " % _sh[t.op]).join(show(a, d) for a in t.args) + ")"
    if t.op in ("fn", "app"):
        return t.args[0] + ("(" + ", ".join(show(a, d) for a in t.args[1:]) + ")" if len(t.args) > 1 else "")
    if t.op == "ite":
        return "(%s if %s else %s)" % (show(t.args[1], d), show(t.args[0], d), show(t.args[2], d))
    return "%s(%s)" % (t.op, ", ".join(show(a, d) for a in t.args))


def subterms(t, seen=None):
    """All distinct subterms (including inside opaque objects exposing .terms())."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T):
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif hasattr(a, "terms"):
                stack.extend(a.terms())


def free_vars(t):
    return {x.args[0] for x in subterms(t) if x.op == "var"}


def rebuild(t, f, memo=None):
    """Bottom-up map: f(term-with-rebuilt-args) -> term or None to keep."""
    memo = {} if memo is None else memo

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        na = tuple(go(a) if isinstance(a, T) else (a.map_terms(go) if hasattr(a, "map_terms") else a)
                   for a in x.args)
        y = x
        if any(a is not b for a, b in zip(na, x.args)):
            y = _remk(x.op, na, x.sort)
        z = f(y)
        if z is None:
            z = y
        memo[x.id] = z
        return z
    return go(t)


def _remk(op, a, sort):
    if op == "add": return add(*a)
    if op == "mul": return mul(*a)
    if op == "div": return div(*a)
    if op == "idiv": return idiv(*a)
    if op == "mod": return mod(*a)
    if op == "pow": return power(*a)
    if op == "toreal": return toreal(*a)
    if op == "floor": return floor(*a)
    if op == "round": return roundi(*a)
    if op == "ite": return ite(*a)
    if op == "lt": return lt(*a)
    if op == "le": return le(*a)
    if op == "eq": return eq(*a)
    if op == "not": return not_(*a)
    if op == "and": return and_(*a)
    if op == "or": return or_(*a)
    return mk(op, a, sort)


def subst(t, mapping):
    """mapping: {var name: term}"""
    return rebuild(t, lambda x: mapping.get(x.args[0]) if x.op == "var" else None)


for _m in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__hash__", "__contains__", "__getitem__", "__iter__", "__len__",
           "__mod__", "split", "startswith", "endswith", "find", "index", "count", "partition", "rpartition", "rsplit", "isdigit",
           "replace", "strip", "lstrip", "rstrip", "lower", "upper", "encode", "translate", "zfill", "isnumeric", "isdecimal"):
    setattr(SymStr, _m, _opaque(_m))
