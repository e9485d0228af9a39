"""Interval branch and bound: a back end for inequalities of one or a few bounded variables.

Intervals are pairs of floats rounded outwards; elementary functions are those of libm widened by
4 units in the last place (trusted)."""
import heapq
import math
from fractions import Fraction
from . import terms as tm
from . import contract as ct
from .terms import T

INF = math.inf
ALL = (-INF, INF)


class Undefined(Exception):
    pass


def dn(x):
    return math.nextafter(x, -INF)


def up(x):
    return math.nextafter(x, INF)


def fr(q):
    f = float(q)
    return (dn(f), up(f)) if Fraction(f) != q else (f, f)


def exact(a, b, s):
    """a + b == s without rounding"""
    if s - s != 0:
        return False
    t = s - a
    return (a - (s - t)) + (b - t) == 0


def iadd(a, b):
    lo, hi = a[0] + b[0], a[1] + b[1]
    return (-INF if lo != lo else lo if exact(a[0], b[0], lo) else dn(lo),
            INF if hi != hi else hi if exact(a[1], b[1], hi) else up(hi))


def _m(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


def imul(a, b):
    if a[0] == a[1] and abs(a[0]) == 1:
        return b if a[0] == 1 else (-b[1], -b[0])
    if b[0] == b[1] and abs(b[0]) == 1:
        return a if b[0] == 1 else (-a[1], -a[0])
    ps = (_m(a[0], b[0]), _m(a[0], b[1]), _m(a[1], b[0]), _m(a[1], b[1]))
    lo, hi = min(ps), max(ps)
    return (dn(lo) if lo else lo, up(hi) if hi else hi)


def iinv(a):
    if a[0] <= 0 <= a[1]:
        if a[0] == 0 and a[1] > 0:
            return (dn(1 / a[1]), INF)
        if a[1] == 0 and a[0] < 0:
            return (-INF, up(1 / a[0]))
        raise Undefined
    return (dn(1 / a[1]), up(1 / a[0]))


def ipown(a, n):
    if n < 0:
        return iinv(ipown(a, -n))
    if n == 0:
        return (1.0, 1.0)
    r = (1.0, 1.0)
    if n % 2 == 0:
        m = (0.0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])), max(abs(a[0]), abs(a[1])))
    else:
        m = a
    for _ in range(n):
        if m[0] >= 0:
            r = (dn(_m(r[0], m[0])) if r[0] and m[0] else 0.0, up(_m(r[1], m[1])) if m[1] else 0.0)
        else:
            r = imul(r, m)
    return (max(r[0], 0.0), r[1]) if n % 2 == 0 else r


def pad(lo, hi, f=1e-15):
    return (lo - abs(lo) * f - 1e-300, hi + abs(hi) * f + 1e-300)


def imono(f, a, lo=-INF, hi=INF):
    if a[1] < lo or a[0] > hi:
        raise Undefined
    x, y = max(a[0], lo), min(a[1], hi)
    try:
        l = f(x)
    except OverflowError:
        l = INF
    try:
        h = f(y)
    except OverflowError:
        h = INF
    return pad(l, h)


def icos(a):
    if not (a[1] - a[0] < 6.2) or max(abs(a[0]), abs(a[1])) > 1e6:
        return (-1.0, 1.0)
    c = (math.cos(a[0]), math.cos(a[1]))
    lo, hi = pad(min(c), max(c))
    e = 1e-9
    k = math.ceil((a[0] - e) / math.pi)
    while k * math.pi <= a[1] + e:
        if k % 2 == 0:
            hi = 1.0
        else:
            lo = -1.0
        k += 1
    return (max(lo - 1e-15, -1.0), min(hi + 1e-15, 1.0))


HALFPI = (dn(math.pi / 2), up(math.pi / 2))


def ifn(name, xs):
    if name == "pi":
        return (math.pi, up(math.pi))
    a = xs[0]
    if name == "cos":
        return icos(a)
    if name == "sin":
        return icos(iadd(a, (-HALFPI[1], -HALFPI[0])))
    if name == "tan":
        if a[1] - a[0] < 3 and math.floor(a[0] / math.pi + 0.5 - 1e-9) == math.floor(a[1] / math.pi + 0.5 + 1e-9):
            return pad(math.tan(a[0]), math.tan(a[1]), 1e-14)
        raise Undefined
    if name == "exp":
        r = imono(math.exp, a)
        return (max(0.0, r[0]), r[1])
    if name == "log":
        if a[0] < 0 or a[1] <= 0:
            raise Undefined
        return pad(math.log(a[0]) if a[0] > 0 else -INF, math.log(a[1]) if a[1] < INF else INF)
    if name == "asin":
        return imono(math.asin, a, -1.0, 1.0)
    if name == "acos":
        r = imono(lambda x: -math.acos(x), a, -1.0, 1.0)
        return (max(0.0, -r[1]), -r[0])
    if name == "atan":
        return imono(math.atan, a)
    if name == "sqrt":
        return imono(math.sqrt, a, 0.0)
    raise Undefined


def tri(b):
    """boolean of intervals: True, False or None"""
    return b


class Eval:
    """interval evaluation of a term; `leaf(term)` gives the intervals of variables and opaque applications"""

    def __init__(self, root):
        self.order, seen = [], set()
        stack = [(root, False)]
        while stack:
            t, done = stack.pop()
            if done:
                self.order.append(t)
                continue
            if t.id in seen:
                continue
            seen.add(t.id)
            stack.append((t, True))
            if t.op in ("var", "app", "const"):
                continue
            for a in t.args:
                if isinstance(a, T):
                    stack.append((a, False))
        self.leaves = [t for t in self.order if t.op in ("var", "app")]
        self.root = root

    def __call__(self, box):
        v = {}
        for t in self.order:
            v[t.id] = self._one(t, v, box)
        return v[self.root.id]

    def _one(self, t, v, box):
        op = t.op
        if op in ("var", "app"):
            return box.get(t.id, ALL if t.sort != "B" else None)
        if op == "const":
            x = t.args[0]
            return x if isinstance(x, bool) else fr(Fraction(x))
        a = [v[x.id] for x in t.args if isinstance(x, T)]
        if op == "toreal":
            return a[0]
        if op == "add":
            return iadd(*a)
        if op == "mul":
            if t.args[0] is t.args[1]:
                return ipown(a[0], 2)
            return imul(*a)
        if op == "div":
            return imul(a[0], iinv(a[1]))
        if op == "pow":
            e = t.args[1]
            if tm.isconst(e) and Fraction(tm.cval(e)).denominator == 1:
                return ipown(a[0], int(tm.cval(e)))
            if a[0][0] < 0:
                raise Undefined
            if a[0][0] == 0 and a[1][0] > 0:
                hi = ifn("exp", [imul(a[1], ifn("log", [(a[0][1] or 5e-324, a[0][1] or 5e-324)]))])[1] if a[0][1] < INF else INF
                return (0.0, hi if a[0][1] <= 1 or True else hi)
            return ifn("exp", [imul(a[1], ifn("log", [a[0]]))])
        if op == "fn":
            return ifn(t.args[0], a)
        if op == "floor":
            return (float(math.floor(a[0][0])) if a[0][0] > -INF else -INF, float(math.floor(a[0][1])) if a[0][1] < INF else INF)
        if op == "mod" and a[1][0] == a[1][1] > 0:
            return (0.0, a[1][0])
        if op in ("lt", "le"):
            x, y = a
            if op == "lt":
                return True if x[1] < y[0] else False if x[0] >= y[1] else None
            return True if x[1] <= y[0] else False if x[0] > y[1] else None
        if op == "eq":
            x, y = a
            return False if x[1] < y[0] or y[1] < x[0] else None
        if op == "not":
            return None if a[0] is None else not a[0]
        if op == "and":
            return False if any(x is False for x in a) else None if any(x is None for x in a) else True
        if op == "or":
            return True if any(x is True for x in a) else None if any(x is None for x in a) else False
        if op == "ite":
            if a[0] is True:
                return a[1]
            if a[0] is False:
                return a[2]
            return (min(a[1][0], a[2][0]), max(a[1][1], a[2][1]))
        raise Undefined


def bounds(hyps, box):
    """constant bounds of leaves stated in hyps"""
    todo = list(hyps)
    while todo:
        h = tm.lift(todo.pop())
        if h.op == "and":
            todo.extend(h.args)
            continue
        if h.op not in ("le", "lt"):
            continue
        a, b = h.args
        for x, y, side in ((a, b, 1), (b, a, 0)):
            while x.op == "toreal":
                x = x.args[0]
            if x.op in ("var", "app") and tm.isconst(y):
                lo, hi = box.get(x.id, ALL)
                c = fr(Fraction(tm.cval(y)))
                box[x.id] = (lo, min(hi, c[1])) if side else (max(lo, c[0]), hi)
    return box


def bnb(goals, hyps=(), limit=40000, extra=None):
    """every goal (le/lt term) holds wherever hyps (le/lt terms; only their constant bounds and their
    falsity on a box are used); returns (ok, boxes)"""
    box = bounds(hyps, dict(extra or {}))
    evs = [Eval(tm.lift(g)) for g in goals]
    hev = [Eval(tm.lift(h)) for h in hyps]
    leaves = {t.id: t for e in evs for t in e.leaves}
    for t in leaves.values():
        ct_facts = ct.app_facts(t) if t.op == "app" else []
        bounds(ct_facts, box)
    n = 0
    for ev in evs:
        stack = [box]
        while stack:
            b = stack.pop()
            n += 1
            if n > limit:
                return False, n
            r = None
            try:
                if any(h(b) is False for h in hev):
                    continue
            except Undefined:
                pass
            try:
                r = ev(b)
            except Undefined:
                pass
            if r is True:
                continue
            if r is False and all(b[t.id][0] == b[t.id][1] for t in ev.leaves if t.id in b):
                return False, n
            best, w = None, 0.0
            for t in ev.leaves:
                x = b.get(t.id)
                if x is None or x[0] == -INF or x[1] == INF:
                    continue
                full = box[t.id][1] - box[t.id][0]
                d = (x[1] - x[0]) / full if full > 0 else 0
                if d > w:
                    best, w = t, d
            if best is None or w < 1e-12:
                return False, n
            lo, hi = b[best.id]
            mid = (lo + hi) / 2
            for part in ((lo, mid), (mid, hi)):
                nb = dict(b)
                nb[best.id] = part
                stack.append(nb)
    return True, n


def expand(t, rounds=6):
    for _ in range(rounds):
        t2, ch = ct.expand_apps(t)
        if not ch:
            break
        t = t2
    return force(t)


def force(t):
    """also the series that are otherwise kept folded"""
    def f(x):
        if x.op == "app":
            info = ct.APPINFO.get(x.id)
            if info is not None and info[0].name in ("get_coeff", "get_nutation"):
                c, suf, args, _ = info
                v = c.unpack(c.value(args))
                return tm.lift(v[[s for s, _ in c.comps()].index(suf)])
        return None
    with ct.pure():
        return tm.rebuild(t, f)


def prove(c, args, hyps, goal):
    from .prove import Verdict
    g = tm.lift(goal)
    if g.op not in ("le", "lt"):
        return None
    hs = [h for x in hyps for h in (x.args if x.op == "and" else (x,))]
    for e in (lambda t: t, force, expand):
        ok, n = bnb([e(g)], hs)
        if ok:
            return Verdict(True, "interval branch and bound")
    return None
