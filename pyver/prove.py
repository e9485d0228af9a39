"""Discharging equalities of terms under path conditions."""
import sys
import time
from fractions import Fraction
from . import terms as tm
from . import norm as nm
from . import smt
from . import contract as ct
from .terms import T

sys.setrecursionlimit(20000)
smt.Facts.app = staticmethod(ct.app_facts)


class Verdict:
    __slots__ = ("ok", "how", "model", "why")

    def __init__(self, ok, how="", model=None, why=""):
        self.ok, self.how, self.model, self.why = ok, how, model, why

    def __bool__(self):
        return self.ok


def literals(keys):
    """assumption map of the atomic facts in a conjunction of keys"""
    out = {}
    todo = [k for k in keys if isinstance(k, tuple)]
    while todo:
        k = todo.pop()
        if k[0] == "and":
            todo.extend(k[1])
        elif k[0] == "not":
            if k[1][0] == "or":
                todo.extend(nm.Normer()._neg(x) for x in k[1][1])
            else:
                out[k[1]] = False
        elif k[0] != "or":
            out[k] = True
        out[k] = True
    return out


def ring_zero(p):
    if p.is_zero():
        return True
    try:
        return nm.clear_denoms(p).is_zero()
    except nm.TooBig:
        return False


def known_zeros(lits):
    """polynomials that the path says are zero: p = 0, or neither p < 0 nor -p < 0"""
    out = []
    for k, v in lits.items():
        if k[0] == "eq" and v is True:
            out.append(nm.Poly(dict(k[1])))
        elif k[0] == "lt" and v is False:
            q = nm.Poly(dict(k[1]))
            if lits.get(("lt", nm.pscale(q, -1).key)) is False and q.key[-1][1] > 0:
                out.append(q)
    return out


def divides(q, p):
    """p is a multiple of q"""
    try:
        p, q = nm.clear_denoms(p), nm.clear_denoms(q)
        if q.const() is not None or len(q.d) > 200 or len(p.d) > 2000:
            return False
        names = sorted({a for m in list(p.d) + list(q.d) for a, _ in m})
        pos = {a: i for i, a in enumerate(names)}

        def vec(m):
            v = [0] * len(pos)
            for a, e in m:
                v[pos[a]] = e
            return tuple(v)
        if any(e < 0 for m in list(p.d) + list(q.d) for _, e in m):
            return False
        lead = max(q.d, key=vec)
        lv, lc = dict(lead), q.d[lead]
        for _ in range(2000):
            if p.is_zero():
                return True
            top = max(p.d, key=vec)
            t = dict(top)
            if any(t.get(a, 0) < e for a, e in lv.items()):
                return False
            m = tuple((a, e - lv.get(a, 0)) for a, e in top if e - lv.get(a, 0))
            p = nm.padd(p, nm.pmul(nm.Poly({m: p.d[top] / lc}), q), -1)
            if any(a not in pos for m in p.d for a, _ in m) or top in p.d:
                return False
    except nm.TooBig:
        pass
    return False


def trig_zero(N, a, b, p):
    try:
        units = nm.trig_units(nm.collect_trig(p, {}))
        if not units:
            return False
        q = nm.Normer(N.assume, units).norm(tm.sub(a, b))
        if len(q.d) < 2000 and ring_zero(q):
            return True
    except nm.TooBig:
        pass
    return False


def apps_in(p):
    """names of the opaque contract applications an equation p = 0 still depends on"""
    out, seen = set(), set()

    def poly(d):
        for m, _ in d:
            for a, _ in m:
                one(a)

    def key(k):
        if not isinstance(k, tuple) or not k:
            return
        if k[0] in ("lt", "eq"):
            poly(k[1])
        elif k[0] == "not":
            key(k[1])
        elif k[0] in ("and", "or"):
            for x in k[1]:
                key(x)
        elif k[0] == "bapp":
            out.add(k[1])

    def one(i):
        if i in seen:
            return
        seen.add(i)
        at = nm.get_atom(i)
        if at.kind == "app":
            out.add(at.data[0])
        for x in at.data:
            if isinstance(x, nm.Poly):
                poly(x.d.items())
            else:
                key(x)
    poly(p.d.items())
    return out


RANK = {}


def topmost(p):
    """the applied contract that stands highest in the order of the specifications (callees stand before callers)"""
    if len(RANK) < len(ct.REG):
        RANK.clear()
        for i, c in enumerate(ct.REG.values()):
            if c.expand and c.spec is not None:
                for s, _ in c.comps():
                    RANK[c.name + s] = (i, c.name)
    r = [RANK[n] for n in apps_in(p) if n in RANK]
    return max(r)[1] if r else None


class Prover:
    """all obligations of one function"""

    def __init__(self, seconds=4.0, budget=120.0):
        self.seconds = seconds
        self.t_end = time.time() + budget
        self.stat = {}

    def left(self):
        return self.t_end - time.time()

    def _count(self, how):
        self.stat[how] = self.stat.get(how, 0) + 1

    def prove(self, keys, goal):
        """keys entail goal (boolean term)"""
        v = self._prove(keys, goal)
        if v.ok:
            self._count(v.how)
        return v

    def _prove(self, keys, goal, rounds=4):
        goal = tm.lift(goal)
        last = None
        for r in range(rounds):
            s = min(self.seconds, max(0.3, self.left()))
            try:
                res = smt.prove(keys, goal, s, cvc=self.left() > 5)
            except nm.TooBig:
                return Verdict(False, "ring", None, "too large")
            if res.ok:
                return Verdict(True, res.how)
            last = last or res
            g2, ch = ct.expand_apps(goal)
            if not ch or self.left() < 0:
                break
            goal = g2
        return Verdict(False, last.how, last.model, last.why)

    def simp(self, keys, t):
        """t with every if-then-else whose condition is decided by the path replaced by its branch"""
        t = tm.lift(t)
        conds = {}
        for x in tm.subterms(t):
            if x.op == "ite":
                conds[x.args[0].id] = x.args[0]
        if len(conds) < 3:
            return t
        ctx = smt.Context([k for k in keys if isinstance(k, tuple)], 300)
        memo, memo_c = {}, {}

        def go(x):
            r = memo.get(x.id)
            if r is not None:
                return r
            if x.op == "ite":
                c = x.args[0]
                d = memo_c.get(c.id, 0)
                if d == 0:
                    d = memo_c[c.id] = ctx.decided(c) if self.left() > 0 else None
                z = go(x.args[1]) if d is True else go(x.args[2]) if d is False else None
                if z is None:
                    z = tm.ite(c, go(x.args[1]), go(x.args[2]))
            else:
                na = tuple(go(a) if isinstance(a, T) else a for a in x.args)
                z = x if all(p is q for p, q in zip(na, x.args)) else tm._remk(x.op, na, x.sort)
            memo[x.id] = z
            return z
        with ct.pure():
            return go(t)

    def eq(self, keys, a, b):
        """keys entail a == b"""
        a, b = self.simp(keys, a), self.simp(keys, b)
        v = self._eq([k for k in keys if k is not True], tm.lift(a), tm.lift(b), 0, set())
        if v.ok:
            self._count(v.how)
        return v

    def _eq(self, keys, a, b, depth, split):
        if any(k is False for k in keys):
            return Verdict(True, "ring")
        N = nm.Normer(literals(keys))
        model = None
        for rnd in range(40):
            top = None
            try:
                p = N.norm(tm.sub(a, b))
                if ring_zero(p):
                    return Verdict(True, "ring" if depth == 0 else "ring, by cases")
                if any(divides(q, p) for q in known_zeros(N.assume)):
                    return Verdict(True, "ring, on the boundary of a case")
                if len(p.d) < 400 and trig_zero(N, a, b, p):
                    return Verdict(True, "ring, trigonometric expansion")
                k = nm.first_ite_key(p)
                top = topmost(p)
            except nm.TooBig as e:
                return Verdict(False, "ring", None, "normal form too large")
            if k is not None and depth == 0 and rnd == 0 and not any(
                    x.op in ("fn", "app") for y in (a, b) for x in tm.subterms(y)):
                r = smt.prove(keys, tm.eq(a, b), 2.0, cvc=False)
                if r.ok:
                    return Verdict(True, r.how)
            if k is not None and depth < 10 and k not in split:
                verdicts = []
                for val in (k, N._neg(k)):
                    ks = keys + [val]
                    if not smt.feasible(ks, 400):
                        continue
                    v = self._eq(ks, a, b, depth + 1, split | {k})
                    if not v.ok:
                        return v
                    verdicts.append(v.how)
                return Verdict(True, "z3" if any("z3" in h for h in verdicts) else "ring, by cases")
            only = None if top is None else {top}
            a2, c1 = ct.expand_apps(a, only)
            b2, c2 = ct.expand_apps(b, only)
            if not (c1 or c2) and only is not None:
                a2, c1 = ct.expand_apps(a)
                b2, c2 = ct.expand_apps(b)
            if not (c1 or c2):
                break
            if rnd == 0 and self.left() > 0:
                r = smt.prove(keys, tm.eq(a, b), min(1.0, self.seconds), cvc=False)
                if r.ok:
                    return Verdict(True, r.how)
                model = model or r.model
            a, b = a2, b2
        if self.left() > 0:
            r = smt.prove(keys, tm.eq(a, b), min(self.seconds, max(0.5, self.left())), cvc=self.left() > 5)
            if r.ok:
                return Verdict(True, r.how)
            model = model or r.model
            return Verdict(False, r.how, model, r.why)
        return Verdict(False, "z3", model, "time")

    def infeasible(self, keys):
        if any(k is False for k in keys):
            return Verdict(True, "ring")
        r = smt.prove(keys, False, self.seconds)
        if r.ok:
            self._count(r.how)
            return Verdict(True, r.how)
        return Verdict(False, r.how, r.model, r.why)
