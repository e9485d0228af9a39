"""Discharging formulas with z3 (cvc5 as a second opinion).

Formulas are encoded from their ring normal form: every transcendental atom becomes a real
variable constrained by instantiated axioms of the function it stands for.  All axioms are true
statements of real arithmetic, so `unsat` of hyps and not goal is a proof; `sat` is only a candidate
counterexample (the functions are abstracted), to be replayed on the real code.
"""
import subprocess
import time
from fractions import Fraction
import z3
from . import terms as tm
from . import norm as nm
from .norm import Poly, get_atom, PIA
from .terms import T

STAT = {"queries": 0, "time": 0.0, "z3": 0, "cvc5": 0}


class Facts:
    """callback giving known postconditions of opaque applications (set by the contract layer)"""
    app = staticmethod(lambda t: [])


class Enc:
    def __init__(self):
        self.vars = {}
        self.normer = nm.Normer()
        self.isapp = {}
        self.factcache = {}

    # atoms ---------------------------------------------------------------
    def av(self, i):
        v = self.vars.get(i)
        if v is None:
            at = get_atom(i)
            name = "a%d_%s" % (i, at.kind)
            if at.kind == "var":
                name = "v_" + at.data[0]
            v = z3.Int(name) if at.isint else z3.Real(name)
            self.vars[i] = v
        return v

    def av_real(self, i):
        v = self.av(i)
        return z3.ToReal(v) if v.is_int() else v

    def atom_expr(self, i, used):
        at = get_atom(i)
        used.setdefault(i, None)
        if at.kind == "ite":
            k, a, b = at.data
            c = self.bexpr(k, used)
            ea, eb = self.pexpr(a, used), self.pexpr(b, used)
            if at.isint:
                ea, eb = self.toint(a, used), self.toint(b, used)
                return z3.If(c, ea, eb)
            return z3.If(c, ea, eb)
        return self.av(i)

    def toint(self, p, used):
        return self._sum(p, used, True)

    def _sum(self, p, used, asint):
        terms = []
        for m, c in p.d.items():
            f = []
            for a, k in m:
                e = self.atom_expr(a, used)
                if not asint and e.is_int():
                    e = z3.ToReal(e)
                if k < 0:
                    e = self.invvar(a, used)
                    k = -k
                f.extend([e] * k)
            if asint:
                x = z3.IntVal(int(c))
            else:
                x = z3.RealVal(str(c))
            if f:
                prod = f[0]
                for e in f[1:]:
                    prod = prod * e
                x = prod if c == 1 else x * prod
            terms.append(x)
        if not terms:
            return z3.IntVal(0) if asint else z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def invvar(self, a, used):
        k = ("i", a)
        used.setdefault(k, None)
        v = self.vars.get(k)
        if v is None:
            v = z3.Real("inv_a%d" % a)
            self.vars[k] = v
        return v

    def pexpr(self, p, used):
        return self._sum(p, used, False)

    def cmp(self, p, used):
        """p as Int expression if possible (scaled), else Real"""
        l = 1
        for m, c in p.d.items():
            if not all(k > 0 and get_atom(a).isint for a, k in m):
                return self._sum(p, used, False)
            l = l * c.denominator // _gcd(l, c.denominator)
        return self._sum(nm.pscale(p, l), used, True)

    def bexpr(self, k, used):
        if k is True or k is False:
            return z3.BoolVal(k)
        if k[0] == "lt":
            return self.cmp(Poly(dict(k[1])), used) < 0
        if k[0] == "eq":
            return self.cmp(Poly(dict(k[1])), used) == 0
        if k[0] == "not":
            return z3.Not(self.bexpr(k[1], used))
        if k[0] == "and":
            return z3.And([self.bexpr(x, used) for x in k[1]])
        if k[0] == "or":
            return z3.Or([self.bexpr(x, used) for x in k[1]])
        v = self.vars.get(k)
        if v is None:
            v = z3.Bool("b%d_%s" % (len(self.vars), k[1] if isinstance(k[1], str) else "app"))
            self.vars[k] = v
        return v

    # axioms ----------------------------------------------------------------
    def axioms(self, used, mono=False):
        """axioms of all atoms in `used`, transitively"""
        done, out = set(), []
        byk = {}
        # the definitions of the calendar functions only matter to questions of pure arithmetic
        self.light = self._transcendental(used)
        while True:
            todo = [i for i in used if i not in done]
            if not todo:
                break
            for i in todo:
                done.add(i)
                if isinstance(i, tuple):
                    a = self.pexpr(nm.patom(get_atom(i[1])), used)
                    out.append(z3.Or(a == 0, a * self.vars[i] == 1))
                    out.append(z3.Implies(a > 0, self.vars[i] > 0))
                    out.append(z3.Implies(a < 0, self.vars[i] < 0))
                    byk.setdefault("minv", []).append((a, self.vars[i]))
                    continue
                at = get_atom(i)
                self._atom_axioms(at, used, out, byk)
        # pythagoras for pairs
        for key, s in byk.get("sin", {}).items() if isinstance(byk.get("sin"), dict) else ():
            c = byk.get("cos", {}).get(key)
            if c is not None:
                out.append(s * s + c * c == 1)
        if mono:
            self._mono(byk, out)
        return out

    def _transcendental(self, used):
        seen, todo = set(), [i[1] if isinstance(i, tuple) else i for i in used]
        todo = [i for i in todo if isinstance(i, int)]
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            at = get_atom(i)
            if at.kind in ("sin", "cos", "exp", "log", "sqrt", "asin", "acos", "atan", "atan2", "pow"):
                return True
            if at.kind in ("app", "ite"):
                continue
            for x in at.data:
                if isinstance(x, Poly):
                    todo += [a for m in x.d for a, _ in m]
        return False

    def _pisplit(self, p, used):
        """(argument, unit of pi): argument divided by pi if that removes pi"""
        d = {}
        for m, c in p.d.items():
            e = dict(m)
            k = e.get(PIA.idx, 0)
            if k < 1:
                return self.pexpr(p, used), self.pexpr(nm.patom(PIA), used)
            if k == 1:
                del e[PIA.idx]
            else:
                e[PIA.idx] = k - 1
            d[tuple(sorted(e.items()))] = c
        return self.pexpr(Poly(d), used), z3.RealVal(1)

    def _atom_axioms(self, at, used, out, byk):
        k = at.kind
        if k in ("var", "ite"):
            return
        v = self.av(at.idx)
        if k == "pi":
            out.append(v > z3.RealVal("3.14159265358979"))
            out.append(v < z3.RealVal("3.14159265358980"))
            return
        if k == "app":
            # facts are boolean terms
            if self.light and at.data and at.data[0] in ("jan1", "yday"):
                if at.data[0] == "yday":
                    out.append(v >= 1)
                    out.append(v <= 366)
                return
            fs = self.factcache.get(at.idx)
            if fs is None:
                fs = [self.normer.bkey(f) for f in Facts.app(at.term)] if at.term is not None else []
                self.factcache[at.idx] = fs
            for f in fs:
                out.append(self.bexpr(f, used))
            return
        p = at.data[0]
        if k == "floor":
            e = self.pexpr(p, used)
            r = z3.ToReal(v)
            out.append(r <= e)
            out.append(e < r + 1)
            return
        if k == "round":
            e = self.pexpr(p, used)
            r = z3.ToReal(v)
            out.append(r - z3.RealVal("1/2") <= e)
            out.append(e <= r + z3.RealVal("1/2"))
            return
        if k in ("sin", "cos"):
            out.append(v <= 1)
            out.append(v >= -1)
            e, pi = self._pisplit(p, used)
            byk.setdefault(k, {})[p.key] = v
            byk.setdefault(k + "args", []).append((e, pi, v))
            if k == "sin":
                out.append(z3.Implies(z3.And(e > 0, e < pi), v > 0))
                out.append(z3.Implies(z3.And(e > -pi, e < 0), v < 0))
                out.append(z3.Implies(z3.And(e > pi, e < 2 * pi), v < 0))
                out.append(z3.Implies(e == 0, v == 0))
            else:
                out.append(z3.Implies(z3.And(2 * e > -pi, 2 * e < pi), v > 0))
                out.append(z3.Implies(z3.And(2 * e > pi, 2 * e < 3 * pi), v < 0))
                out.append(z3.Implies(e == 0, v == 1))
                out.append(z3.Implies(2 * e == pi, v == 0))
                out.append(z3.Implies(2 * e == -pi, v == 0))
            return
        if k == "inv":
            e = self.pexpr(p, used)
            out.append(z3.Or(e == 0, e * v == 1))
            out.append(z3.Implies(e > 0, v > 0))
            out.append(z3.Implies(e < 0, v < 0))
            byk.setdefault("minv", []).append((e, v))
            return
        if k in ("exp", "sqrt", "asin", "atan", "log"):
            e = self.pexpr(p, used)
            byk.setdefault("m" + k, []).append((e, v))
        pi = self.pexpr(nm.patom(PIA), used) if k in ("asin", "atan", "atan2") else None
        if k == "exp":
            out.append(v > 0)
            out.append(z3.Implies(e <= 0, v <= 1))
            out.append(z3.Implies(e < 0, v < 1))
            out.append(z3.Implies(e >= 0, v >= 1))
            out.append(v >= 1 + e)
        elif k == "sqrt":
            out.append(v >= 0)
            out.append(z3.Implies(e >= 0, v * v == e))
        elif k == "asin":
            out.append(2 * v <= pi)
            out.append(2 * v >= -pi)
            out.append((v > 0) == (e > 0))
            out.append((v == 0) == (e == 0))
            out.append(z3.Implies(e == 1, 2 * v == pi))
            out.append(z3.Implies(e == -1, 2 * v == -pi))
        elif k == "atan":
            out.append(2 * v < pi)
            out.append(2 * v > -pi)
            out.append((v > 0) == (e > 0))
            out.append((v == 0) == (e == 0))
        elif k == "log":
            out.append(z3.Implies(e >= 1, v >= 0))
            out.append(z3.Implies(e > 0, v <= e - 1))
        elif k == "atan2":
            y, x = self.pexpr(at.data[0], used), self.pexpr(at.data[1], used)
            out.append(v <= pi)
            out.append(v >= -pi)
            out.append(z3.Implies(y > 0, z3.And(v > 0, v < pi)))
            out.append(z3.Implies(y < 0, z3.And(v < 0, v > -pi)))
            out.append(z3.Implies(x > 0, z3.And(2 * v < pi, 2 * v > -pi)))
            out.append(z3.Implies(x < 0, z3.Or(2 * v > pi, 2 * v < -pi)))
            out.append(z3.Implies(z3.And(y == 0, x > 0), v == 0))
            out.append(z3.Implies(z3.And(y == 0, x < 0), v == pi))
        elif k == "pow":
            b, e = self.pexpr(at.data[0], used), self.pexpr(at.data[1], used)
            out.append(z3.Implies(b > 0, v > 0))
            out.append(z3.Implies(b == 0, z3.Implies(e > 0, v == 0)))
            out.append(z3.Implies(z3.And(b >= 1, e >= 0), v >= 1))
            out.append(z3.Implies(z3.And(b >= 1, e <= 0), v <= 1))
            out.append(z3.Implies(z3.And(b > 0, b <= 1, e >= 0), v <= 1))
            out.append(z3.Implies(z3.And(b > 0, b <= 1, e <= 0), v >= 1))
            byk.setdefault("mpow", {}).setdefault(at.data[1].key, []).append((b, e, v))

    def _mono(self, byk, out):
        def pairs(l):
            for i in range(len(l)):
                for j in range(i):
                    yield l[i], l[j]
        for k, inc in (("mexp", 1), ("masin", 1), ("matan", 1)):
            for (e, v), (f, w) in pairs(byk.get(k, [])):
                out.append((e < f) == (v < w if inc > 0 else v > w))
                out.append((e == f) == (v == w))
        for (e, v), (f, w) in pairs(byk.get("msqrt", [])):
            out.append(z3.Implies(z3.And(e >= 0, f >= 0), (e < f) == (v < w)))
        for (e, v), (f, w) in pairs(byk.get("mlog", [])):
            out.append(z3.Implies(z3.And(e > 0, f > 0), (e < f) == (v < w)))
        for (e, v), (f, w) in pairs(byk.get("minv", [])):
            out.append(z3.Implies(z3.And(e > 0, f > 0), (e < f) == (v > w)))
        for l in byk.get("mpow", {}).values():
            for (b, e, v), (c, _, w) in pairs(l):
                out.append(z3.Implies(z3.And(b > 0, c > 0, e > 0), (b < c) == (v < w)))
                out.append(z3.Implies(z3.And(b > 0, c > 0, e < 0), (b < c) == (v > w)))
        for (e, pi, v), (f, _, w) in pairs(byk.get("sinargs", [])):
            out.append(z3.Implies(z3.And(2 * e >= -pi, 2 * e <= pi, 2 * f >= -pi, 2 * f <= pi),
                                  z3.And((e < f) == (v < w), (e == f) == (v == w))))
        for (e, pi, v), (f, _, w) in pairs(byk.get("cosargs", [])):
            out.append(z3.Implies(z3.And(e >= 0, e <= pi, f >= 0, f <= pi),
                                  z3.And((e < f) == (v > w), (e == f) == (v == w))))


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


_enc = [None]


def enc():
    if _enc[0] is None:
        _enc[0] = Enc()
    return _enc[0]


def check(keys, timeout_ms=1000, mono=False, extra=()):
    """satisfiability of the conjunction of boolean keys -> (result, model dict)"""
    E = enc()
    used = {}
    fs = [E.bexpr(k, used) for k in keys]
    ax = E.axioms(used, mono)
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.set("random_seed", 1)
    for f in ax + fs:
        s.add(f)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STAT["queries"] += 1
    STAT["time"] += time.time() - t0
    if r == z3.sat:
        m = s.model()
        out = {}
        for i, v in E.vars.items():
            if isinstance(i, int) and get_atom(i).kind == "var":
                x = m.eval(v)
                out[get_atom(i).data[0]] = _val(x)
        return "sat", out, s
    return ("unsat" if r == z3.unsat else "unknown"), None, s


class Context:
    """a solver holding a set of keys, to decide many simple conditions under them"""

    def __init__(self, keys, timeout_ms=300):
        self.E = enc()
        used = {}
        fs = [self.E.bexpr(k, used) for k in keys]
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.s.set("random_seed", 1)
        for f in self.E.axioms(used) + fs:
            self.s.add(f)

    def decided(self, cond):
        """True/False if the keys entail the condition or its negation, else None"""
        k = self.E.normer.bkey(cond) if isinstance(cond, T) else cond
        if k is True or k is False:
            return k
        used = {}
        e = self.E.bexpr(k, used)
        ax = self.E.axioms(used)
        t0 = time.time()
        res = None
        for v, f in ((True, z3.Not(e)), (False, e)):
            self.s.push()
            for a in ax:
                self.s.add(a)
            self.s.add(f)
            r = self.s.check()
            self.s.pop()
            STAT["queries"] += 1
            if r == z3.unsat:
                STAT["z3"] += 1
                res = v
                break
        STAT["time"] += time.time() - t0
        return res


def _val(x):
    try:
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return x.numerator_as_long() / x.denominator_as_long()
        if z3.is_algebraic_value(x):
            a = x.approx(20)
            return a.numerator_as_long() / a.denominator_as_long()
    except (OverflowError, z3.Z3Exception):
        pass
    return None


def cvc5_unsat(solver, seconds):
    t0 = time.time()
    txt = "(set-logic ALL)\n" + solver.to_smt2()
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(seconds * 1000), "-"], input=txt, text=True,
                           capture_output=True, timeout=seconds + 5)
        ok = r.stdout.strip().split("\n")[0].strip() == "unsat"
    except (OSError, subprocess.TimeoutExpired):
        ok = False
    STAT["time"] += time.time() - t0
    STAT["queries"] += 1
    return ok


class Result:
    __slots__ = ("ok", "how", "model", "why")

    def __init__(self, ok, how, model=None, why=""):
        self.ok, self.how, self.model, self.why = ok, how, model, why


def prove(hyps, goal, seconds=4.0, normer=None, cvc=True):
    """hyps => goal ; hyps, goal: boolean terms (or already canonical keys)"""
    N = normer or enc().normer
    try:
        hk = [h if isinstance(h, (tuple, bool)) else N.bkey(h) for h in hyps]
        gk = goal if isinstance(goal, (tuple, bool)) else N.bkey(goal)
    except nm.TooBig as e:
        return Result(False, "ring", None, "normal form too large: %s" % e)
    if gk is True or gk in [h for h in hk if isinstance(h, tuple)]:
        return Result(True, "ring")
    if any(h is False for h in hk):
        return Result(True, "ring")
    neg = N._neg(gk)
    keys = [h for h in hk if h is not True] + [neg]
    model = None
    for mono in (False, True):
        r, m, s = check(keys, int(seconds * 1000 / 2), mono)
        if r == "unsat":
            STAT["z3"] += 1
            return Result(True, "z3")
        if r == "sat":
            model = m
            why = "sat"
        else:
            why = "unknown"
    if cvc and r == "unknown":
        if cvc5_unsat(s, seconds):
            STAT["cvc5"] += 1
            return Result(True, "cvc5")
    return Result(False, "z3", model, why)


def feasible(keys, timeout_ms=400):
    if any(k is False for k in keys):
        return False
    keys = [k for k in keys if k is not True]
    if not keys:
        return True
    r, _, _ = check(keys, timeout_ms)
    return r != "unsat"
