"""Ring normal form of terms over canonical (transcendental) atoms.

A polynomial is {monomial: Fraction}; a monomial is a sorted tuple of (atom index, exponent).
Atoms are interned by the normal form of their arguments, so two syntactically different but
ring-equal arguments give the same atom.  Every rewriting here is an identity of real (integer)
arithmetic, valid wherever both sides are defined; division is inversion in the field, valid
because each divisor is separately proved non-zero where the code divides.
"""
from fractions import Fraction
import math as _math
from . import terms as tm
from .terms import T

F0, F1 = Fraction(0), Fraction(1)
MAXTERMS = 30000


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ("idx", "kind", "data", "isint", "term")


_atoms = []
_atomkey = {}


def atom(kind, data, isint=False, term=None):
    key = (kind,) + tuple(d.key if isinstance(d, Poly) else d for d in data)
    a = _atomkey.get(key)
    if a is None:
        a = Atom()
        a.idx, a.kind, a.data, a.isint, a.term = len(_atoms), kind, data, isint, term
        _atoms.append(a)
        _atomkey[key] = a
    return a


def get_atom(i):
    return _atoms[i]


class Poly:
    __slots__ = ("d", "_key")

    def __init__(self, d):
        self.d = d
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.d.items()))
        return self._key

    def is_zero(self):
        return not self.d

    def const(self):
        """Fraction if constant else None"""
        if not self.d:
            return F0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def __repr__(self):
        return showp(self)


def pconst(c):
    c = Fraction(c)
    return Poly({(): c} if c else {})


def patom(a):
    return Poly({((a.idx, 1),): F1})


def padd(p, q, k=F1):
    if len(p.d) < len(q.d) and k == 1:
        p, q = q, p
    d = dict(p.d)
    for m, c in q.d.items():
        v = d.get(m, F0) + k * c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return Poly(d)


def pscale(p, k):
    k = Fraction(k)
    return Poly({m: c * k for m, c in p.d.items()} if k else {})


def _monomul(m1, m2):
    """product of monomials, as dict of monomials (sin^2 is reduced to 1 - cos^2)"""
    if not m1:
        return {m2: F1}
    if not m2:
        return {m1: F1}
    e = dict(m1)
    for a, k in m2:
        v = e.get(a, 0) + k
        if v:
            e[a] = v
        else:
            e.pop(a, None)
    return _reduce(e)


def _reduce(e):
    for a, k in e.items():
        if k >= 2:
            at = _atoms[a]
            if at.kind == "sin":
                c = _cosatom(at)
                e1 = dict(e)
                if k == 2:
                    del e1[a]
                else:
                    e1[a] = k - 2
                r1 = _reduce(dict(e1))
                e2 = dict(e1)
                v = e2.get(c, 0) + 2
                if v:
                    e2[c] = v
                else:
                    e2.pop(c)
                r2 = _reduce(e2)
                out = dict(r1)
                for m, x in r2.items():
                    v = out.get(m, F0) - x
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                return out
            if at.kind == "sqrt" :
                p = at.data[0]
                e1 = dict(e)
                if k == 2:
                    del e1[a]
                else:
                    e1[a] = k - 2
                r = pmul(Poly(_reduce(e1)), p)
                return dict(r.d)
        elif k <= -2 and _atoms[a].kind == "sqrt":
            e1 = dict(e)
            if k == -2:
                del e1[a]
            else:
                e1[a] = k + 2
            return dict(pmul(Poly(_reduce(e1)), pinv(_atoms[a].data[0])).d)
    return {tuple(sorted(e.items())): F1}


def _cosatom(sin_atom):
    return atom("cos", sin_atom.data).idx


def pmul(p, q):
    if len(p.d) * len(q.d) > MAXTERMS:
        raise TooBig()
    d = {}
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            for m, c in _monomul(m1, m2).items():
                v = d.get(m, F0) + c * c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
    if len(d) > MAXTERMS:
        raise TooBig()
    return Poly(d)


def pinv(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = Poly({(): F1 / c})
        for a, k in m:
            at = _atoms[a]
            if at.kind == "inv" and k > 0:
                r = pmul(r, ppow(at.data[0], k))
            else:
                r = pmul(r, Poly({((a, -k),): F1}))
        return r
    if p.d:
        low = {}     # common power of each atom (0 where an atom is absent)
        for i, m in enumerate(p.d):
            e = dict(m)
            for a in set(low) | set(e):
                low[a] = min(low.get(a, 0) if i else e.get(a, 0), e.get(a, 0))
        low = {a: k for a, k in low.items() if k}
        if low:
            f = Poly({tuple(sorted((a, -k) for a, k in low.items())): F1})
            return pmul(f, pinv(pmul(p, f)))
    if not p.d:
        return patom(atom("inv", (p,)))
    lead = p.key[-1][1]
    q = pscale(p, 1 / lead)
    return pscale(patom(atom("inv", (q,))), 1 / lead)


def _inverted(p):
    """written with the inverse of a sum"""
    return any(_atoms[a].kind == "inv" and k > 0 for m in p.d for a, k in m)


def _negs(p):
    return sum(k < 0 for m in p.d for _, k in m)


def ppow(p, n):
    if n < 0:
        return ppow(pinv(p), -n)
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


def _intmono(m):
    return all(k > 0 and _atoms[a].isint for a, k in m)


def is_int_poly(p):
    return all(c.denominator == 1 and _intmono(m) for m, c in p.d.items())


PIA = atom("pi", ())


def _trig_reduce(p):
    """argument -> (quarter turns, sign, canonical argument)"""
    d = dict(p.d)
    pi_m = ((PIA.idx, 1),)
    for m in list(d):
        if len(m) >= 2 or (len(m) == 1 and m != pi_m):
            e = dict(m)
            if e.get(PIA.idx) == 1:
                rest = [(a, k) for a, k in m if a != PIA.idx]
                if rest and all(k > 0 and _atoms[a].isint for a, k in rest):
                    c = d[m]
                    if c.denominator == 1 and c % 2 == 0:
                        del d[m]
    q = d.get(pi_m, F0)
    k = _math.floor(2 * q + Fraction(1, 2))
    r = q - Fraction(k, 2)
    if r:
        d[pi_m] = r
    else:
        d.pop(pi_m, None)
    p = Poly(d)
    sign = 1
    if d:
        lead = p.key[-1][1]
        if lead < 0:
            sign = -1
            p = pscale(p, -1)
    return k % 4, sign, p


def _single_atom(p):
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atoms[m[0][0]]
    return None


def psincos(which, p):
    k, sign, q = _trig_reduce(p)
    # sin(sign*q + k*pi/2)
    if which == "cos":
        k = (k + 1) % 4  # cos(x) = sin(x + pi/2)
    # now sin(sign*q + k pi/2): k=0 sin, 1 cos, 2 -sin, 3 -cos
    use = "sin" if k % 2 == 0 else "cos"
    outer = -1 if k >= 2 else 1
    if use == "sin":
        outer *= sign
    if q.is_zero():
        return pconst(0) if use == "sin" else pconst(outer)
    sa = _single_atom(q)
    if sa is not None:
        if use == "sin" and sa.kind == "asin":
            return pscale(sa.data[0], outer)
        if sa.kind == "asin":
            return pscale(psqrt(padd(pconst(1), pmul(sa.data[0], sa.data[0]), -F1)), outer)
        if sa.kind == "atan":
            t = sa.data[0]
            r = pinv(psqrt(padd(pconst(1), pmul(t, t))))
            return pscale(pmul(t, r) if use == "sin" else r, outer)
        if sa.kind == "atan2":
            y, x = sa.data
            r = pinv(psqrt(padd(pmul(y, y), pmul(x, x))))
            return pscale(pmul(y if use == "sin" else x, r), outer)
    return pscale(patom(atom(use, (q,))), outer)


# ---- expansion of sines and cosines of sums and multiples (identities), used as a second attempt
def collect_trig(p, bases, seen=None):
    """{monomial: set of |coefficients|} over the arguments of every sine and cosine inside p"""
    seen = set() if seen is None else seen
    for m in p.d:
        for a, _ in m:
            if a in seen:
                continue
            seen.add(a)
            at = _atoms[a]
            for x in at.data:
                if isinstance(x, Poly):
                    if at.kind in ("sin", "cos"):
                        for mm, c in x.d.items():
                            bases.setdefault(mm, set()).add(abs(c))
                    collect_trig(x, bases, seen)
    return bases


def trig_units(bases):
    """base unit of each monomial: common divisor of its coefficients (limited multiples)"""
    out = {}
    for m, cs in bases.items():
        g = None
        for c in cs:
            g = c if g is None else Fraction(_math.gcd(g.numerator * c.denominator, c.numerator * g.denominator),
                                             g.denominator * c.denominator)
        if g and max(cs) / g <= 12:
            out[m] = g
    return out


def psincos_expanded(p, units):
    """(sin, cos) of p as polynomials in the sines and cosines of the base arguments"""
    k, sign, q = _trig_reduce(p)
    s, c = pconst(0), pconst(1)
    for m, co in q.d.items():
        g = units.get(m, abs(co))
        n = co / g
        if n.denominator != 1 or abs(n) > 12:
            g, n = abs(co), Fraction(1 if co > 0 else -1)
        a = Poly({m: g})
        s1, c1 = patom(atom("sin", (a,))), patom(atom("cos", (a,)))
        sn, cn = pconst(0), pconst(1)
        for _ in range(abs(int(n))):
            sn, cn = padd(pmul(sn, c1), pmul(cn, s1)), padd(pmul(cn, c1), pmul(sn, s1), -F1)
        if n < 0:
            sn = pscale(sn, -1)
        s, c = padd(pmul(s, cn), pmul(c, sn)), padd(pmul(c, cn), pmul(s, sn), -F1)
    if sign < 0:
        s = pscale(s, -1)
    for _ in range(k):
        s, c = c, pscale(s, -1)
    return s, c


def psqrt(p):
    c = p.const()
    if c is not None and c >= 0:
        n, d = _math.isqrt(c.numerator), _math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return pconst(Fraction(n, d))
    return patom(atom("sqrt", (p,)))


def clear_denoms(p, rounds=6):
    """numerator of p: p == 0 iff the result == 0 wherever the denominators are non-zero"""
    for _ in range(rounds):
        k = {}
        for m in p.d:
            for a, e in m:
                if _atoms[a].kind == "inv" and e > 0:
                    k[a] = max(k.get(a, 0), e)
                elif e < 0:
                    k[a] = min(k.get(a, 0), e)
        if not k:
            return p
        a = min(k, key=lambda i: -i)
        at = _atoms[a]
        q = at.data[0] if at.kind == "inv" and k[a] > 0 else patom(at)
        K = abs(k[a])
        pows = [pconst(1)]
        for _i in range(K):
            pows.append(pmul(pows[-1], q))
        out = pconst(0)
        groups = {}
        for m, c in p.d.items():
            e = dict(m).get(a, 0)
            if k[a] < 0:
                e = -e
            rest = tuple(x for x in m if x[0] != a)
            if e < 0:     # positive power of a plain atom
                groups.setdefault(e, {})[rest] = c
            else:
                groups.setdefault(e, {})[rest] = c
        for e, d in groups.items():
            if e >= 0:
                f = pows[K - e]
            else:
                f = ppow(q, K - e)
            out = padd(out, pmul(Poly(d), f))
        p = out
        if p.is_zero():
            return p
    return p


def pfloor(p):
    d, ip = {}, {}
    for m, c in p.d.items():
        if _intmono(m):
            f = _math.floor(c)
            if f:
                ip[m] = Fraction(f)
            r = c - f
            if r:
                d[m] = r
        else:
            d[m] = c
    rest = Poly(d)
    if rest.const() is not None:   # 0 <= const < 1
        return Poly(ip)
    return padd(Poly(ip), patom(atom("floor", (rest,), isint=True)))


class Normer:
    """Normalises under a set of assumed boolean keys (for case splits)."""

    def __init__(self, assume=None, units=None):
        self.assume = assume or {}
        self.units = units
        self.memo = {}
        self.bmemo = {}

    def norm(self, t):
        t = tm.lift(t)
        r = self.memo.get(t.id)
        if r is None:
            # explicit stack to avoid deep recursion on long sums
            stack = [t]
            while stack:
                x = stack[-1]
                if x.id in self.memo:
                    stack.pop()
                    continue
                todo = [a for a in x.args if isinstance(a, T) and a.sort in ("R", "I") and a.id not in self.memo]
                if x.op in ("add", "mul") and todo:
                    stack.extend(todo)
                    continue
                self.memo[x.id] = self._norm(x)
                stack.pop()
            r = self.memo[t.id]
        return r

    def _norm(self, t):
        op, a = t.op, t.args
        if t.sort == "B":
            return self.norm(tm.b2i(t))
        if op == "const":
            return pconst(a[0])
        if op == "var":
            return patom(atom("var", (a[0], t.sort), isint=t.sort == "I", term=t))
        if op == "add":
            return padd(self.norm(a[0]), self.norm(a[1]))
        if op == "mul":
            return pmul(self.norm(a[0]), self.norm(a[1]))
        if op == "div":
            return pmul(self.norm(a[0]), pinv(self.norm(a[1])))
        if op == "toreal":
            return self.norm(a[0])
        if op == "floor":
            return pfloor(self.norm(a[0]))
        if op == "idiv":
            return pfloor(pmul(self.norm(a[0]), pinv(self.norm(a[1]))))
        if op == "mod":
            x, y = self.norm(a[0]), self.norm(a[1])
            return padd(x, pmul(y, pfloor(pmul(x, pinv(y)))), F1 * -1)
        if op == "round":
            p = self.norm(a[0])
            if is_int_poly(p):
                return p
            if p.const() is not None:
                return pconst(round(p.const()))
            return patom(atom("round", (p,), isint=True))
        if op == "pow":
            return self._pow(t)
        if op == "ite":
            return self._ite(t)
        if op == "fn":
            return self._fn(t)
        if op == "app":
            key = []
            for x in a[1:]:
                key.append(self._argkey(x))
            return patom(atom("app", (a[0],) + tuple(key), isint=t.sort == "I", term=t))
        raise TooBig("cannot normalise " + op)

    def _argkey(self, x):
        if isinstance(x, T):
            if x.sort == "O":
                o = x.args[0]
                return ("obj", o.nkey(self) if hasattr(o, "nkey") else id(o))
            if x.sort == "B":
                return ("b", self.bkey(x))
            return self.norm(x)
        return x

    def _pow(self, t):
        b, e = t.args
        ep = self.norm(e)
        c = ep.const()
        bp = self.norm(b)
        if c is not None:
            if c.denominator == 1 and abs(c) <= 64:
                return ppow(bp, int(c))
            bc = bp.const()
            if bc is not None and bc == 1:
                return pconst(1)
            if c == Fraction(1, 2):
                return self._sqrt(bp)
            return self._power(bp, pconst(c))
        sa = _single_atom(bp)
        if sa is not None and sa.kind == "exp" and sa.data[0].const() == 1:
            return self._exp(ep)
        return self._power(bp, ep)

    def _power(self, b, e):
        """b ** e for b >= 0 (b > 0 where e < 0): b ** -e and (1/b) ** e are both 1 / b ** e"""
        if e.d and e.key[-1][1] < 0:
            return pinv(self._power(b, pscale(e, -1)))
        r = pinv(b) if len(b.d) <= 12 else b
        if r.key != b.key and (_inverted(b) and not _inverted(r) or len(b.d) == len(r.d) == 1 and
                               (_inverted(r), _negs(r), r.key) < (_inverted(b), _negs(b), b.key)):
            return pinv(patom(atom("pow", (r, e))))
        return patom(atom("pow", (b, e)))

    def _sqrt(self, p):
        return psqrt(p)

    def _exp(self, p):
        if p.is_zero():
            return pconst(1)
        return patom(atom("exp", (p,)))

    def _fn(self, t):
        name = t.args[0]
        if name == "pi":
            return patom(PIA)
        ps = [self.norm(x) for x in t.args[1:]]
        if self.units is not None and name in ("sin", "cos", "tan") and not (
                _single_atom(_trig_reduce(ps[0])[2]) and _single_atom(_trig_reduce(ps[0])[2]).kind in ("asin", "acos", "atan", "atan2")):
            sn, cn = psincos_expanded(ps[0], self.units)
            return sn if name == "sin" else cn if name == "cos" else pmul(sn, pinv(cn))
        if name in ("sin", "cos"):
            return psincos(name, ps[0])
        if name == "tan":
            return pmul(psincos("sin", ps[0]), pinv(psincos("cos", ps[0])))
        if name == "exp":
            return self._exp(ps[0])
        if name == "sqrt":
            return self._sqrt(ps[0])
        if name in ("asin", "atan"):
            p = ps[0]
            if p.is_zero():
                return pconst(0)
            if p.key[-1][1] < 0:
                return pscale(patom(atom(name, (pscale(p, -1),))), -1)
            return patom(atom(name, (p,)))
        if name == "acos":      # pi/2 - asin
            p = ps[0]
            h = pscale(patom(PIA), Fraction(1, 2))
            if p.is_zero():
                return h
            if p.key[-1][1] < 0:
                return padd(h, patom(atom("asin", (pscale(p, -1),))))
            return padd(h, patom(atom("asin", (p,))), F1 * -1)
        if name == "atan2":     # odd in y, except that both atan2(0, x < 0) are pi
            y, x = ps
            if y.d and y.key[-1][1] < 0:
                r = pscale(patom(atom(name, (pscale(y, -1), x))), -1)
                k = self._kand(self._keq(y), self._klt(x))
                if k is False:
                    return r
                two = pscale(patom(PIA), 2)
                if k is True:
                    return padd(r, two)
                return padd(r, pmul(two, patom(atom("ite", (k, pconst(1), pconst(0)), isint=True))))
        if name == "log" and ps[0].const() == 1:
            return pconst(0)
        return patom(atom(name, tuple(ps)))

    def _ite(self, t):
        c, a, b = t.args
        k = self.bkey(c)
        if k is True:
            return self.norm(a)
        if k is False:
            return self.norm(b)
        pa, pb = self.norm(a), self.norm(b)
        if pa.key == pb.key:
            return pa
        if isinstance(k, tuple) and k[0] == "not":
            k, pa, pb = k[1], pb, pa
        # ite(c, 1, 0)-style atoms scale better as difference + base
        ca, cb = pa.const(), pb.const()
        isint = is_int_poly(pa) and is_int_poly(pb)
        if ca is not None and cb is not None:
            at = patom(atom("ite", (k, pconst(1), pconst(0)), isint=True, term=t))
            return padd(pconst(cb), pscale(at, ca - cb))
        return patom(atom("ite", (k, pa, pb), isint=isint, term=t))

    # booleans -----------------------------------------------------------
    def bkey(self, t):
        """Canonical hashable key of a boolean term, or True/False."""
        r = self.bmemo.get(t.id)
        if r is None:
            r = self._bkey(t)
            self.bmemo[t.id] = r
        return r

    def _look(self, k):
        if k is True or k is False:
            return k
        v = self.assume.get(k)
        return k if v is None else v

    def _bkey(self, t):
        op, a = t.op, t.args
        if op == "const":
            return bool(a[0])
        if op == "not":
            return self._neg(self.bkey(a[0]))
        if op in ("and", "or"):
            ks = []
            for x in a:
                k = self.bkey(x)
                if k is (op == "or"):
                    return op == "or"
                if k is (op == "and"):
                    continue
                ks.append(k)
            if not ks:
                return op == "and"
            ks = sorted(set(ks), key=repr)
            if len(ks) == 1:
                return ks[0]
            return (op, tuple(ks))
        if op == "lt" or op == "le":
            p = self.norm(tm.sub(a[0], a[1]))   # p < 0 / p <= 0
            c = p.const()
            if c is not None:
                return bool(c < 0) if op == "lt" else bool(c <= 0)
            lead = p.key[-1][1]
            p = pscale(p, 1 / abs(lead))
            # canonical: lt with positive or negative leading coefficient; le(p) = not lt(-p)
            if op == "le":
                return self._neg(self._look(("lt", pscale(p, -1).key)))
            return self._look(("lt", p.key))
        if op == "eq":
            p = self.norm(tm.sub(a[0], a[1]))
            c = p.const()
            if c is not None:
                return c == 0
            p = pscale(p, 1 / p.key[-1][1])
            return self._look(("eq", p.key))
        if op == "var":
            return self._look(("bvar", a[0]))
        if op == "app":
            return self._look(("bapp", a[0]) + tuple(
                x.key if isinstance(x, Poly) else x for x in (self._argkey(y) for y in a[1:])))
        if op == "ite":
            return self.bkey(tm.or_(tm.and_(a[0], a[1]), tm.and_(tm.not_(a[0]), a[2])))
        raise TooBig("boolean " + op)

    def _keq(self, p):
        c = p.const()
        if c is not None:
            return c == 0
        return self._look(("eq", pscale(p, 1 / p.key[-1][1]).key))

    def _klt(self, p):
        c = p.const()
        if c is not None:
            return bool(c < 0)
        return self._look(("lt", pscale(p, 1 / abs(p.key[-1][1])).key))

    def _kand(self, *ks):
        if any(k is False for k in ks):
            return False
        ks = sorted({k for k in ks if k is not True}, key=repr)
        return True if not ks else ks[0] if len(ks) == 1 else ("and", tuple(ks))

    def _neg(self, k):
        if k is True or k is False:
            return not k
        if k[0] == "not":
            return k[1]
        return ("not", k)


def atomic_keys(k, out):
    if k is True or k is False:
        return
    if k[0] in ("and", "or"):
        for x in k[1]:
            atomic_keys(x, out)
    elif k[0] == "not":
        atomic_keys(k[1], out)
    else:
        out.append(k)


def first_ite_key(p, seen=None):
    """an atomic boolean key on which some ite inside p depends"""
    seen = set() if seen is None else seen
    for m in p.d:
        for a, _ in m:
            r = _first_ite_atom(_atoms[a], seen)
            if r is not None:
                return r
    return None


def _first_ite_atom(at, seen):
    if at.idx in seen:
        return None
    seen.add(at.idx)
    if at.kind == "ite":
        out = []
        atomic_keys(at.data[0], out)
        # innermost first: an ite inside the condition is rare, ignore
        if out:
            return out[0]
    for x in at.data:
        if isinstance(x, Poly):
            r = first_ite_key(x, seen)
            if r is not None:
                return r
    return None


def showp(p, depth=4):
    if not p.d:
        return "0"
    out = []
    for m, c in list(p.key)[:12]:
        s = [] if c == 1 and m else [str(float(c))]
        for a, k in m:
            s.append(showa(_atoms[a], depth - 1) + ("^%d" % k if k != 1 else ""))
        out.append("*".join(s))
    return " + ".join(out) + (" + ..." if len(p.d) > 12 else "")


def showa(at, depth=3):
    if at.kind == "var":
        return at.data[0]
    if depth <= 0:
        return at.kind + "(..)"
    parts = []
    for x in at.data:
        parts.append(showp(x, depth) if isinstance(x, Poly) else (x if isinstance(x, str) else ".."))
    return "%s(%s)" % (at.kind, ", ".join(parts))
