"""Bounds that a path puts on linear forms (x, 12 y + m, ...), to decide most branches without a solver.
Only certain answers are given; everything else is left to the solver."""
import math
from . import norm as nm


def split(key):
    """the form without its constant term, leading coefficient positive: (form, sign, constant)"""
    c = 0
    if key and key[0][0] == ():
        c, key = key[0][1], key[1:]
    if key[-1][1] < 0:
        return tuple((m, -k) for m, k in key), -1, c
    return key, 1, c


class Bounds:
    def __init__(self):
        self.lo, self.hi, self.ne, self.ints = {}, {}, {}, {}

    def isint(self, q):
        r = self.ints.get(q)
        if r is None:
            r = self.ints[q] = all(c.denominator == 1 and nm._intmono(m) for m, c in q)
        return r

    def _lower(self, q, v, strict):
        if self.isint(q):
            v, strict = (math.floor(v) + 1 if strict else math.ceil(v)), False
        old = self.lo.get(q)
        if old is None or (v, strict) > old:
            self.lo[q] = (v, strict)

    def _upper(self, q, v, strict):
        if self.isint(q):
            v, strict = (math.ceil(v) - 1 if strict else math.floor(v)), False
        old = self.hi.get(q)
        if old is None or (v, not strict) < (old[0], not old[1]):
            self.hi[q] = (v, strict)

    def add(self, k, yes=True):
        if not isinstance(k, tuple):
            return
        op = k[0]
        if op == "not":
            self.add(k[1], not yes)
        elif op in ("and", "or"):
            if (op == "and") == yes:
                for x in k[1]:
                    self.add(x, yes)
        elif op == "lt":
            q, s, c = split(k[1])           # s q + c < 0
            v = -c * s
            if s > 0:
                self._upper(q, v, True) if yes else self._lower(q, v, False)
            else:
                self._lower(q, v, True) if yes else self._upper(q, v, False)
        elif op == "eq":
            q, s, c = split(k[1])
            v = -c * s
            if yes:
                self._lower(q, v, False)
                self._upper(q, v, False)
            else:
                self.ne.setdefault(q, set()).add(v)
        else:
            return
        if op in ("lt", "eq") and self.isint(q):
            out = self.ne.get(q, ())
            while out and q in self.lo and self.lo[q][0] in out:
                self.lo[q] = (self.lo[q][0] + 1, False)
            while out and q in self.hi and self.hi[q][0] in out:
                self.hi[q] = (self.hi[q][0] - 1, False)

    def says(self, k):
        """True, False or None"""
        if not isinstance(k, tuple):
            return k
        op = k[0]
        if op == "not":
            r = self.says(k[1])
            return None if r is None else not r
        if op in ("and", "or"):
            rs = [self.says(x) for x in k[1]]
            if any(r is (op == "or") for r in rs):
                return op == "or"
            return None if None in rs else op == "and"
        if op not in ("lt", "eq"):
            return None
        q, s, c = split(k[1])
        v = -c * s
        lo, hi = self.lo.get(q), self.hi.get(q)
        if op == "eq":
            if v in self.ne.get(q, ()):
                return False
            if lo is not None and (lo[0] > v or lo[0] == v and lo[1]) or hi is not None and (hi[0] < v or hi[0] == v and hi[1]):
                return False
            if lo == hi == (v, False):
                return True
            return False if self.isint(q) and v != math.floor(v) else None
        if s > 0:       # q < v
            if hi is not None and (hi[0] < v or hi[0] == v and hi[1]):
                return True
            if lo is not None and lo[0] >= v:
                return False
        else:           # q > v
            if lo is not None and (lo[0] > v or lo[0] == v and lo[1]):
                return True
            if hi is not None and hi[0] <= v:
                return False
        return None
