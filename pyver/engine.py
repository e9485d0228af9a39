"""Path exploration by re-execution, and the semantics behind the extracted code."""
import signal
import time
import types
from fractions import Fraction
from . import terms as tm
from . import norm as nm
from . import smt
from . import cells
from .bounds import Bounds
from .terms import T, Unsupported, hooks


class PathEnd(BaseException):
    """end of an arbitrary loop iteration (inductive rule)"""


class Restart(BaseException):
    """the loop rule learned an induction variable: explore again"""


class Deadline(BaseException):
    pass


class Outcome:
    __slots__ = ("kind", "value", "pc", "keys", "warnings", "effects", "yields", "loops", "calls",
                 "pinfo", "trace", "cells")

    def __repr__(self):
        return "<%s %r | %s>" % (self.kind, self.value, " and ".join(tm.show(p, 5) for p in self.pc) or "true")


class LoopInfo:
    pass


UNBOUND = type("Unbound", (), {"__repr__": lambda s: "<unbound>"})()


class Engine:
    def __init__(self, world, hyps=(), budget=60.0, max_paths=4000, numpy=False):
        self.world = world
        self.hyps = list(hyps)
        self.normer = smt.enc().normer
        self.hkeys = [self.normer.bkey(h) for h in self.hyps]
        self.budget = budget
        self.max_paths = max_paths
        self.fcache = {}
        self.delta = {}          # loop induction variables: (site, var) -> delta or None
        self.induct = set()      # while-loops taken by induction
        self.native = False
        self.active = False
        self.unresolved = []
        self.snap = None

    # -- exploration -------------------------------------------------------
    def explore(self, thunk):
        t_end = time.time() + self.budget
        for attempt in range(12):
            try:
                return self._explore(thunk, t_end)
            except Restart:
                continue
            except Unsupported:
                if not self.induct or self.native:
                    raise
                self.world.native_loops |= self.induct
                self.native = True       # induction does not work out: unroll
                self.induct.clear()
                self.delta.clear()
        raise Unsupported("loop rule did not stabilise")

    def _explore(self, thunk, t_end):
        outs, stack = [], [[]]
        saved = (hooks.decide, hooks.pick, hooks.divisor)
        prev = Engine.current
        Engine.current = self
        hooks.decide, hooks.pick, hooks.divisor = self.decide, self.pick, self.divisor
        w = self.world
        free = bool(w.cells) and not w.busy      # state that calls may leave behind is arbitrary
        snap = self.snap = w.snapshot()
        first = snap
        try:
            while stack:
                prefix = stack.pop()
                self.prefix, self.trail = prefix, []
                self.pc, self.keys = [], list(self.hkeys)
                self.keyset = set(k for k in self.keys if isinstance(k, tuple))
                self.bounds = Bounds()
                for k in self.keys:
                    self.bounds.add(k)
                self.notes = []
                self.warnings, self.calls, self.loops, self.yields = [], [], [], []
                self.pinfo = {}
                o = Outcome()
                left = t_end - time.time()
                if left <= 0 or len(outs) > self.max_paths:
                    raise Unsupported("path budget exhausted (%d paths)" % len(outs))
                old = signal.signal(signal.SIGALRM, _alarm)
                signal.setitimer(signal.ITIMER_REAL, min(left, 60.0) + 1)
                try:
                    if free:
                        w.busy = True
                        held = w.held = cells.havoc(w, self.choose)
                        snap = self.snap = w.snapshot()
                    try:
                        v = thunk()
                        if isinstance(v, types.GeneratorType):
                            for y in v:
                                self.elsewhere()
                                if any(l.mode == "ghost" for l in self.loops):
                                    continue
                                self.yields.append((y, tuple(l for l in self.loops if l.mode == "body")))
                            v = None
                            o.kind = "generated"
                        else:
                            o.kind = "return"
                        o.value = v
                    except PathEnd:
                        o.kind, o.value = "loopend", None
                    except RecursionError as e:
                        raise Unsupported("recursion")
                    except Exception as e:
                        o.kind, o.value = "raise", e
                        if any(l.mode == "ghost" for l in self.loops):
                            o.kind, o.value = "loopend", None
                except Deadline:
                    raise Unsupported("execution of one path took too long")
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    signal.signal(signal.SIGALRM, old)
                    self.active = False
                o.pc, o.keys = list(self.pc), [k for k in self.keys if k is not True]
                o.warnings, o.calls = self.warnings, self.calls
                o.yields, o.loops = self.yields, self.loops
                o.pinfo = self.pinfo
                o.trace = list(self.trail)
                d = self.world.diff(self.snap)
                o.effects = d + [x for x in self.notes if x not in d]
                o.cells = set()
                if free:
                    o.cells = set(w.cells) | cells.paths(self.snap, w.cells)
                    o.effects += cells.other_kinds(held)
                    w.busy, w.held = False, None
                    w.restore(snap)
                    cells.unhavoc(held)
                else:
                    w.restore(snap)
                outs.append(o)
                for i in range(len(prefix), len(self.trail)):
                    val, alts = self.trail[i]
                    for a in alts:
                        stack.append(self.trail[:i] + [(a, ())])
        finally:
            if free:
                w.busy = False
            w.restore(snap)
            w.restore(first)
            hooks.decide, hooks.pick, hooks.divisor = saved
            Engine.current = prev
        return outs

    def passing(self):
        """state changed at a point where other code runs counts as an effect, even if it is put back later"""
        if self.snap is not None:
            self.notes += [x for x in self.world.diff(self.snap) if x not in self.notes]

    def elsewhere(self):
        """other code runs here, which may call the library: its state is arbitrary afterwards"""
        self.passing()
        held = self.world.held
        if held:
            self.notes += [x for x in cells.other_kinds(held) if x not in self.notes]
            cells.again(held, self.choose)
            self.snap = self.world.snapshot()

    # -- decisions -----------------------------------------------------------
    def assume(self, t):
        k = self.normer.bkey(t)
        if k is True:
            return
        self.pc.append(t)
        self.keys.append(k)
        if isinstance(k, tuple):
            self.keyset.add(k)
            self.bounds.add(k)

    def sat(self, k):
        if k is False:
            return False
        if k is True:
            return True
        if k in self.keyset:
            return True
        if self.normer._neg(k) in self.keyset:
            return False
        r = self.bounds.says(k)
        if r is not None:
            return r
        ck = (frozenset(self.keyset), k)
        r = self.fcache.get(ck)
        if r is None:
            # interesting: only the keys sharing atoms matter, but z3 is quick enough here
            r = smt.feasible([x for x in self.keys if isinstance(x, tuple)] + [k])
            self.fcache[ck] = r
        return r

    def _replayed(self):
        i = len(self.trail)
        if i < len(self.prefix):
            e = self.prefix[i]
            self.trail.append(e if i < len(self.prefix) - 1 else (e[0], ()))
            return True, e[0]
        return False, None

    def decide(self, t):
        try:
            k = self.normer.bkey(t)
        except nm.TooBig as e:
            raise Unsupported("condition too large")
        if k is True or k is False:
            return k
        if k in self.keyset:
            return True
        nk = self.normer._neg(k)
        if nk in self.keyset:
            return False
        rep, v = self._replayed()
        if not rep:
            if not self.sat(k):
                v, alts = False, ()
            elif not self.sat(nk):
                v, alts = True, ()
            else:
                v, alts = True, (False,)
            self.trail.append((v, alts))
        self.assume(t if v else tm.not_(t))
        return v

    def choose(self, options):
        """nondeterministic choice (both are explored)"""
        rep, v = self._replayed()
        if not rep:
            v = options[0]
            self.trail.append((v, tuple(options[1:])))
        return v

    def pick(self, t):
        """value of a symbolic integer: one path per feasible value"""
        rep, v = self._replayed()
        if not rep:
            vals = self.values(t)
            if not vals:
                raise Unsupported("no value for an index")
            v = vals[0]
            self.trail.append((v, tuple(vals[1:])))
        self.assume(tm.eq(t, v))
        return v

    def values(self, t, limit=400):
        vals, keys = [], [x for x in self.keys if isinstance(x, tuple)]
        x = tm.var("__pick", "I")
        base = keys + [self.normer.bkey(tm.eq(x, t))]
        while True:
            r, m, _ = smt.check(base, 2000)
            if r == "unsat":
                return vals
            if r != "sat" or m.get("__pick") is None or len(vals) >= limit:
                raise Unsupported("index with too many values")
            v = int(m["__pick"])
            vals.append(v)
            base.append(self.normer.bkey(tm.not_(tm.eq(x, v))))

    def divisor(self, b):
        """x / 0: forks into the ZeroDivisionError path unless b is provably non-zero"""
        if b.op == "const":
            if b.args[0] == 0:
                raise ZeroDivisionError("division by zero")
            return
        p = self.normer.norm(b)
        if self.float_nonzero(p):
            return
        if self.contracts_give(tm.not_(tm.eq(b, 0))):
            return
        if self.decide(tm.eq(b, 0)):
            raise ZeroDivisionError("division by zero")

    def float_nonzero(self, p):
        """products of pi, cos(..) of a double, exp(..) are never exactly zero in floating point"""
        if len(p.d) != 1:
            return False
        (m, c), = p.d.items()
        for a, k in m:
            at = nm.get_atom(a)
            if at.kind in ("pi", "exp"):
                continue
            if at.kind == "cos":
                self.pinfo.setdefault("float facts", set()).add("cos of a double is never exactly 0")
                continue
            if not self.sat(("eq", nm.patom(at).key)) and k > 0:
                continue
            return False
        return True

    def prove(self, goal, seconds=3.0):
        return smt.prove([k for k in self.keys if k is not True], goal, seconds)

    def proves(self, keys, k):
        return smt.prove([x for x in keys if x is not True], k, 2.0, cvc=False).ok

    def entails(self, goal, seconds=1.0):
        k = self.normer.bkey(goal)
        if k is True or k in self.keyset:
            return True
        if k is False:
            return False
        if self.bounds.says(k) is True:
            return True
        ck = ("ent", frozenset(self.keyset), k)
        r = self.fcache.get(ck)
        if r is None:
            r = self.fcache[ck] = smt.prove([x for x in self.keys if x is not True], k, seconds, cvc=False).ok
        return r

    def domain(self, what, cond):
        """True if cond holds (on this path); False on the forked path where it fails"""
        c = tm.lift(cond)
        if tm.isconst(c):
            return bool(tm.cval(c))
        if self.entails(c) or self.contracts_give(c):
            return True
        return self.decide(c)

    def contracts_give(self, c):
        """what the contracts of the callees say about their results settles c"""
        from . import contract as ct
        for _ in range(2):
            c, ch = ct.expand_apps(c)
            if not ch:
                return False
            if self.entails(c):
                return True
        return False


Engine.current = None


def _alarm(*a):
    raise Deadline()


def cur():
    return Engine.current
