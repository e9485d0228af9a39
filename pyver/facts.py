"""Every fact a contract offers to its callers follows from its specification (lemmas)."""
from . import terms as tm
from . import models as md
from . import contract as ct
from .contract import SYM, pure, WallTime
from .prove import Prover, Verdict
from .verify import Sink, symargs


def split(goal):
    """conjuncts of a goal, hypotheses moved out: [(hyps, goal)]"""
    g = tm.lift(goal)
    if g.op == "and":
        return [x for a in g.args for x in split(a)]
    if g.op == "implies":
        return [([g.args[0]] + h, c) for h, c in split(g.args[1])]
    if g.op == "or" and len(g.args) == 2 and tm.lift(g.args[0]).op == "not":
        return [([g.args[0].args[0]] + h, c) for h, c in split(g.args[1])]
    return [([], g)]


def goals(c):
    for label, args, hyps in symargs(c):
        with pure():
            spec = c.deviation or c.spec
            v = spec(SYM, *args)
            pre = c.precondition(args) + c.narrow(args)
            fs = [tm.lift(f) for f in c.facts(SYM, v, *args)] if c.facts else []
        for i, f in enumerate(fs):
            yield label, args, hyps + pre, i, f, v


def lemma(qual, seconds=5.0, budget=60.0):
    c = ct.REG[qual]
    sink = Sink(qual, {"lemma": "facts"})
    if c.facts is None:
        return sink
    from .smt import enc
    N = enc().normer
    P = Prover(seconds, budget)
    done = set()
    for label, args, hyps, i, f, v in goals(c):
        cuts, abstract = [], []
        if c.proof is not None:
            with pure():
                pr = c.proof(SYM, *args)
            if pr is not None:
                cuts, abstract = pr
        ren = {t.id: tm.var("abs%d" % k) for k, t in enumerate(abstract)}
        tag = "lemma %s%s" % (c.name, "[%s]" % label if label else "")
        keys = [N.bkey(x) for x in hyps]
        if label not in done:
            done.add(label)
            for k, cut in enumerate(cuts):
                sink.add("%s: cut %d" % (tag, k), decide(P, c, args, keys, hyps, cut))
        for j, (h, g) in enumerate(split(f)):
            hs = hyps + h
            if abstract:
                with pure():
                    hs = [tm.rebuild(x, lambda t: ren.get(t.id)) for x in hs + cuts]
                    g = tm.rebuild(g, lambda t: ren.get(t.id))
            sink.add("%s: fact %d.%d of the specification" % (tag, i, j), decide(P, c, args, [N.bkey(x) for x in hs], hs, g))
    return sink


def decide(P, c, args, keys, hyps, g):
    from . import ival
    r = P.prove(keys, g)
    if not r.ok:
        r2 = ival.prove(c, args, hyps, g)
        if r2 is not None:
            return r2
    return r
