#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough] | --replay FILE | --list

Exit 0: every obligation of the property generated from /repo's current source was discharged.
Exit 1: a line "VIOLATION property=<id> replay=<file>" (" no-failing-input-found" appended when only the proof failed)."""
import json
import os
import random
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

T0 = time.time()
EVID = os.environ.get("VERIF_EVIDENCE_DIR", os.path.join(HERE, "evidence"))
REPLAYS = os.path.join(EVID, "replays")
KNOWN = os.path.join(HERE, "known_findings.txt")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known(pid):
    """{finding id: text} of the open findings of a property"""
    out = {}
    try:
        for line in open(KNOWN):
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                rest = line.split(None, 2)[2]
                i, _, text = rest.partition(" ")
                out[i] = text.strip()
    except OSError:
        pass
    return out


def one_child(thunk, limit):
    """the value of thunk, run in a forked child (fresh import of pysolar); None on error or timeout"""
    from pyver import pool
    for _, st, v, _ in pool.run({"x": (thunk, limit)}, workers=1, limit=limit):
        return (st, v)
    return ("error", None)


# ---------------------------------------------------------------- proof
def task(t, scale):
    from pyver import smt, tasks as tk

    def go():
        t0 = time.time()
        sink = tk.RUN[t[0]](*t[1], scale=scale) if scale != 1 else tk.RUN[t[0]](*t[1])
        inf = {k: (sorted(v, key=str) if isinstance(v, set) else v) for k, v in sink.info.items()}
        return {"obls": [o.pack() for o in sink], "info": inf, "smt": dict(smt.STAT), "secs": time.time() - t0, "fn": sink.fn}
    return go


def label(t):
    return "%s %s" % (t[0], " ".join(str(x) for x in t[1]))


class Proof:
    def __init__(self, pid):
        self.pid = pid
        self.results = {}        # task -> result
        self.failed = {}         # task -> [obligation]

    def run(self, todo, scale, limit, deadline):
        from pyver import pool
        seen = set(todo)
        queue = list(todo)
        while queue:
            extra = []
            for t, st, v, secs in pool.run({t: (task(t, scale), None) for t in queue}, workers=WORKERS, limit=limit, deadline=deadline):
                if st != "ok":
                    fn = str(t[1][0]) if t[1] else t[0]
                    why = {"timeout": "time limit", "skipped": "time limit of the check"}.get(st, str(v))
                    v = {"obls": [dict(name="%s: verified within its time" % label(t), fn=fn, ok=False, how="time" if st != "error" else "engine",
                                       why=why[-600:], model=None, ctx={}, finding=None, secs=secs)], "info": {}, "smt": {}, "secs": secs, "fn": fn}
                elif not v["obls"]:
                    v["obls"] = [dict(name="%s: generates obligations" % label(t), fn=v["fn"], ok=False, how="engine",
                                      why="no obligation was generated", model=None, ctx={}, finding=None, secs=secs)]
                self.results[t] = v
                bad = [o for o in v["obls"] if not o["ok"]]
                if bad:
                    self.failed[t] = bad
                else:
                    self.failed.pop(t, None)
                if t[0] in ("lift", "keeps"):
                    for q, mask in v["info"].get("arrcalls", ()):
                        u = (t[0], (q, "".join("A" if m else "." for m in mask)))
                        if u not in seen:
                            seen.add(u)
                            extra.append(u)
            queue = extra


# ---------------------------------------------------------------- search for failing inputs
def models_of(failed):
    """solver counterexamples as calls"""
    from pyver import conc, contract as ct
    out = []
    rng = random.Random(seed())
    for t, obls in failed.items():
        for o in obls:
            c = ct.REG.get(o["fn"])
            if c is None or not o["model"]:
                continue
            for _ in range(2):
                a = conc.from_model(c, o["model"], o["ctx"].get("choice"), rng)
                if a is not None:
                    for b in ([o["ctx"]["backend"]] if o["ctx"].get("backend") else ["math", "numpy"]):
                        out.append((o["fn"], b, o["ctx"].get("mode") or "", a))
    return out[:60]


def search(pid, fns, models, seconds, robust, stop_first=True, tol=None, workers=WORKERS, sampling=False, base=0, frames=False):
    """(replay record or None, statistics)"""
    from pyver import conc, oracle, pool, props
    focus = [] if sampling else oracle.focus(pid, fns, frames)
    everything = oracle.searches(pid, props.own(pid))

    def job(i):
        def f():
            rng = random.Random(1000 * (seed() + base) + i)
            st = {}
            lst = focus if focus and i % 4 != 3 else everything
            conc.WIDE = bool(focus) and i % 4 == 2
            r = oracle.run(lst, rng, seconds, robust, st, [m for j, m in enumerate(models) if j % workers == i], tol, isolate=frames)
            return r, st
        return f
    found, stats = None, {"evaluations": 0, "samples": []}
    for _, st, v, _ in pool.run({i: (job(i), None) for i in range(workers)}, workers=workers, limit=seconds + 40,
                                stop=lambda: found is not None):
        if st == "ok":
            stats["evaluations"] += v[1].get("evaluations", 0)
            stats["samples"] += v[1].get("samples", [])[:2]
            found = found or v[0]
        elif st == "error":
            stats.setdefault("errors", []).append(str(v)[-600:])
    return found, stats


def confirmed(rec):
    """the recorded input still breaks the property in a fresh process"""
    from pyver import oracle
    st, v = one_child(lambda: oracle.replay(rec), 60)
    return st == "ok" and bool(v)


def sure(pid, fns, models, seconds, frames, base):
    """a failing input that a fresh process reproduces, or None; and whether state left behind matters"""
    found, _ = search(pid, fns, models, seconds, True, base=base, frames=frames)
    if found and not confirmed(found):
        # what failed depended on what ran before: sample again with nothing left behind between samples
        frames = True
        found, _ = search(pid, fns, models, seconds, True, base=base + 3, frames=True)
        if found and not confirmed(found):
            found = None
    return found, frames


def write_replay(pid, rec):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s.json" % pid)
    with open(p, "w") as f:
        json.dump(rec, f, indent=1, default=str)
    return os.path.relpath(p, HERE)


def import_error():
    def f():
        from pyver import conc
        conc.Real()
        return ""
    st, v = one_child(f, 60)
    return "" if st == "ok" else str(v)[-1500:]


# ---------------------------------------------------------------- main
def tk_Unsupported():
    from pyver.terms import Unsupported
    return Unsupported


def main(pid, tier):
    from pyver import props
    quick = tier == "quick"
    budget = 780 if quick else 3000
    deadline = T0 + (420 if quick else 2000)
    err = None
    try:
        import contracts.specs     # noqa: F401
        from pyver import verify, tasks as tk
        for b in tk.BOTH:
            verify.world(b)
    except (Exception, tk_Unsupported()) as e:         # the verifier cannot read the current source
        err = "%s: %s" % (type(e).__name__, e)
    P = Proof(pid)
    load = None
    sample_stats = {}
    found = None
    if err:
        bad = import_error()
        if bad:
            found = {"kind": "import", "data": {}, "what": "pysolar cannot be imported: " + bad}
        P.failed[("load", ())] = [dict(name="modules load into the verifier", fn="pysolar", ok=False, how="engine", why=err, model=None,
                                       ctx={}, finding=None, secs=0)]
        P.results[("load", ())] = {"obls": P.failed[("load", ())], "info": {}, "smt": {}, "secs": 0, "fn": "pysolar"}
    else:
        P.run(props.tasks(pid), 1.0, 75 if quick else 400, deadline)
    # failed obligations: counterexamples, then directed search, then a longer proof attempt
    if P.failed and not found:
        fns = sorted({o["fn"] for os_ in P.failed.values() for o in os_} - {None})
        ms = models_of(P.failed)
        fr = any(o["ctx"].get("frame") for os_ in P.failed.values() for o in os_) or not err and any(verify.world(b).cells for b in tk.BOTH)
        if fr and not err:
            from pyver import cells, oracle
            oracle.WRITERS = cells.leading_to(verify.world("math"))
        # robust (perturbed) comparison first, which is immune to rounding; the exact one only looks for gross differences
        found, fr = sure(pid, fns, ms, 12, fr, 0)
        if not found and not err:
            P.run(list(P.failed), 4.0, 170 if quick else 600, min(deadline + 150, T0 + budget - 160))
        if P.failed and not found:
            left = T0 + budget - time.time()
            found, fr = sure(pid, fns, ms, max(20, min(60 if quick else 300, left - 60)), fr, 7)
    # sample the contracts on the real code
    if not found and not P.failed:
        found, sample_stats = search(pid, [], [], 5 if quick else 90, True, tol=1e-6, sampling=True)
        if found and not confirmed(found):
            found, _ = search(pid, [], [], 5 if quick else 90, True, tol=1e-6, sampling=True, frames=True)
            if found and not confirmed(found):
                found = None
    elif sample_stats == {}:
        sample_stats = {"evaluations": 0, "samples": []}
    code = report(pid, tier, P, found, sample_stats)
    sys.stdout.flush()
    return code


def report(pid, tier, P, found, sampled):
    from pyver import contract as ct
    obls = [(t, o) for t, r in P.results.items() for o in r["obls"]]
    failed = [(t, o) for t, o in obls if not o["ok"]]
    findings = known(pid)
    hits = {}
    unlisted = []
    for t, o in obls:
        if o["ok"] and o["finding"]:
            if o["finding"] in findings:
                hits.setdefault(o["finding"], []).append(o["name"])
            else:
                unlisted.append((t, o))
    violations = []
    if found:
        rec = dict(found, property=pid, failed_obligations=[o["name"] for _, o in failed][:20])
        violations.append("VIOLATION property=%s replay=%s" % (pid, write_replay(pid, rec)))
    elif failed or unlisted:
        lst = failed or unlisted
        rec = {"property": pid, "kind": "obligation", "what": "obligations the verifier does not accept",
               "tasks": sorted({json.dumps([t[0], list(t[1])]) for t, _ in lst}),
               "failed_obligations": [{"obligation": o["name"], "function": o["fn"], "back end": o["how"],
                                       "verifier output": o["why"] or ("matches the deviation %s" % o["finding"] if o["finding"] else ""),
                                       "model": o["model"]} for _, o in lst][:40]}
        violations.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, write_replay(pid, rec)))
    by = {}
    for _, o in obls:
        if o["ok"]:
            by[o["how"]] = by.get(o["how"], 0) + 1
    callees = sorted({c for r in P.results.values() for c in r["info"].get("callees", ())})
    inlined = sorted({c for r in P.results.values() for c in r["info"].get("inlined", ())})
    ffacts = sorted({c for r in P.results.values() for c in r["info"].get("float facts", ())})
    fns = sorted({r["fn"] for t, r in P.results.items() if r["fn"] in ct.REG or str(r["fn"]).startswith("pysolar")})
    done = sum(1 for _, o in obls if o["ok"])
    from pyver import trust
    ev = {
        "property": pid, "tier": tier, "seed": seed(), "level": "proof",
        "coverage": {
            "obligations": len(obls), "discharged": done,
            "checker_cmd": "python3-vt check.py %s %s" % (pid, tier),
            "trusted_base": trust.BASE,
            "functions_under_contract": fns,
            "discharged_by_back_end": by,
            "symbolic_paths": sum(r["info"].get("paths", 0) for r in P.results.values()),
            "callee_preconditions_discharged": sum(r["info"].get("pre", 0) for r in P.results.values()),
            "solver_queries": sum(r["smt"].get("queries", 0) for r in P.results.values()),
            "solver_seconds": round(sum(r["smt"].get("time", 0.0) for r in P.results.values()), 2),
            "verifier_cpu_seconds": round(sum(r["secs"] for r in P.results.values()), 2),
            "callee_contracts_used": callees,
            "callees_executed_in_place": inlined,
            "failed": [o["name"] for _, o in failed][:40],
            "sampled_on_real_code": {"what": "the same contracts evaluated on CPython with random inputs; labelled sampling, not counted as proof",
                                     "evaluations": sampled.get("evaluations", 0), "samples": sampled.get("samples", [])[:4],
                                     **({"errors": sampled["errors"]} if sampled.get("errors") else {})},
        },
        "assumptions": trust.assumptions(pid, callees, ffacts),
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    if hits:
        ev["coverage"]["known_findings"] = {k: v[:6] for k, v in hits.items()}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, findings[k]))
    for _, o in failed[:10]:
        print("failed obligation: %s [%s] %s" % (o["name"], o["how"], str(o["why"])[:300]))
    if found:
        print("failing input: %s" % found["what"][:1500])
    for v in violations:
        print(v)
    print("%s %s: %d of %d obligations discharged, %d functions, %.1f s" % (pid, tier, done, len(obls), len(fns), time.time() - T0))
    return 1 if violations else 0


def replay(path):
    rec = json.load(open(path))
    pid = rec.get("property", "?")
    import contracts.specs     # noqa: F401
    from pyver import oracle
    rel = os.path.relpath(path, HERE)
    if rec["kind"] == "import":
        bad = import_error()
        print(bad or "pysolar imports")
    elif rec["kind"] == "obligation":
        from pyver import verify, tasks as tk
        for b in tk.BOTH:
            verify.world(b)
        P = Proof(pid)
        P.run([(k, tuple(a)) for k, a in map(json.loads, rec["tasks"])], 4.0, 300, time.time() + 800)
        bad = [o for os_ in P.failed.values() for o in os_]
        for o in bad:
            print("failed obligation: %s [%s] %s" % (o["name"], o["how"], str(o["why"])[:300]))
        if bad:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rel))
        return 1 if bad else 0
    else:
        st, bad = one_child(lambda: oracle.replay(rec), 120)
        bad = bad if st == "ok" else "replay failed: %s" % bad
        print(bad or "the input no longer breaks the property")
    if bad:
        print("VIOLATION property=%s replay=%s" % (pid, rel))
    return 1 if bad else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["--list"]:
        from pyver import props
        for p in props.PIDS:
            for t in props.tasks(p):
                print(p, label(t))
        sys.exit(0)
    sys.exit(main(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
