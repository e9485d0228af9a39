"""Property id -> the obligations that decide it (as tasks of pyver.tasks)."""
from . import contract as ct
from . import tasks as tk
from . import lemmas as lm

REG = ct.REG
BOTH = tk.BOTH
FUNCTIONAL = ["P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P14", "P15", "P16", "P17", "P20",
              "P21", "P22", "P23", "P28", "P29"]
CHAIN = {"P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13"}
NOT_CHAINED = {"pysolar.solar.get_topocentric_sun_right_ascension"}
PIDS = ["P%02d" % i for i in range(1, 30)]


def own(pid):
    """the functions whose contracts state the property"""
    if pid == "P13":
        return [q for q, c in REG.items() if CHAIN & set(c.pids) and q not in NOT_CHAINED]
    if pid == "P29":
        return [q for q, c in REG.items() if {"P28", "P29"} & set(c.pids)]
    o = [q for q, c in REG.items() if pid in c.pids]
    if pid in ("P17", "P21"):        # they speak about the UTC day, hour and minute themselves
        o += [q for q, c in REG.items() if q.startswith("pysolar.numeric.tm_") and q not in o]
    return o


def with_when(strict=True):
    return [q for q, c in REG.items() if any(type(k) is ct.When for _, k in c.params)
            and not any(isinstance(k, ct.Local) for _, k in c.params)]


def tasks(pid):
    """[(runner, args)]"""
    out = []
    if pid in FUNCTIONAL or pid == "P13":
        for q in own(pid):
            out += [("fn", (q, b)) for b in BOTH]
            if REG[q].facts is not None:
                out.append(("facts", (q,)))
    if pid in ("P11", "P14", "P16"):
        out += [("limit", (b,)) for b in BOTH]
    if pid == "P13":
        out += [("pair", (n, b)) for n in ("pair", "lon") for b in BOTH]
    if pid == "P01":
        out += [("instant", (q, b)) for q in with_when() for b in BOTH]
    if pid == "P02":
        out += [("refuse", (q, b)) for q in tk.refuse_targets() for b in BOTH]
        out += [("transparent", (b,)) for b in BOTH]
    if pid == "P18":
        out += [("bindings", ())]
        out += [("backends", (q,)) for q in REG]
        out += [("fn", (q, b)) for q in REG if "P18" in REG[q].pids for b in BOTH]
    if pid == "P19":
        out += [("lift", a) for a in tk.ARRAYS]
    if pid == "P24":
        out += [("timerange", (b,)) for b in BOTH]
    if pid == "P25":
        out += [("span", (b, way)) for b in BOTH for way in REG["pysolar.solar.get_position"].ways()]
        out += [("timerange", (b,)) for b in BOTH]
    if pid == "P26":
        out += [("effects", (q, b)) for q in list(REG) + ["pysolar.simulate.datetime_range", "pysolar.simulate.simulate_span"]
                for b in BOTH]
        out += [("keeps", a) for a in tk.ARRAYS]
        out += [("cache", (b,)) for b in BOTH]
    if pid == "P27":
        out += [("total", (q, b)) for q in tk.total_targets() for b in BOTH]
    out += [("lemma", (n,)) for n in lm.OF.get(pid, ())]
    return out
