"""What the verdicts rest on (reported in the evidence)."""
from . import contract as ct

BASE = [
    "pyver: the symbolic executor (own bytecode-free AST transformation + CPython 3.12 running /repo's functions over symbolic values), "
    "its ring normaliser and interval back end (this repository, cross-checked by sampling against CPython on every run)",
    "z3 4.x (python bindings) and cvc5 1.1.2 for the obligations they discharge",
    "contracts/specs.py and contracts/tables.py: the published formulas, transcribed by hand",
    "models of math, numpy, datetime and warnings used at library boundaries (pyver/models.py)",
]

GENERAL = [
    "floating-point arithmetic is treated as real arithmetic with exact decimal literals, except in the domain obligations of P27, "
    "which hold for every rounding of the intermediate results",
    "finite real expressions over bounded inputs do not overflow the double range (exp arguments are obligations)",
    "sin, cos, tan, asin, acos, atan, atan2, exp, log and power are the mathematical functions, known to the solvers only by instantiated "
    "axioms; libm is trusted to 4 ulp where numeric bounds are needed",
    "datetime objects: proleptic Gregorian calendar, instants of the years 1 to 9999 UTC, tzinfo that yields a fixed offset for the given "
    "instant, timedelta results rounded to whole microseconds",
    "numeric arguments are finite Python numbers (int or float), or float64 / datetime64 arrays where arrays are the subject",
]
SPECIFIC = {
    "P03": ["the warning is fixed to instants from 2026-07-01 UTC on, the half-year after the end of the built-in table"],
    "P10": ["findings K2 and K3 (known_findings.txt): the code is proved equal to the recorded deviating formula there"],
    "P08": ["finding K1 (known_findings.txt): the code is proved equal to the recorded deviating formula there"],
    "P13": ["findings K1, K2, K3: the chain is proved with the recorded deviating formulas at these three functions"],
    "P18": ["numpy scalar division by zero gives inf where builtin math raises ZeroDivisionError; the two are treated alike"],
    "P19": ["arrays of instants are datetime64 arrays (UTC); a float array has one numeric dtype"],
    "P24": ["step lengths are positive finite numbers of minutes"],
    "P25": ["the horizon is a sequence of 360 numbers"],
    "P28": ["zenith angles and masses in the ranges of the contracts (mass 0..75)"],
    "P29": ["the effective aerosol wavelength is positive (a precondition of the aerosol contract; proved for the default turbidity)"],
}


def assumptions(pid, callees, facts):
    out = list(GENERAL) + SPECIFIC.get(pid, [])
    other = sorted({p for q in callees if q in ct.REG for p in ct.REG[q].pids} - {pid})
    if other:
        out.append("callees are represented by their contracts, which the checks of %s discharge against the bodies" % ", ".join(other))
    for f in facts:
        out.append("floating-point fact used: " + f)
    return out
