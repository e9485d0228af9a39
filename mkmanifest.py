"""writes MANIFEST.json"""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {
    "P01": "two-run noninterference: each function of an instant executed on a datetime whose zone fields are independent of the instant",
    "P02": "exceptional postconditions of every decorated function for every non-aware argument, and transparency of the decorator",
    "P13": "composition contracts over callee contracts for the whole chain, call modes, and the longitude-period lemma",
    "P18": "postconditions of the backend switches from every prior state; equivalence of both backends' results for every function",
    "P19": "element-by-element lifting obligations for every array call pattern reached from the public roots",
    "P24": "inductive loop obligations of the generator (count, order, spacing)",
    "P25": "inductive loop obligations of the generator against the contracts of the position functions",
    "P26": "frame conditions: heap difference of every function on every path, and single-assignment of the cache",
    "P27": "totality: no raising path, and argument of every inverse sine, inverse cosine and exp in its domain for every rounding",
}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    checks.append({
        "property": p, "quick_cmd": "python3-vt check.py %s quick" % p, "thorough_cmd": "python3-vt check.py %s thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "contract-based deductive verification (pyver: symbolic execution of the real source to obligations, "
                     "ring normaliser + z3 + cvc5)",
        "level": "proof",
        "level_note": NOTE.get(p, "every path of the functions under contract meets its postcondition for all arguments of its precondition") +
        "; reals for floats outside the domain obligations, library models and published tables trusted (see evidence: trusted_base, assumptions)",
    })
json.dump({"version": 1, "setup_cmd": "python3-vt check.py --list > /dev/null", "checks": checks, "not_applicable": [],
           "notes": "known findings and repairs: known_findings.txt; design and coverage: DESIGN.md; replay a violation with "
                    "python3-vt check.py --replay FILE"}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
