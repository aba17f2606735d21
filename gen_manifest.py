"""Writes MANIFEST.json from the list of properties and the check modules present."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
BINDING = (
    " The deciding enumeration runs on the real code (no separate model to drift); the oracle is a dense "
    "Gaussian process in NumPy written from the documented formulas (mc/ref.py) and trusted. Bounds and "
    "parameter regimes: DESIGN.md."
)
TECH = {
    "C01": "exhaustive replay of all gap words x kernel expression trees against a dense oracle",
    "C02": "exhaustive replay of all gap words x kernel expression trees, basis data vectors, dense oracle",
    "C03": "exhaustive replay of all gap words x test-point placements, basis data vectors, dense oracle",
    "C04": "explicit-state BFS of the exposure automaton, every timeline replayed on the code, dense oracle",
    "C05": "explicit-state BFS of the exposure automaton x all row orders, replayed on the code, dense oracle",
    "C06": "explicit-state BFS of the exposure automaton x all test placements, replayed on the code, dense oracle",
    "C07": "exhaustive replay of gap words and all scan-tree sizes on the parallel solver, dense oracle",
    "C08": "explicit-state BFS of the exposure automaton x all row orders on the parallel solver, dense oracle",
    "C09": "exhaustive enumeration of kernel expression trees x lag grid, dense oracle",
    "C10": "exhaustive enumeration of kernel expression trees x time triples, matrix identities",
    "C11": "exhaustive enumeration of sum derivation trees x component queries, dense oracle",
    "C12": "explicit-state exploration of all public call sequences up to a depth on the real objects",
    "C13": "exhaustive enumeration of transform/parameter/model products, dense oracle and its derivatives",
    "C14": "exhaustive enumeration of unit words and gap placements, replayed on the code, exact change of variables",
    "C15": "exhaustive enumeration of kernel expression trees x frequency grid, Fourier oracle",
    "C16": "exhaustive enumeration of all interval placements on a grid, quadrature oracle",
    "C18": "exhaustive replay of gap words and exposure-automaton timelines, state by state, dense oracle",
    "C17": "exhaustive enumeration of observation models x data sets x solvers, dense oracle",
}
NOTE = {}
EXPLORATION = {"C09", "C10", "C13", "C14", "C15", "C16"}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "mc", "checks", i.lower() + ".py")):
        checks.append(
            dict(
                property=i,
                quick_cmd=f"./check.sh {i} --tier quick",
                thorough_cmd=f"./check.sh {i} --tier thorough",
                evidence_file=f"evidence/{i}.json",
                technique=TECH[i],
                level="exploration" if i in EXPLORATION else "model_checking",
                level_note=(NOTE.get(i, "Complete within the stated finite space, nothing beyond it is claimed.") + BINDING),
            )
        )
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(
    version=1,
    setup_cmd="./check.sh --selftest",
    checks=checks,
    not_applicable=na,
    notes="All checks import smolgp from /repo/src (working tree). No hooks in /repo are used.",
)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not yet")
