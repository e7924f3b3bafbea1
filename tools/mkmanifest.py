"""Writes MANIFEST.json from the contracts that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo"]
sys.dont_write_bytecode = True
import logging
logging.disable(50)
from pyvc import contract
cs = contract.load()
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    mine = [c for c in cs if c.prop == i]
    if not mine:
        na.append(dict(property=i, reason="no contract written yet"))
        continue
    nb = sum(len(c.variants) for c in mine if c.mode != "prove")
    n = sum(len(c.variants) for c in mine)
    checks.append(dict(
        property=i, quick_cmd=f"python3-vt check.py {i} --tier quick",
        thorough_cmd=f"python3-vt check.py {i} --tier thorough",
        technique="contract-based deductive verification: symbolic execution of the real CPython bytecode against "
                  "contracts with inferred and proved loop invariants, z3 back end",
        level="proof",
        level_note=f"{n - nb} of {n} contracts are proved for all inputs within their stated lexical classes; "
                   + (f"{nb} are bounded checks on drawn cases, labelled so in the evidence; " if nb else "")
                   + "trusted: the verifier (pyvc) and its models of builtins and re, z3; float()/int() of texts are "
                     "uninterpreted; a contract the verifier cannot decide on a changed tree falls back to drawn cases "
                     "and is reported as undecided in the evidence"))
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks, not_applicable=na,
               notes="See DESIGN.md. No hooks in /repo."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
