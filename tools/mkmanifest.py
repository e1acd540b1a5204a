"""MANIFEST.json from the registered rules"""
import importlib, json, os, pkgutil, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import rules
from rules import base
for m in pkgutil.iter_modules(rules.__path__):
    if m.name.startswith("r_"):
        importlib.import_module("rules." + m.name)
NA = {
    "N01": "Termination depends on how often random draws succeed: no ranking argument over the source bounds a search whose exit depends on drawn values.",
    "N02": "Averages over many runs are quantities of probability; static analysis decides which terms are drawn (C02, C05, C08, C11), not the frequencies they produce.",
    "N03": "Exact values and types after a round trip are decided inside pandas and openpyxl, outside the source analysed; what is written and read is decided by C24 to C28.",
    "N04": "Run time depends on the machine, the interpreter and third party libraries; no sound static bound is in reach.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in base.CHECKS:
        b = base.CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                           technique="static: " + b["technique"], level="other",
                           level_note="Static argument over all paths of the functions named in the evidence, for all inputs in the domain of the rules; "
                                      "undecided obligations are listed in the evidence and claim nothing. Assumes: " + b["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No rule decides this property yet.")))
json.dump(dict(version=1, setup_cmd="python3 -c 'import ast, fractions'", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
