"""writes MANIFEST.json from what is built (contracts/ and replay/props/)"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
NOT_YET = "not built yet"
NA = {}
checks, na = [], []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    c = os.path.join(H, "contracts", i + ".py")
    if i in NA or not os.path.exists(c):
        na.append({"property": i, "reason": NA.get(i, NOT_YET)})
        continue
    m = importlib.import_module("contracts." + i)
    checks.append({
        "property": i,
        "quick_cmd": f"python3-vt check.py {i}",
        "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
        "technique": getattr(m, "TECHNIQUE", "contract-based deductive verification: VCs generated from the real Python source by symbolic execution, discharged by z3/cvc5; counter-models replayed on the real code; labelled bounded concrete contracts beside it"),
        "level": getattr(m, "LEVEL", "proof"),
        "level_note": getattr(m, "NOTE", "Every obligation of the listed contracts is discharged for all inputs; trusted: the symbolic executor, the library contracts for numpy/pandas in pyvc/lib.py, reals for floats."),
    })
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c 'import pandas, numpy'",
           "checks": checks, "not_applicable": na}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
