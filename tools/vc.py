"""developer printer: vc.py PROP [substring]  - obligations of the contracts of one property"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from pyvc import contract as C
prop = sys.argv[1]
sub = sys.argv[2] if len(sys.argv) > 2 else ""
bnd = int(os.environ["B"]) if "B" in os.environ else None
m, cons = C.load(prop)
T = [0, 0]
for c in cons:
    if sub not in c.name:
        continue
    r = C.run_contract(c, timeout=float(os.environ.get("T", "8")), bounded=bnd)
    T[0] += r["discharged"]; T[1] += r["obligations"]
    ok = r["obligations"] == r["discharged"] and not r["unsupported"] and r["obligations"] and r["vacuous"] == "sat"
    print("OK " if ok else "BAD", c.name, f'{r["discharged"]}/{r["obligations"]}', "paths", r["paths"], "cover", r["vacuous"], f'{r["time"]:.1f}s', r["by_backend"])
    if not ok:
        for u in r["unsupported"][:4]: print("    UNSUP", u[-700:])
        for o in r["refuted"][:6]: print("    REFUTED", o["name"], o["kind"], o["uf"], o["goal"][:300]); print("        ", str(o.get("model"))[:500])
        for o in r["unknown"][:6]: print("    UNKNOWN", o)
print(T)
