#!/bin/bash
# tools/rp.sh PROP [seeds] [budget]: the concrete contracts alone, several seeds side by side
P=$1; N=${2:-3}; B=${3:-40}; D=$(mktemp -d)
cd "$(dirname "$0")/../replay"
for s in $(seq 1 $N); do timeout 800 /opt/venv/bin/python harness.py --prop $P --seed $((s+${S0:-0})) --budget $B --out $D/$s.json 2>$D/$s.err >/dev/null & done; wait
for s in $(seq 1 $N); do python3 - $D/$s.json $D/$s.err <<'X'
import json,sys
try: d=json.load(open(sys.argv[1]))
except Exception: print(open(sys.argv[2]).read()[-2000:]); sys.exit()
for k,v in d["targets"].items(): print(k,{a:v[a] for a in ("evaluations","skipped","bad","errors")},end=" ")
print(round(d["wall_s"]),"s")
seen={}
for f in d["failures"]:
    if seen.setdefault(f["target"],0)<2:
        seen[f["target"]]+=1; print("  FAIL",f["target"],f["detail"][:400],"\n      ",json.dumps(f["case"])[:1200])
for e in d["errors"][:2]: print("  ERR",str(e)[:1500])
X
done
rm -r -- "$D"
