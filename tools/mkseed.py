"""helper: plant a bug in /repo, confirm it, keep it under seeded/, undo it"""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '#!/bin/bash\ncd "$(dirname "$0")" && exec env PYTHONDONTWRITEBYTECODE=1 NUMBA_DISABLE_JIT=1 /opt/venv/bin/python -W ignore demo.py\n'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def seed(id, prop, edits, needs, breaks, demo, test=True):
    d = os.path.join(H, "seeded", id)
    os.makedirs(d, exist_ok=True)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    try:
        for f, old, new in edits:
            p = "/repo/src/sorcha/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        r1 = sh(f"bash {d}/demo.sh", cwd="/repo")
        ok = r1.returncode != 0
        print(id, "demo with the patch:", r1.returncode, (r1.stdout + r1.stderr)[-300:])
        if test:
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            base = json.load(open("/opt/vp/BASELINE.json"))
            print("  build", b.returncode, "tests", t.stdout.strip().splitlines()[-1:])
            res = json.load(open("/tmp/seed_out.json"))
            miss = sorted(set(base["stable"]) - {k for k, v in res.items() if v in ("pass", "passed")} - set(res.get("passed", []) if isinstance(res.get("passed"), list) else []))
            print("  stable tests lost:", len(miss), miss[:5])
            ok = ok and not miss and b.returncode == 0
    finally:
        sh("git -C /repo checkout -- .")
    r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
    print("  demo unchanged:", r0.returncode, (r0.stdout + r0.stderr)[-300:])
    print("  KEEP" if ok and r0.returncode == 0 else "  NOT OK")
