"""developer: mut.py PROP file 'old' 'new' [-c]  - run vc (or the whole check with -c) against a mutated copy"""
import os, shutil, subprocess, sys, tempfile
prop, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut_")
shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
p = os.path.join(d, "src", f)
s = open(p).read()
old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
assert old in s, "pattern not found"
open(p, "w").write(s.replace(old, new, 1))
env = dict(os.environ, VERIF_REPO_SRC=d + "/src")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cmd = ["python3-vt", "check.py", prop] if "-c" in sys.argv else ["python3-vt", "tools/vc.py", prop] + sys.argv[5:6]
r = subprocess.run(cmd, cwd=here, env=env, capture_output=True, text=True)
print((r.stdout + r.stderr)[-2500:], "rc", r.returncode)
shutil.rmtree(d)
