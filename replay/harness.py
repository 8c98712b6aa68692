"""Concrete side of the contracts: runs the real code of /repo (under
/opt/venv) on counter-models, path inputs and generated inputs and evaluates
the contract's postcondition on the observed result.

usage: harness.py --prop C01 --seed 1 --budget 20 [--cases f.json] --out o.json
       harness.py --replay file.json
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import logging
import math
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO_SRC", "/repo/src")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
_TMP = tempfile.mkdtemp(prefix="verif_h_")
os.environ.setdefault("NUMBA_CACHE_DIR", os.path.join(_TMP, "numba"))
os.environ.setdefault("MPLCONFIGDIR", _TMP)
os.environ.setdefault("XDG_CACHE_HOME", _TMP)
logging.disable(logging.CRITICAL)
warnings.filterwarnings("ignore")


class Skip(Exception):
    """the case is outside the contract's precondition / not applicable"""


class Bad(Exception):
    """postcondition violated"""


class Target:
    def __init__(self, gen, run, from_model=None, weight=1.0, bounded=None):
        self.gen = gen  # gen(rnd, k) -> case (jsonable)
        self.run = run  # run(case) -> None, or raises Bad / Skip
        self.from_model = from_model
        self.weight = weight
        self.bounded = bounded  # text of the stated bound


def clean(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if isinstance(x, np.generic):
        return clean(x.item())
    if isinstance(x, np.ndarray):
        return clean(x.tolist())
    return x


class Out:
    def __init__(self, value=None, exc=None, msg=""):
        self.value, self.exc, self.msg = value, exc, msg

    def __repr__(self):
        return f"Out({self.value!r}, {self.exc} {self.msg})"


def call(f, *a, **k):
    """run the real code, catching every exception incl. SystemExit"""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return Out(f(*a, **k))
    except SystemExit as e:
        return Out(None, "SystemExit", str(e)[:200])
    except Exception as e:
        return Out(None, type(e).__name__, (str(e)[:200] + " | " + "".join(traceback.format_tb(e.__traceback__)[-1:]))[:500])


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def must_return(out):
    if out.exc is not None:
        raise Bad(f"raised {out.exc}: {out.msg}")
    return out.value


def must_exit(out, why=""):
    if out.exc is None:
        raise Bad(f"did not reject: {why}")
    if out.exc != "SystemExit":
        raise Bad(f"raised {out.exc} instead of a clean exit: {why}: {out.msg}")


def same(a, b):
    """equality where NaN equals NaN"""
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


def close(a, b, rtol=1e-9, atol=1e-11):
    import numpy as np

    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))


def mkframe(d, n=None):
    import pandas as pd

    return pd.DataFrame({k: v for k, v in d.items()})


def rows_equal(out, inp, keep, what="rows", reset=True, cols=None):
    """out == inp[keep] row for row, column for column, in order"""
    import numpy as np
    import pandas as pd

    exp = inp[np.asarray(keep, dtype=bool)]
    cols = list(inp.columns) if cols is None else cols
    need(isinstance(out, pd.DataFrame), f"{what}: not a table")
    need(set(out.columns) == set(cols), f"{what}: columns {sorted(set(out.columns) ^ set(cols))} differ")
    need(len(out) == len(exp), f"{what}: {len(out)} rows kept, {len(exp)} specified")
    for c in cols:
        a, b = list(out[c]), list(exp[c])
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                raise Bad(f"{what}: column {c} row {i}: {x!r}, specified {y!r}")
    if reset:
        need(list(out.index) == list(range(len(out))), f"{what}: index not reset")


class StubRNG:
    """numpy Generator returning prescribed draws where given, else real ones"""

    def __init__(self, seed, script=None):
        import numpy as np

        self.g = np.random.default_rng(seed)
        self.script = list(script or [])
        self.log = []

    def _next(self, size, default):
        import numpy as np

        if self.script and size is not None:
            kind, vals = self.script.pop(0)
            n = int(size) if not isinstance(size, tuple) else int(size[0])
            if len(vals) == n:
                v = np.array(vals, dtype=float)
                return v
        return default()

    def random(self, size=None, **k):
        v = self._next(size, lambda: self.g.random(size))
        self.log.append(("uniform", v))
        return v

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._next(size, lambda: self.g.random(size))
        self.log.append(("uniform", u))
        return low + (high - low) * u

    def normal(self, loc=0.0, scale=1.0, size=None):
        import numpy as np

        if size is None:
            shp = np.broadcast_shapes(np.shape(loc), np.shape(scale))
            size = shp if shp else None
        v = self._next(size, lambda: self.g.standard_normal(size))
        # an (n, 3) block of standard normals is one draw of n isotropic displacements
        self.log.append(("mvn" if np.ndim(v) == 2 and np.shape(v)[1] == 3 else "normal", v))
        return np.asarray(loc) + np.asarray(scale) * v if np.ndim(v) else loc + scale * v

    def standard_normal(self, size=None, **k):
        return self.normal(0.0, 1.0, size)

    def multivariate_normal(self, mean, cov, size=None, **k):
        v = self.g.multivariate_normal(mean, cov, size)
        self.log.append(("mvn", v))
        return v

    def __getattr__(self, n):
        return getattr(self.g, n)


class StubModuleRNG:
    """hands out one recording generator per module name"""

    def __init__(self, seed=0, scripts=None):
        self.seed = seed
        self.scripts = scripts or {}
        self.gens = {}

    def getModuleRNG(self, name):
        if name not in self.gens:
            h = int(hashlib.md5(name.encode()).hexdigest()[:8], 16)
            s = self.scripts.get(name.split(".")[-1]) or self.scripts.get(name)
            self.gens[name] = StubRNG((self.seed, h), s)
        return self.gens[name]

    def log(self):
        out = []
        for g in self.gens.values():
            out += g.log
        return out


def literals_of(paths):
    """numbers written in the source: boundary values for the generators"""
    import ast

    out = set()
    for p in paths:
        try:
            for n in ast.walk(ast.parse(open(os.path.join(REPO, p)).read())):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    if abs(n.value) < 1e7:
                        out.add(float(n.value))
        except Exception:
            pass
    return sorted(out)


class scratch:
    """a scratch directory, removed afterwards; cwd inside it"""

    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix="verif_s_", dir=_TMP)
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def load(prop):
    return importlib.import_module(f"props.{prop}")


def run_one(tg, case):
    """-> (status, detail)"""
    try:
        tg.run(case)
        return "ok", ""
    except Skip as e:
        return "skip", str(e)
    except Bad as e:
        return "bad", str(e)[:800]
    except MissingTarget as e:
        return "missing", str(e)
    except Exception as e:
        return "error", (repr(e) + traceback.format_exc())[-1500:]


class MissingTarget(Exception):
    """the function under contract is not there any more"""


def fn(path):
    """module:name of the real code"""
    mod, name = path.split(":")
    try:
        m = importlib.import_module(mod)
        o = m
        for p in name.split("."):
            o = getattr(o, p)
        return o
    except (ImportError, AttributeError) as e:
        raise MissingTarget(f"{path}: {e}")


def search(prop, seed, budget, cases, tier):
    m = load(prop)
    res = {"targets": {}, "failures": [], "errors": [], "samples": []}
    t0 = time.time()
    seen = set()

    def record(name, case, origin):
        tg = m.TARGETS[name]
        st, detail = run_one(tg, case)
        r = res["targets"].setdefault(name, {"evaluations": 0, "skipped": 0, "bad": 0, "errors": 0, "distinct": 0,
                                             "bounded": tg.bounded})
        key = hashlib.md5(json.dumps([name, clean(case)], sort_keys=True, default=str).encode()).hexdigest()
        if st == "skip":
            r["skipped"] += 1
            return st
        if st in ("missing", "error"):
            r["errors"] += 1
            if len(res["errors"]) < 20:
                res["errors"].append({"target": name, "detail": detail, "origin": origin, "case": clean(case)})
            return st
        r["evaluations"] += 1
        if key not in seen:
            seen.add(key)
            r["distinct"] += 1
            if r["distinct"] <= 1:
                res["samples"].append({"target": name, "case": clean(case)})
        if st == "bad":
            r["bad"] += 1
            if sum(1 for f in res["failures"] if f["target"] == name) < 12:
                res["failures"].append({"target": name, "case": clean(case), "detail": detail, "origin": origin})
        return st

    for c in cases:
        name = c["target"]
        if name not in m.TARGETS:
            continue
        tg = m.TARGETS[name]
        case = c["case"]
        try:
            if tg.from_model is not None:
                case = tg.from_model(case)
            if case is None:
                continue
        except Exception as e:
            continue
        record(name, case, c.get("obligation", "model"))
    # generated inputs, round-robin over the targets until the budget is used
    names = list(m.TARGETS)
    wsum = sum(m.TARGETS[n].weight for n in names) or 1
    tgen0 = time.time()
    for n in names:
        tg = m.TARGETS[n]
        if tg.gen is None:
            continue
        rnd = random.Random(f"{seed}-{n}")
        tend = time.time() + budget * tg.weight / wsum
        k = 0
        first = True
        minimum = getattr(tg, "minimum", None) or getattr(m, "MIN_CASES", 8)
        while (time.time() < tend or k < minimum) and k < 200000:
            try:
                case = tg.gen(rnd, k)
            except StopIteration:
                break
            st = record(n, case, "generated")
            k += 1
            if k == 1 and n == names[0]:  # the imports are not charged to the first target
                tend = time.time() + budget * tg.weight / wsum
            if st == "missing":
                break
            if res["targets"][n]["bad"] >= 12:
                break
    res["wall_s"] = time.time() - t0
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--budget", type=float, default=15)
    ap.add_argument("--cases")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.replay:
            d = json.load(open(a.replay))
            m = load(d["property"])
            st, detail = run_one(m.TARGETS[d["target"]], d["case"])
            print(st, detail)
            return 1 if st == "bad" else 0
        cases = json.load(open(a.cases)) if a.cases else []
        r = search(a.prop, a.seed, a.budget, cases, a.tier)
        json.dump(clean(r), open(a.out, "w"), default=str)
        return 0
    finally:
        shutil.rmtree(_TMP, ignore_errors=True)


if __name__ == "__main__":
    sys.modules["harness"] = sys.modules["__main__"]
    sys.exit(main())
