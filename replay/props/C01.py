"""C01 Threshold cuts, concrete contracts."""
import math
import numpy as np
import pandas as pd
from harness import *

M = "sorcha.modules."
LITS = literals_of(["sorcha/modules/PPSNRLimit.py", "sorcha/modules/PPMagnitudeLimit.py", "sorcha/modules/PPBrightLimit.py"])
FILTERS = ["r", "g", "i", "z", "u", "y", "Y"]


def table(rnd, cols, lims, n=None, nan=True):
    n = n if n is not None else rnd.choice([0, 1, 2, 3, 5, 8, 13, 40] + ([300, 300, 2600] if rnd.random() < 0.05 else []))
    d = {}
    pool = [x for x in lims if x is not None] + LITS
    for c in cols:
        vals = []
        for _ in range(n):
            u = rnd.random()
            if u < 0.35 and pool:
                b = rnd.choice(pool)
                vals.append(rnd.choice([b, np.nextafter(b, 1e9), np.nextafter(b, -1e9), b + 0.5, b - 0.5]))
            elif u < 0.4 and nan:
                vals.append(float("nan"))
            elif u < 0.45:
                vals.append(rnd.choice([0.0, -1.0, 1e6, float("inf"), -float("inf")]))
            else:
                vals.append(rnd.uniform(-5, 40))
        d[c] = [float(v) for v in vals]
    d["OtherColumn"] = [float(i) for i in range(n)]
    d["ObjID"] = [f"o{rnd.randint(0, 3)}" for i in range(n)]
    if n > 1 and rnd.random() < 0.1:  # two detections that look alike
        i, j = rnd.sample(range(n), 2)
        for v in d.values():
            v[i] = v[j]
    return d


def index_for(df, case):
    k = case.get("index")
    if k == "shuffled":
        df.index = [(i * 7919 + 3) % 100003 for i in range(len(df))]
    elif k == "offset":
        df.index = range(5, 5 + len(df))
    return df


def gen_snr(rnd, k):
    lim = rnd.choice([2.0, 5.0, 0.0, rnd.uniform(0, 12), None])
    return {"df": table(rnd, ["SNRPSFMag", "SNRx"], [lim]), "named": rnd.random() < 0.4 and lim is not None, "limit": lim,
            "index": rnd.choice([None, "shuffled", "offset"])}


def run_snr(c):
    df = index_for(mkframe(c["df"]), c)
    inp = df.copy()
    f = fn(M + "PPSNRLimit:PPSNRLimit")
    col = "SNRx" if c.get("named") else "SNRPSFMag"
    lim = c.get("limit")
    if lim is None:
        out = call(f, df)
    elif c.get("named"):
        out = call(f, df, lim, "SNRx")
    else:
        out = call(f, df, lim)
    lim = 2.0 if lim is None else lim
    rows_equal(must_return(out), inp, [x > lim for x in inp[col]])


def gen_mag(rnd, k):
    lim = rnd.choice([22.0, 24.5, rnd.uniform(0, 30)])
    return {"df": table(rnd, ["trailedSourceMag", "PSFMag"], [lim]), "named": rnd.random() < 0.4, "limit": lim,
            "index": rnd.choice([None, "shuffled", "offset"])}


def run_mag(c):
    df = index_for(mkframe(c["df"]), c)
    inp = df.copy()
    f = fn(M + "PPMagnitudeLimit:PPMagnitudeLimit")
    col = "PSFMag" if c.get("named") else "trailedSourceMag"
    out = call(f, df, c["limit"], "PSFMag") if c.get("named") else call(f, df, c["limit"])
    rows_equal(must_return(out), inp, [x < c["limit"] for x in inp[col]])


def gen_bright(rnd, k):
    n = rnd.randint(1, 7)
    fl = FILTERS[:]
    rnd.shuffle(fl)
    fl = fl[:n]
    lst = rnd.random() < 0.7
    lims = [rnd.choice([16.0, 17.0, 18.0, rnd.uniform(10, 25)]) for _ in fl]
    d = table(rnd, ["PSFMag"], lims)
    d["optFilter"] = [rnd.choice(FILTERS) for _ in d["PSFMag"]]
    if len(d["PSFMag"]) > 1000 and rnd.random() < 0.7:  # nearly all of them saturated
        d["PSFMag"] = [x if rnd.random() < 0.1 else rnd.uniform(3, 9) for x in d["PSFMag"]]
    c = {"df": d, "filters": fl, "index": rnd.choice([None, "shuffled", "offset"])}
    if lst:
        c["limits"] = lims
    else:
        c["limit"] = lims[0]
    return c


def run_bright(c):
    df = index_for(mkframe(c["df"]), c)
    inp = df.copy()
    f = fn(M + "PPBrightLimit:PPBrightLimit")
    if c.get("limits") is not None:
        lim = dict(zip(c["filters"], c["limits"]))
        arg = list(c["limits"])
    else:
        lim = {k: c["limit"] for k in FILTERS + list(inp["optFilter"])}
        arg = float(c["limit"])
    out = call(f, df, list(c["filters"]), arg)
    keep = [not (m < lim[o]) if o in lim else True for m, o in zip(inp["PSFMag"], inp["optFilter"])]
    rows_equal(must_return(out), inp, keep)


def bright_model(c):
    if "lim0" in c:
        c["limits"] = [c[f"lim{i}"] for i in range(len(c["filters"]))]
    return c


TARGETS = {
    "snr_limit": Target(gen_snr, run_snr),
    "mag_limit": Target(gen_mag, run_mag),
    "bright_limit": Target(gen_bright, run_bright, bright_model),
}

from focus import focus

TARGETS["run"] = focus(1, "LSST", lambda rnd: {"snr": rnd.choice([2.0, 5.0, 10.0, 1.0, 0.5])} if rnd.random() < 0.4 else {"mag": rnd.choice([20.0, 22.0, 24.0])} if rnd.random() < 0.5 else {"bright": rnd.choice(["one", "list"]), "snr": rnd.choice([None, 3.0])})
TARGETS["run_des"] = focus(0.7, "DES", lambda rnd: {"mag": rnd.choice([None, 20.0, 22.0]), "bright": rnd.choice([None, "one", "list"])})
