"""generators and checks shared by the concrete contracts"""
import json
import math
import os
import sys
import numpy as np
import pandas as pd
from harness import *


def nrows(rnd, big=0.05):
    return rnd.choice([0, 1, 2, 3, 5, 8, 13, 40] + ([300] if rnd.random() < big else []))


def near(rnd, b):
    return float(rnd.choice([b, np.nextafter(b, 1e9), np.nextafter(b, -1e9), b + 0.5, b - 0.5]))


def mix(rnd, lo, hi, special=(), p=0.3):
    """uniform in [lo, hi], or near one of the special values"""
    if special and rnd.random() < p:
        return near(rnd, rnd.choice(list(special)))
    return rnd.uniform(lo, hi)


def index_for(df, kind):
    if kind == "shuffled":
        df.index = [(i * 7919 + 3) % 100003 for i in range(len(df))]
    elif kind == "offset":
        df.index = range(5, 5 + len(df))
    return df


def own_uniforms(rngs, module, n):
    """the uniform draws of this filter: n numbers, all from its own stream"""
    used = [k for k, g in rngs.gens.items() if g.log]
    if n == 0 and not used:
        return np.zeros(0)
    need(used == [module] or (n == 0), f"draws came from the streams {used}, own stream is {module}")
    vals = []
    for kind, v in rngs.gens[module].log if module in rngs.gens else []:
        need(kind == "uniform", f"a {kind} draw instead of a uniform one")
        vals += [float(x) for x in np.atleast_1d(v)]
    need(len(vals) == n, f"{len(vals)} draws for {n} rows")
    return np.array(vals)


def scripts_of(case):
    return {k: v for k, v in (case.get("__draws__") or {}).items()}


def wide(rnd, v, lo, hi, p=0.12):
    """v, or now and then a number of any magnitude between lo and hi"""
    if rnd.random() >= p:
        return v
    if lo > 0:
        return math.exp(rnd.uniform(math.log(lo), math.log(hi)))
    return rnd.uniform(lo, hi)


def wides(rnd, v, lo, hi, p=0.06):
    return wide(rnd, v, lo, hi, p) * (1 if rnd.random() < 0.9 or v else -1)
