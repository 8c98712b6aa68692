"""C02 Random survival filters, concrete contracts."""
from common import *

M = "sorcha.modules."


def base(rnd, cols, index=("default", "shuffled", "offset")):
    n = nrows(rnd)
    d = {"ObjID": [f"o{rnd.randint(0, 3)}" for _ in range(n)], "OtherColumn": [float(i) for i in range(n)]}
    for c, f in cols.items():
        d[c] = [float(f()) for _ in range(n)]
    return {"df": d, "seed": rnd.randint(0, 10**6), "index": rnd.choice(index)}


def prepare(c):
    df = index_for(mkframe(c["df"]), c.get("index"))
    rngs = StubModuleRNG(c.get("seed", 0), scripts_of(c))
    return df, df.copy(), rngs


def script(rnd, c, module, probs):
    """draws placed on, just above and just below the survival probability"""
    if rnd.random() < 0.6:
        vals = []
        for p in probs:
            u = rnd.choice([p, np.nextafter(p, 2), np.nextafter(p, -1), rnd.random(), 0.0, 1 - 2**-53])
            vals.append(float(min(max(u, 0.0), 1 - 2**-53)) if math.isfinite(u) else 0.5)
        c["__draws__"] = {module: [["uniform", vals]]}
    return c


def gen_drop(rnd, k):
    c = base(rnd, {"p": lambda: rnd.choice([0.0, 1.0, 0.5, rnd.random()])})
    c["column"] = "p"
    return script(rnd, c, "PPDropObservations", c["df"]["p"])


def run_drop(c):
    df, inp, rngs = prepare(c)
    out = must_return(call(fn(M + "PPDropObservations:PPDropObservations"), df, rngs, "p"))
    u = own_uniforms(rngs, M + "PPDropObservations", len(inp))
    rows_equal(out, inp, [x <= p for x, p in zip(u, inp["p"])], reset=False)


def near_prob(u, p):
    """probabilities are computed in floating point: do not judge ties"""
    return abs(u - p) <= 1e-9 * max(1.0, abs(p))


def judged(out, inp, u, p):
    if any(near_prob(a, b) for a, b in zip(u, p)):
        raise Skip("tie")
    rows_equal(out, inp, [a <= b for a, b in zip(u, p)])


def veres(m, lim, ff, w):
    out = []
    for a, b in zip(m, lim):
        x = (a - b) / w
        out.append(0.0 if x > 700 else ff / (1.0 + math.exp(x)))
    return out


def gen_fading(rnd, k):
    cols = {"PSFMag": lambda: rnd.choice([rnd.uniform(15, 30), rnd.gauss(24, 0.5)]), "fiveSigmaDepth_mag": lambda: rnd.uniform(23, 25)}
    if rnd.random() < 0.5:
        cols["limMag_perChip"] = lambda: rnd.uniform(23, 25)
    c = base(rnd, cols)
    if rnd.random() < 0.5:
        c["df"]["dmagDetect"] = [rnd.uniform(0, 1) for _ in c["df"]["ObjID"]]
    c.update(fillfactor=rnd.choice([1.0, 0.9, 0.5, 0.0, rnd.random()]), width=rnd.choice([0.1, 0.05, 1.0, rnd.uniform(0.01, 2)]),
             verbose=rnd.random() < 0.3)
    return c


def run_fading(c):
    df, inp, rngs = prepare(c)
    if not c["width"] > 0 or not 0 <= c["fillfactor"] <= 1:
        raise Skip()
    out = must_return(call(fn(M + "PPFadingFunctionFilter:PPFadingFunctionFilter"), df, c["fillfactor"], c["width"], rngs, c.get("verbose", False)))
    u = own_uniforms(rngs, M + "PPDropObservations", len(inp))
    lim = inp["limMag_perChip"] if "limMag_perChip" in inp else inp["fiveSigmaDepth_mag"]
    judged(out, inp, u, veres(inp["PSFMag"], lim, c["fillfactor"], c["width"]))


def gen_des(rnd, k):
    c = base(rnd, {"PSFMag": lambda: rnd.uniform(20, 27), "fiveSigmaDepth_mag": lambda: rnd.uniform(23, 25),
                   "c": lambda: rnd.uniform(0, 1), "k": lambda: rnd.uniform(0.5, 10)})
    c.update(efficiency=rnd.choice([1.0, 0.0, 0.95, rnd.random()]), verbose=rnd.random() < 0.3)
    return c


def run_des(c):
    df, inp, rngs = prepare(c)
    out = must_return(call(fn(M + "DESFadingFunctionFilter:DESFadingFunctionFilter"), df, c["efficiency"], rngs, c.get("verbose", False)))
    u = own_uniforms(rngs, M + "PPDropObservations", len(inp))
    p = []
    for m, l, cc, k in zip(inp["PSFMag"], inp["fiveSigmaDepth_mag"], inp["c"], inp["k"]):
        x = k * (m - l)
        p.append(0.0 if x > 700 else c["efficiency"] * cc / (1 + math.exp(x)))
    judged(out, inp, u, p)


def gen_eff(rnd, k):
    t = rnd.choice([0.0, 1.0, 0.95, rnd.random(), -0.01, 1.01, 1.0 + 1e-9, -1e-9])
    c = base(rnd, {})
    c["threshold"] = t
    n = len(c["df"]["ObjID"])
    return script(rnd, c, "PPDetectionEfficiency", [t] * n)


def run_eff(c):
    df, inp, rngs = prepare(c)
    t = c["threshold"]
    out = call(fn(M + "PPDetectionEfficiency:PPDetectionEfficiency"), df, t, rngs)
    if t < 0 or t > 1:
        return must_exit(out, f"threshold {t}")
    out = must_return(out)
    u = own_uniforms(rngs, M + "PPDetectionEfficiency", len(inp))
    rows_equal(out, inp, [x <= t for x in u], reset=False)


def gen_area(rnd, k):
    f = rnd.choice([0.0, 1.0, 0.9, 0.5, rnd.random()])
    c = base(rnd, {}, index=("default",))
    c["fillfactor"] = f
    return script(rnd, c, "PPApplyFOVFilter", [f] * len(c["df"]["ObjID"]))


def run_area(c):
    df, inp, rngs = prepare(c)
    f = c["fillfactor"]
    if not 0 <= f <= 1:
        raise Skip()
    out = must_return(call(fn(M + "PPApplyFOVFilter:PPSimpleSensorArea"), df, rngs, f))
    u = own_uniforms(rngs, M + "PPApplyFOVFilter", len(inp))
    rows_equal(out, inp, [x <= f for x in u])


# the camera-model switch: the circle model applies its fill factor whatever its value
class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def gen_fov(rnd, k):
    c = gen_area(rnd, k)
    n = len(c["df"]["ObjID"])
    for col, lo, hi in (("RA_deg", 0, 359), ("Dec_deg", -80, 80)):
        c["df"][col] = [rnd.uniform(lo, hi) for _ in range(n)]
    c["df"]["fieldRA_deg"] = [x + rnd.uniform(-0.3, 0.3) for x in c["df"]["RA_deg"]]
    c["df"]["fieldDec_deg"] = [x + rnd.uniform(-0.3, 0.3) for x in c["df"]["Dec_deg"]]
    c["use_fill"] = rnd.random() < 0.8
    return c


def run_fov(c):
    df, inp, rngs = prepare(c)
    f = c["fillfactor"] if c["use_fill"] else None
    sc = NS(fov=NS(camera_model="circle", circle_radius=None, fill_factor=f, footprint_edge_threshold=None))
    out = must_return(call(fn(M + "PPApplyFOVFilter:PPApplyFOVFilter"), df, sc, rngs))
    if f is None:
        rows_equal(out, inp, [True] * len(inp), reset=False)
        return
    u = own_uniforms(rngs, M + "PPApplyFOVFilter", len(inp))
    rows_equal(out, inp, [x <= f for x in u])


TARGETS = {
    "drop_observations": Target(gen_drop, run_drop),
    "fading": Target(gen_fading, run_fading),
    "des_fading": Target(gen_des, run_des),
    "efficiency": Target(gen_eff, run_eff),
    "sensor_area": Target(gen_area, run_area),
    "fov_circle_fill": Target(gen_fov, run_fov),
}

from focus import focus

TARGETS["run"] = focus(1, "LSST", lambda rnd: {"fading": True, "trailing": rnd.random() < 0.5})
TARGETS["run_des"] = focus(0.7, "DES", lambda rnd: {"fading": True, "eff": rnd.choice([None, 0.0])})
