"""C04 trailing losses, concrete contracts."""
from common import *

M = "sorcha.modules.PPTrailingLoss:"
AB = {"trailedSource": (0.761, 1.162), "circularPSF": (0.420, 0.003)}


def law(dra, ddec, see, t, model):
    a, b = AB[model]
    v = math.hypot(dra, ddec) * 3600.0 / 86400.0
    x = v * t / see
    return 1.25 * math.log10(1 + a * x * x / (1 + b * x))


def okl(g, w, what=""):
    need(abs(g - w) <= 1e-9 + 1e-8 * abs(w), f"{what}: loss {g!r}, law gives {w!r}")


def gen_calc(rnd, k):
    rate = lambda: rnd.choice([0.0, wide(rnd, 1.0, 1e-6, 1e4, 0.5) * rnd.choice([1, -1]), rnd.gauss(0, 0.3), rnd.gauss(0, 5), rnd.uniform(-60, 60)])
    return {"dra": rate(), "ddec": rate(), "seeing": wide(rnd, rnd.uniform(0.3, 3), 0.01, 50), "texp": rnd.choice([0.0, 15.0, 30.0, rnd.uniform(1, 200), wide(rnd, 30.0, 1e-3, 1e5, 0.5)]),
            "model": rnd.choice(["trailedSource", "circularPSF", "trailedSource", "circularPSF", None, "nonsense", "", "TrailedSource", "circularpsf"]),
            "default_texp": rnd.random() < 0.2, "more": rnd.choice([1.0, 1.5, 10.0])}


def run_calc(c):
    f = fn(M + "calcTrailingLoss")
    a = [c["dra"], c["ddec"], c["seeing"]]
    if not c["seeing"] > 0 or c.get("texp", 30.0) < 0 or max(map(abs, a)) > 1e5:
        raise Skip()
    t = 30.0 if c.get("default_texp") else c["texp"]
    kw = {} if c.get("default_texp") else {"texp": t}
    if c["model"] is not None:
        kw["model"] = c["model"]
    out = call(f, *a, **kw)
    model = c["model"] if c["model"] is not None else "circularPSF"
    if model not in AB:
        return must_exit(out, f"model {model!r}")
    g = float(must_return(out))
    okl(g, law(*a, t, model))
    need(g >= 0, f"negative loss {g}")
    m = c.get("more", 1.0)
    kw["texp"] = t * m
    need(float(must_return(call(f, *a, **kw))) >= g - 1e-12, "decreases with exposure")
    kw["texp"] = t
    need(float(must_return(call(f, a[0] * m, a[1] * m, a[2], **kw))) >= g - 1e-12, "decreases with speed")
    arr = must_return(call(f, np.array([a[0], 0.0]), np.array([a[1], 0.0]), np.array([a[2], a[2]]), **kw))
    okl(float(arr[0]), g, "array")
    need(float(arr[1]) == 0.0, "stationary source has a loss")


def gen_table(rnd, k):
    n = nrows(rnd)
    return {"df": {"RARateCosDec_deg_day": [rnd.choice([1, -1]) * wide(rnd, rnd.gauss(0, 1), 1e-4, 1e4) for _ in range(n)], "DecRate_deg_day": [rnd.choice([1, -1]) * wide(rnd, rnd.gauss(0, 1), 1e-4, 1e4) for _ in range(n)],
                   "Dec_deg": [rnd.uniform(-90, 90) for _ in range(n)], "seeingFwhmEff_arcsec": [wide(rnd, rnd.uniform(0.4, 2), 0.01, 50) for _ in range(n)],
                   "seeingFwhmGeom_arcsec": [wide(rnd, rnd.uniform(0.4, 2), 0.01, 50) for _ in range(n)],
                   "visitExposureTime": [wide(rnd, rnd.choice([15.0, 30.0, 29.2]), 0.01, 1e4) for _ in range(n)]},
            "model": rnd.choice(["trailedSource", "circularPSF", None]), "index": rnd.choice([None, "shuffled"])}


def run_table(c):
    df = index_for(mkframe(c["df"]), c.get("index"))
    inp = df.copy()
    if not all(x > 0 for x in inp["seeingFwhmEff_arcsec"]) or not all(x >= 0 for x in inp["visitExposureTime"]):
        raise Skip()
    f = fn(M + "PPTrailingLoss")
    out = must_return(call(f, df, c["model"]) if c["model"] else call(f, df))
    need(len(out) == len(inp), "one loss per row")
    for i, (g, a, b, s, t) in enumerate(zip(out, inp["RARateCosDec_deg_day"], inp["DecRate_deg_day"], inp["seeingFwhmEff_arcsec"], inp["visitExposureTime"])):
        okl(float(g), law(a, b, s, t, c["model"] or "circularPSF"), f"row {i}")


TARGETS = {"calc_loss": Target(gen_calc, run_calc), "loss_table": Target(gen_table, run_table)}

from focus import focus

TARGETS["run"] = focus(0.5, "LSST", lambda rnd: {"trailing": True})
