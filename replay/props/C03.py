"""C03 fading laws, concrete contracts."""
from common import *
from props.C02 import gen_fading, run_fading, gen_des as gen_desf, run_des as run_desf

P = "sorcha.modules.PPDetectionProbability:"
D = "sorcha.modules.DESDetectionProbability:"


def law(m, lim, ff, w):
    x = (m - lim) / w
    return 0.0 if x > 700 else ff / (1 + math.exp(x))


def okp(got, want, what=""):
    need(abs(got - want) <= 1e-9 + 1e-9 * abs(want), f"{what} probability {got!r}, law gives {want!r}")


def gen_calc(rnd, k):
    lim = rnd.uniform(20, 28)
    m = rnd.choice([lim, rnd.uniform(10, 40), rnd.gauss(lim, 0.3), lim + 1e-9])
    return {"mag": m, "mag2": m + rnd.choice([0.0, 1e-6, 0.1, rnd.uniform(0, 10)]), "limmag": lim,
            "fillFactor": rnd.choice([0.0, 1.0, 0.9, rnd.random()]), "w": rnd.choice([0.1, 0.01, 1.0, rnd.uniform(0.01, 3)])}


def run_calc(c):
    m, lim, ff, w = (c[k] for k in ("mag", "limmag", "fillFactor", "w"))
    if not (w > 0 and 0 <= ff <= 1 and abs((m - lim) / w) < 1e5):
        raise Skip()
    f = fn(P + "calcDetectionProbability")
    p = float(must_return(call(f, m, lim, ff, w)))
    okp(p, law(m, lim, ff, w))
    need(0 <= p <= ff + 1e-15, f"probability {p} outside [0,{ff}]")
    a = must_return(call(f, np.array([m, m + 1]), np.array([lim, lim]), ff, w))
    okp(float(a[0]), law(m, lim, ff, w), "array")
    okp(float(a[1]), law(m + 1, lim, ff, w), "array")
    if "mag2" in c and c["mag2"] >= m:
        need(float(must_return(call(f, c["mag2"], lim, ff, w))) <= p + 1e-15, "increases with magnitude")
    d = float(must_return(call(f, m, lim)))
    okp(d, law(m, lim, 1.0, 0.1), "default")


def gen_table(rnd, k):
    n = nrows(rnd)
    d = {"PSFMag": [wide(rnd, rnd.gauss(24, 1.5), -5, 45) for _ in range(n)], "fiveSigmaDepth_mag": [wide(rnd, rnd.uniform(22, 26), 5, 40) for _ in range(n)],
         "dmagDetect": [wide(rnd, rnd.uniform(0, 2), 0.1, 20) for _ in range(n)], "FieldID": [f"f{i}" for i in range(n)],
         "fieldFiveSigmaDepth_mag": [rnd.uniform(22, 26) for _ in range(n)], "trailedSourceMag": [rnd.uniform(15, 30) for _ in range(n)]}
    if rnd.random() < 0.5:
        d["limMag_perChip"] = [rnd.uniform(22, 26) for _ in range(n)]
    return {"df": d, "fillfactor": rnd.random(), "width": wide(rnd, rnd.uniform(0.02, 1), 1e-3, 1e2), "trailing": rnd.random() < 0.4,
            "defaults": rnd.random() < 0.2, "index": rnd.choice([None, "shuffled"])}


def run_table(c):
    df = index_for(mkframe(c["df"]), c.get("index"))
    inp = df.copy()
    f = fn(P + "PPDetectionProbability")
    ff, w, tl = c.get("fillfactor", 1.0), c.get("width", 0.1), c.get("trailing", False)
    if c.get("defaults"):
        ff, w, tl = 1.0, 0.1, False
        out = must_return(call(f, df))
    else:
        if not w > 0:
            raise Skip()
        out = must_return(call(f, df, trailing_losses=tl, fillFactor=ff, w=w))
    lim = inp["limMag_perChip"] if "limMag_perChip" in inp else inp["fiveSigmaDepth_mag"]
    need(len(out) == len(inp), "one probability per row")
    for i, (m, l, g) in enumerate(zip(inp["PSFMag"], lim, out)):
        okp(float(g), law(m + (inp["dmagDetect"].iloc[i] if tl else 0), l, ff, w), f"row {i}")


def deslaw(m, l, c, k, e):
    x = k * (m - l)
    return 0.0 if x > 700 else e * c / (1 + math.exp(x))


def gen_des(rnd, k):
    n = max(1, nrows(rnd))
    return {"df": {"PSFMag": [wide(rnd, rnd.gauss(24, 1), -5, 45) for _ in range(n)], "fiveSigmaDepth_mag": [wide(rnd, rnd.uniform(22, 26), 5, 40) for _ in range(n)],
                   "c": [rnd.random() for _ in range(n)], "k": [wide(rnd, rnd.uniform(0.1, 12), 1e-4, 1e3) for _ in range(n)],
                   "limMag_perChip": [rnd.uniform(22, 26) for _ in range(n)]},
            "efficiency": rnd.choice([1.0, 0.0, rnd.random()]), "index": rnd.choice([None, "shuffled"])}


def run_des(c):
    df = index_for(mkframe(c["df"]), c.get("index"))
    inp = df.copy()
    out = must_return(call(fn(D + "DESDetectionProbability"), df, c["efficiency"]))
    need(len(out) == len(inp), "one probability per row")
    for i in range(len(inp)):
        r = inp.iloc[i]
        okp(float(out.iloc[i] if hasattr(out, "iloc") else out[i]), deslaw(r["PSFMag"], r["fiveSigmaDepth_mag"], r["c"], r["k"], c["efficiency"]), f"row {i}")


def run_des_calc(c):
    g = float(must_return(call(fn(D + "DEScalcDetectionProbability"), c["mag"], c["limmag"], c["c"], c["k"], c["eff"])))
    okp(g, deslaw(c["mag"], c["limmag"], c["c"], c["k"], c["eff"]))
    need(-1e-15 <= g <= c["eff"] * c["c"] + 1e-12, "outside [0, e*c]")


def gen_des_calc(rnd, k):
    l = rnd.uniform(20, 26)
    return {"mag": rnd.choice([l, rnd.uniform(15, 30)]), "limmag": l, "c": rnd.random(), "k": rnd.uniform(0.1, 12), "eff": rnd.random()}


TARGETS = {
    "calc_prob": Target(gen_calc, run_calc),
    "prob_table": Target(gen_table, run_table),
    "des_calc": Target(gen_des_calc, run_des_calc),
    "des_table": Target(gen_des, run_des),
    "fading": Target(gen_fading, run_fading, weight=0.5),
    "des_fading": Target(gen_desf, run_desf, weight=0.5),
}

from focus import focus

TARGETS["run"] = focus(1, "LSST", lambda rnd: {"fading": True, "vignetting": rnd.random() < 0.5})
TARGETS["run_des"] = focus(0.7, "DES", lambda rnd: {"fading": True, "eff": rnd.choice([None, 0.0])})
