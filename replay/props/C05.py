"""C05 vignetting, concrete contracts."""
from common import *

M = "sorcha.modules.PPVignetting:"
D = json.load(open(os.path.join(os.path.dirname(HERE), "data", "vignetting_curve.json")))
R_, F_ = D["r"], D["frac"]


def curve(x):
    if x <= R_[0]:
        return F_[0]
    if x >= R_[-1]:
        return F_[-1]
    for i in range(len(R_) - 1):
        if x <= R_[i + 1]:
            return F_[i] + (F_[i + 1] - F_[i]) * (x - R_[i]) / (R_[i + 1] - R_[i])


def loss(x):
    return -2.5 * math.log10(curve(x) / F_[0])


def sep(ra1, d1, ra2, d2):
    """angular distance through unit vectors, radians"""
    def u(a, d):
        return np.array([math.cos(d) * math.cos(a), math.cos(d) * math.sin(a), math.sin(d)])
    a, b = u(ra1, d1), u(ra2, d2)
    return math.atan2(np.linalg.norm(np.cross(a, b)), float(a @ b))


def gen_vig(rnd, k):
    if k < len(R_):
        return {"x": R_[k], "y": R_[min(k + 1, len(R_) - 1)]}
    x = rnd.choice([rnd.uniform(0, 2), rnd.uniform(1.6, 2.0), 0.0])
    return {"x": x, "y": min(2.0, x + rnd.choice([0.0, 1e-6, rnd.uniform(0, 1)]))}


def run_vig(c):
    f = fn(M + "vignetFunc")
    x = c["x"]
    if not 0 <= x <= 2:
        raise Skip()
    g = float(must_return(call(f, x)))
    need(abs(g - loss(x)) < 1e-9, f"loss {g!r} at {x}, tabulated curve gives {loss(x)!r}")
    need(g >= 0, "negative loss")
    if "y" in c and c["y"] >= x:
        a = must_return(call(f, np.array([x, c["y"], x])))
        need(a[1] >= a[0], "decreases off-axis")
        need(abs(a[0] - g) < 1e-12 and abs(a[2] - g) < 1e-12, "array differs from scalar")


def gen_hav(rnd, k):
    ra, d = rnd.uniform(0, 2 * math.pi), rnd.choice([rnd.uniform(-1.5, 1.5), 1.5707, -1.5707, 0.0])
    s = rnd.choice([0.0, 1e-6, 0.01, 0.05, 1.0])
    return {"ra1": ra, "dec1": d, "ra2": ra + rnd.gauss(0, 1) * s + rnd.choice([0, 0, 2 * math.pi]), "dec2": max(-1.57, min(1.57, d + rnd.gauss(0, 1) * s))}


def run_hav(c):
    a = [c[k] for k in ("ra1", "dec1", "ra2", "dec2")]
    if max(map(abs, a)) > 50 or abs(a[1]) > 1.5708 or abs(a[3]) > 1.5708:
        raise Skip()
    g = float(must_return(call(fn(M + "haversine"), *a)))
    w = sep(*a)
    need(abs(g - w) < 1e-7 or w > 3, f"separation {g!r}, true {w!r}")


def gen_table(rnd, k):
    n = nrows(rnd)
    ra = [rnd.choice([rnd.uniform(0, 360), 0.2, 359.9]) for _ in range(n)]
    de = [rnd.choice([rnd.uniform(-85, 85), -89.0, 0.0]) for _ in range(n)]
    r = lambda: rnd.choice([0.0, rnd.uniform(-1.4, 1.4), rnd.uniform(-0.1, 0.1)])
    fra, fde = [], []
    for a, d in zip(ra, de):
        fde.append(max(-89.9, min(89.9, d + r())))
        fra.append((a + r() / max(0.05, math.cos(math.radians(d)))) % 360)
    return {"df": {"RA_deg": ra, "Dec_deg": de, "fieldRA_deg": fra, "fieldDec_deg": fde, "FieldID": [f"f{i%3}" for i in range(n)],
                   "fieldFiveSigmaDepth_mag": [rnd.uniform(22, 25) for _ in range(n)]}, "index": rnd.choice([None, "shuffled"])}


def run_table(c):
    df = index_for(mkframe(c["df"]), c.get("index"))
    inp = df.copy()
    if len(inp) and float(np.abs(inp[["RA_deg", "Dec_deg", "fieldRA_deg", "fieldDec_deg"]].values).max()) > 720:
        raise Skip()
    out = must_return(call(fn(M + "vignettingEffects"), df))
    need(len(out) == len(inp), "one depth per row")
    for i in range(len(inp)):
        r = inp.iloc[i]
        th = math.degrees(sep(*[math.radians(r[k]) for k in ("RA_deg", "Dec_deg", "fieldRA_deg", "fieldDec_deg")]))
        w = r["fieldFiveSigmaDepth_mag"] - loss(th)
        g = float(list(out)[i])
        need(abs(g - w) < 1e-6, f"row {i}: depth {g!r}, specified {w!r} at {th} deg")


TARGETS = {"vignet": Target(gen_vig, run_vig), "haversine": Target(gen_hav, run_hav), "vignet_table": Target(gen_table, run_table)}
MIN_CASES = 130

from focus import focus

TARGETS["run"] = focus(0.5, "LSST", lambda rnd: {"vignetting": rnd.random() < 0.8})
