"""C23 faint-object culling against the best-case magnitude computed row by row."""
from common import *
from props.C26 import gen_orbit, state, elements, MU, MUT, kepler_ok
from unittest import mock

M = "sorcha.modules.PPFaintObjectCullingFilter"
pi = math.pi
FMT = {"KEP": ("a", "e", "inc", "node", "argPeri", "ma"), "COM": ("q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"), "CART": ("x", "y", "z", "xdot", "ydot", "zdot")}


def gen_cull(rnd, k):
    fmt = ["KEP", "COM", "CART", "BKEP", "BCOM", "BCART"][k % 6]
    n = rnd.choice([1, 2, 3, 5, 8])
    rows = []
    for j in range(n):
        c = gen_orbit(rnd, j, elliptic=fmt.endswith("KEP"))
        if c["e"] > 0.99 or rnd.random() < 0.5:
            c["e"] = rnd.uniform(0, 0.6)
        c["q"] = rnd.choice([2.0, 1.9999, 2.0001, 2.5, 1.2, 10 ** rnd.uniform(-0.3, 1.7), 10 ** rnd.uniform(0.3, 1.7)])
        c["tp"] = c["t"] - rnd.choice([0, 1, -1, 0.3]) * rnd.uniform(1, 1000)
        c["id"] = f"o{j}" if rnd.random() < 0.8 else str(j)
        rows.append(c)
    filters = rnd.sample(["u", "g", "r", "i"], rnd.randrange(1, 5))
    main = filters[0]
    has = [f for f in ["u", "g", "r", "i", "z"] if rnd.random() < 0.75] or ["z"]
    points = [[f, rnd.uniform(20, 25)] for f in has for _ in range(rnd.choice([1, 2, 3]))]
    rnd.shuffle(points)
    deep = {f: max(d for g, d in points if g == f) for f in has}
    cols = []
    for c in rows:
        col = {f: rnd.choice([0.0, rnd.uniform(-1, 2)]) for f in filters[1:]}
        base = 5 * math.log10(c["q"]) + 5 * math.log10(c["q"] - 1) if c["q"] > 1 else 0
        f = rnd.choice(filters)
        # near the limit in one of the filters
        h = deep.get(f, 22) + 2 - base - (col[f] if f != main else 0) + rnd.choice([-0.1, 0.1, -1, 1, -4, 4])
        cols.append({"H": h, "col": col, "lc": rnd.choice([0.0, -0.5, -2.0]), "act": rnd.choice([0.0, 0.3, 2.5])})
    return {"fmt": fmt, "rows": rows, "phot": cols, "filters": filters, "points": points, "lc": rnd.choice([None, None, "offset", "nobound"]), "act": rnd.choice([None, None, "boost", "nobound"]),
            "index": rnd.choice(["range", "shuffled", "offset"]), "cat": rnd.random() < 0.3}


class Offset:
    def __init__(self):
        pass

    def maxBrightness(self, df):
        return df["lcmax"]


class Boost:
    def __init__(self):
        pass

    def maxBrightness(self, df, observing_filters, rho, delta, alpha):
        need(list(observing_filters) == [df["optFilter"].iloc[0]] if len(df) else True, f"asked for {observing_filters}")
        need(np.allclose(np.asarray(rho) - 1, np.asarray(delta)) and np.all(np.asarray(alpha) == 0), "not at opposition")
        return df["trailedSourceMagTrue"] - df["boost"] * (2 if observing_filters[0] == "g" else 1)


class NoBound:
    def __init__(self):
        pass


def perihelion(c, fmt):
    """heliocentric, as for an object whose Sun is at rest in the origin"""
    s = state(MUT if fmt.startswith("B") else MU, *elements(c), c["t"])
    if fmt.endswith("COM"):
        return c["q"]
    r, v = s[:3], s[3:]
    h = np.cross(r, v)
    e = np.linalg.norm(np.cross(v, h) / MU - r / np.linalg.norm(r))
    return h @ h / MU / (1 + e)


def table(c):
    out = []
    deg = 180 / pi
    main = c["filters"][0]
    for r, p in zip(c["rows"], c["phot"]):
        f = c["fmt"]
        mu = MUT if f.startswith("B") else MU
        d = {"ObjID": r["id"], "FORMAT": f, "epochMJD_TDB": r["t"] - 2400000.5}
        if f.endswith("COM"):
            d.update(q=r["q"], e=r["e"], inc=r["i"] * deg, node=r["node"] * deg, argPeri=r["w"] * deg, t_p_MJD_TDB=r["tp"] - 2400000.5)
        elif f.endswith("KEP"):
            a = r["q"] / (1 - r["e"])
            d.update(a=a, e=r["e"], inc=r["i"] * deg, node=r["node"] * deg, argPeri=r["w"] * deg, ma=(math.sqrt(mu / a ** 3) * (r["t"] - r["tp"]) * deg) % 360)
        else:
            d.update(zip(("x", "y", "z", "xdot", "ydot", "zdot"), map(float, state(mu, *elements(r), r["t"]))))
        d["H_" + main] = p["H"]
        for g, v in p["col"].items():
            d[f"{g}-{main}"] = v
        d["lcmax"], d["boost"] = p["lc"], p["act"]
        out.append(d)
    return index_for(pd.DataFrame(out), c["index"])


def run_cull(c):
    import importlib
    mod = importlib.import_module(M)
    if len({r["id"] for r in c["rows"]}) < len(c["rows"]):
        raise Skip("designations repeat")
    for r in c["rows"]:
        kepler_ok(dict(r, mu=MUT))
    df = table(c)
    pts = pd.DataFrame({"observationId": range(len(c["points"])), "optFilter": [f for f, _ in c["points"]], "fieldFiveSigmaDepth_mag": [d for _, d in c["points"]]})
    if c["cat"]:
        pts["optFilter"] = pts["optFilter"].astype("category")
    before, ptsb = df.copy(), pts.copy()
    with mock.patch.dict(mod.LC_METHODS, {"offset": Offset, "nobound": NoBound}), mock.patch.dict(mod.CA_METHODS, {"boost": Boost, "nobound": NoBound}):
        o = must_return(call(mod.PPFaintObjectCullingFilter, df, pts, c["filters"][0], list(c["filters"]), c["lc"], c["act"]))
    need(pts.equals(ptsb), "the pointings were changed")
    kept = set(o["ObjID"])
    need(list(o["ObjID"]) == [x for x in before["ObjID"] if x in kept], "objects repeated or out of order")
    need(set(o.columns) - {"q"} == set(before.columns) - {"q"}, f"columns {sorted(o.columns)}")
    b = before.set_index("ObjID")
    for x in kept:
        a = o[o["ObjID"] == x].iloc[0]
        for n in before.columns:
            if n != "ObjID":
                need(a[n] == b.loc[x, n], f"{n} of {x} changed")
    main = c["filters"][0]
    nobound = "nobound" in (c["lc"], c["act"])
    for r, p in zip(c["rows"], c["phot"]):
        Q = perihelion(r, c["fmt"])
        if abs(Q - 2) < 1e-5 and r["q"] != 2.0:
            continue
        cull, near = Q >= 2, abs(Q - 2) < 1e-9
        if Q > 1:
            for f in c["filters"]:
                m = p["H"] + (p["col"][f] if f != main else 0) + 5 * math.log10(Q) + 5 * math.log10(Q - 1)
                if c["lc"] == "offset":
                    m += p["lc"]
                if c["act"] == "boost":
                    m -= p["act"] * (2 if f == "g" else 1)
                for g, d in c["points"]:
                    if g == f:
                        near = near or abs(m - d - 2) < 1e-3
                        cull = cull and m > d + 2
        if near:
            continue
        if nobound:  # nothing is known about how bright the model can make an object
            need(r["id"] in kept, f"{r['id']} was culled although its model does not bound its brightness")
            continue
        need((r["id"] not in kept) == cull, f"{r['id']}: perihelion {Q}, magnitude {p}: {'kept' if r['id'] in kept else 'culled'}")


def no_model(m):
    return None


TARGETS = {
    "culling": Target(gen_cull, run_cull, from_model=no_model),
    "perihelion": Target(gen_cull, run_cull, from_model=no_model, weight=0.3),
}

from focus import focus

TARGETS["run"] = focus(0.5, "LSST", lambda rnd: {"ar": True, "brute": False})
