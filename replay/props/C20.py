"""C20 distance, motion and discovery cuts, concrete contracts (brute-force oracles)."""
import pipeline as PL
from common import *
from fractions import Fraction as F

P = "sorcha.modules.PPDistanceandMotionCuts:"
D = "sorcha.modules.DESDiscoveryFilter:"
AU = 149597870.7
REL = 1e-12


def ids(rnd, n, k=None):
    k = k or rnd.choice([1, 2, 3, 6])
    pool = rnd.choice([[f"o{j}" for j in range(k)], [f"{j}" for j in range(k)], [("x" * j) + "y" for j in range(k)]])
    return [rnd.choice(pool) for _ in range(n)]


def unit(rnd):
    while True:
        v = [rnd.gauss(0, 1) for _ in range(3)]
        s = math.sqrt(sum(x * x for x in v))
        if s > 1e-3:
            return [x / s for x in v]


def gen_distance(rnd, k):
    n = nrows(rnd)
    lo, hi = rnd.choice([(0.0, 5.0), (1.0, 2.0), (30.0, 50.0), (0.0, 1e-3), (5.0, 5.0)])
    d = {"ObjID": ids(rnd, n), "a": [float(i) + rnd.random() for i in range(n)]}
    xyz = []
    for _ in range(n):
        r = rnd.choice([lo * (1 + 1e-6), hi * (1 - 1e-6), hi * (1 + 1e-6), lo * (1 - 1e-6), rnd.uniform(0, 2 * hi), rnd.uniform(lo, hi), 10 * hi]) * AU
        xyz.append([r * x for x in unit(rnd)])
    for j, c in enumerate("xyz"):
        d[f"Obj_Sun_{c}_LTC_km"] = [v[j] for v in xyz]
    return {"df": d, "hi": hi, "lo": lo, "index": rnd.choice([None, "shuffled"])}


def run_distance(c):
    df = index_for(mkframe(c["df"]), c.get("index"))
    inp = df.copy()
    if len(df) and c.get("index") is None and not df.index.is_unique:
        raise Skip()
    good = set()
    for i in range(len(inp)):
        r = inp.iloc[i]
        d2 = sum(float(r[f"Obj_Sun_{a}_LTC_km"]) ** 2 for a in "xyz")
        lo2, hi2 = (c["lo"] * AU) ** 2, (c["hi"] * AU) ** 2
        if min(abs(d2 - lo2), abs(d2 - hi2)) <= REL * max(d2, lo2, hi2) and d2 > 0:
            raise Skip()
        if lo2 < d2 < hi2:
            good.add(r["ObjID"])
    out = must_return(call(fn(P + "distance_cut"), df, c["hi"], c["lo"]))
    rows_equal(out, inp, [x in good for x in inp["ObjID"]], "detections", reset=False)


def gen_motion(rnd, k):
    n = nrows(rnd)
    lo, hi = rnd.choice([(0.0, 1.0), (0.1, 0.5), (0.002, 0.4), (3.0, 4.0)])
    v = []
    for _ in range(n):
        s = rnd.choice([lo * (1 + 1e-6), hi * (1 - 1e-6), hi * (1 + 1e-6), lo * (1 - 1e-6), rnd.uniform(0, 2 * hi), rnd.uniform(lo, hi)])
        t = rnd.choice([0.0, math.pi / 2, math.pi, -math.pi / 2, rnd.uniform(0, 7)])
        v.append((s * math.cos(t), s * math.sin(t)))
    return {"df": {"ObjID": ids(rnd, n), "RARateCosDec_deg_day": [a for a, b in v], "DecRate_deg_day": [b for a, b in v], "a": [rnd.random() for _ in range(n)]},
            "hi": hi, "lo": lo, "index": rnd.choice([None, "shuffled", "offset"])}


def run_motion(c):
    df = index_for(mkframe(c["df"]), c.get("index"))
    inp = df.copy()
    keep = []
    for a, b in zip(inp["RARateCosDec_deg_day"], inp["DecRate_deg_day"]):
        m2 = a * a + b * b
        lo2, hi2 = c["lo"] ** 2, c["hi"] ** 2
        if min(abs(m2 - lo2), abs(m2 - hi2)) <= REL * max(m2, hi2) and m2 > 1e-30:
            raise Skip()
        keep.append(lo2 < m2 < hi2)
    out = must_return(call(fn(P + "motion_cut"), df, c["hi"], c["lo"]))
    rows_equal(out, inp, keep, "detections", reset=False)


EPS = 1e-6


def edges(rnd, xs):
    x = rnd.choice(xs)
    return x + rnd.choice([-1e-3, 1e-3, 0.01, -0.01, 1e-5, -1e-5])


def gen_times(rnd, k, base=None):
    """a time-ordered series whose gaps sit around every boundary of the criteria"""
    n = rnd.choice([1, 2, 3, 3, 4, 5, 7, 8, 9, 10, 12, 25])
    t = rnd.choice([0.0, 60000.0, -3.0, rnd.uniform(5e4, 7e4)])
    style = rnd.choice(["night", "season", "mix", "pair", "long"])
    out = [t]
    for _ in range(n - 1):
        kind = style if style != "mix" else rnd.choice(["night", "season", "pair", "long"])
        if kind == "night":
            g = edges(rnd, [0.4, 0.7, 1.0, 0.3, 0.1])
        elif kind == "season":
            g = rnd.choice([edges(rnd, [60, 90]), rnd.uniform(0, 100), rnd.uniform(0.02, 0.5)])
        elif kind == "pair":
            g = rnd.choice([0.02, edges(rnd, [0.2, 0.4]), rnd.uniform(20, 95)])
        else:
            g = rnd.choice([edges(rnd, [182.625, 182.625 - 0.7, 182.625 + 0.7]), 0.35, 1.0, rnd.uniform(100, 200)])
        out.append(out[-1] + max(0.0, g))
    return out


def guard(vals, bounds):
    """stay away from equality, where rounding of the code's own arithmetic decides"""
    for v in vals:
        for b in bounds:
            if abs(v - b) < 1e-7:
                raise Skip()


def o_arc(ts):
    lo, hi = min(ts), max(ts)
    guard([t - lo for t in ts] + [hi - t for t in ts], [0.7, 182.625])
    late = [t for t in ts if t - lo > 0.7]
    early = [t for t in ts if hi - t > 0.7]
    return bool(late) and bool(early) and hi - min(late) > 182.625 and max(early) - lo > 182.625


def o_starts(ts):
    guard([b - a for a, b in zip(ts, ts[1:])], [0.4])
    return [ts[0]] + [b for a, b in zip(ts, ts[1:]) if b - a > 0.4]


def o_triplet(ts, w):
    s = o_starts(ts)
    guard([y - x for x in s for y in s if y > x], [w])
    return any(s[b] - s[a] < w and s[c] - s[b] < w for a in range(len(s)) for b in range(a + 1, len(s)) for c in range(b + 1, len(s)))


def o_nights(ts):
    guard([abs(x - y) for i, x in enumerate(ts) for y in ts[:i]], [0.4])
    return sum(1 for i, x in enumerate(ts) if all(abs(x - y) >= 0.4 for y in ts[:i]))


def on_times(name, oracle, ordered=True):
    def run(c):
        ts = [float(x) for x in c["times"]]
        if not ts or (ordered and any(b < a for a, b in zip(ts, ts[1:]))) or not all(math.isfinite(x) and abs(x) < 1e7 for x in ts):
            raise Skip()
        extra = [c["thresh"]] if "thresh" in c else []
        want = oracle(ts, *extra)
        got = must_return(call(fn(D + name), np.array(ts, dtype="f8"), *[float(x) for x in extra]))
        need(got == want, f"{name}: {got!r}, specified {want!r} (gaps {[round(b - a, 5) for a, b in zip(ts, ts[1:])][:30]})")
    return run


def gen_any(rnd, k):
    t = gen_times(rnd, k)
    if rnd.random() < 0.4:
        rnd.shuffle(t)
    return {"times": t}


def gen_trip(rnd, k):
    return {"times": gen_times(rnd, k), "thresh": rnd.choice([60.0, 90.0, 60.0, 90.0, rnd.uniform(0.5, 120)])}


def gen_discovery(rnd, k):
    rows = []
    for o in range(rnd.choice([1, 1, 2, 3, 5])):
        if rnd.random() < 0.6:  # near the acceptance boundary
            n = rnd.choice([6, 7, 8, 9, 10])
            t0 = 60000.0 + rnd.uniform(0, 30)
            ts, t = [], t0
            for _ in range(n):
                ts.append(t)
                t += rnd.choice([1.0, edges(rnd, [0.4]), edges(rnd, [60, 90]), rnd.uniform(1, 100), 59.0, 89.0])
            if rnd.random() < 0.3:
                ts.append(ts[-1] + edges(rnd, [182.625]))
            if rnd.random() < 0.4:
                ts += [x + 0.1 for x in ts if rnd.random() < 0.5]
        else:
            ts = gen_times(rnd, k)
        r0 = rnd.choice([rnd.uniform(1, 100), 50 * (1 + 1e-6), 50 * (1 - 1e-6), 40, 60])
        name = rnd.choice(["o", "obj", "2001"]) + str(o)
        for i, t in enumerate(ts):
            r = r0 * (1 + (rnd.choice([0, 0, 1e-4, 1e-3]) if i else 0))
            rows.append((name, t, [r * AU * x for x in unit(rnd)]))
    o = rnd.choice(["given", "time", "shuffled"])
    if o == "time":
        rows.sort(key=lambda x: x[1])
    elif o == "shuffled":
        rnd.shuffle(rows)
    return {"df": {"ObjID": [r[0] for r in rows], "fieldMJD_TAI": [r[1] for r in rows], "Obj_Sun_x_LTC_km": [r[2][0] for r in rows],
                   "Obj_Sun_y_LTC_km": [r[2][1] for r in rows], "Obj_Sun_z_LTC_km": [r[2][2] for r in rows], "a": [float(i) for i in range(len(rows))]},
            "index": rnd.choice([None, "shuffled"])}


def run_discovery(c):
    df = mkframe(c["df"])
    if not len(df) or not all(isinstance(x, str) for x in df["ObjID"]):
        raise Skip()
    df = index_for(df, c.get("index"))
    df["a"] = np.arange(len(df), dtype=float)
    inp = df.copy()
    keep = set()
    for o in sorted(set(inp["ObjID"])):
        s = inp[inp["ObjID"] == o]
        ts = sorted(float(x) for x in s["fieldMJD_TAI"])
        d2 = min(sum(float(r[f"Obj_Sun_{a}_LTC_km"]) ** 2 for a in "xyz") for _, r in s.iterrows())
        if abs(d2 - (50 * AU) ** 2) < REL * d2:
            raise Skip()
        n = o_nights(ts)
        if n >= 9 or (n >= 7 and o_arc(ts) and o_triplet(ts, 90.0 if d2 > (50 * AU) ** 2 else 60.0)):
            keep.add(o)
    out = must_return(call(fn(D + "DESDiscoveryFilter"), df))
    want = inp[inp["ObjID"].isin(keep)]
    need(len(out) == len(want), f"{len(out)} detections kept, {len(want)} specified; objects {sorted(set(out['ObjID']))} for {sorted(keep)}")
    need(set(out.columns) == set(inp.columns), "columns")
    t = [float(x) for x in out["fieldMJD_TAI"]]
    need(t == sorted(t), "not ordered by time")
    need(list(out.index) == list(range(len(out))), "rows not renumbered")
    w = {r["a"]: r for _, r in want.iterrows()}
    need(sorted(out["a"]) == sorted(w), "other detections than specified")
    for _, r in out.iterrows():
        for cc in inp.columns:
            need(same(r[cc], w[r["a"]][cc]), f"column {cc} changed")


def times_model(with_thresh=False):
    def f(m):
        ts = m.get("times") or m.get("df")
        if not isinstance(ts, list):
            return None
        return {"times": ts, **({"thresh": m["thresh"]} if with_thresh else {})}
    return f


TARGETS = {
    "pipeline_des": PL.target(1.5, survey="DES", ret=False),
    "distance": Target(gen_distance, run_distance, from_model=lambda m: None),
    "motion": Target(gen_motion, run_motion, from_model=lambda m: None),
    "arccut": Target(gen_any, on_times("compute_arccut", o_arc, False), from_model=times_model()),
    "triplet": Target(gen_trip, on_times("compute_triplet", o_triplet), from_model=times_model(True)),
    "nunique": Target(gen_any, on_times("compute_nunique", o_nights, False), from_model=times_model()),
    "discovery": Target(gen_discovery, run_discovery, from_model=lambda m: None, weight=2),
}
