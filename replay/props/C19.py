"""C19 per-visit CCD footprints, concrete contracts (own point-in-polygon oracle)."""
from common import *
import sqlite3
from types import SimpleNamespace

APPLY = "sorcha.modules.PPApplyFOVFilter:PPApplyFOVFilter"
DIRECT = "sorcha.modules.PPVisitsFootprintFilter:PPVisitsFootprint"
QUERY = "SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra as ra_centre, dec as dec_centre, detector as detectorID, magLim as limMag_perChip FROM observations WHERE visitId = ?"


def layouts():
    out = {}
    dec = []
    for r, m in enumerate([3, 4, 5, 6, 6, 7, 7, 6, 6, 5, 4, 3]):
        dec += [((i - (m - 1) / 2) * 0.311, (r - 5.5) * 0.166, 0.149, 0.0745) for i in range(m)]
    out["decam"] = dec
    ls = []
    for a in range(15):
        for b in range(15):
            if (a // 3, b // 3) not in ((0, 0), (0, 4), (4, 0), (4, 4)):
                ls.append(((a - 7) * 0.2347 + (a // 3 - 2) * 0.01, (b - 7) * 0.2347 + (b // 3 - 2) * 0.01, 0.112, 0.112))
    out["lsst"] = ls
    out["one"] = [(0.1, -0.05, 0.4, 0.4)]
    out["two"] = [(-0.3, 0.0, 0.25, 0.2), (0.3, 0.0, 0.25, 0.2)]
    return out


LAYOUTS = layouts()


def to_sky(x, y, ra0, dec0):
    """gnomonic, degrees; RA continuous around the field centre"""
    x, y, a, d = (math.radians(t) for t in (x, y, ra0, dec0))
    f = (math.cos(a) * math.cos(d), math.sin(a) * math.cos(d), math.sin(d))
    e = (-math.sin(a), math.cos(a), 0.0)
    n = (-math.cos(a) * math.sin(d), -math.sin(a) * math.sin(d), math.cos(d))
    v = [f[i] + x * e[i] + y * n[i] for i in range(3)]
    r = math.sqrt(sum(t * t for t in v))
    ra = math.degrees(math.atan2(v[1], v[0]))
    return ra0 + (ra - ra0 + 180) % 360 - 180, math.degrees(math.asin(v[2] / r))


def turn(x, y, rot):
    c, s = math.cos(math.radians(rot)), math.sin(math.radians(rot))
    return c * x - s * y, s * x + c * y


NAN = float("nan")


def ccds_of(v):
    out = []
    for k, (cx, cy, hx, hy) in enumerate(LAYOUTS[v["layout"]]):
        cs = [to_sky(*turn(cx + a * hx, cy + b * hy, v["rot"]), v["ra"], v["dec"]) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        out.append({"c": cs, "m": to_sky(*turn(cx, cy, v["rot"]), v["ra"], v["dec"]), "det": (k * 7 + 3) % 1000 if v.get("mixed") else k + 1, "lim": None if v.get("nulls") and k % 3 else 20.0 + ((k * 37) % 100) / 25.0 + v["id"] % 3 * 0.001})
    return out


def side(cs, p):
    """smallest signed distance (relative) to the edges: > 0 inside"""
    s = []
    for (x0, y0), (x1, y1) in zip(cs, cs[1:] + cs[:1]):
        s.append(((x1 - x0) * (p[1] - y0) - (y1 - y0) * (p[0] - x0)) / math.hypot(x1 - x0, y1 - y0))
    t = 1 if sum(s) > 0 else -1
    return min(t * x for x in s)


def gen(rnd, k):
    visits = []
    for i in range(rnd.choice([1, 1, 2, 3])):
        visits.append({"id": rnd.choice([5, 6, 7]) + 10 * i, "layout": rnd.choice(["decam", "decam", "lsst", "one", "two"]),
                       "ra": rnd.choice([0.11, 359.7, 1.9, 358.2, 0.0, 180.0, rnd.uniform(0, 360), rnd.uniform(0, 3)]),
                       "dec": rnd.choice([0.0, -30.0, -60.0, 60.0, -75.0, -83.0, rnd.uniform(-85, 85)]),
                       "rot": rnd.choice([0.0, 90.0, 180.0, rnd.uniform(0, 360)]), "mixed": rnd.random() < 0.5, "nulls": rnd.random() < 0.1, "stored": rnd.random() < 0.9})
    pts = []
    for _ in range(rnd.choice([0, 1, 2, 5, 20, 60, 150])):
        i = rnd.randrange(len(visits))
        lay = LAYOUTS[visits[i]["layout"]]
        cx, cy, hx, hy = rnd.choice(lay)
        a = rnd.choice([0.0, 0.999, -0.999, 1.001, -1.001, 0.5, rnd.uniform(-1, 1), rnd.uniform(-1, 1)])
        b = rnd.choice([0.0, 0.999, -0.999, 1.001, -1.001, rnd.uniform(-1, 1), rnd.uniform(-1, 1)])
        w = rnd.random()
        x, y = (cx + a * hx, cy + b * hy) if w < 0.8 else (rnd.uniform(-2.3, 2.3), rnd.uniform(-2.3, 2.3))
        pts.append([i, x, y])
    return {"visits": visits, "pts": pts, "via": rnd.choice(["apply", "apply", "direct"]), "ext": rnd.random() < 0.4}


def run(c):
    fov = {v["id"]: ccds_of(v) for v in c["visits"]}
    d = {x: [] for x in ("ObjID", "FieldID", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "other")}
    want = []
    for n, (i, x, y) in enumerate(c["pts"]):
        v = c["visits"][i]
        p = to_sky(*turn(x, y, v["rot"]), v["ra"], v["dec"])
        if not abs(p[1]) < 89:
            continue
        hits = [(side(q["c"], p), q) for q in fov[v["id"]]]
        if any(abs(s) < 1e-7 for s, q in hits):
            continue
        want.append([(q["det"], q["lim"]) for s, q in hits if s > 0] if v["stored"] else [])
        for col, val in (("ObjID", f"o{n % 7}"), ("FieldID", v["id"]), ("fieldRA_deg", v["ra"]), ("fieldDec_deg", v["dec"]), ("RA_deg", p[0] % 360), ("Dec_deg", p[1]), ("other", float(n))):
            d[col].append(val)
    if not want:
        raise Skip()
    df = pd.DataFrame(d)
    inp = df.copy()
    with scratch() as tmp:
        db = os.path.join(tmp, "visits.db")
        con = sqlite3.connect(db)
        con.execute("create table observations (visitId integer, llcra real, llcdec real, lrcra real, lrcdec real, urcra real, urcdec real, ulcra real, ulcdec real, ra real, dec real, detector integer, magLim real)")
        rows = [(v["id"], *[t for p in q["c"] for t in p], *q["m"], q["det"], q["lim"]) for v in c["visits"] if v["stored"] for q in fov[v["id"]]]
        con.executemany("insert into observations values (" + ",".join("?" * 13) + ")", rows)
        con.commit()
        con.close()
        if c["via"] == "direct":
            out = must_return(call(fn(DIRECT), df, QUERY, db))
            need(isinstance(out, tuple) and len(out) == 3, "three lists")
            got = {int(i): (int(a), NAN if b is None else float(b)) for i, a, b in zip(*out)}
            need(len(got) == len(out[0]) == len(out[1]) == len(out[2]), "a detection listed twice")
            place = sorted(got)
        else:
            sim = SimpleNamespace(ar_ang_fov=None if c["ext"] else 2.06, ar_fov_buffer=None if c["ext"] else 0.2)
            cfg = SimpleNamespace(fov=SimpleNamespace(camera_model="visits_footprint", visits_query=QUERY), simulation=sim)
            o = must_return(call(fn(APPLY), df, cfg, None, visits=db))
            place = [int(t) for t in o["other"]]
            pos = {float(t): i for i, t in enumerate(inp["other"])}
            place = [pos[float(t)] for t in o["other"]]
            need(place == sorted(set(place)), "rows out of order or repeated")
            got = {i: (int(a), NAN if b is None else float(b)) for i, a, b in zip(place, o["detectorID"], o["limMag_perChip"])}
            for col in inp.columns:
                for i, t in zip(place, o[col]):
                    need(same(t, inp[col].iloc[i]), f"column {col} changed")
    for i, w in enumerate(want):
        r = inp.iloc[i]
        at = f"detection at ({r['RA_deg']:.6f}, {r['Dec_deg']:.6f}) of the visit at ({r['fieldRA_deg']:.4f}, {r['fieldDec_deg']:.4f})"
        need((i in got) == bool(w), f"{at}: on CCD {[x[0] for x in w]}, {'kept' if i in got else 'dropped'}")
        if w:
            need(any(got[i][0] == a and (got[i][1] != got[i][1] if b is None else abs(got[i][1] - b) < 1e-9) for a, b in w), f"{at}: on CCD {w}, labelled {got[i]}")


TARGETS = {"visits": Target(gen, run, from_model=lambda m: None, weight=3), "fov": Target(gen, run, from_model=lambda m: None)}
