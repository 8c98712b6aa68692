"""C18 camera footprints, concrete contracts (own projection and point-in-polygon oracle)."""
from common import *
from props.C19 import LAYOUTS, to_sky, turn
import csv
from types import SimpleNamespace

MOD = "sorcha.modules.PPFootprintFilter:"
AP = "sorcha.modules.PPApplyFOVFilter:"
AS = math.pi / 180 / 3600


def ccw(cs):
    """corners of a convex polygon in counterclockwise order (gift wrapping)"""
    cs = [tuple(c) for c in cs]
    cur = min(cs)
    out = [cur]
    while True:
        nxt = None
        for c in cs:
            if c == cur:
                continue
            if nxt is None:
                nxt = c
                continue
            t = (nxt[0] - cur[0]) * (c[1] - cur[1]) - (nxt[1] - cur[1]) * (c[0] - cur[0])
            if t < 0:
                nxt = c
        if nxt is None or nxt == out[0] or len(out) > len(cs):
            return out
        out.append(nxt)
        cur = nxt


def sides(cs, p):
    """signed distances to the lines of the edges, > 0 inside"""
    return [((x1 - x0) * (p[1] - y0) - (y1 - y0) * (p[0] - x0)) / math.hypot(x1 - x0, y1 - y0) for (x0, y0), (x1, y1) in zip(cs, cs[1:] + cs[:1])]


def plane(ra, dec, fra, fdec, rot):
    """gnomonic projection by rotating the field to the pole; None behind the camera"""
    a, d, fa, fd, t = (math.radians(x) for x in (ra, dec, fra, fdec, rot))
    v = (math.cos(d) * math.cos(a - fa), math.cos(d) * math.sin(a - fa), math.sin(d))
    z = v[0] * math.cos(fd) + v[2] * math.sin(fd)
    n = -v[0] * math.sin(fd) + v[2] * math.cos(fd)
    if z <= 0:
        return None
    x, y = v[1] / z, n / z
    return math.cos(t) * x - math.sin(t) * y, math.sin(t) * x + math.cos(t) * y


# ---------------------------------------------------------------- projection
def gen_project(rnd, k):
    n = rnd.choice([1, 2, 5])
    out = []
    for _ in range(n):
        fra = rnd.choice([0.0, 359.9, 180.0, 90.0, rnd.uniform(0, 360)])
        fdec = rnd.choice([0.0, -30.0, 88.0, -88.5, rnd.uniform(-89, 89)])
        p = to_sky(rnd.uniform(-3, 3), rnd.uniform(-3, 3), fra, fdec)
        if rnd.random() < 0.2:
            p = (rnd.uniform(0, 360), rnd.uniform(-90, 90))
        out.append([p[0] % 360, p[1], fra, fdec, rnd.choice([0.0, 90.0, -45.0, 360.0, rnd.uniform(-180, 360)])])
    return {"rows": out}


def run_project(c):
    rows = [r for r in c["rows"] if plane(*r) is not None and abs(r[3]) < 89.5]
    rows = [r for r in rows if math.hypot(*plane(*r)) < 5]
    if not rows:
        raise Skip()
    cols = [np.radians(np.array(x, float)) for x in zip(*rows)]
    keep = [x.copy() for x in cols]
    x, y = must_return(call(fn(MOD + "radec_to_focal_plane"), *cols))
    tx, ty = must_return(call(fn(MOD + "radec_to_tangent_plane"), *cols[:4]))
    need(all(np.array_equal(a, b) for a, b in zip(keep, cols)), "inputs changed")
    for i, r in enumerate(rows):
        for (u, v), w, what in (((x[i], y[i]), plane(*r), "focal plane"), ((tx[i], ty[i]), plane(*r[:4], 0.0), "tangent plane")):
            need(math.hypot(u - w[0], v - w[1]) < 1e-9 * (1 + math.hypot(*w)) / math.cos(math.radians(r[3])), f"{what} position of {r}: ({u}, {v}), should be {w}")


# --------------------------------------------------------------------- edges
def gen_edges(rnd, k):
    s = rnd.choice([1.0, 0.01])
    e = [rnd.choice([0.0, 1.0, -1.0, rnd.uniform(-1, 1)]) * s for _ in range(4)]
    return {"e": e, "pts": [[rnd.choice([e[0], e[2], (e[0] + e[2]) / 2, rnd.uniform(-2, 2) * s]), rnd.choice([e[1], e[3], rnd.uniform(-2, 2) * s])] for _ in range(rnd.choice([1, 3, 8]))]}


def run_edges(c):
    x0, y0, x1, y1 = c["e"]
    P = np.array(c["pts"], float).T
    inp = P.copy()
    d = must_return(call(fn(MOD + "distToSegment"), P, x0, y0, x1, y1))
    need(np.array_equal(P, inp), "points changed")
    need(len(d) == P.shape[1], "one distance per point")
    for i in range(P.shape[1]):
        f = lambda u: math.hypot(P[0, i] - x0 - u * (x1 - x0), P[1, i] - y0 - u * (y1 - y0))
        lo, hi = 0.0, 1.0
        for _ in range(120):  # the distance is convex along the edge
            a, b = lo + (hi - lo) / 3, hi - (hi - lo) / 3
            lo, hi = (lo, b) if f(a) <= f(b) else (a, hi)
        w = min(f(0.0), f(1.0), f((lo + hi) / 2))
        need(abs(float(d[i]) - w) < 1e-7, f"point ({P[0, i]}, {P[1, i]}): {d[i]} from the edge {c['e']}, should be {w}")


def model_edges(m):
    try:
        return {"e": [float(m[k]) for k in ("x0", "y0", "x1", "y1")], "pts": [[float(a), float(b)] for a, b in zip(m["pts"]["x"], m["pts"]["y"])]}
    except Exception:
        return None


# ------------------------------------------------------------------ detectors
def shape(rnd):
    """corners of a convex quadrilateral around the origin, any order"""
    h = [rnd.uniform(0.6, 1.0) for _ in range(4)] if rnd.random() < 0.4 else [1.0] * 4
    cs = [(a * r, b * r) for (a, b), r in zip(((-1, -1), (1, -1), (1, 1), (-1, 1)), h)]
    rnd.shuffle(cs)
    return cs


def gen_ison(rnd, k):
    c, rot, size = (rnd.uniform(-0.03, 0.03), rnd.uniform(-0.03, 0.03)), rnd.uniform(0, 360), rnd.choice([0.002, 0.01])
    cs = [turn(x * size, y * size * 0.7, rot) for x, y in shape(rnd)]
    pts = []
    edge = rnd.choice([None, None, 0.0, 0.6, 2.0, 7.9, 20.0, 100.0])
    near = lambda: rnd.choice([-1, 1]) * (1 - (edge or 0.0) * AS / size * rnd.uniform(0.85, 1.15))
    for _ in range(rnd.choice([1, 4, 20])):
        a, b = (rnd.choice([0.0, 0.9999, 1.0001, -0.999, near(), rnd.uniform(-1.3, 1.3)]) for _ in range(2))
        pts.append(list(turn(a * size, b * size * 0.7, rot)))
    off = lambda p: [p[0] + c[0], p[1] + c[1]]
    return {"corners": [off(p) for p in cs], "pts": [off(p) for p in pts], "units": rnd.choice(["radians", "degrees", "deg"]),
            "edge": edge}


def run_ison(c):
    D = fn(MOD + "Detector")
    # corners as angles whose projection is where the case says
    ang = [(math.atan(x), math.atan(y * math.cos(math.atan(x)))) for x, y in c["corners"]]
    s = 1.0 if c["units"] == "radians" else 180 / math.pi
    det = must_return(call(D, np.array(ang).T * s, 7, **({"units": c["units"]} if c["units"] != "radians" else {})))
    need(det.ID == 7, "detector number")
    must_return(call(det.sortCorners))
    got = sorted((float(x), float(y)) for x, y in zip(det.x, det.y))
    for a, b in zip(got, sorted(tuple(p) for p in c["corners"])):
        need(math.hypot(a[0] - b[0], a[1] - b[1]) < 1e-12, f"corner at {a}, should be {b}")
    poly = ccw(c["corners"])
    area = sum(x0 * y1 - y0 * x1 for (x0, y0), (x1, y1) in zip(poly, poly[1:] + poly[:1])) / 2
    need(len(poly) < 4 or abs(float(must_return(call(det.trueArea))) - area) < 1e-12, "area of the detector")
    thr = 0.0 if c["edge"] is None else c["edge"] * AS
    pts, want = [], []
    for p in c["pts"]:
        m = min(sides(poly, p))
        if len(poly) < 4 or abs(m - thr) < 1e-8 or abs(m) < 1e-7:
            continue
        pts.append(p)
        want.append(m > thr)
    if not pts:
        raise Skip()
    P = np.array(pts).T
    inp = P.copy()
    r = must_return(call(det.ison, P, **({} if c["edge"] is None else {"edge_thresh": c["edge"]})))
    need(np.array_equal(P, inp), "points changed")
    got = [int(i) for i in r]
    need(got == sorted(set(got)), "a point listed twice or out of order")
    for i, w in enumerate(want):
        need((i in got) == w, f"point {pts[i]} {'on' if w else 'off'} the detector {c['corners']} (edge threshold {c['edge']}), reported {'on' if i in got else 'off'}")


# ------------------------------------------------------------------ footprint
def files():
    out = {}
    base = os.path.join(os.path.dirname(sys.modules["sorcha.modules.PPFootprintFilter"].__file__), "data")
    for name, f, u in (("lsst", "LSST_detector_corners_100123.csv", 1.0), ("des", "DES_ccd_corners.csv", math.pi / 180)):
        dets = {}
        with open(os.path.join(base, f)) as h:
            for row in csv.DictReader(h):
                dets.setdefault(row["detector"], []).append((float(row["x"]) * u, float(row["y"]) * u))
        out[name] = [(n, [(math.tan(a), math.tan(b) / math.cos(a)) for a, b in cs]) for n, cs in dets.items()]
    return out


def gen_foot(rnd, k):
    cam = rnd.choice(["lsst", "lsst", "LSST", "des", "DES", "rubin_sim", "file", "file"])
    c = {"camera": cam, "edge": rnd.choice([None, None, 2.0, 7.9, 10.0, 60.0]), "rows": [], "shuffle": rnd.randrange(1000), "names": rnd.choice(["int", "str"]),
         "layout": rnd.choice(["two", "one", "decam"]), "norot": False}
    fields = [(rnd.choice([0.0, 359.8, 10.0, rnd.uniform(0, 360)]), rnd.choice([0.0, -30.0, -85.0, 60.0, rnd.uniform(-88, 88)]), rnd.choice([0.0, 90.0, rnd.uniform(0, 360)])) for _ in range(rnd.choice([1, 2, 4]))]
    for _ in range(rnd.choice([1, 3, 30, 200])):
        f = rnd.choice(fields)
        if rnd.random() < 0.6:
            x, y = rnd.uniform(-1.8, 1.8), rnd.uniform(-1.8, 1.8)
        else:
            lay = LAYOUTS[c["layout"] if cam == "file" else ("decam" if cam.lower() == "des" else "lsst")]
            u = rnd.choice(lay)
            x, y = u[0] + rnd.choice([1, -1, 0.99]) * rnd.uniform(0.97, 1.03) * u[2], u[1] + rnd.uniform(-1, 1) * u[3]
        if rnd.random() < 0.05:
            x, y = x * 5, y * 5
        c["rows"].append([x, y, *f])
    return c


def run_foot(c):
    F = fn(MOD + "Footprint")
    with scratch() as tmp:
        if c["camera"] == "file":
            rnd = random.Random(c["shuffle"])
            dets = []
            for k, (cx, cy, hx, hy) in enumerate(LAYOUTS[c["layout"]]):
                cs = [(math.radians(cx + a * hx), math.radians(cy + b * hy)) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
                dets.append((k * 3 + 5 if c["names"] == "int" else f"D{k:03d}", cs))
            lines = [(n, x, y) for n, cs in dets for x, y in cs]
            if c["shuffle"] % 2:
                rnd.shuffle(lines)
            order = list(dict.fromkeys(n for n, x, y in lines))
            dets.sort(key=lambda d: order.index(d[0]))
            path = os.path.join(tmp, "cam.csv")
            with open(path, "w") as h:
                h.write("detector,x,y\n" + "".join(f"{n},{x!r},{y!r}\n" for n, x, y in lines))
            fp = must_return(call(F, path))
            dets = [(n, [(math.tan(a), math.tan(b) / math.cos(a)) for a, b in cs]) for n, cs in dets]
        else:
            fp = must_return(call(F, surveyname=c["camera"]))
            dets = FILES()["des" if c["camera"].lower() == "des" else "lsst"]
    need(len(fp.detectors) == len(dets) and int(fp.N) == len(dets), "number of detectors")
    for d, (n, cs) in zip(fp.detectors, dets):
        need(str(d.ID) == str(n), f"detector {d.ID} in the place of {n}")
    polys = [ccw(cs) for n, cs in dets]
    thr = 0.0 if c["edge"] is None else c["edge"] * AS
    d = {x: [] for x in ("ObjID", "FieldID", "RA_deg", "Dec_deg", "fieldRA_deg", "fieldDec_deg", "fieldRotSkyPos_deg", "other")}
    want = []
    for i, (x, y, fra, fdec, rot) in enumerate(c["rows"]):
        # x, y in the frame of the camera
        p = to_sky(*turn(x, y, -rot), fra, fdec)
        p = (p[0] % 360, p[1])
        if abs(p[1]) > 89.9:
            continue
        w = plane(*p, fra, fdec, rot)
        m = [min(sides(cs, w)) for cs in polys]
        if any(abs(t - thr) < 1e-8 or abs(t) < 1e-7 for t in m):
            continue
        want.append([k for k, t in enumerate(m) if t > thr])
        for col, v in (("ObjID", f"o{i % 9}"), ("FieldID", int(fra * 10)), ("RA_deg", p[0]), ("Dec_deg", p[1]), ("fieldRA_deg", fra), ("fieldDec_deg", fdec), ("fieldRotSkyPos_deg", rot), ("other", float(i))):
            d[col].append(v)
    if not want:
        raise Skip()
    df = pd.DataFrame(d)
    inp = df.copy()
    cfg = SimpleNamespace(fov=SimpleNamespace(camera_model="footprint", footprint_edge_threshold=c["edge"]), simulation=SimpleNamespace(ar_ang_fov=2.06, ar_fov_buffer=0.2))
    o = must_return(call(fn(AP + "PPApplyFOVFilter"), df, cfg, None, footprint=fp))
    pos = {t: i for i, t in enumerate(inp["other"])}
    place = [pos[t] for t in o["other"]]
    need(place == sorted(set(place)), "rows out of order or repeated")
    got = {i: int(t) for i, t in zip(place, o["detectorID"])}
    for col in inp.columns:
        for i, t in zip(place, o[col]):
            need(same(t, inp[col].iloc[i]), f"column {col} changed")
    for i, w in enumerate(want):
        r = inp.iloc[i]
        at = f"detection at ({r['RA_deg']:.6f}, {r['Dec_deg']:.6f}) of the field ({r['fieldRA_deg']:.4f}, {r['fieldDec_deg']:.4f}, {r['fieldRotSkyPos_deg']:.3f})"
        need((i in got) == bool(w), f"{at}: on detectors {w}, {'kept' if i in got else 'dropped'} ({c['camera']}, edge threshold {c['edge']})")
        if w:
            need(got[i] in w, f"{at}: on detectors {w}, labelled {got[i]}")


_F = {}


def FILES():
    if not _F:
        fn(MOD + "Footprint")
        _F.update(files())
    return _F


# --------------------------------------------------------------------- circle
def gen_circle(rnd, k):
    rows = []
    for _ in range(rnd.choice([0, 1, 3, 30])):
        fra, fdec = rnd.choice([0.0, 359.9, rnd.uniform(0, 360)]), rnd.choice([0.0, 89.0, -89.5, rnd.uniform(-90, 90)])
        t, r = rnd.uniform(0, 2 * math.pi), rnd.choice([0.0, 1.7, 1.76, rnd.uniform(0, 4)])
        p = to_sky(r * math.cos(t), r * math.sin(t), fra, fdec)
        rows.append([p[0] % 360, p[1], fra, fdec])
    return {"rows": rows, "radius": rnd.choice([1.75, 1.75, 0.5, 3.0]), "via": rnd.choice(["apply", "direct"])}


def run_circle(c):
    rows, want = [], []
    for r in c["rows"]:
        w = plane(*r, 0.0)
        s = math.degrees(math.atan(math.hypot(*w))) if w else 180.0
        if abs(s - c["radius"]) < 1e-7:
            continue
        rows.append(r)
        want.append(s < c["radius"])
    df = pd.DataFrame({n: [float(r[i]) for r in rows] for i, n in enumerate(("RA_deg", "Dec_deg", "fieldRA_deg", "fieldDec_deg"))})
    df["tag"] = [f"t{i}" for i in range(len(rows))]
    inp = df.copy()
    if c["via"] == "direct":
        o = must_return(call(fn(AP + "PPCircleFootprint"), df, c["radius"]))
    else:
        cfg = SimpleNamespace(fov=SimpleNamespace(camera_model="circle", circle_radius=c["radius"], fill_factor=None), simulation=SimpleNamespace(ar_ang_fov=2.06, ar_fov_buffer=0.2))
        o = must_return(call(fn(AP + "PPApplyFOVFilter"), df, cfg, None))
    exp = inp[pd.Series(want, dtype=bool)].reset_index(drop=True) if len(inp) else inp
    need(list(o.columns) == list(inp.columns), f"columns {list(o.columns)}")
    need(list(o["tag"]) == list(exp["tag"]), f"kept {list(o['tag'])}, should keep {list(exp['tag'])} within {c['radius']} deg")
    need(list(o.index) == list(range(len(o))), "row labels")
    for col in inp.columns:
        need(all(same(a, b) for a, b in zip(o[col], exp[col])), f"column {col} changed")
    for r, w in zip(rows, want):
        s = float(must_return(call(fn(AP + "PPGetSeparation"), *r)))
        need((s < c["radius"]) == w, f"separation {s} of {r}")


TARGETS = {"project": Target(gen_project, run_project, from_model=lambda m: None), "edges": Target(gen_edges, run_edges, from_model=model_edges),
           "ison": Target(gen_ison, run_ison, from_model=lambda m: None), "detector": Target(gen_ison, run_ison, from_model=lambda m: None),
           "footprint": Target(gen_foot, run_foot, from_model=lambda m: None, weight=3), "fov": Target(gen_foot, run_foot, from_model=lambda m: None),
           "circle": Target(gen_circle, run_circle, from_model=lambda m: None)}

from focus import focus

TARGETS["run"] = focus(0.6, "LSST", lambda rnd: {"camera": "circle"})
