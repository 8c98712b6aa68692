"""C09 tracklets, concrete contracts."""
from common import *
from tracklets import *

M = "sorcha.modules.PPMiniDifi"


def gen_hav(rnd, k):
    r, d = rnd.uniform(0, 360), rnd.choice([rnd.uniform(-90, 90), 90.0, -90.0, 0.0])
    s = rnd.choice([0.0, 1e-4, 1e-3, 1.0, 90.0])
    return {"lon1": r, "lat1": d, "lon2": rnd.choice([(r + s) % 360, r + 360.0, 360 - r, rnd.uniform(0, 360)]), "lat2": max(-90.0, min(90.0, d + rnd.uniform(-s, s)))}


def run_hav(c):
    v = [c[k] for k in ("lon1", "lat1", "lon2", "lat2")]
    if any(x is None or abs(x) > 1e4 for x in v):
        raise Skip()
    got = must_return(call(fn(M + ":haversine_np"), *[float(x) for x in v]))
    want = sep_deg(*v)
    if want > 179.99:
        raise Skip("antipodal")
    need(close(got, want, 1e-7, 1e-10), f"{got} deg, true separation {want}")


def gen_night(rnd, k):
    maxdt = rnd.choice([90.0, 90.0, 90, 60.0, 45.0, 11.25, rnd.uniform(5, 300)])
    minlen = rnd.choice([0.5, 1.0, 10.0, rnd.uniform(0.1, 100)])
    nmin = rnd.choice([1, 2, 2, 2, 3, 4, 6])
    n = rnd.choice([0, 1, 2, 2, 3, 4, 5, 7, 9])
    q = maxdt / 1440
    base = 60000.5
    t, r, d = base, rnd.choice([rnd.uniform(0, 360), 359.99999, 0.0]), rnd.choice([rnd.uniform(-80, 80), 0.0, 89.0, -70.0])
    mjd, ra, dec = [], [], []
    for _ in range(n):
        mjd.append(t)
        ra.append(r % 360)
        dec.append(d)
        t += rnd.choice([q, q / 2, q / 4, 0.0, q * 1.01, q * 0.99, q * rnd.random(), q * rnd.random() / 3])
        st = minlen / 3600 * rnd.choice([0, 0.3, 0.5, 1.02, 0.98, 1.5, 3])
        if rnd.random() < 0.5:
            r += rnd.choice([1, -1]) * st / max(0.01, math.cos(math.radians(d)))
        else:
            d = max(-90.0, min(90.0, d + rnd.choice([1, -1]) * st))
    return {"mjd": mjd, "ra": ra, "dec": dec, "maxdt_minutes": maxdt, "minlen_arcsec": minlen, "min_observations": nmin}


def run_night(c):
    m, r, d = (np.array(c[k], dtype=float) for k in ("mjd", "ra", "dec"))
    if any(len(x) != len(m) for x in (r, d)) or not np.all(np.isfinite(np.concatenate([m, r, d]))) or np.any(np.abs(d) > 90):
        raise Skip()
    if np.any(m[:-1] > m[1:]) or c["min_observations"] < 1 or c["maxdt_minutes"] <= 0 or c["minlen_arcsec"] <= 0:
        raise Skip()
    got = must_return(call(fn(M + ":hasTracklet"), m, r, d, float(c["maxdt_minutes"]), float(c["minlen_arcsec"]), int(c["min_observations"])))
    want = has_tracklet(m, r, d, c["maxdt_minutes"], c["minlen_arcsec"], c["min_observations"])
    need(bool(got) == want, f"hasTracklet -> {bool(got)}, definition -> {want}")


def gen_nights(rnd, k):
    maxdt, minlen = rnd.choice([90.0, 60.0]), rnd.choice([0.5, 2.0])
    start = rnd.choice([16 / 24, 0.0, 0.5])
    m, r, d = gen_object(rnd, start, maxdt, minlen)
    return {"mjd": m, "ra": r, "dec": d, "start": start, "maxdt_minutes": maxdt, "minlen_arcsec": minlen, "min_observations": rnd.choice([1, 2, 2, 3])}


def run_nights(c):
    if "start" not in c:
        raise Skip()
    o = np.argsort(c["mjd"], kind="stable")
    m, r, d = (np.array(c[k], dtype=float)[o] for k in ("mjd", "ra", "dec"))
    if not len(m):
        raise Skip()
    ns = np.array(nights_of(m, c["start"]))
    nn, trk = must_return(call(fn(M + ":trackletsInNights"), ns, m, r, d, float(c["maxdt_minutes"]), float(c["minlen_arcsec"]), int(c["min_observations"])))
    u = sorted(set(ns.tolist()))
    need(list(map(int, nn)) == u, f"nights {list(nn)}, detections are on {u}")
    for x, t in zip(u, trk):
        i = ns == x
        want = has_tracklet(m[i], r[i], d[i], c["maxdt_minutes"], c["minlen_arcsec"], c["min_observations"])
        need(bool(t) == want, f"night {x}: {bool(t)}, definition {want}")


TARGETS = {"night": Target(gen_night, run_night, weight=3), "nights": Target(gen_nights, run_nights, weight=2), "haversine": Target(gen_hav, run_hav)}

from props.C11 import TARGETS as _linking

TARGETS["filter"] = _linking["filter"]

from focus import focus

TARGETS["run"] = focus(0.5, "LSST", lambda rnd: {"link": rnd.choice(["drop", "keep"]), "density": 0.9, "columns": "basic"})
