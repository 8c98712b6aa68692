"""independent reference for tracklets and linking"""
import math
import numpy as np
from harness import Skip


def sep_deg(r1, d1, r2, d2):
    """angle between two directions, from their unit vectors"""
    def u(r, d):
        r, d = math.radians(r), math.radians(d)
        return (math.cos(d) * math.cos(r), math.cos(d) * math.sin(r), math.sin(d))

    a, b = u(r1, d1), u(r2, d2)
    cr = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in cr)), sum(x * y for x, y in zip(a, b))))


def less(x, lim, exact):
    """x < lim, refusing to judge values within rounding of the limit"""
    if x == lim and exact:
        return False
    if abs(x - lim) <= 1e-8 * max(abs(lim), 1e-12):
        raise Skip("tie")
    return x < lim


def has_tracklet(mjd, ra, dec, maxdt_min, minlen, nmin):
    """the definition, pair by pair"""
    n = len(mjd)
    if n < nmin:
        return False
    if nmin == 1:
        return n >= 1
    maxdt = maxdt_min / 1440.0
    exact = maxdt * 1440.0 == maxdt_min and (maxdt * 2**20) == int(maxdt * 2**20)
    found = False
    for e in range(n):
        for s in range(n):
            dt = mjd[e] - mjd[s]
            if dt <= 0 or e - s + 1 < nmin:
                continue
            if not less(dt, maxdt, exact):
                continue
            if not less(sep_deg(ra[e], dec[e], ra[s], dec[s]) * 3600, minlen, False):
                found = True
    return found


def nights_of(mjd, start):
    return [math.floor(t - start) for t in mjd]


def opportunities(nights, trk, window, nlink):
    """nights on which a new set of enough tracklet nights lies in the trailing window"""
    tn = sorted(n for n, t in zip(nights, trk) if t)
    if nlink <= 1:
        return tn
    out, prev = [], None
    if not tn:
        return out
    for d in range(min(nights), max(nights) + window + 1):
        s = [n for n in tn if d - window < n <= d]
        if len(s) >= nlink:
            if s != prev:
                out.append(d)
            prev = s
    return out


def link_object(mjd, ra, dec, maxdt_min, minlen, nmin, window, nlink, start):
    """-> list of opportunity nights of one object"""
    o = sorted(range(len(mjd)), key=lambda i: mjd[i])
    mjd, ra, dec = [mjd[i] for i in o], [ra[i] for i in o], [dec[i] for i in o]
    ns = nights_of(mjd, start)
    u = sorted(set(ns))
    trk = []
    for n in u:
        i = [k for k, x in enumerate(ns) if x == n]
        trk.append(has_tracklet([mjd[k] for k in i], [ra[k] for k in i], [dec[k] for k in i], maxdt_min, minlen, nmin))
    return opportunities(u, trk, window, nlink), u, trk, ns


def gen_object(rnd, start, maxdt_min, minlen, nights=None, n0=60000):
    """detections of one object, clustered so that criteria are met sometimes"""
    mjd, ra, dec = [], [], []
    nn = rnd.choice([1, 2, 3, 4, 6]) if nights is None else nights
    night = n0 + rnd.randint(0, 3)
    r0, d0 = rnd.choice([rnd.uniform(0, 360), 0.0, 359.9999, 180.0]), rnd.choice([rnd.uniform(-60, 10), 0.0, 89.9, -89.9, rnd.uniform(-89, 89)])
    for _ in range(nn):
        t = night + start + rnd.choice([0.3, 0.5, rnd.uniform(0.12, 0.5)])
        r, d = r0 + rnd.uniform(-0.01, 0.01), d0
        for _ in range(rnd.choice([1, 2, 2, 3, 4, 5])):
            mjd.append(t)
            ra.append(r % 360)
            dec.append(max(-90.0, min(90.0, d)))
            t += rnd.choice([maxdt_min / 1440, maxdt_min / 1440 * 0.4, maxdt_min / 2880, maxdt_min / 1440 * 1.01, maxdt_min / 1440 * rnd.random(), 0.0 if rnd.random() < 0.05 else 1e-4])
            st = minlen / 3600 * rnd.choice([0.4, 0.6, 1.1, 5, 0.99, 1.01])
            if rnd.random() < 0.5:
                r += st / max(0.01, math.cos(math.radians(d)))
            else:
                d += st
        t = min(t, night + start + 0.89)
        night += rnd.choice([1, 1, 1, 2, 5, 14, 15, 16, 30])
    ok = [i for i in range(len(mjd)) if 0.1 < (mjd[i] - start) - math.floor(mjd[i] - start) < 0.9]
    return [mjd[i] for i in ok], [ra[i] for i in ok], [dec[i] for i in ok]
