"""C25 cache of sky positions: histories of requests against the real PixelDict with stand-in simulations."""
from common import *
from sky import *
import healpy as hp

def gen_history(rnd, k):
    P = rnd.choice([1.0, 1.0, 0.5, 2.0, 0.25])
    t = REF + rnd.choice([0.0, rnd.uniform(0, 9000), 365.25])
    req, cur = [t], t
    mode = rnd.choice(["forward", "backward", "mixed", "mixed", "jump"])
    for _ in range(rnd.choice([1, 3, 6, 12])):
        g = rnd.choice([0.0, 0.3, 0.49, 0.51, 0.75, 0.99, 1.0, 1.01, 1.3, 1.49, 1.51, 2.0, 2.49, 3.7, 1e-6]) * P
        if mode == "jump":
            g *= rnd.choice([1, 1, 30, 1000.4])
        s = {"forward": 1, "backward": -1}.get(mode, rnd.choice([1, -1]))
        cur = cur + s * g
        req.append(cur)
    return {"P": P, "requests": req, "objects": gen_objects(rnd), "order": rnd.choice([3, 4, 5, 6]), "n_sub": rnd.choice([3, 11, 101]), "via": rnd.choice(["update", "interpolate", "designations"])}


def build(c, jd):
    sims = {}
    for n, o in c["objects"].items():
        s = Sim(tuple(o))
        sims[n] = {"sim": s, "ex": Ex(s)}
    return must_return(call(fn(M + "PixelDict"), jd, sims, Ephem(), "X05", Obsy(), c["P"], 2 ** c["order"], True, c["n_sub"])), sims


def check_state(pd, c, jd, what):
    P = c["P"]
    tm, t0, tp = (float(getattr(pd, x)) for x in ("tm", "t0", "tp"))
    need(abs(tp - t0 - P) < 1e-8 and abs(t0 - tm - P) < 1e-8, f"{what}: epochs {tm}, {t0}, {tp} are not {P} d apart")
    need(abs(jd - t0) <= 0.5 * P + 1e-8, f"{what}: requested {jd}, cached middle epoch {t0}, {abs(jd - t0) / P:.4f} intervals away")
    nside = 2 ** c["order"]
    touched = {}
    for e, d in ((tm, pd.rho_hat_m_dict), (t0, pd.rho_hat_0_dict), (tp, pd.rho_hat_p_dict)):
        need(set(d) == set(c["objects"]), f"{what}: objects of epoch {e}")
        for n, o in c["objects"].items():
            need(np.max(np.abs(d[n] - seen(o, e))) < 1e-7, f"{what}: position of {n} is not that of the epoch {e}")
    for n, o in c["objects"].items():
        ts = np.linspace(tm, tp, c["n_sub"])
        v = np.zeros((len(ts), 3))
        for e, d in ((tm, pd.rho_hat_m_dict), (t0, pd.rho_hat_0_dict), (tp, pd.rho_hat_p_dict)):
            L = np.ones(len(ts))
            for x in (tm, t0, tp):
                if x != e:
                    L = L * (ts - x) / (e - x)
            v += L[:, None] * d[n]
        px = set(int(x) for x in hp.vec2pix(nside, v[:, 0], v[:, 1], v[:, 2], nest=True))
        nb = set(int(x) for p in px for x in hp.get_all_neighbours(nside, p, nest=True)) - {-1}
        for p in sorted(px):
            need(n in list(pd.pixel_dict.get(p, [])), f"{what}: {n} passes through pixel {p} and is not registered there")
        for p in sorted(nb):
            need(n in list(pd.pixel_dict.get(p, [])), f"{what}: {n} is not registered on the neighbouring pixel {p}")
        for p, l in pd.pixel_dict.items():
            if n in list(l) and p != -1:
                # a sample may sit on a pixel border: one more ring is harmless
                ok = p in px or p in nb
                need(ok, f"{what}: {n} registered on pixel {p}, which it does not touch")


def run_history(c):
    pd, sims = build(c, c["requests"][0])
    check_state(pd, c, c["requests"][0], "after construction")
    for i, jd in enumerate(c["requests"][1:]):
        if c["via"] == "update":
            must_return(call(pd.update_pickets, jd))
        elif c["via"] == "interpolate":
            names = sorted(c["objects"])[:2]
            r = must_return(call(pd.interpolate_unit_vectors, names, jd))
            need(sorted(r) == names, "interpolated objects")
            for n in names:
                v = sum(d[n] * w for d, w in zip((pd.rho_hat_m_dict, pd.rho_hat_0_dict, pd.rho_hat_p_dict), lag(pd.tm, pd.t0, pd.tp, jd)))
                need(np.max(np.abs(r[n] - v)) < 1e-9, f"interpolated vector of {n}")
        else:
            must_return(call(pd.get_designations, jd, 10.0, 5.0, 1.0))
        check_state(pd, c, jd, f"after request {i + 1}")


def lag(a, b, d, t):
    return [(t - b) * (t - d) / ((a - b) * (a - d)), (t - a) * (t - d) / ((b - a) * (b - d)), (t - a) * (t - b) / ((d - a) * (d - b))]


def gen_lag(rnd, k):
    a = rnd.choice([0.0, rnd.uniform(-5, 5)])
    h = rnd.choice([1.0, 0.5, rnd.uniform(0.1, 3)])
    t = [a, a + h, a + 2 * h] if rnd.random() < 0.6 else [a, a + rnd.uniform(0.3, 2), a + rnd.uniform(2.5, 5)]
    return {"t0": t[0], "t1": t[1], "t2": t[2], "t": rnd.choice(t + [rnd.uniform(a - 2, a + 5)])}


def run_lag(c):
    t = [c["t0"], c["t1"], c["t2"]]
    if min(abs(t[0] - t[1]), abs(t[1] - t[2]), abs(t[0] - t[2])) < 1e-3 or max(map(abs, t + [c["t"]])) > 1e4:
        raise Skip()
    for x in (c["t"], np.array([c["t"], t[0], t[1], t[2]])):
        g = must_return(call(fn(M + "lagrange3"), *map(float, t), x))
        w = lag(*t, x)
        for a, b in zip(g, w):
            need(close(a, b, 1e-8, 1e-8), f"weights {g}, Lagrange {w}")


def gen_cand(rnd, k):
    c = gen_history(rnd, k)
    c["n_sub"] = 101
    c["fov"] = rnd.choice([0.02, 0.1, 0.5, 2.06])
    c["off"] = [rnd.random() * 0.95, rnd.uniform(0, 2 * math.pi)]
    c["order"] = rnd.choice([3, 5, 6])
    c["which"] = rnd.randrange(100)
    return c


def run_cand(c):
    """an object inside the searched disc is a candidate, whatever was asked before"""
    jds = c["requests"]
    pd, sims = build(c, jds[0])
    for i, jd in enumerate(jds):
        n = sorted(c["objects"])[(c["which"] + i) % len(c["objects"])]
        o = tuple(c["objects"][n])
        u = seen(o, jd)
        a = np.cross(u, [0.3, 0.5, 0.81])
        a /= np.linalg.norm(a)
        b = np.cross(u, a)
        r = math.radians(c["fov"] * c["off"][0])
        p = u * math.cos(r) + math.sin(r) * (a * math.cos(c["off"][1]) + b * math.sin(c["off"][1]))
        ra, dec = math.degrees(math.atan2(p[1], p[0])) % 360, math.degrees(math.asin(max(-1, min(1, p[2]))))
        d = must_return(call(pd.get_designations, jd, ra, dec, c["fov"]))
        need(n in set(d), f"request {i}: {n} is {math.degrees(r):.3f} deg from the centre of a disc of {c['fov']} deg and is not a candidate")
        px = must_return(call(fn(G + "get_hp_neighbors"), ra, dec, c["fov"], nside=2 ** c["order"], nested=True))
        want = hp.query_disc(2 ** c["order"], p, math.radians(c["fov"]), inclusive=True, nest=True)
        if abs(len(set(px)) - len(want)) <= 2:  # rounding at the rim
            core = set(hp.query_disc(2 ** c["order"], p, math.radians(c["fov"]) * 0.999, inclusive=False, nest=True))
            need(core <= set(px), "pixels of the disc missing")
        else:
            need(False, f"{len(set(px))} pixels for a disc that overlaps {len(want)}")
        reg = set()
        for q in px:
            reg |= set(pd.pixel_dict.get(q, []))
        need(set(d) == reg, "candidates differ from the objects registered on the disc's pixels")


TARGETS = {
    "history": Target(gen_history, run_history, from_model=lambda m: None, weight=3),
    "lagrange": Target(gen_lag, run_lag),
    "candidates": Target(gen_cand, run_cand, from_model=lambda m: None, weight=2),
}
