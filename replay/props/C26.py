"""C26 orbital elements against an independent two-body solution (Kepler's equation solved by bisection)."""
from common import *
import types
from unittest import mock

O = "sorcha.ephemeris.orbit_conversion_utilities:"
PA = "sorcha.ephemeris.simulation_parsing:"
SE = "sorcha.ephemeris.simulation_setup:"
MU, MUT = 2.9591220828559115e-04, 2.9630927487993194e-04
OBL = 84381.448 / 3600 * math.pi / 180
pi = math.pi


def bisect(f, lo, hi):
    for _ in range(300):
        m = (lo + hi) / 2
        if f(m) < 0:
            lo = m
        else:
            hi = m
    return (lo + hi) / 2


def state(mu, q, e, i, node, w, tp, t):
    """position and velocity of the two-body orbit"""
    dt = t - tp
    if e == 1:
        B = 1.5 * math.sqrt(mu / (2 * q ** 3)) * dt
        s = math.copysign((abs(B) + math.sqrt(B * B + 1)) ** (1 / 3), B)
        nu = 2 * math.atan(s - 1 / s)
    elif e < 1:
        a = q / (1 - e)
        m = math.remainder(math.sqrt(mu / a ** 3) * dt, 2 * pi)
        E = bisect(lambda x: x - e * math.sin(x) - m, -pi, pi)
        nu = 2 * math.atan2(math.sqrt(1 + e) * math.sin(E / 2), math.sqrt(1 - e) * math.cos(E / 2))
    else:
        m = math.sqrt(mu / (q / (e - 1)) ** 3) * dt
        H = bisect(lambda x: e * math.sinh(x) - x - m, -60, 60)
        nu = 2 * math.atan(math.sqrt((e + 1) / (e - 1)) * math.tanh(H / 2))
    p = q * (1 + e)
    h, u = math.sqrt(mu * p), nu + w
    cO, sO, ci, si, cu, su = math.cos(node), math.sin(node), math.cos(i), math.sin(i), math.cos(u), math.sin(u)
    P = np.array([cO * cu - sO * su * ci, sO * cu + cO * su * ci, su * si])
    T = np.array([-cO * su - sO * cu * ci, -sO * su + cO * cu * ci, cu * si])
    return np.concatenate([p / (1 + e * math.cos(nu)) * P, (mu / h) * (e * math.sin(nu) * P + (1 + e * math.cos(nu)) * T)])


def tolerance(c):
    """rounding of 1 - e over the orbit, and of times of 60000 d over the motion at perihelion"""
    near = abs(1 - c["e"])
    tol = 2e-8
    if 0 < near < 1e-3:
        tol += min(1e-3, 3e-13 / near) + (1e-7 if near < 1e-8 else 0)
    n = math.sqrt(MU * (1 + c["e"]) / c["q"] ** 3)
    return tol + 2e-9 * n  # a JD carries 5e-10 d


def same(got, want, tol, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    need(got.shape == (6,) and np.all(np.isfinite(got)), f"{what}: {got}")
    for a, b, n in ((got[:3], want[:3], "position"), (got[3:], want[3:], "velocity")):
        err = np.linalg.norm(a - b) / np.linalg.norm(b)
        need(err < tol, f"{what}: {n} {a.tolist()} instead of {b.tolist()} (off by {err:.1e})")


def gen_orbit(rnd, k, elliptic=False):
    kind = rnd.choice(["ell", "ell", "ecc", "circ", "near-"] + ([] if elliptic else ["par", "near+", "hyp", "hyp"]))
    e = {"ell": rnd.uniform(0.001, 0.9), "ecc": rnd.uniform(0.9, 0.9999), "circ": rnd.choice([0.0, 1e-4]), "par": 1.0, "near-": 1 - 10 ** rnd.uniform(-7, -3),
         "near+": 1 + 10 ** rnd.uniform(-7, -3), "hyp": rnd.uniform(1.05, 4)}[kind]
    qq = 10 ** rnd.uniform(-1.3, 1.7)
    if rnd.random() < 0.3:
        qq = rnd.choice([0.5, 1.0, 2.0, 30.0])
    ang = lambda hi, sp: rnd.choice(sp) if rnd.random() < 0.35 else rnd.uniform(0, hi)
    c = {"q": qq, "e": e, "i": ang(pi, [0.0, pi / 2, pi, 1e-3]), "node": ang(2 * pi, [0.0, pi / 2, pi, 1.5 * pi]), "w": ang(2 * pi, [0.0, pi / 2, pi, 1.5 * pi]), "t": 2460000.5 + rnd.choice([0, rnd.uniform(-3000, 3000)])}
    dt = rnd.choice([0.0, 1, 1, 1, -1, -1, -1]) * 10 ** rnd.uniform(0, 4.3)
    if e > 1 and math.sqrt(MU * (e - 1) / qq) * abs(dt) > 200:
        dt = 0.1 * dt
    if rnd.random() < 0.1 and e < 1:
        dt = rnd.choice([-1, 1, 0.5, -0.5]) * 2 * pi / math.sqrt(MU) * (qq / (1 - e)) ** 1.5  # at perihelion, or aphelion
        if abs(dt) > 1e6:
            dt = 0.0
    c["tp"] = c["t"] - dt
    return c


def kepler_ok(c):
    mu = c["mu"] if "mu" in c else MU
    if c["e"] < 1:
        m = math.sqrt(mu * ((1 - c["e"]) / c["q"]) ** 3) * (c["t"] - c["tp"])
        if abs(m) > 2 * pi * 50:
            raise Skip("many revolutions")


def from_orbit(m):
    k = {"q": "q", "e": "e", "i": "incl", "node": "longnode", "w": "argperi"}
    v = {a: m.get(b) for a, b in k.items()}
    if not all(isinstance(x, (int, float)) and abs(x) < 1e4 for x in v.values()) or v["q"] <= 1e-2 or v["e"] < 0 or v["e"] > 10:
        return None
    return dict(v, i=abs(v["i"]) % pi, t=2460000.5, tp=2460000.5 - 50.0)


def elements(c):
    return c["q"], c["e"], c["i"], c["node"], c["w"], c["tp"]


def run_orbit(c):
    kepler_ok(c)
    cart, com, kep = fn(O + "universal_cartesian"), fn(O + "universal_cometary"), fn(O + "universal_keplerian")
    tol = tolerance(c)
    want = state(MU, *elements(c), c["t"])
    s = must_return(call(cart, MU, *elements(c), c["t"]))
    same(s, want, tol, "state of the elements")
    # the elements of a state describe that state
    x = want.copy()
    if c.get("clean", True):
        x[np.abs(x) < 1e-15] = 0.0
    el = must_return(call(com, MU, *map(float, x), c["t"]))
    need(len(el) == 6 and all(np.isfinite(v) for v in el), f"elements {el}")
    need(abs(el[0] / c["q"] - 1) < max(1e-6, tol), f"perihelion distance {el[0]} instead of {c['q']}")
    need(abs(el[1] - c["e"]) < max(1e-6, tol), f"eccentricity {el[1]} instead of {c['e']}")
    need(-1e-12 <= el[2] <= pi + 1e-12 and abs(el[2] - c["i"]) < 1e-6, f"inclination {el[2]} instead of {c['i']}")
    r = np.linalg.norm(want[:3])
    tol2 = 1e-6 + 1e3 * tol
    if abs(1 - el[1]) > 1e-6 or c["e"] == 1:
        same(state(MU, *el, c["t"]) if c["e"] != 1 else must_return(call(cart, MU, *el, c["t"])), want, tol2, "state of the elements of the state")
    same(must_return(call(cart, MU, *el, c["t"])), want, tol2, "state converted to elements and back")
    if c["e"] < 0.999:
        a, e, i, nd, w, M = must_return(call(kep, MU, *map(float, x), c["t"]))
        need(abs(a * (1 - e) / c["q"] - 1) < 1e-6, f"semi-major axis {a} and eccentricity {e} of perihelion {c['q']}")
        same(state(MU, a * (1 - e), e, i, nd, w, c["t"] - M * math.sqrt(a ** 3 / MU), c["t"]), want, tol2, "state of the Keplerian elements")


# ---------------------------------------------------------------- the equation
def gen_eq(rnd, k):
    return {"s": rnd.uniform(-30, 30), "alpha": rnd.choice([0.0, MU, -MU, MU * 10 ** rnd.uniform(-3, 1), -MU * 10 ** rnd.uniform(-3, 1)]), "r0": 10 ** rnd.uniform(-1, 2), "rd": rnd.choice([0.0, rnd.uniform(-0.03, 0.03)]), "t": rnd.uniform(-1000, 1000)}


def c_k(k, x):
    """Stumpff function from its series, in exact arithmetic"""
    from fractions import Fraction
    X, f = Fraction(x), Fraction(1)
    for m in range(2, k + 1):
        f /= m
    out = Fraction(0)
    for j in range(200):
        out += f
        f = -f * X / ((2 * j + k + 1) * (2 * j + k + 2))
        if j > 5 and abs(f) < Fraction(1, 10 ** 40):
            break
        f = Fraction(int(f * 10 ** 60), 10 ** 60)
    return out


def run_eq(c):
    for x in (c["alpha"] * c["s"] ** 2, c["s"], 0.0, 0.1, -0.1, 0.4, 1.6, -1.6):
        got = must_return(call(fn(O + "stumpff"), float(x)))
        for k in range(4):
            w = c_k(k, x)
            scale = max(1e-3, abs(float(w)), math.exp(math.sqrt(-x)) / 10 if x < 0 else 0)
            need(abs(got[k] - float(w)) < 1e-9 * scale, f"c{k}({x}) = {got[k]} instead of {float(w)}")
    s, al, r0, rd, t = (c[x] for x in ("s", "alpha", "r0", "rd", "t"))
    G = [s ** k * float(c_k(k, al * s * s)) for k in range(4)]
    want = (r0 * G[1] + r0 * rd * G[2] + MU * G[3] - t, r0 * G[0] + r0 * rd * G[1] + MU * G[2], -al * r0 * G[1] + r0 * rd * G[0] + MU * G[1], -al * r0 * G[0] - al * r0 * rd * G[1] + MU * G[0])
    got = must_return(call(fn(O + "root_function"), s, MU, al, r0, rd, t))
    size = (abs(r0 * G[1]) + abs(r0 * rd * G[2]) + abs(MU * G[3]) + abs(t), abs(r0 * G[0]) + abs(r0 * rd * G[1]) + MU * abs(G[2]), abs(al * r0 * G[1]) + abs(r0 * rd * G[0]) + MU * abs(G[1]), abs(al * r0 * G[0]) + abs(al * r0 * rd * G[1]) + MU * abs(G[0]))
    for n, a, b, z in zip(("value", "first derivative", "second derivative", "third derivative"), got, want, size):
        need(abs(a - b) < 1e-8 * (z + 1e-9), f"Kepler equation, {n}: {a} instead of {b}")
    a = must_return(call(fn(O + "principal_value"), c["t"]))
    need(0 <= a < 2 * pi + 1e-12 or a >= -2 * pi, f"angle {a}")
    need(abs(math.remainder(a - c["t"], 2 * pi)) < 1e-9, f"angle {c['t']} reduced to {a}")


# ---------------------------------------------------------------- formats
class Sun:
    def __init__(self, t):
        x = 2 * pi * t / 4332.6
        self.x, self.y, self.z = 0.005 * math.cos(x), 0.0045 * math.sin(x), 0.002 * math.sin(x + 0.1)
        self.vx, self.vy, self.vz = -7e-6 * math.sin(x), 6e-6 * math.cos(x), 3e-6 * math.cos(x)


class Ephem:
    jd_ref = 2451545.0

    def get_particle(self, name, t):
        need(name == "Sun", f"asked for {name}")
        return Sun(t)


def to_eq(v):
    c, s = math.cos(OBL), math.sin(OBL)
    return np.array([v[0], c * v[1] - s * v[2], s * v[1] + c * v[2]])


def to_ecl(v):
    c, s = math.cos(OBL), math.sin(OBL)
    return np.array([v[0], c * v[1] + s * v[2], -s * v[1] + c * v[2]])


def row_of(c):
    f, mu = c["fmt"], MUT if c["fmt"].startswith("B") else MU
    d = {"ObjID": c.get("id", "a"), "FORMAT": f, "epochMJD_TDB": c["t"] - 2400000.5}
    deg = 180 / pi
    if f.endswith("COM"):
        d.update(q=c["q"], e=c["e"], inc=c["i"] * deg, node=c["node"] * deg, argPeri=c["w"] * deg, t_p_MJD_TDB=c["tp"] - 2400000.5)
    elif f.endswith("KEP"):
        a = c["q"] / (1 - c["e"])
        d.update(a=a, e=c["e"], inc=c["i"] * deg, node=c["node"] * deg, argPeri=c["w"] * deg, ma=(math.sqrt(mu / a ** 3) * (c["t"] - c["tp"]) * deg) % 360)
    else:
        s = state(mu, *elements(c), c["t"])
        d.update(zip(("x", "y", "z", "xdot", "ydot", "zdot"), map(float, s)))
    return d, state(mu, *elements(c), c["t"])


def bary(c, s):
    """barycentric equatorial state"""
    out = np.concatenate([to_eq(s[:3]), to_eq(s[3:])])
    if not c["fmt"].startswith("B"):
        S = Sun(c["t"] - Ephem.jd_ref)
        out += [S.x, S.y, S.z, S.vx, S.vy, S.vz]
    return out


def gen_fmt(rnd, k):
    f = ["KEP", "COM", "CART", "BKEP", "BCOM", "BCART"][k % 6]
    c = gen_orbit(rnd, k, elliptic=f.endswith("KEP"))
    if f.endswith("KEP") and c["e"] > 0.9999:
        c["e"] = 0.95
        c["tp"] = c["t"] - rnd.uniform(-300, 300)
    return dict(c, fmt=f, bad=rnd.random() < 0.05)


def run_fmt(c):
    kepler_ok(dict(c, mu=MUT))
    d, s = row_of(c)
    row = pd.Series(d)
    if c["bad"]:
        row["FORMAT"] = "XYZ"
        for f in ("parse_orbit_row", "get_perihelion_row"):
            o = call(fn(PA + f), row, c["t"], Ephem(), {}, MU, MUT)
            need(o.exc == "ValueError", f"unknown format: {o}")
        return
    tol = tolerance(c) * 10
    cache = {}
    for _ in range(2):
        got = must_return(call(fn(PA + "parse_orbit_row"), row, c["t"], Ephem(), cache, MU, MUT))
        same(got, bary(c, s), tol, f"{c['fmt']} barycentric state")
    el = must_return(call(fn(PA + "get_perihelion_row"), row, c["t"], Ephem(), {}, MU, MUT))
    need(len(el) == 6, f"elements {el}")
    el = [float(x) for x in el]
    if c["fmt"].startswith("B"):
        b = bary(c, s)
        S = Sun(c["t"] - Ephem.jd_ref)
        h = np.concatenate([to_ecl(b[:3] - [S.x, S.y, S.z]), to_ecl(b[3:] - [S.vx, S.vy, S.vz])])
    else:
        h = s
    r, v = h[:3], h[3:]
    hh = np.cross(r, v)
    ev = np.cross(v, hh) / MU - r / np.linalg.norm(r)
    e = np.linalg.norm(ev)
    q = hh @ hh / MU / (1 + e)
    need(abs(el[0] / q - 1) < max(1e-6, tol), f"{c['fmt']}: perihelion distance {el[0]} instead of {q}")
    need(abs(el[1] - e) < max(1e-6, tol), f"{c['fmt']}: eccentricity {el[1]} instead of {e}")
    if abs(1 - e) > 1e-4 or abs(1 - e) < 1e-13:
        tp = el[5] + 2400000.5
        x = state(MU, el[0], el[1] if abs(1 - e) > 1e-4 else 1.0, *[math.radians(y) for y in el[2:5]], tp, c["t"])
        same(x, h, 1e-5 + 1e3 * tol, f"{c['fmt']}: heliocentric state of the elements")


# ---------------------------------------------------------------- simulations
class FakeSim:
    def __init__(self):
        self.added, self.ri_ias15, self.ex, self.t = [], types.SimpleNamespace(), None, None

    def add(self, p):
        self.added.append(p)


class FakeEx:
    def __init__(self, sim, ephem):
        self._f = ["SUN", "PLANETS", "ASTEROIDS", "NON_GRAVITATIONAL", "EARTH_HARMONICS", "SUN_HARMONICS", "GR_EIH"]
        self.sim, self.ephem = sim, ephem
        sim.ex = self

    @property
    def forces(self):
        return list(self._f)

    @forces.setter
    def forces(self, v):
        self._f = list(v)


def gen_sims(rnd, k):
    n = rnd.choice([1, 2, 3, 4])
    f = rnd.choice(["KEP", "COM", "CART", "BKEP", "BCOM", "BCART"])
    rows = []
    shared = 2460000.5 + rnd.choice([0, 100])
    for j in range(n):
        c = gen_fmt(rnd, ["KEP", "COM", "CART", "BKEP", "BCOM", "BCART"].index(f))
        c["id"] = rnd.choice(["obj", "7", "a b"]) + str(j)
        c["bad"] = False
        if rnd.random() < 0.5:
            c["tp"] += shared - c["t"]
            c["t"] = shared
        rows.append(c)
    return {"rows": rows, "fail": rnd.choice([None, None, None, "nan", "format"]), "at": rnd.randrange(n), "index": rnd.choice(["range", "shuffled", "offset"]), "jd": rnd.random() < 0.2}


def run_sims(c):
    import importlib
    mod = importlib.import_module(SE.rstrip(":"))
    for r in c["rows"]:
        kepler_ok(dict(r, mu=MUT))
    ds = [row_of(r) for r in c["rows"]]
    df = index_for(pd.DataFrame([d for d, _ in ds]), c["index"])
    if c["jd"]:
        df["epochMJD_TDB"] += 2400000.5
    if c["fail"] == "nan":
        col = {"M": "x"}.get("M") if "x" in df else "inc"
        df[col] = [float("nan") if i == c["at"] else v for i, v in enumerate(df[col])]
    elif c["fail"] == "format":
        df["FORMAT"] = ["XYZ" if i == c["at"] else v for i, v in enumerate(df["FORMAT"])]
    rb = types.SimpleNamespace(Particle=lambda **k: dict(k), Simulation=FakeSim)
    eph = Ephem()
    args = types.SimpleNamespace(pplogger=logging.getLogger("x"))
    before = df.copy()
    with mock.patch.object(mod, "rebound", rb), mock.patch.object(mod, "assist", types.SimpleNamespace(Extras=FakeEx)):
        o = call(mod.generate_simulations, eph, MU, MUT, df, args)
    if c["fail"]:
        must_exit(o)
        return
    out = must_return(o)
    need(df.equals(before), "the orbits were changed")
    need(set(out) == {r["id"] for r in c["rows"]}, f"simulations of {sorted(out)}")
    for r, (d, s) in zip(c["rows"], ds):
        sim, ex = out[r["id"]]["sim"], out[r["id"]]["ex"]
        need(abs(sim.t - (r["t"] - eph.jd_ref)) < 1e-8, f"{r['id']} starts at {sim.t} instead of {r['t'] - eph.jd_ref}")
        need(len(sim.added) == 1 and ex.sim is sim and ex.ephem is eph, f"{r['id']}: {len(sim.added)} particles")
        p = sim.added[0]
        need(set(p) == {"x", "y", "z", "vx", "vy", "vz"}, f"particle of {sorted(p)}")
        same([p[k] for k in ("x", "y", "z", "vx", "vy", "vz")], bary(r, s), tolerance(r) * 10, r["id"])
        need(sorted(ex.forces) == sorted(["SUN", "PLANETS", "ASTEROIDS", "NON_GRAVITATIONAL", "EARTH_HARMONICS", "SUN_HARMONICS", "GR_SIMPLE"]), f"forces {ex.forces}")


def no_model(m):
    return None


def gen_cull(rnd, k):
    from props.C23 import gen_cull as g
    return g(rnd, k)


def run_cull(c):
    from props.C23 import run_cull as r
    return r(c)


TARGETS = {
    "perihelion": Target(gen_cull, run_cull, from_model=no_model, weight=0.7),
    "elements": Target(gen_orbit, run_orbit, from_model=from_orbit, weight=6),
    "kepler equation": Target(gen_eq, run_eq, from_model=no_model),
    "stumpff": Target(gen_eq, run_eq, from_model=no_model, weight=0.3),
    "formats": Target(gen_fmt, run_fmt, from_model=no_model, weight=2),
    "simulations": Target(gen_sims, run_sims, from_model=no_model),
}
