"""C24 ephemeris geometry: vectors, light time, rates, observer, ephemeris rows, against independent computations."""
from common import *
from sky import *
import types
from unittest import mock

DR = "sorcha.ephemeris.simulation_driver:"
PA = "sorcha.ephemeris.simulation_parsing:"
SE = "sorcha.ephemeris.simulation_setup:"
CK = 299792.458


def module(m):
    import importlib
    return importlib.import_module(m.rstrip(":"))


# ---------------------------------------------------------------- positions
def gen_sky(rnd, k):
    n = rnd.choice([1, 1, 2, 5])
    return {"ra": [rnd.choice([0.0, 90.0, 180.0, 270.0, 359.9999999, 1e-9, rnd.uniform(0, 360), rnd.uniform(0, 360)]) for _ in range(n)],
            "dec": [rnd.choice([0.0, 89.9, -89.9, 90.0, -90.0, rnd.uniform(-90, 90), rnd.uniform(-90, 90), rnd.uniform(-90, 90)]) for _ in range(n)],
            "index": rnd.choice(["range", "shuffled", "offset"])}


def from_sky(m):
    if not all(isinstance(m.get(x), (int, float)) and abs(m[x]) < 1e5 for x in ("ra", "dec")):
        return None
    return {"ra": [m["ra"] % 360], "dec": [max(-90, min(90, m["dec"]))], "index": "range"}


def run_sky(c):
    f, g = fn(G + "ra_dec2vec"), fn(G + "vec2ra_dec")
    vs = []
    for ra, dec in zip(c["ra"], c["dec"]):
        v = np.asarray(must_return(call(f, ra, dec)), float)
        a, d = math.radians(ra), math.radians(dec)
        w = [math.cos(a) * math.cos(d), math.sin(a) * math.cos(d), math.sin(d)]
        need(v.shape == (3,) and np.max(np.abs(v - w)) < 1e-12, f"unit vector {v} of RA {ra} Dec {dec}")
        need(abs(np.linalg.norm(v) - 1) < 1e-12, f"length {np.linalg.norm(v)}")
        r, e = must_return(call(g, v))
        need(0 <= r <= 360 and -90 <= e <= 90, f"RA {r}, Dec {e} out of range")
        back = np.array([math.cos(math.radians(r)) * math.cos(math.radians(e)), math.sin(math.radians(r)) * math.cos(math.radians(e)), math.sin(math.radians(e))])
        need(np.max(np.abs(back - v)) < 3e-8 * (1 if abs(dec) > 80 else 1e-4), f"RA {ra} Dec {dec} comes back as RA {r} Dec {e}")
        if abs(dec) < 80:
            need(abs((r - ra + 180) % 360 - 180) < 1e-9 and abs(e - dec) < 1e-9, f"RA {ra} Dec {dec} comes back as RA {r} Dec {e}")
        vs.append(v)
    df = index_for(pd.DataFrame({"ra": c["ra"], "dec": c["dec"]}), c["index"])
    t = np.asarray(must_return(call(f, df["ra"], df["dec"])))
    need(t.shape == (len(df), 3) and np.max(np.abs(t - np.array(vs))) < 1e-12, "vectors of a table")


def gen_basis(rnd, k):
    v = rdir(rnd)
    if rnd.random() < 0.3:
        v = np.array(rnd.choice([[1.0, 0, 0], [0, 1.0, 0], [-1.0, 0, 0], [0.6, 0, 0.8], [0, -0.6, -0.8], [0.8, 0.6, 0]]))
    return {"v": list(map(float, v)), "scale": rnd.choice([1.0, 30.0, 1e-3])}


def from_basis(m):
    v = [m.get(f"v_{c}") for c in "xyz"]
    if any(x is None or abs(x) > 1e4 for x in v) or np.linalg.norm(v) < 1e-6:
        return None
    return {"v": list(np.array(v, float) / np.linalg.norm(v)), "scale": float(np.linalg.norm(v))}


def run_basis(c):
    v = np.array(c["v"])
    if abs(v[2]) < 0.99999:
        A, D = (np.asarray(x, float) for x in must_return(call(fn(DR + "get_residual_vectors"), v.copy())))
        e = np.array([-v[1], v[0], 0]) / math.hypot(v[0], v[1])
        n = np.cross(v, e)
        need(np.max(np.abs(A - e)) < 1e-9, f"east of {v}: {A}")
        need(np.max(np.abs(D - n)) < 1e-9, f"north of {v}: {D}")
    w = v * c["scale"]
    o = math.radians(84381.448 / 3600)
    R = np.array([[1, 0, 0], [0, math.cos(o), -math.sin(o)], [0, math.sin(o), math.cos(o)]])
    q1 = np.asarray(must_return(call(fn(G + "ecliptic_to_equatorial"), list(w))), float)
    q2 = np.asarray(must_return(call(fn(G + "equatorial_to_ecliptic"), list(w))), float)
    need(np.allclose(q1, R @ w, rtol=1e-12, atol=1e-14), f"equatorial vector of ecliptic {w}: {q1}")
    need(np.allclose(q2, R.T @ w, rtol=1e-12, atol=1e-14), f"ecliptic vector of equatorial {w}: {q2}")
    b = np.asarray(must_return(call(fn(G + "equatorial_to_ecliptic"), q1)), float)
    need(np.allclose(b, w, rtol=1e-12, atol=1e-14), f"{w} comes back as {b}")


# --------------------------------------------------------------- light time
def gen_lt(rnd, k):
    o = list(gen_objects(rnd).values())[0]
    if rnd.random() < 0.3:  # fast object
        o = ("line", list(map(float, rdir(rnd) * rnd.choice([0.05, 1.0, 30.0]))), list(map(float, rdir(rnd) * rnd.choice([0.01, 0.3]))), 0.0)
    return {"o": o, "t": rnd.choice([0.0, rnd.uniform(-3000, 9000)]), "obs": list(map(float, rdir(rnd) * rnd.choice([0.0, 1.0, 1.0]))),
            "lt0": rnd.choice([0.0, 0.01, 0.01, 0.3]), "iter": rnd.choice([None, None, 1, 2, 3, 6]), "c": rnd.choice([None, None, 100.0])}


def run_lt(c):
    o, obs = tuple(c["o"]), np.array(c["obs"], float)
    sim = Sim(o)
    kw = {"lt0": c["lt0"]}
    if c["iter"] is not None:
        kw["iter"] = c["iter"]
    cs = CAU
    if c["c"] is not None:
        kw["speed_of_light"] = cs = c["c"]
    rho, mag, lt, target, v = must_return(call(fn(G + "integrate_light_time"), sim, Ex(sim), c["t"], obs.copy(), **kw))
    rho, target, v = (np.asarray(x, float) for x in (rho, target, v))
    x = c["lt0"]
    for _ in range(40):
        x = np.linalg.norm(track(o, c["t"] - x) - obs) / cs
    beta = np.linalg.norm(o[2]) * (o[3] if o[0] == "orbit" else 1) / cs if o[0] != "fixed" else 0
    n = c["iter"] or 3
    err = abs(c["lt0"] - x)
    tol = err * min(1, 1.01 * beta) ** n + 1e-12
    need(abs(lt - x) <= tol, f"light time {lt}, converged {x}, {n} iterations")
    need(abs(lt * cs - mag) < 1e-9 * max(1, mag) and abs(mag - np.linalg.norm(rho)) < 1e-9 * max(1, mag), "range and light time disagree")
    need(np.max(np.abs(rho - (target - obs))) < 1e-12 * max(1, mag), "vector to the object")
    s = sim.now
    need(abs((c["t"] - s) - x) <= err * min(1, 1.01 * beta) ** (n - 1) + 1e-9, f"emission epoch {s}, light time {x}")
    need(np.max(np.abs(target - track(o, s))) < 1e-9 * max(1, mag), "position is not that of the emission epoch")
    sim2 = Sim(o)
    sim2.now = s
    need(np.max(np.abs(v - np.array(sim2.particles[0].vxyz))) < 1e-9, "velocity is not that of the emission epoch")


# -------------------------------------------------------------------- rates
COLS = ["ObjID", "FieldID", "fieldMJD_TAI", "fieldJD_TDB", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day",
        "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s",
        "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"]


def geometry(r_ast, v_ast, r_obs, v_obs, r_sun, v_sun):
    """what an observer sees of the object: independent computation"""
    r_ast, v_ast, r_obs, v_obs, r_sun, v_sun = (np.array(x, float) for x in (r_ast, v_ast, r_obs, v_obs, r_sun, v_sun))
    rho = r_ast - r_obs
    d = np.linalg.norm(rho)
    u = rho / d
    rr = u @ (v_ast - v_obs)
    app = v_ast * (1 - rr / CAU) - v_obs
    e = np.array([-u[1], u[0], 0]) / math.hypot(u[0], u[1])
    n = np.cross(u, e)
    a, b = r_ast - r_sun, rho
    ph = math.degrees(math.atan2(np.linalg.norm(np.cross(a, b)), a @ b))
    S = AU_KM / 86400
    o = {"Range_LTC_km": d * AU_KM, "RangeRate_LTC_km_s": rr * S, "RA_deg": math.degrees(math.atan2(u[1], u[0])) % 360, "Dec_deg": math.degrees(math.atan2(u[2], math.hypot(u[0], u[1]))),
         "RARateCosDec_deg_day": math.degrees(e @ app / d), "DecRate_deg_day": math.degrees(n @ app / d), "phase_deg": ph}
    for i, x in enumerate("xyz"):
        o[f"Obj_Sun_{x}_LTC_km"], o[f"Obj_Sun_v{x}_LTC_km_s"] = a[i] * AU_KM, (v_ast - v_sun)[i] * S
        o[f"Obs_Sun_{x}_km"], o[f"Obs_Sun_v{x}_km_s"] = (r_obs - r_sun)[i] * AU_KM, (v_obs - v_sun)[i] * S
    return o


def compare(got, want, what, rel=1e-9):
    for k, w in want.items():
        g = got[k]
        if isinstance(w, str):
            need(str(g) == w, f"{what}: {k} is {g}, expected {w}")
            continue
        g = float(g)
        need(not math.isnan(g), f"{what}: {k} is NaN, expected {w}")
        if k == "RA_deg":
            ok = abs((g - w + 180) % 360 - 180) < 1e-8
        elif k == "phase_deg":
            ok = abs(g - w) < (3e-6 if min(w, 180 - w) < 0.01 else 1e-8)
        elif "_km" in k:
            ok = abs(g - w) <= rel * max(abs(w), 1.0 if "km_s" in k else 1e4)
        else:
            ok = abs(g - w) <= rel * max(1.0, abs(w))
        need(ok, f"{what}: {k} is {g!r}, expected {w!r}")


def gen_rates(rnd, k):
    r_sun = rdir(rnd) * 0.005
    r_obs = r_sun + rdir(rnd) * rnd.choice([0.98, 1.0, 1.02])
    mode = rnd.choice(["any", "any", "any", "opposition", "conjunction"])
    if mode == "any":
        r_ast = r_obs + rdir(rnd) * rnd.choice([0.001, 0.3, 2.0, 40.0, 900.0])
    else:
        u = r_obs - r_sun
        r_ast = r_obs + u * rnd.choice([0.5, 1.3, 40.0]) * (1 if mode == "opposition" else -1.0)
        if mode == "conjunction":
            r_ast = r_obs - u * rnd.choice([2.0, 3.3, 0.5])
    L = lambda v: list(map(float, v))
    return {"r_ast": L(r_ast), "v_ast": L(rdir(rnd) * rnd.choice([0.0, 0.003, 0.02])), "r_obs": L(r_obs), "v_obs": L(rdir(rnd) * rnd.choice([0.0, 0.0172])),
            "r_sun": L(r_sun), "v_sun": L(rdir(rnd) * rnd.choice([0.0, 1e-5]))}


def from_rates(m):
    try:
        g = lambda n: [float(m[f"{n}_{c}"]) for c in "xyz"]
        p = lambda n: [float(m.get(f"pointing_{n}_{c}") or 0.0) for c in "xyz"]
        u, mag = np.array(g("rho_hat")), float(m["rho_mag"])
        c = {"r_obs": p("r_obs"), "v_obs": p("v_obs"), "r_sun": p("r_sun"), "v_sun": p("v_sun"), "v_ast": g("v_ast")}
        if abs(np.linalg.norm(u) - 1) > 1e-6 or not 1e-4 < mag < 1e3 or max(abs(x) for v in c.values() for x in v) > 1e3:
            return None
        c["r_ast"] = list(np.array(c["r_obs"]) + u * mag)
        return c
    except Exception:
        return None


def pointing_row(c, extra=None):
    d = dict(extra or {"FieldID": "f7", "fieldJD_TDB": 2460000.25, "observationMidpointMJD_TAI": 59999.75, "fieldRA_deg": 1.0, "fieldDec_deg": 2.0})
    for n in ("r_sun", "r_obs", "v_sun", "v_obs"):
        for i, x in enumerate("xyz"):
            d[f"{n}_{x}"] = c[n][i]
    return pd.Series(d)


def run_rates(c):
    rho = np.array(c["r_ast"], float) - np.array(c["r_obs"])
    mag = np.linalg.norm(rho)
    if mag < 1e-9 or np.linalg.norm(np.array(c["r_ast"]) - np.array(c["r_sun"])) < 1e-6 or abs(rho[2] / mag) > 0.99999:
        raise Skip()
    p = must_return(call(fn(DR + "EphemerisGeometryParameters")))
    p.obj_id, p.mjd_tai, p.rho, p.rho_hat, p.rho_mag = "o/1", 59999.75, rho, rho / mag, mag
    p.r_ast, p.v_ast = np.array(c["r_ast"], float), np.array(c["v_ast"], float)
    t = must_return(call(fn(DR + "calculate_rates_and_geometry"), pointing_row(c), p))
    need(len(t) == len(COLS), f"{len(t)} values")
    got = dict(zip(COLS, t))
    w = geometry(*(c[x] for x in ("r_ast", "v_ast", "r_obs", "v_obs", "r_sun", "v_sun")))
    w.update({"ObjID": "o/1", "FieldID": "f7", "fieldMJD_TAI": 59999.75, "fieldJD_TDB": 2460000.25})
    scale = 1e-9 + 1e-13 / mag
    compare(got, w, "rates", rel=scale)


# ----------------------------------------------------------------- observer
def rotz(a):
    return np.array([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1.0]])


ET62 = -1196899158.8


class Spice:
    """stand-ins of the SPICE functions"""

    def __init__(self):
        self.loaded, self.cleared = True, 0

    def vel(self, et):
        return (earth((et + 500) / 86400) - earth((et - 500) / 86400)) * AU_KM / 1000

    def spkezr(self, target, et, frame, corr, obs):
        need((target, frame, corr, obs) == ("EARTH", "J2000", "NONE", "SSB"), f"state of {target} in {frame}, {corr}, about {obs}")
        return np.concatenate([earth(et / 86400) * AU_KM, self.vel(et)]), 0.0

    def spkpos(self, target, et, frame, corr, obs):
        s, l = self.spkezr(target, et, frame, corr, obs)
        return s[:3], l

    def pxform(self, a, b, et):
        need(b == "J2000" and a in ("ITRF93", "IAU_EARTH"), f"rotation {a} -> {b}")
        need(a == "IAU_EARTH" or et > ET62 - 100, "ITRF93 before 1962")
        w = 7.2921159e-5
        if a == "ITRF93":
            o = 0.3
            return rotz(0.1 + w * et) @ np.array([[1, 0, 0], [0, math.cos(1e-5), -math.sin(1e-5)], [0, math.sin(1e-5), math.cos(1e-5)]])
        return rotz(0.1001 + w * et)

    def str2et(self, s):
        s = s.strip()
        if s.startswith("JD "):
            need(s.endswith(" TDT") or s.endswith(" TT"), f"time scale of {s!r}")
            jd = float(s.split()[1])
            return (jd - 2451545.0) * 86400 + 0.001657 * math.sin(6.24 + 0.017202 * (jd - 2451545.0))
        need("1962" in s, s)
        return ET62

    def j2000(self):
        return 2451545.0

    def kclear(self):
        self.cleared += 1

    def furnsh(self, *a):
        pass

    def __enter__(self):
        import spiceypy
        self.ms = [mock.patch.object(spiceypy, n, getattr(self, n)) for n in ("spkezr", "spkpos", "pxform", "str2et", "j2000", "kclear", "furnsh")]
        for m in self.ms:
            m.start()
        return self

    def __exit__(self, *a):
        for m in self.ms:
            m.stop()


SITES = {"X05": {"Longitude": 289.25058, "cos": 0.864981, "sin": -0.500958, "Name": "Rubin"}, "000": {"Longitude": 0.0, "cos": 0.62411, "sin": 0.77873, "Name": "Greenwich"},
         "500": {"Longitude": 0.0, "cos": 0.0, "sin": 0.0, "Name": "Geocentric"}, "EQ1": {"Longitude": 36.8, "cos": 1.0, "sin": 0.0}, "POL": {"Longitude": 10.0, "cos": 0.0, "sin": 0.9966},
         "247": {"Name": "Roving Observer"}, "250": {"Name": "Hubble"}, "ODD": {"Longitude": 12.0, "Name": "no constants"}, "HAL": {"Longitude": 12.0, "cos": 0.5}}


def site(l):
    if not all(l.get(x) is not None for x in ("Longitude", "cos", "sin")):
        return None
    a = math.radians(l["Longitude"])
    return np.array([l["cos"] * math.cos(a), l["cos"] * math.sin(a), l["sin"]])


def gen_sites(rnd, k):
    s = dict(SITES)
    for j in range(rnd.choice([0, 3])):
        lat = rnd.uniform(-1.5, 1.5)
        s[f"R{j:02d}"] = {"Longitude": rnd.choice([rnd.uniform(0, 360), 180.0]), "cos": math.cos(lat), "sin": math.sin(lat)}
    names = list(s)
    rnd.shuffle(names)
    return {"sites": {n: s[n] for n in names}}


def from_sites(m):
    d = {}
    for k in m.get("parameters", ()):
        if not isinstance(m.get(k), (int, float)) or abs(m[k]) > 1e4:
            return None
        d[k] = float(m[k])
    return {"sites": {"aaa": d}}


def observatory(sites):
    with scratch() as d:
        json.dump(sites, open("codes.json", "w"))
        return must_return(call(fn(PA + "Observatory"), None, None, oc_file=os.path.join(d, "codes.json")))


def run_sites(c):
    o = observatory(c["sites"])
    need(set(o.ObservatoryXYZ) == set(c["sites"]), "observatory codes")
    for n, l in c["sites"].items():
        g, w = o.ObservatoryXYZ[n], site(l)
        if w is None:
            need(list(g) == [None] * 3, f"{n} has no fixed position, got {g}")
        else:
            need(all(x is not None for x in g) and np.max(np.abs(np.array(g, float) - w)) < 1e-12, f"{n}: geocentric position {g}, expected {w}")


def gen_obs(rnd, k):
    return {"site": rnd.choice(["X05", "000", "EQ1", "500", "POL"]), "et": rnd.choice([0.0, rnd.uniform(-1e9, 1.5e9), rnd.uniform(-2.2e9, -1.3e9), ET62, ET62 - 1, ET62 + 1, 7e8]),
            "mjd": rnd.uniform(40000, 70000)}


def run_obs(c):
    o = observatory(SITES)
    s = site(SITES[c["site"]])
    et = c["et"]
    with Spice() as sp:
        frame = "ITRF93" if et >= ET62 else "IAU_EARTH"
        m = sp.pxform(frame, "J2000", et) @ s * 6378.137
        near = sp.pxform(frame, "J2000", et + 10) @ s * 6378.137
        back = sp.pxform(frame, "J2000", et - 10) @ s * 6378.137
        p, v = must_return(call(fn(G + "barycentricObservatoryRates"), et, c["site"], observatories=o))
        E = earth(et / 86400) * AU_KM
        need(np.max(np.abs(np.asarray(p) - (E + m))) < 1e-6, f"observatory position {p}, expected {E + m}")
        w = sp.vel(et) + (near - back) / 20
        need(np.max(np.abs(np.asarray(v) - w)) < 1e-6, f"observatory velocity {v}, expected {w}")
        if et >= ET62:
            b = must_return(call(o.barycentricObservatory, et, c["site"]))
            need(np.max(np.abs(np.asarray(b) - (E + m))) < 1e-6, f"observatory position {b}, expected {E + m}")
        jd = c["mjd"] + 2400000.5 + 32.184 / 86400
        e = must_return(call(fn(PA + "mjd_tai_to_epoch"), c["mjd"]))
        w = 2451545.0 + sp.str2et(f"JD {jd:.9f} TDT") / 86400
        need(abs(e - w) < 1.2e-6, f"JD TDB {e} of MJD TAI {c['mjd']}, expected {w}")


# --------------------------------------------------------- whole ephemerides
class Nothing:
    def info(self, *a, **k):
        pass

    error = warning = debug = info


def config(c):
    ns = types.SimpleNamespace
    args = ns(pplogger=Nothing(), loglevel=c.get("log", False), outpath=None, output_ephemeris_file=None, ar_data_file_path=None)
    sim = ns(ar_ang_fov=c["fov"], ar_fov_buffer=c["buffer"], ar_picket=c["picket"], ar_obs_code="X05", ar_healpix_order=c["order"], ar_n_sub_intervals=101)
    return args, ns(simulation=sim, auxiliary=ns(), input=ns(eph_format=c.get("fmt", "csv")), output=ns(output_format="csv"))


class EphemSun(Ephem):
    def get_particle(self, who, t):
        need(who == "Sun", f"particle {who}")
        p, v = sun(t)
        return types.SimpleNamespace(x=p[0], y=p[1], z=p[2], vx=v[0], vy=v[1], vz=v[2])


def sun(t):
    return np.array([0.004 * math.cos(t / 600), 0.004 * math.sin(t / 600), 1e-4]), np.array([-0.004 * math.sin(t / 600), 0.004 * math.cos(t / 600), 0]) / 600


def gen_pre(rnd, k):
    n = rnd.choice([0, 1, 2, 5, 12])
    return {"ra": [rnd.choice([0.0, rnd.uniform(0, 360)]) for _ in range(n)], "dec": [rnd.uniform(-89, 89) for _ in range(n)],
            "mjd": [rnd.uniform(58000, 64000) for _ in range(n)], "index": rnd.choice(["range", "shuffled", "offset"]),
            "fov": 2.06, "buffer": 0.2, "picket": 1.0, "order": 5}


def run_pre(c):
    if not c["ra"]:
        raise Skip()
    df = pd.DataFrame({"FieldID": [f"f{i}" for i in range(len(c["ra"]))], "observationMidpointMJD_TAI": c["mjd"], "fieldRA_deg": c["ra"], "fieldDec_deg": c["dec"], "optFilter": "r"})
    df = index_for(df, c["index"])
    orig = df.copy()
    args, cfg = config(c)
    o = observatory(SITES)
    SM = module(SE)
    with Spice() as sp, mock.patch.object(SM, "create_assist_ephemeris", lambda *a, **k: (EphemSun(), 1.0, 2.0)), mock.patch.object(SM, "furnish_spiceypy", lambda *a, **k: None), \
            mock.patch.object(SM, "Observatory", lambda *a, **k: o):
        out = must_return(call(fn(SE + "precompute_pointing_information"), df, args, cfg))
        need(len(out) == len(orig) and list(out.index) == list(orig.index), "rows of the pointing table")
        for col in orig.columns:
            need(list(out[col]) == list(orig[col]), f"column {col} changed")
        for i in range(len(orig)):
            jd = c["mjd"][i] + 2400000.5 + 32.184 / 86400
            tdb = 2451545.0 + sp.str2et(f"JD {jd:.9f} TDT") / 86400
            r = out.iloc[i]
            need(abs(r["fieldJD_TDB"] - tdb) < 1.2e-6, f"row {i}: fieldJD_TDB {r['fieldJD_TDB']}, expected {tdb}")
            tdb = float(r["fieldJD_TDB"])
            et = (tdb - 2451545.0) * 86400
            m = [sp.pxform("ITRF93", "J2000", et + h) @ site(SITES["X05"]) * 6378.137 for h in (0, 10, -10)]
            a, d = math.radians(c["ra"][i]), math.radians(c["dec"][i])
            s, v = sun(tdb - REF)
            want = {"visit_vector": [math.cos(a) * math.cos(d), math.sin(a) * math.cos(d), math.sin(d)], "r_obs": (earth(et / 86400) * AU_KM + m[0]) / AU_KM,
                    "v_obs": (sp.vel(et) + (m[1] - m[2]) / 20) * 86400 / AU_KM, "r_sun": s, "v_sun": v}
            for n, w in want.items():
                g = np.array([r[f"{n}_{x}"] for x in "xyz"], float)
                need(np.max(np.abs(g - np.array(w, float))) < 1e-10, f"row {i}: {n} is {g}, expected {w}")


def gen_eph(rnd, k):
    objs = gen_objects(rnd)
    for n in list(objs):
        if rnd.random() < 0.3:
            objs[rnd.choice(["007", "A,b", "x y", '"q"']) + n] = objs.pop(n)
    fov, buf = rnd.choice([(2.06, 0.2), (1.1, 0.2), (0.5, 0.1), (2.06, 0.0)])
    ps = []
    t = rnd.uniform(0, 5000)
    for _ in range(rnd.choice([1, 2, 4, 7])):
        t += rnd.choice([0.0, 0.01, 0.4, 0.9, 1.7, 30.0, -0.7, -3.0])
        ps.append([t, rnd.randrange(100), rnd.choice([0.0, 0.0, 0.3, 0.9, 0.99, 0.999, 1.001, 1.02, 1.5]), rnd.uniform(0, 2 * math.pi)])
    return {"objects": objs, "fov": fov, "buffer": buf, "picket": rnd.choice([1.0, 1.0, 0.5]), "order": rnd.choice([4, 5]), "pointings": ps, "index": rnd.choice(["range", "shuffled"]),
            "file": rnd.choice([None, None, "csv", "whitespace", "hdf5"]), "log": rnd.random() < 0.5}


def run_eph(c):
    rows = []
    for i, (t, w, off, pa) in enumerate(c["pointings"]):
        n = sorted(c["objects"])[w % len(c["objects"])]
        jd = REF + t
        u = seen(tuple(c["objects"][n]), jd)
        a = np.cross(u, [0.3, 0.5, 0.81])
        a /= np.linalg.norm(a)
        b = np.cross(u, a)
        r = math.radians((c["fov"] + c["buffer"]) * off)
        p = u if off == 0 else u * math.cos(r) + math.sin(r) * (a * math.cos(pa) + b * math.sin(pa))
        s, vs = sun(jd - REF)
        q, vq = earth(jd - REF), (earth(jd - REF + 0.01) - earth(jd - REF - 0.01)) / 0.02
        d = {"FieldID": f"visit{i}", "observationMidpointMJD_TAI": jd - 2400000.5 - 69.184 / 86400, "fieldJD_TDB": jd, "fieldRA_deg": math.degrees(math.atan2(p[1], p[0])) % 360, "fieldDec_deg": math.degrees(math.asin(max(-1, min(1, p[2]))))}
        for nm, v in (("visit_vector", p), ("r_obs", q), ("v_obs", vq), ("r_sun", s), ("v_sun", vs)):
            for x, y in zip("xyz", v):
                d[f"{nm}_{x}"] = float(y)
        rows.append(d)
    P = index_for(pd.DataFrame(rows), c["index"])
    orb = pd.DataFrame({"ObjID": list(c["objects"]), "FORMAT": "COM", "q": [1.5 + 0.1 * i for i in range(len(c["objects"]))], "epochMJD_TDB": 54800.0})
    args, cfg = config(dict(c, fmt=c["file"] or "csv"))
    sims = {}
    for n, o in c["objects"].items():
        s = Sim(tuple(o))
        sims[n] = {"sim": s, "ex": Ex(s)}
    SM = module(DR)
    with scratch() as d, Spice() as sp:
        if c["file"]:
            args.outpath, args.output_ephemeris_file = d, "eph_out"
        def gs(*a, **k):
            need(any(x is orb for x in list(a) + list(k.values())), "simulations of other orbits")
            return sims
        with mock.patch.object(SM, "create_assist_ephemeris", lambda *a, **k: (EphemSun(), 1.0, 2.0)), mock.patch.object(SM, "furnish_spiceypy", lambda *a, **k: None), \
                mock.patch.object(SM, "Observatory", lambda *a, **k: Obsy()), mock.patch.object(SM, "generate_simulations", gs):
            out = must_return(call(fn(DR + "create_ephemeris"), orb, P, args, cfg))
        if c["file"] and len(out):
            nm = {"csv": "eph_out.csv", "whitespace": "eph_out.csv", "hdf5": "eph_out.h5"}[c["file"]]
            need(os.listdir(d) == [nm], f"ephemeris files {os.listdir(d)}")
            e = pd.read_hdf(nm) if c["file"] == "hdf5" else pd.read_csv(nm, sep="," if c["file"] == "csv" else " ", dtype={"ObjID": str})
            need(list(e.columns) == COLS and len(e) == len(out), "ephemeris file")
            for x in COLS:
                for a, b in zip(e[x], out[x]):
                    need(str(a) == str(b) or abs(float(a) - float(b)) <= 1e-9 * max(1, abs(float(b))), f"ephemeris file: {x} {a}, {b}")
        elif not c["file"]:
            need(os.listdir(d) == [], "files written without being asked for")
    need(list(out.columns[:len(COLS)]) == COLS, f"columns {list(out.columns)}")
    need(set(out.columns[len(COLS):]) == {"FORMAT", "q", "epochMJD_TDB"}, "orbit columns joined")
    got = {}
    for _, r in out.iterrows():
        key = (str(r["FieldID"]), str(r["ObjID"]))
        need(key not in got, f"{key} reported twice")
        got[key] = r
    for i, p in enumerate(rows):
        vv = np.array([p[f"visit_vector_{x}"] for x in "xyz"])
        for n, o in c["objects"].items():
            o = tuple(o)
            u = seen(o, p["fieldJD_TDB"])
            ang = math.degrees(math.atan2(np.linalg.norm(np.cross(u, vv)), u @ vv))
            lim = c["fov"] + c["buffer"]
            key = (p["FieldID"], n)
            if ang < lim - 2e-3:
                need(key in got, f"{n} is {ang:.5f} deg from the centre of {p['FieldID']} (limit {lim}) and is not reported")
            if ang > lim + 1e-6:
                need(key not in got, f"{n} is {ang:.5f} deg from the centre of {p['FieldID']} (limit {lim}) and is reported")
            if key not in got:
                continue
            q = np.array([p[f"r_obs_{x}"] for x in "xyz"])
            lt = 0.01
            for _ in range(12):
                lt = np.linalg.norm(track(o, p["fieldJD_TDB"] - REF - lt) - q) / CAU
            s = Sim(o)
            s.now = p["fieldJD_TDB"] - REF - lt
            w = geometry(s.particles[0].xyz, s.particles[0].vxyz, q, [p[f"v_obs_{x}"] for x in "xyz"], [p[f"r_sun_{x}"] for x in "xyz"], [p[f"v_sun_{x}"] for x in "xyz"])
            if abs(w["Dec_deg"]) > 89.9:
                continue
            w.update({"FieldID": p["FieldID"], "ObjID": n, "fieldMJD_TAI": p["observationMidpointMJD_TAI"], "fieldJD_TDB": p["fieldJD_TDB"]})
            compare(got[key], w, f"{n} in {p['FieldID']}", rel=2e-7)
            for x, y in (("fieldMJD_TAI", "observationMidpointMJD_TAI"), ("fieldJD_TDB", "fieldJD_TDB")):
                need(abs(got[key][x] - p[y]) < 1e-8, f"{n} in {p['FieldID']}: {x} {got[key][x]!r}, the visit's is {p[y]!r}")
            need(abs(got[key]["q"] - (1.5 + 0.1 * list(c["objects"]).index(n))) < 1e-12, "orbit of another object")


TARGETS = {
    "sky": Target(gen_sky, run_sky, from_model=from_sky),
    "basis": Target(gen_basis, run_basis, from_model=from_basis),
    "light time": Target(gen_lt, run_lt, from_model=lambda m: None),
    "rates": Target(gen_rates, run_rates, from_model=from_rates),
    "sites": Target(gen_sites, run_sites, from_model=from_sites, weight=0.5),
    "observatory": Target(gen_obs, run_obs, from_model=lambda m: None, weight=0.5),
    "precompute": Target(gen_pre, run_pre, from_model=lambda m: None),
    "ephemeris": Target(gen_eph, run_eph, from_model=lambda m: None, weight=4),
}
