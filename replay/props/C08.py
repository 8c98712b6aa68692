"""C08 randomisation, concrete contracts."""
from common import *

M = "sorcha.modules.PPRandomizeMeasurements"


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def own(rngs, kinds):
    used = [k for k, g in rngs.gens.items() if g.log]
    need(used in ([M], []), f"draws came from the streams {used}")
    log = rngs.gens[M].log if M in rngs.gens else []
    need([k for k, v in log] == kinds, f"draws {[k for k, v in log]}, specified {kinds}")
    return [np.asarray(v, dtype=float) for k, v in log]


def vec(ra, dec):
    a, d = np.radians(np.asarray(ra, float)), np.radians(np.asarray(dec, float))
    return np.stack([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)], axis=1)


def angle(u, v):
    """angle between unit vectors, precise for small angles"""
    return 2 * np.arcsin(np.clip(np.linalg.norm(u - v, axis=1) / 2, 0, 1))


def expected_dirs(ra, dec, sigrad, e):
    v = vec(ra, dec) + np.asarray(sigrad, float)[:, None] * e
    return v / np.linalg.norm(v, axis=1)[:, None]


def gen_pos(rnd, n):
    ra = [rnd.choice([0.0, 359.9999999, 180.0, rnd.uniform(0, 360), 1e-9]) for _ in range(n)]
    dec = [rnd.choice([0.0, 90.0, -90.0, 89.99999, rnd.uniform(-90, 90)]) for _ in range(n)]
    return ra, dec


def gen_phot(rnd, k):
    n = nrows(rnd)
    return {"df": {"m": [wide(rnd, rnd.gauss(22, 3), -20, 60) for _ in range(n)], "s": [rnd.choice([0.0, rnd.uniform(0, 1), 5.0, wide(rnd, 1.0, 1e-6, 100, 0.5)]) for _ in range(n)],
                   "ObjID": [f"o{i%3}" for i in range(n)]}, "index": rnd.choice([None, "shuffled"])}


def run_phot(c):
    df = index_for(mkframe(c["df"]), c.get("index"))
    inp = df.copy()
    rngs = StubModuleRNG(3, scripts_of(c))
    out = must_return(call(fn(M + ":randomizePhotometry"), df, rngs, magName="m", sigName="s"))
    z, = own(rngs, ["normal"])
    need(z.shape == (len(inp),), f"{z.shape} draws for {len(inp)} rows")
    need(close(np.asarray(out, float), np.asarray(inp["m"], float) + np.asarray(inp["s"], float) * z), "magnitude is not truth plus sigma times draw")
    need(df.equals(inp), "input table changed")


def gen_astro(rnd, k):
    n = nrows(rnd)
    ra, dec = gen_pos(rnd, n)
    u = rnd.choice(["deg", "mas", "rad"])
    f = {"deg": 1, "mas": 3.6e6, "rad": math.pi / 180}[u]
    return {"df": {"RA_deg": ra, "Dec_deg": dec, "sig": [f * rnd.choice([0.0, 1e-5, 10 ** rnd.uniform(-7, 1), 20.0]) for _ in range(n)], "ObjID": [f"o{i%3}" for i in range(n)]},
            "sigUnits": u, "radecUnits": rnd.choice(["deg", "deg", "rad"]), "index": rnd.choice([None, "shuffled"])}


def run_astro(c):
    d = {k: list(v) for k, v in c["df"].items()}
    df = index_for(mkframe(d), c.get("index"))
    if len(df) and ((df["sig"] < 0).any() or df["RA_deg"].abs().max() > 1e4 or df["Dec_deg"].abs().max() > 90):
        raise Skip()
    rd = c.get("radecUnits", "deg")
    conv = 1.0 if rd == "deg" else math.pi / 180
    if rd == "rad":
        df["RA_deg"], df["Dec_deg"] = np.radians(df["RA_deg"]), np.radians(df["Dec_deg"])
    inp = df.copy()
    rngs = StubModuleRNG(4)
    kw = {} if rd == "deg" else {"radecUnits": "rad"}
    out = must_return(call(fn(M + ":randomizeAstrometry"), df, rngs, sigName="sig", sigUnits=c["sigUnits"], **kw))
    need(len(out) == len(inp), "rows lost")
    need(set(out.columns) == set(inp.columns) | {"RATrue_deg", "DecTrue_deg"}, f"columns {list(out.columns)}")
    if len(inp) == 0:
        return
    e, = own(rngs, ["mvn"])
    need(e.shape == (len(inp), 3), "three draws per detection")
    sig = {"deg": np.radians, "mas": lambda x: np.radians(x / 3.6e6), "rad": lambda x: x}[c["sigUnits"]](np.asarray(inp["sig"], float))
    want = expected_dirs(inp["RA_deg"] / conv, inp["Dec_deg"] / conv, sig, e)
    ra, dec = np.asarray(out["RA_deg"], float), np.asarray(out["Dec_deg"], float)
    need(np.all(angle(vec(ra / conv, dec / conv), want) < 1e-7), "measured direction is not truth displaced by sigma times the draws")
    need(np.all((ra >= 0) & (ra < 360 * conv) & (np.abs(dec) <= 90 * conv + 1e-12)), "RA or Dec out of range")
    for a, b in (("RATrue_deg", "RA_deg"), ("DecTrue_deg", "Dec_deg"), ("sig", "sig"), ("ObjID", "ObjID")):
        need(all(same(x, y) for x, y in zip(out[a], inp[b])), f"{a} is not the input {b}")


def gen_conv(rnd, k):
    ra, dec = gen_pos(rnd, 5)
    c = {"ra": ra, "dec": dec, "deg": rnd.random() < 0.6, "x": rnd.gauss(0, 1), "y": rnd.gauss(0, 1), "z": rnd.gauss(0, 1)}
    if rnd.random() < 0.2:  # next to the meridian or a pole
        a = rnd.choice("xyz")
        c[a] = rnd.choice([1, -1]) * rnd.choice([0.0, 1e-300, 1e-18, 1e-15, 1e-12])
    return c


def run_fwd(c):
    ra, dec = np.atleast_1d(np.asarray(c["ra"], float)), np.atleast_1d(np.asarray(c["dec"], float))
    if np.abs(ra).max() > 1e5 or np.abs(dec).max() > 1e5:
        raise Skip()
    w = vec(ra, dec).T
    f = fn(M + ":radec2icrf")
    g = must_return(call(f, ra, dec)) if c["deg"] else must_return(call(f, np.radians(ra), np.radians(dec), deg=False))
    need(close(np.asarray(g, float), w, 1e-9, 1e-9), "not the unit vector of the direction")


def run_back(c):
    x, y, z = (np.atleast_1d(np.asarray(c[k], float)) for k in "xyz")
    n = np.sqrt(x * x + y * y + z * z)
    if not np.all((n > 1e-9) & (n < 1e9)):
        raise Skip()
    ra, dec = must_return(call(fn(M + ":icrf2radec"), x, y, z, deg=c["deg"]))
    ra, dec = np.asarray(ra, float), np.asarray(dec, float)
    k = 1.0 if c["deg"] else math.pi / 180
    need(np.all((ra >= 0) & (ra < 360 * k) & (np.abs(dec) <= 90 * k + 1e-12)), "range")
    need(np.all(angle(vec(ra / k, dec / k), np.stack([x / n, y / n, z / n], 1)) < 1e-7), "direction differs")


def gen_sample(rnd, k):
    n = nrows(rnd)
    ra, dec = gen_pos(rnd, n)
    v = vec(ra, dec) if n else np.zeros((0, 3))
    return {"df": {"cx": v[:, 0].tolist(), "cy": v[:, 1].tolist(), "cz": v[:, 2].tolist(), "s": [10 ** rnd.uniform(-8, 0) for _ in range(n)]}}


def run_sample(c):
    df = mkframe(c["df"])
    if len(df) == 0:
        raise Skip()
    rngs = StubModuleRNG(5)
    cen = np.array([df["cx"], df["cy"], df["cz"]], dtype=float).T
    out = must_return(call(fn(M + ":sampleNormalFOV"), cen, df["s"], rngs, ndim=3))
    e, = own(rngs, ["mvn"])
    v = cen + np.asarray(df["s"], float)[:, None] * e
    n = np.linalg.norm(v, axis=1)
    if (n < 1e-6).any():
        raise Skip()
    need(close(np.asarray(out, float), v / n[:, None], 1e-8, 1e-9), "not the displaced, normalised vectors")


def gen_both(rnd, k):
    n = nrows(rnd)
    ra, dec = gen_pos(rnd, n)
    u = lambda a, b: [rnd.uniform(a, b) for _ in range(n)]
    return {"df": {"RA_deg": ra, "Dec_deg": dec, "astrometricSigma_deg": [rnd.choice([0.0, 10 ** rnd.uniform(-6, -2)]) for _ in range(n)],
                   "trailedSourceMagTrue": u(15, 27), "trailedSourceMagSigma": u(0, 1), "PSFMagTrue": u(15, 27), "PSFMagSigma": u(0, 1),
                   "SNRPSFMag": [near(rnd, 2.0) if rnd.random() < 0.4 else rnd.uniform(0, 20) for _ in range(n)], "SNRTrailedSourceMag": u(0, 20),
                   "ObjID": [f"o{i%3}" for i in range(n)]},
            "trailing_losses_on": rnd.random() < 0.6, "default_snr_cut": rnd.random() < 0.6, "verbose": rnd.random() < 0.3}


def run_both(c):
    df = mkframe(c["df"])
    if len(df) and (df["RA_deg"].abs().max() > 1e4 or df["Dec_deg"].abs().max() > 90 or (df["astrometricSigma_deg"].abs() > 1).any()):
        raise Skip()
    inp = df.copy()
    rngs = StubModuleRNG(6)
    on = c["trailing_losses_on"]
    out = must_return(call(fn(M + ":randomizeAstrometryAndPhotometry"), df, NS(expert=NS(trailing_losses_on=on, default_snr_cut=c["default_snr_cut"])),
                           rngs, c.get("verbose", False)))
    keep = np.asarray(inp["SNRPSFMag"] > 2.0) if c["default_snr_cut"] else np.ones(len(inp), bool)
    exp = inp[keep]
    need(len(out) == len(exp), f"default cut kept {len(out)} rows, {len(exp)} have signal-to-noise above 2")
    if len(exp) == 0:
        return
    d = own(rngs, ["normal", "normal", "mvn"] if on else ["normal", "mvn"])
    tr = np.asarray(exp["trailedSourceMagTrue"], float) + np.asarray(exp["trailedSourceMagSigma"], float) * d[0]
    need(close(np.asarray(out["trailedSourceMag"], float), tr), "trailed magnitude")
    psf = np.asarray(exp["PSFMagTrue"], float) + np.asarray(exp["PSFMagSigma"], float) * d[1] if on else tr
    need(close(np.asarray(out["PSFMag"], float), psf), "PSF magnitude")
    want = expected_dirs(exp["RA_deg"], exp["Dec_deg"], np.radians(exp["astrometricSigma_deg"]), d[-1])
    need(np.all(angle(vec(out["RA_deg"], out["Dec_deg"]), want) < 1e-7), "position")
    for a, b in [("RATrue_deg", "RA_deg"), ("DecTrue_deg", "Dec_deg")] + [(k, k) for k in inp.columns if k not in ("RA_deg", "Dec_deg")]:
        need(all(same(x, y) for x, y in zip(out[a], exp[b])), f"column {a}")


TARGETS = {"phot": Target(gen_phot, run_phot), "radec2icrf": Target(gen_conv, run_fwd, weight=0.4), "icrf2radec": Target(gen_conv, run_back, weight=0.4),
           "sample": Target(gen_sample, run_sample, weight=0.5), "astro": Target(gen_astro, run_astro, weight=2), "both": Target(gen_both, run_both, weight=2)}

from focus import focus

TARGETS["run"] = focus(0.5, "LSST", lambda rnd: {"trailing": rnd.random() < 0.4})
