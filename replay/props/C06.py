"""C06 uncertainties, concrete contracts."""
from common import *
from props.C04 import law as trailing

M = "sorcha.modules.PPAddUncertainties:"


def snr(m, m5):
    x = 10 ** (0.4 * (m - m5))
    return 1 / math.sqrt(0.001 * x + 0.039 * x * x)


def sig(F, S, co=0.6, fl=10.0, nv=1):
    return math.sqrt(fl * fl + (co * F / S) ** 2 / nv)


def rel(g, w, what):
    need(abs(g - w) <= 1e-8 * abs(w) + 1e-15, f"{what}: {g!r}, law gives {w!r}")


def gen_phot(rnd, k):
    return {"snr": rnd.choice([10 ** rnd.uniform(-6, 8), rnd.uniform(0.01, 5), rnd.uniform(1, 1000), 1e6, 5.0])}


def run_phot(c):
    if not c["snr"] > 0:
        raise Skip()
    f = fn(M + "calcPhotometricUncertainty")
    rel(float(must_return(call(f, c["snr"]))), 2.5 * math.log10(1 + 1 / c["snr"]), "photometric sigma")
    a = must_return(call(f, np.array([c["snr"], c["snr"] * 2])))
    need(a[1] <= a[0], "brighter source has larger sigma")


def gen_rand(rnd, k):
    return {"FWHMeff": wide(rnd, rnd.uniform(300, 2000), 1, 1e5), "snr": wide(rnd, rnd.uniform(0.1, 1000), 1e-6, 1e8), "coeff": rnd.choice([0.6, 0.55, 1.0]), "default": rnd.random() < 0.5}


def run_rand(c):
    if not c["snr"] > 0:
        raise Skip()
    f = fn(M + "calcRandomAstrometricErrorPerCoord")
    g = must_return(call(f, c["FWHMeff"], c["snr"]) if c["default"] else call(f, c["FWHMeff"], c["snr"], c["coeff"]))
    rel(float(g), (0.6 if c["default"] else c["coeff"]) * c["FWHMeff"] / c["snr"], "random error")


def gen_astro(rnd, k):
    m5 = rnd.uniform(20, 26)
    return {"mag": rnd.choice([m5, m5 + rnd.uniform(-8, 4), m5 + rnd.uniform(-25, 25), rnd.gauss(m5, 0.5)]), "m5": m5, "FWHMeff": wide(rnd, rnd.uniform(300, 2000), 1, 1e5),
            "units": rnd.choice(["mas", "arcsec"]), "mode": rnd.choice(["plain", "nvisit", "all"]), "nvisit": rnd.choice([1, 2, 3, 10, 100, 825, 100000]),
            "error_sys": rnd.choice([10.0, 0.0, 30.0]), "coeff": rnd.choice([0.6, 0.55, 1.0])}


def run_astro(c):
    m, m5, F = c["mag"], c["m5"], c["FWHMeff"]
    if abs(m - m5) > 60 or F < 0:
        raise Skip()
    kw, co, fl, nv = {}, 0.6, 10.0, 1
    if c["mode"] != "plain":
        kw["nvisit"] = nv = c["nvisit"]
        if nv < 1:
            raise Skip()
    if c["mode"] == "all":
        kw["error_sys"], kw["astErrCoeff"] = fl, co = c["error_sys"], c["coeff"]
    f = fn(M + "calcAstrometricUncertainty")
    a, s, e = must_return(call(f, m, m5, FWHMeff=F, output_units=c["units"], **kw))
    k = 1 if c["units"] == "mas" else 1000
    rel(float(s), snr(m, m5), "SNR")
    rel(float(a) * k, sig(F, snr(m, m5), co, fl, nv), "astrometric sigma")
    need(float(a) * k >= fl - 1e-9, "below the floor")
    b, s2, _ = must_return(call(f, m + 0.3, m5, FWHMeff=F, output_units=c["units"], **kw))
    need(b >= a and s2 <= s, "fainter source has smaller uncertainty")


def gen_table(rnd, k):
    n = nrows(rnd)
    m = [wide(rnd, rnd.gauss(23, 2), 5, 45) for _ in range(n)]
    d = {"RARateCosDec_deg_day": [rnd.choice([1, -1]) * wide(rnd, rnd.gauss(0, 2), 1e-4, 1e4) for _ in range(n)], "DecRate_deg_day": [rnd.choice([1, -1]) * wide(rnd, rnd.gauss(0, 2), 1e-4, 1e4) for _ in range(n)],
         "seeingFwhmGeom_arcsec": [wide(rnd, rnd.uniform(0.4, 2), 0.01, 50) for _ in range(n)], "seeingFwhmEff_arcsec": [wide(rnd, rnd.uniform(0.4, 2), 0.01, 50) for _ in range(n)],
         "visitExposureTime": [wide(rnd, rnd.choice([15.0, 30.0, 29.2]), 0.01, 1e4) for _ in range(n)], "trailedSourceMagTrue": m,
         "PSFMagTrue": [x + rnd.choice([0.0, rnd.uniform(0, 1)]) for x in m], "fiveSigmaDepth_mag": [rnd.uniform(22, 26) for _ in range(n)],
         "fieldFiveSigmaDepth_mag": [rnd.uniform(22, 26) for _ in range(n)], "ObjID": [f"o{i%3}" for i in range(n)]}
    return {"df": d, "trailing_losses_on": rnd.random() < 0.6, "verbose": rnd.random() < 0.5, "index": rnd.choice([None, "shuffled"])}


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def run_table(c):
    df = index_for(mkframe(c["df"]), c.get("index"))
    inp = df.copy()
    if len(inp) and not (all(inp["seeingFwhmGeom_arcsec"] > 0) and all(inp["visitExposureTime"] >= 0) and (inp["trailedSourceMagTrue"] - inp["fiveSigmaDepth_mag"]).abs().max() < 50):
        raise Skip()
    rngs = StubModuleRNG(1)
    on = c["trailing_losses_on"]
    out = must_return(call(fn(M + "addUncertainties"), df, NS(expert=NS(trailing_losses_on=on)), rngs, c.get("verbose", True)))
    new = {"astrometricSigma_deg", "SNRTrailedSourceMag", "trailedSourceMagSigma", "SNRPSFMag", "PSFMagSigma"}
    need(len(out) == len(inp) and new <= set(out.columns), "rows or columns")
    need(not rngs.log(), "random draws")
    for i in range(len(inp)):
        r, o = inp.iloc[i], out.iloc[i]
        l = trailing(r["RARateCosDec_deg_day"], r["DecRate_deg_day"], r["seeingFwhmGeom_arcsec"], r["visitExposureTime"], "trailedSource") if on else 0.0
        S1, S2 = snr(r["trailedSourceMagTrue"] + l, r["fiveSigmaDepth_mag"]), snr(r["PSFMagTrue"], r["fiveSigmaDepth_mag"])
        rel(o["SNRTrailedSourceMag"], S1, "trailed SNR")
        rel(o["SNRPSFMag"], S2, "PSF SNR")
        rel(o["trailedSourceMagSigma"], 2.5 * math.log10(1 + 1 / S1), "trailed sigma")
        rel(o["PSFMagSigma"], 2.5 * math.log10(1 + 1 / S2), "PSF sigma")
        rel(o["astrometricSigma_deg"], sig(r["seeingFwhmGeom_arcsec"] * 1000, S1) / 3.6e6, "astrometric sigma")
        for k in inp.columns:
            if k not in new:
                need(same(o[k], r[k]), f"column {k} changed")


TARGETS = {"phot_sigma": Target(gen_phot, run_phot), "astro_rand": Target(gen_rand, run_rand), "astro_sigma": Target(gen_astro, run_astro),
           "add_uncertainties": Target(gen_table, run_table, weight=2)}

from focus import focus

TARGETS["run"] = focus(0.7, "LSST", lambda rnd: {"trailing": rnd.random() < 0.7, "vignetting": rnd.random() < 0.6})
