"""End-to-end concrete contract: runs runLSSTSimulation on small generated input
files in a scratch directory and compares the files it writes with an
independent row-by-row evaluation of the published laws (external ephemerides;
for generated ephemerides only the integrator itself is replaced by a table)."""
import importlib
import math
import sqlite3
import numpy as np
import pandas as pd
from common import *
from props.C04 import law as trailing
from props.C05 import loss as vig_loss, sep as ang_sep
from props.C06 import snr as snr_of, sig as ast_sigma
from props.C07 import sbpy_mag, PARS, AU
import tracklets as TR

EPH = ["ObjID", "FieldID", "fieldMJD_TAI", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day",
       "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s",
       "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"]
BASIC = ["ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter", "trailedSourceMag",
         "trailedSourceMagSigma", "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "Obj_Sun_LTC_km"]
POSCOLS = ["fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "RATrue_deg", "DecTrue_deg"]
MAGCOLS = ["PSFMag", "trailedSourceMag", "trailedSourceMagTrue", "PSFMagTrue", "PSFMagSigma", "trailedSourceMagSigma", "fieldFiveSigmaDepth_mag", "fiveSigmaDepth_mag"]
QUERY = ("SELECT observationId, observationStartMJD_TAI, visitTime, visitExposureTime, filter, seeingFwhmGeom_arcsec, seeingFwhmEff_arcsec, "
         "fieldFiveSigmaDepth_mag, fieldRA_deg, fieldDec_deg, fieldRotSkyPos_deg FROM observations order by observationId")
DESQUERY = QUERY.replace("observationStartMJD_TAI", "observationMidpointMJD_TAI").replace(" FROM", ", c, k FROM")


def gen(rnd, k=0, **fix):
    """the knobs of one run; the tables follow from the seed"""
    des = fix.get("survey") == "DES"
    filters = rnd.sample("grizY" if des else "ugrizy", rnd.choice([1, 2, 3, 4, 5 if des else 6]))
    fun = rnd.choice(["none", "HG", "linear", "HG1G2", "HG12"])
    n = rnd.choice([1, 2, 3, 5, 8])
    c = {"seed": rnd.randint(0, 10**9), "n": n, "chunk": rnd.choice([1, 2, 3, n, n, n + 2, 100, max(1, n - 1)]), "filters": filters, "fun": fun,
         "per": rnd.random() < 0.3 and fun != "none" and len(filters) > 1, "ids": rnd.choice(["plain", "zeros", "grow", "mixed", "number"]),
         "camera": rnd.choice(["none", "none", "circle", "fill"]), "radius": rnd.choice([1.0, 1.75, 0.5]), "trailing": rnd.random() < 0.7, "vignetting": rnd.random() < 0.6,
         "snr": rnd.choice([None, None, 2.0, 5.0]), "mag": rnd.choice([None, None, 22.0, 24.0]), "fading": rnd.random() < 0.4,
         "bright": rnd.choice([None, "one", "list"]), "link": rnd.choice([None, None, "drop", "keep"]), "nobs": rnd.choice([1, 2, 3]), "nlink": rnd.choice([1, 2, 3]),
         "window": rnd.choice([1, 3, 15]), "sepmin": rnd.choice([0.5, 2.0]), "maxtime": rnd.choice([0.0625, 0.03]), "nightstart": rnd.choice([16.0, 12.0, 0.0, 20.0]),
         "format": rnd.choice(["csv", "csv", "sqlite3", "hdf5"]), "columns": rnd.choice(["basic", "basic", "all", "list"]), "posdec": rnd.choice([None, 3, 0, 7]), "magdec": rnd.choice([None, 2, 0, 4]),
         "stats": rnd.random() < 0.5, "aux": rnd.choice(["csv", "whitespace"]), "eph": rnd.choice(["csv", "whitespace", "hdf5"]), "shuffle": rnd.random() < 0.4,
         "ar": rnd.random() < 0.25, "brute": rnd.random() < 0.3, "ret": rnd.random() < 0.15, "density": rnd.choice([0.1, 0.6, 0.9]), "extra_objects": rnd.random() < 0.3}
    if c["ar"]:
        c["eph"] = "csv"
    c["survey"] = "rubin_sim"
    if des:
        c.update(snr=None, link=None, trailing=False, vignetting=False, columns=rnd.choice(["all", "list"]), distance=rnd.choice([None, None, [2.5, 0.5], [6.0, 3.0]]), motion=rnd.choice([None, None, [0.45, 0.1], [0.2, 0.0]]),
                 discovery=rnd.random() < 0.3, eff=rnd.choice([None, None, 0.0]))
        if c["discovery"]:
            c["density"], c["nights"] = 0.9, rnd.choice([8, 10, 12])
    c.update(fix)
    return c


def ids_of(c, R):
    n = c["n"]
    if c["ids"] == "zeros":
        return [f"{i:0{R.choice([4, 5])}d}" for i in R.sample(range(0, 500), n)]
    if c["ids"] == "grow":
        return ["S" + "1" * (i + 1) for i in range(n)]
    if c["ids"] == "mixed":
        return [["2011 AB", "1e5", "C/2020 X1", "S1", "12", "0x1F", "J95X00A", "1_0", "TRUE", "7.0"][i % 10].replace(" ", "_") + ("" if i < 10 else str(i)) for i in range(n)]
    if c["ids"] == "number":
        return [str(x) for x in R.sample(range(1, 99999), n)]
    return [f"obj{i}" for i in R.sample(range(1000), n)]


class World:
    pass


def world(c):
    R = random.Random(c["seed"])
    w = World()
    ids = ids_of(c, R)
    fs, main, fun, per = c["filters"], c["filters"][0], c["fun"], c["per"]
    # orbits, in file order
    w.ids = ids
    w.orbits = pd.DataFrame([{"ObjID": o, "FORMAT": "COM", "q": round(R.uniform(1.5, 6), 6), "e": round(R.uniform(0, 0.9), 6), "inc": R.uniform(0, 90), "node": R.uniform(0, 360), "argPeri": R.uniform(0, 360),
                              "t_p_MJD_TDB": 60000 + R.uniform(-500, 500), "epochMJD_TDB": 60000.0} for o in ids])
    cols = list(w.orbits.columns)[1:]
    R.shuffle(cols)
    w.orbits = w.orbits[["ObjID"] + cols]
    # physical parameters, in another order
    P = []
    for o in ids:
        faint = c["ar"] and R.random() < 0.3
        p = {"ObjID": o, "H_" + main: (42.5 if faint else R.choice([round(R.uniform(12, 19), 3), 15, 17]))}
        for x in fs[1:]:
            p[f"{x}-{main}"] = R.choice([0, round(R.gauss(0, 0.6), 3)])
        for q in PARS[fun]:
            for nm in ([q + x for x in fs] if per else [q]):
                p[nm] = round(R.uniform(0.05, 0.45), 3)
        P.append(p)
    w.par = {p["ObjID"]: p for p in P}
    w.faint = {o for o in ids if w.par[o]["H_" + main] > 40}
    if c["ar"]:  # close enough never to be culled
        w.orbits["q"] = [round(R.uniform(1.0, 1.9), 6) for _ in ids]
    for o in w.faint:
        w.orbits.loc[w.orbits["ObjID"] == o, "q"] = 4.5
    Q = list(P)
    R.shuffle(Q)
    w.params = pd.DataFrame(Q)
    # pointings
    ra0, de0 = R.choice([R.uniform(5, 350), 0.3, 359.8]), R.uniform(-60, 20)
    des = c["survey"] == "DES"
    allf = sorted(set(fs) | set(R.sample("grizY" if des else "ugrizy", 2)))
    V = []
    w.when = "observationMidpointMJD_TAI" if des else "observationStartMJD_TAI"
    vid = R.choice([1, 100, 7000])
    night = 60000
    for _ in range(c.get("nights") or R.choice([1, 2, 4, 6])):
        t = night + c["nightstart"] / 24 + R.uniform(0.15, 0.4)
        for _ in range(R.choice([1, 2, 4])):
            V.append({"observationId": vid, "observationStartMJD_TAI": t, "visitTime": R.choice([34.0, 30.0]), "visitExposureTime": R.choice([30.0, 29.2]), "filter": R.choice(allf if R.random() < 0.4 else fs),
                      "seeingFwhmGeom_arcsec": R.uniform(0.5, 1.2), "seeingFwhmEff_arcsec": R.uniform(0.5, 1.4), "fieldFiveSigmaDepth_mag": R.uniform(22.5, 24.8),
                      "fieldRA_deg": (ra0 + R.uniform(-0.7, 0.7)) % 360, "fieldDec_deg": de0 + R.uniform(-0.7, 0.7), "fieldRotSkyPos_deg": R.uniform(0, 360)})
            if des:
                V[-1]["observationMidpointMJD_TAI"] = V[-1].pop("observationStartMJD_TAI")
                V[-1].update(c=R.choice([1.0, 1.0, 1.0, 0.0]), k=R.choice([4000.0, 9000.0]))
            vid += R.choice([1, 1, 3])
            t += R.choice([0.005, 0.02, 0.05, 0.07])
        night += R.choice([1, 1, 2, 8, 20])
    w.visits = V
    for f in fs[:1]:
        V[0]["filter"] = f
    # ephemerides
    E = []
    who = ids + (["ghost1"] if False else [])
    for o in who:
        if R.random() < 0.15:
            continue
        r0, d0 = ra0 + R.uniform(-0.8, 0.8), de0 + R.uniform(-0.8, 0.8)
        vr, vd = R.choice([0.0, R.gauss(0, 0.4), R.gauss(0, 0.01)]), R.choice([0.0, R.gauss(0, 0.3)])
        rh = R.uniform(1.2, 6)
        for v in V:
            if R.random() > c["density"]:
                continue
            dt = v[w.when] - V[0][w.when]
            e = {"ObjID": o, "FieldID": v["observationId"], "fieldMJD_TAI": v[w.when], "Range_LTC_km": AU * R.uniform(0.8, 1.1) * rh, "RangeRate_LTC_km_s": R.gauss(0, 20),
                 "RA_deg": (r0 + vr * dt % 0.7) % 360, "RARateCosDec_deg_day": vr, "Dec_deg": max(-89.0, min(89.0, d0 + vd * dt % 0.6)), "DecRate_deg_day": vd,
                 "Obj_Sun_x_LTC_km": AU * rh * 0.6, "Obj_Sun_y_LTC_km": AU * rh * R.uniform(0.7, 0.8), "Obj_Sun_z_LTC_km": AU * R.uniform(-0.1, 0.1), "phase_deg": R.uniform(0, 35)}
            for x in EPH:
                e.setdefault(x, R.gauss(0, 30))
            E.append(e)
    if c["shuffle"]:
        R.shuffle(E)
    w.eph = pd.DataFrame(E, columns=EPH)
    w.rate = None
    return w


def ini(c):
    fs = c["filters"]
    L = ["[INPUT]", f"ephemerides_type = {'ar' if c['ar'] else 'external'}", f"eph_format = {c['eph']}", f"size_serial_chunk = {c['chunk']}", f"aux_format = {c['aux']}", "pointing_sql_query = " + (DESQUERY if c["survey"] == "DES" else QUERY),
         "[FILTERS]", "observing_filters = " + ",".join(fs), "[SATURATION]"]
    if c["bright"] == "one":
        L.append("bright_limit = 16.5")
    if c["bright"] == "list":
        L.append("bright_limit = " + ",".join(str(limit_of(c, f)) for f in fs))
    L += ["[PHASECURVES]", f"phase_function = {c['fun']}", "[FOV]", "camera_model = " + {"fill": "circle"}.get(c["camera"], c["camera"])]
    if c["camera"] == "circle":
        L.append(f"circle_radius = {c['radius']}")
    if c["camera"] == "fill":
        L.append("fill_factor = 1.0")
    L += ["[FADINGFUNCTION]", f"fading_function_on = {c['fading']}"]
    if c["survey"] == "DES":
        if c["eff"] is not None:
            L.append(f"des_transient_efficency = {c['eff']}")
    elif c["fading"]:
        L += ["fading_function_width = 0.0001", "fading_function_peak_efficiency = 1.0"]
    L += ["[LINKINGFILTER]"]
    if c["link"]:
        L += [f"drop_unlinked = {c['link'] == 'drop'}", "SSP_detection_efficiency = 1.0", f"SSP_number_observations = {c['nobs']}", f"SSP_separation_threshold = {c['sepmin']}", f"SSP_maximum_time = {c['maxtime']}",
              f"SSP_number_tracklets = {c['nlink']}", f"SSP_track_window = {c['window']}", f"SSP_night_start_utc = {c['nightstart']}"]
    elif c["survey"] == "DES":
        for nm in ("distance", "motion"):
            if c[nm]:
                L += [f"{nm}_cut_upper = {c[nm][0]}", f"{nm}_cut_lower = {c[nm][1]}"]
        if c["discovery"]:
            L.append("des_discovery_on = True")
    else:
        L += ["drop_unlinked = True"]
    if c["ar"]:
        L += ["[SIMULATION]", "ar_ang_fov = 1.8", "ar_fov_buffer = 0.2", "ar_picket = 1", "ar_obs_code = X05", "ar_healpix_order = 6"]
    L += ["[OUTPUT]", f"output_format = {c['format']}", "output_columns = " + (",".join(listcols(c)) if c["columns"] == "list" else c["columns"])]
    if c["posdec"] is not None:
        L.append(f"position_decimals = {c['posdec']}")
    if c["magdec"] is not None:
        L.append(f"magnitude_decimals = {c['magdec']}")
    L += ["[LIGHTCURVE]", "lc_model = none", "[ACTIVITY]", "comet_activity = none", "[EXPERT]", "randomization_on = False", f"vignetting_on = {c['vignetting']}", f"trailing_losses_on = {c['trailing']}",
          f"brute_force = {c['brute']}"]
    if c["snr"] is not None:
        L.append(f"snr_limit = {c['snr']}")
    elif c["mag"] is not None:
        L.append(f"mag_limit = {c['mag']}")
    return "\n".join(L) + "\n"


def limit_of(c, f):
    return 16.5 if c["bright"] == "one" else 15.5 + 0.4 * c["filters"].index(f)


def listcols(c):
    x = ["ObjID", "fieldMJD_TAI", "optFilter", "trailedSourceMag", "PSFMag", "fieldRA_deg", "RATrue_deg", "SNRPSFMag", "FieldID", "H_filter"]
    if c["survey"] == "DES":  # no uncertainties
        x[7] = "k"
    if c["seed"] % 3 == 0:
        x = x[::-1]
    return x


def near_tie(a, b, tol=1e-7):
    if abs(a - b) < tol:
        raise Skip("tie")


def expected(c, w):
    """the surviving rows, chunk by chunk: list of lists of dicts"""
    main = c["filters"][0]
    vis = {v["observationId"]: v for v in w.visits if v["filter"] in c["filters"]}
    blocks = [w.ids[i:i + c["chunk"]] for i in range(0, len(w.ids), c["chunk"])]
    orb = {r["ObjID"]: r for r in w.orbits.to_dict("records")}
    out = []
    for b in blocks:
        rows = []
        for e in w.eph.to_dict("records"):
            if e["ObjID"] not in b or e["FieldID"] not in vis:
                continue
            o = e["ObjID"]
            if c["ar"] and not c["brute"] and o in w.faint:
                continue
            v, p = vis[e["FieldID"]], w.par[o]
            f = v["filter"]
            r = dict(e)
            r.update({k: x for k, x in p.items() if k != "ObjID"})
            r.update({k: v[k] for k in ("visitTime", "visitExposureTime", "seeingFwhmGeom_arcsec", "seeingFwhmEff_arcsec", "fieldFiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg", "fieldRotSkyPos_deg")})
            r["optFilter"] = f
            if c["survey"] == "DES":
                r.update(c=v["c"], k=v["k"])
            r["FieldID"] = e["FieldID"]
            H = p["H_" + main] + (0 if f == main else p[f"{f}-{main}"])
            r["H_filter"] = H
            pars = [p[q + f] if c["per"] else p[q] for q in PARS[c["fun"]]]
            rho = math.sqrt(sum(e[f"Obj_Sun_{k}_LTC_km"] ** 2 for k in "xyz"))
            r["Obj_Sun_LTC_km"] = rho
            m = sbpy_mag(c["fun"], H, pars, e["phase_deg"]) + 5 * math.log10(e["Range_LTC_km"] / AU) + 5 * math.log10(rho / AU)
            r["trailedSourceMagTrue"] = r["trailedSourceMag"] = m
            lp = lt = 0.0
            if c["trailing"]:
                tr = lambda s, mo: trailing(e["RARateCosDec_deg_day"], e["DecRate_deg_day"], s, v["visitExposureTime"], mo)
                lp, lt = tr(v["seeingFwhmEff_arcsec"], "circularPSF"), tr(v["seeingFwhmGeom_arcsec"], "trailedSource")
            r["PSFMagTrue"] = r["PSFMag"] = m + lp
            d2r = math.radians
            r["fiveSigmaDepth_mag"] = v["fieldFiveSigmaDepth_mag"]
            off = ang_sep(d2r(e["RA_deg"]), d2r(e["Dec_deg"]), d2r(v["fieldRA_deg"]), d2r(v["fieldDec_deg"]))
            if c["vignetting"]:
                r["fiveSigmaDepth_mag"] -= vig_loss(math.degrees(off))
            m5 = r["fiveSigmaDepth_mag"]
            S1, S2 = snr_of(m + lt, m5), snr_of(m + lp, m5)
            if c["survey"] != "DES":
                r.update(SNRTrailedSourceMag=S1, SNRPSFMag=S2, trailedSourceMagSigma=2.5 * math.log10(1 + 1 / S1), PSFMagSigma=2.5 * math.log10(1 + 1 / S2),
                         astrometricSigma_deg=ast_sigma(v["seeingFwhmGeom_arcsec"] * 1000, S1) / 3.6e6)
            r.update(RATrue_deg=e["RA_deg"], DecTrue_deg=e["Dec_deg"])
            if c["camera"] == "circle":
                near_tie(math.degrees(off), c["radius"])
                if not math.degrees(off) < c["radius"]:
                    continue
            lim = c["snr"]
            if lim is not None:
                near_tie(S2, lim)
                if not S2 > lim:
                    continue
            elif c["mag"] is not None:
                near_tie(r["trailedSourceMag"], c["mag"])
                if not r["trailedSourceMag"] < c["mag"]:
                    continue
            if c["fading"]:
                if abs(r["PSFMag"] - m5) < 0.005:
                    raise Skip("probability not saturated")
                if r["PSFMag"] > m5 or (c["survey"] == "DES" and (v["c"] == 0 or c["eff"] == 0)):
                    continue
            if c["bright"]:
                near_tie(r["PSFMag"], limit_of(c, f))
                if r["PSFMag"] < limit_of(c, f):
                    continue
            rows.append(r)
        if c["link"] and rows:
            keep = []
            for o in sorted({r["ObjID"] for r in rows}):
                mine = [r for r in rows if r["ObjID"] == o]
                opp, *_ = TR.link_object([r["fieldMJD_TAI"] for r in mine], [r["RA_deg"] for r in mine], [r["Dec_deg"] for r in mine], c["maxtime"] * 1440, c["sepmin"], c["nobs"], c["window"], c["nlink"],
                                         c["nightstart"] / 24)
                for r in mine:
                    r["object_linked"] = bool(opp)
                if opp or c["link"] == "keep":
                    keep += [id(r) for r in mine]
            rows = [r for r in rows if id(r) in keep]
        if c["survey"] == "DES":
            rows = des_cuts(c, rows)
        out.append(rows)
    return out


def des_cuts(c, rows):
    if c["distance"]:
        hi, lo = c["distance"]
        ok = set()
        for r in rows:
            d = r["Obj_Sun_LTC_km"] / AU
            near_tie(d, hi)
            near_tie(d, lo)
            if lo < d < hi:
                ok.add(r["ObjID"])
        rows = [r for r in rows if r["ObjID"] in ok]
    if c["motion"]:
        hi, lo = c["motion"]
        keep = []
        for r in rows:
            m = math.hypot(r["RARateCosDec_deg_day"], r["DecRate_deg_day"])
            if m > 0:
                near_tie(m, lo)
            near_tie(m, hi)
            if lo < m < hi:
                keep.append(r)
        rows = keep
    if c["discovery"] and rows:
        from props.C20 import o_nights, o_arc, o_triplet
        keep = []
        for o in {r["ObjID"] for r in rows}:
            mine = [r for r in rows if r["ObjID"] == o]
            ts = sorted(r["fieldMJD_TAI"] for r in mine)
            d = min(r["Obj_Sun_LTC_km"] for r in mine) / AU
            n = o_nights(ts)
            if n >= 9 or (n >= 7 and o_arc(ts) and o_triplet(ts, 90.0 if d > 50 else 60.0)):
                keep += [id(r) for r in mine]
        rows = [r for r in rows if id(r) in keep]
    return rows


def write_inputs(c, w, d):
    sep = "," if c["aux"] == "csv" else " "
    w.orbits.to_csv("orbits.csv", sep=sep, index=False)
    w.params.to_csv("params.csv", sep=sep, index=False)
    if c["eph"] == "hdf5":
        w.eph.astype({"ObjID": str}).to_hdf("eph.h5", key="data", format="table", data_columns=True) if len(w.eph) else None
        ep = "eph.h5"
    else:
        ep = "eph.csv"
        w.eph.to_csv(ep, sep="," if c["eph"] == "csv" else " ", index=False)
    con = sqlite3.connect("pointing.db")
    pd.DataFrame(w.visits).to_sql("observations", con, index=False)
    con.close()
    open("config.ini", "w").write(ini(c))
    os.makedirs("out", exist_ok=True)
    return ep


def execute(c, w):
    """run the real code in the current directory -> (result of the run or None)"""
    ep = write_inputs(c, w, ".")
    mod = "sorcha.des" if c["survey"] == "DES" else "sorcha.sorcha"
    S = fn(mod + (":runDESSimulation" if c["survey"] == "DES" else ":runLSSTSimulation"))
    Args, Conf = fn("sorcha.utilities.sorchaArguments:sorchaArguments"), fn("sorcha.utilities.sorchaConfigs:sorchaConfigs")
    args = Args({"paramsinput": "params.csv", "orbinfile": "orbits.csv", "input_ephemeris_file": None if c["ar"] else ep, "configfile": "config.ini", "outpath": "out", "outfilestem": "res", "pointing_database": "pointing.db",
                 "output_ephemeris_file": None, "ar_data_path": None, "loglevel": bool(c["seed"] % 2), "stats": "stats" if c["stats"] else None, "visits_database": None, "surveyname": c["survey"], "seed": c["seed"] % 1000})
    conf = must_return(call(Conf, "config.ini", c["survey"]))
    m = importlib.import_module(mod)
    saved = {}
    fade = "sorcha.modules.PPFadingFunctionFilter"
    if c["ar"]:
        def eph(orbits, pointings, a, s):
            t = w.eph[w.eph["ObjID"].isin(list(orbits["ObjID"])) & w.eph["FieldID"].isin(list(pointings["FieldID"]))].reset_index(drop=True)
            return t.join(orbits.set_index("ObjID"), on="ObjID")

        for k2, v2 in (("create_ephemeris", eph), ("precompute_pointing_information", lambda p, a, s: p)):
            if not hasattr(m, k2):
                raise MissingTarget(k2)
            saved[k2] = getattr(m, k2)
            setattr(m, k2, v2)
    try:
        kw = {"return_only": True} if c["ret"] else {}
        return must_return(call(S, args, conf, **kw))
    finally:
        for k2, v2 in saved.items():
            setattr(m, k2, v2)


def read_output(c):
    f = {"csv": "out/res.csv", "sqlite3": "out/res.db", "hdf5": "out/res.h5"}[c["format"]]
    if not os.path.exists(f):
        return None
    if c["format"] == "csv":
        return pd.read_csv(f, dtype={"ObjID": str})
    if c["format"] == "sqlite3":
        con = sqlite3.connect(f)
        t = pd.read_sql("select * from sorcha_results order by rowid", con)
        con.close()
        return t
    return pd.read_hdf(f)


def val(r, k, c):
    x = r[k]
    if c["ret"]:
        return x, 0
    for cols, dec in ((POSCOLS, c["posdec"]), (MAGCOLS, c["magdec"])):
        if k in cols and dec is not None:
            y = abs(x) * 10**dec
            if abs(y - math.floor(y) - 0.5) < 1e-6:
                return None, 0
            return round(x, dec), 10.0**-dec
    return x, 0


def run(c):
    if c.get("n") is None or "filters" not in c:
        raise Skip()
    c.setdefault("survey", "rubin_sim")
    w = world(c)
    exp = expected(c, w)
    if not any(v["filter"] in c["filters"] for v in w.visits) or (c["eph"] == "hdf5" and not len(w.eph)) or not len(w.eph):
        raise Skip("no inputs")
    with scratch():
        got = execute(c, w)
        allrows = [r for b in exp for r in b]
        if c["ret"]:
            need(not os.path.exists("out/res.csv") and not os.listdir("out"), "files written although only results were asked for")
            st = None
            if c["stats"] and allrows:
                got, st = got
            t = got
        else:
            t = read_output(c)
            st = pd.read_csv("out/stats.csv", dtype={"ObjID": str}) if os.path.exists("out/stats.csv") else None
        if c["ret"] and not allrows:
            return
        if not allrows:
            need(t is None or len(t) == 0, f"{0 if t is None else len(t)} rows written, none specified")
            return
        need(t is not None, "no output written")
        judge(c, exp, t)
        if c["stats"]:
            need(st is not None, "no statistics written")
            judge_stats(c, exp, st)


def judge(c, exp, t):
    t = t.reset_index(drop=True)
    cols = {"basic": BASIC + (["object_linked"] if c["link"] == "keep" else []), "list": listcols(c)}.get(c["columns"])
    if cols is not None and not c["ret"]:
        need(list(t.columns) == cols, f"columns {list(t.columns)}, specified {cols}")
    keyed = {(r["ObjID"], round(r["fieldMJD_TAI"], 7)): r for b in exp for r in b}
    keys = [(str(a), round(float(b), 7)) for a, b in zip(t["ObjID"], t["fieldMJD_TAI"])]
    need(len(keys) == len(set(keys)), "a detection is written twice")
    miss, more = set(keyed) - set(keys), set(keys) - set(keyed)
    need(not miss and not more, f"detections missing: {sorted(miss)[:3]}, not specified: {sorted(more)[:3]}")
    order = [(r["ObjID"], round(r["fieldMJD_TAI"], 7)) for b in exp for r in b]
    if not c["link"] and not c.get("discovery"):
        need(keys == order, "rows are not in order")
    else:
        i = 0
        for b in exp:
            need(set(keys[i:i + len(b)]) == {(r["ObjID"], round(r["fieldMJD_TAI"], 7)) for r in b}, "blocks of objects out of order")
            i += len(b)
    for i, k in enumerate(keys):
        r = keyed[k]
        for col in t.columns:
            if col not in r:
                continue
            g = t[col].iloc[i]
            x, unit = val(r, col, c)
            if x is None:
                continue
            if isinstance(x, str) or col in ("FieldID",):
                need(str(g) == str(x), f"{col} of {k}: {g!r}, specified {x!r}")
            elif isinstance(x, bool):
                need(bool(g) == x, f"{col} of {k}: {g!r}, specified {x!r}")
            else:
                need(abs(float(g) - x) <= 2e-7 * abs(x) + 1e-8 + (unit * 1e-6), f"{col} of {k}: {g!r}, specified {x!r}")
                if unit:
                    y = float(g) / unit
                    need(abs(y - round(y)) < 1e-4 + 1e-12 * abs(y), f"{col}: {g!r} is not rounded")


def judge_stats(c, exp, st):
    st = st.reset_index() if "ObjID" not in st.columns else st
    want = {}
    for b in exp:
        for r in b:
            want.setdefault((r["ObjID"], r["optFilter"]), []).append(r)
    got = {}
    for r in st.to_dict("records"):
        k = (str(r["ObjID"]), r["optFilter"])
        if int(r["number_obs"]) == 0:  # a filter of the survey in which nothing was seen
            continue
        need(k not in got, f"statistics of {k} given twice")
        got[k] = r
    need(set(got) == set(want), f"statistics of {sorted(set(got) ^ set(want))[:4]}")
    for k, rs in want.items():
        g = got[k]
        m, p = [r["trailedSourceMag"] for r in rs], [r["phase_deg"] for r in rs]
        need(int(g["number_obs"]) == len(rs), f"{k}: {g['number_obs']} observations, {len(rs)} written")
        for nm, x in (("min_apparent_mag", min(m)), ("max_apparent_mag", max(m)), ("median_apparent_mag", float(np.median(m))), ("min_phase", min(p)), ("max_phase", max(p))):
            need(abs(float(g[nm]) - x) <= 1e-6 + 1e-7 * abs(x), f"{k}: {nm} {g[nm]}, true value {x}")
        if c["link"] == "keep":
            need(bool(g["object_linked"]) == all(r["object_linked"] for r in rs), f"{k}: linked flag")


def target(weight=1.0, **fix):
    return Target(lambda rnd, k: gen(rnd, k, **fix), run, weight=weight)
