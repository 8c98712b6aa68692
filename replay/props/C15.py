"""C15 configuration validation: real .ini files (and the classes called
directly) against an independent statement of which settings are consistent."""
import configparser
from common import *

M = "sorcha.utilities.sorchaConfigs"
LSST = ["rubin_sim", "RUBIN_SIM", "LSST", "lsst"]
DES = ["DES", "des"]
T, F = ["true", "1", "yes", "y", "True"], ["false", "0", "no", "n", "False"]
REFUSE = object()


def num(s, kind):
    try:
        return float(s) if kind == "f" else int(s)
    except ValueError:
        return REFUSE


def boolean(s):
    return True if s in T else False if s in F else REFUSE


class No(Exception):
    pass


def want(cond, why):
    if not cond:
        raise No(why)


def val(d, k, kind):
    """the converted value of a key, None when absent"""
    if k not in d:
        return None
    v = num(d[k], kind) if kind in "fi" else boolean(d[k]) if kind == "b" else d[k]
    want(v is not REFUSE, f"{k} = {d[k]!r} has the wrong type")
    return v


def rng(d, k, kind, lo=None, hi=None, above=None):
    v = val(d, k, kind)
    if v is not None:
        want((lo is None or v >= lo) and (hi is None or v <= hi) and (above is None or v > above), f"{k} = {v} out of range")
    return v


def need_keys(d, ks):
    for k in ks:
        want(k in d, f"{k} is missing")


def no_keys(d, ks, why):
    for k in ks:
        want(k not in d, f"{k} given although {why}")


def choice(d, k, xs):
    want(d[k] in xs, f"{k} = {d[k]!r} not one of {xs}")
    return d[k]


SSP = {"ssp_detection_efficiency": "f", "ssp_number_observations": "i", "ssp_separation_threshold": "f", "ssp_maximum_time": "f", "ssp_number_tracklets": "i", "ssp_track_window": "i", "ssp_night_start_utc": "f"}
AR = {"ar_ang_fov": "f", "ar_fov_buffer": "f", "ar_picket": "i", "ar_obs_code": "s", "ar_healpix_order": "i"}
AUX = ["planet_ephemeris", "earth_predict", "earth_historical", "earth_high_precision", "jpl_planets", "jpl_small_bodies", "leap_seconds", "observatory_codes_compressed", "orientation_constants"]


def spec(survey, cfg, reg):
    """-> {section: {attribute: value}}; raises No when the settings must be refused"""
    g = lambda s: cfg.get(s, {})
    out = {}
    des = survey in DES
    # input
    d = g("INPUT")
    need_keys(d, ["ephemerides_type", "eph_format", "size_serial_chunk", "aux_format", "pointing_sql_query"])
    out["input"] = {"ephemerides_type": choice(d, "ephemerides_type", ["ar", "external"]), "eph_format": choice(d, "eph_format", ["csv", "whitespace", "hdf5"]),
                    "aux_format": choice(d, "aux_format", ["comma", "whitespace", "csv"]), "size_serial_chunk": rng(d, "size_serial_chunk", "i", lo=1), "pointing_sql_query": d["pointing_sql_query"]}
    # simulation
    s = g("SIMULATION")
    if d["ephemerides_type"] == "ar":
        need_keys(s, AR)
        out["simulation"] = {k: val(s, k, t) for k, t in AR.items()}
        out["simulation"]["ar_n_sub_intervals"] = val(s, "ar_n_sub_intervals", "i") if "ar_n_sub_intervals" in s else 101
    else:
        no_keys(s, AR, "the ephemerides are external")
        out["simulation"] = {}
    # filters
    f = g("FILTERS")
    need_keys(f, ["observing_filters"])
    fl = [x.strip() for x in f["observing_filters"].split(",")]
    known = ["g", "r", "i", "z", "Y"] if des else ["u", "g", "r", "i", "z", "y"]
    for x in fl:
        want(x in known, f"filter {x} unknown to {survey}")
    out["filters"] = {"observing_filters": fl}
    # saturation
    b = g("SATURATION")
    if "bright_limit" in b:
        lim = [num(x.strip(), "f") for x in b["bright_limit"].split(",")]
        want(REFUSE not in lim, "bright limits are not numbers")
        want(len(lim) in (1, len(fl)), f"{len(lim)} bright limits for {len(fl)} filters")
        out["saturation"] = {"bright_limit": lim * len(fl) if len(lim) == 1 else lim, "bright_limit_on": True}
    else:
        out["saturation"] = {"bright_limit": None, "bright_limit_on": None}
    # phase curves
    p = g("PHASECURVES")
    need_keys(p, ["phase_function"])
    out["phasecurves"] = {"phase_function": choice(p, "phase_function", ["HG", "HG1G2", "HG12", "linear", "none"])}
    # field of view
    v = g("FOV")
    need_keys(v, ["camera_model"])
    cam = choice(v, "camera_model", ["circle", "footprint", "visits_footprint", "none"])
    o = {"camera_model": cam}
    if cam == "footprint":
        no_keys(v, ["visits_query", "fill_factor", "circle_radius"], "the camera model is footprint")
        if "footprint_path" in v:
            want(os.path.isfile(v["footprint_path"]), "footprint file missing")
        o["footprint_edge_threshold"] = val(v, "footprint_edge_threshold", "f")
        o["footprint_path"] = v.get("footprint_path")
    elif cam == "visits_footprint":
        want(des, "visits_footprint is for DES")
        need_keys(v, ["visits_query"])
        no_keys(v, ["footprint_edge_threshold", "fill_factor", "circle_radius"], "the camera model is visits_footprint")
        o["visits_query"] = v["visits_query"]
    elif cam == "circle":
        want("fill_factor" in v or "circle_radius" in v, "a circle needs a radius or a fill factor")
        no_keys(v, ["footprint_edge_threshold"], "the camera model is circle")
        o["fill_factor"] = rng(v, "fill_factor", "f", 0, 1)
        o["circle_radius"] = rng(v, "circle_radius", "f", 0)
    out["fov"] = o
    # fading
    a = g("FADINGFUNCTION")
    if des:
        need_keys(a, ["fading_function_on"])
        on = val(a, "fading_function_on", "b")
        no_keys(a, ["fading_function_width", "fading_function_peak_efficiency"], "the survey is DES")
        out["fadingfunction"] = {"fading_function_on": on}
        if on:
            out["fadingfunction"]["des_transient_efficency"] = val(a, "des_transient_efficency", "f") if "des_transient_efficency" in a else 1
    else:
        n = [k in a for k in ("fading_function_width", "fading_function_peak_efficiency")]
        want(n[0] == n[1], "half of the fading function")
        out["fadingfunction"] = {"fading_function_on": n[0], "fading_function_width": rng(a, "fading_function_width", "f", hi=0.5, above=0),
                                 "fading_function_peak_efficiency": rng(a, "fading_function_peak_efficiency", "f", 0, 1)}
    # linking
    k = g("LINKINGFILTER")
    have = [x for x in SSP if x in k]
    o = {"drop_unlinked": val(k, "drop_unlinked", "b") if "drop_unlinked" in k else True, "ssp_linking_on": bool(have)}
    if have:
        want(len(have) == len(SSP), f"only {have} of the linking keys")
        want(not des, "linking keys with DES")
        vals = {x: val(k, x, t) for x, t in SSP.items()}
        want(0 <= vals["ssp_detection_efficiency"] <= 1, "ssp_detection_efficiency")
        want(vals["ssp_number_observations"] >= 1, "ssp_number_observations")
        want(vals["ssp_separation_threshold"] > 0 or (vals["ssp_separation_threshold"] == 0 and vals["ssp_number_observations"] == 1), "ssp_separation_threshold")
        want(vals["ssp_maximum_time"] >= 0, "ssp_maximum_time")
        want(vals["ssp_number_tracklets"] >= 1, "ssp_number_tracklets")
        want(vals["ssp_track_window"] >= 1, "ssp_track_window")
        want(0 <= vals["ssp_night_start_utc"] <= 24, "ssp_night_start_utc")
        o.update(vals)
    if des and "des_discovery_on" in k:
        o["des_discovery_on"] = val(k, "des_discovery_on", "b")
    for nm in ("distance", "motion"):
        hi, lo = f"{nm}_cut_upper", f"{nm}_cut_lower"
        want((hi in k) == (lo in k), f"half of the {nm} cut")
        if hi in k:
            want(des, f"{nm} cut outside DES")
        o[f"{nm}_cut_on"] = True if hi in k else None
        o[hi], o[lo] = val(k, hi, "f"), val(k, lo, "f")
    out["linkingfilter"] = o
    # output
    u = g("OUTPUT")
    need_keys(u, ["output_format", "output_columns"])
    choice(u, "output_format", ["csv", "sqlite3", "hdf5"])
    cols = u["output_columns"]
    if "," in cols:
        cols = [x.strip(" ") for x in cols.split(",")]
    else:
        choice(u, "output_columns", ["basic", "all"])
    out["output"] = {"output_format": u["output_format"], "output_columns": cols, "position_decimals": rng(u, "position_decimals", "i", 0), "magnitude_decimals": rng(u, "magnitude_decimals", "i", 0)}
    # models
    for sec, key, r in (("LIGHTCURVE", "lc_model", reg[0]), ("ACTIVITY", "comet_activity", reg[1])):
        m = g(sec).get(key)
        want(m in (None, "none") or m in r, f"{key} = {m}")
        out[sec.lower()] = {key: None if m == "none" else m}
    # expert
    e = g("EXPERT")
    want(not ("snr_limit" in e and "mag_limit" in e), "both limits")
    o = {}
    for x in ("snr_limit", "mag_limit"):
        o[x] = rng(e, x, "f", 0)
        o[x + "_on"] = x in e
    for x, dflt in (("default_snr_cut", True), ("brute_force", True), ("randomization_on", not des), ("vignetting_on", not des), ("trailing_losses_on", not des)):
        o[x] = val(e, x, "b") if x in e else dflt
    if des:
        want(not (o["randomization_on"] or o["vignetting_on"] or o["trailing_losses_on"]), "unsupported for DES")
    out["expert"] = o
    # auxiliary files
    x = g("AUXILIARY")
    o = {}
    for a in AUX:
        n, url = x.get(a, DEF[a]), x.get(a + "_url", DEF[a + "_url"])
        want(not (n == DEF[a] and url != DEF[a + "_url"]), f"address of {a} without a name")
        o[a] = n
        o[a + "_url"] = None if (n != DEF[a] and url == DEF[a + "_url"]) else url
    out["auxiliary"] = o
    return out


DEF = {}


# ------------------------------------------------------------- generation
def fval(rnd, *b):
    """a number near the given bounds, or not a number"""
    r = rnd.random()
    if r < 0.06:
        return rnd.choice(["abc", "", "1,5", "true", "0x10", "None", "--1"])
    if r < 0.6 and b:
        return repr(near(rnd, rnd.choice(b)))
    if r < 0.75 and b:
        return rnd.choice(["0", "1", "-0.0", "0.0", "1e0", "+1", "1e-300", "24", "-1", "inf"])
    return repr(round(rnd.uniform(-0.2, 1.5) * (max(b) if b and max(b) else 1), 3))


def ival(rnd, *b):
    r = rnd.random()
    if r < 0.06:
        return rnd.choice(["abc", "", "1.0", "1.5", "1e3", "True", "None"])
    return str((rnd.choice(b) if b else 5) + rnd.choice([0, 0, 1, -1, 7, 100]))


def bval(rnd):
    return rnd.choice(T + F + (["TRUE", "FALSE", "on", "off", "2", "", "None", "t"] if rnd.random() < 0.25 else []))


def gen(rnd, k):
    chaos = rnd.choice([0, 0, 0.05, 0.3])  # how often a setting strays from a sensible one
    odd = lambda: rnd.random() < chaos
    survey = rnd.choice(LSST + DES + ["DES", "des"])
    des = survey in DES
    eph = "external" if rnd.random() < 0.5 else "ar"
    fsets = ["g", "r", "i", "z", "Y"] if des else ["u", "g", "r", "i", "z", "y"]
    fl = rnd.sample(fsets, rnd.randint(1, len(fsets)))
    if odd():
        fl[rnd.randrange(len(fl))] = rnd.choice(["Y", "y", "u", "x", "", "G", "gr", "ug"])
    c = {}
    c["INPUT"] = {"ephemerides_type": eph if not odd() else rnd.choice(["AR", "", "arx", "a"]), "eph_format": rnd.choice(["csv", "whitespace", "hdf5"]) if not odd() else rnd.choice(["comma", "CSV", "cs", "sqlite3"]),
                  "aux_format": rnd.choice(["comma", "whitespace", "csv"]) if not odd() else rnd.choice(["hdf5", "com", ""]), "size_serial_chunk": rnd.choice(["1", "10", "5000"]) if not odd() else ival(rnd, 1, 0),
                  "pointing_sql_query": "SELECT 1"}
    if (eph == "ar") != odd():
        c["SIMULATION"] = {"ar_ang_fov": "2.06" if not odd() else fval(rnd, 0), "ar_fov_buffer": "0.2" if not odd() else fval(rnd, 0), "ar_picket": "1" if not odd() else ival(rnd, 1),
                           "ar_obs_code": "X05", "ar_healpix_order": "6" if not odd() else ival(rnd, 6)}
        if rnd.random() < 0.3:
            c["SIMULATION"]["ar_n_sub_intervals"] = ival(rnd, 101)
        if eph != "ar":
            for x in rnd.sample(list(AR), rnd.randint(0, 5)):
                c["SIMULATION"].pop(x, None)
    c["FILTERS"] = {"observing_filters": rnd.choice([",", ", ", " , "]).join(fl)}
    if rnd.random() < 0.5:
        n = rnd.choice([1, len(fl)]) if not odd() else rnd.randint(1, 7)
        c["SATURATION"] = {"bright_limit": rnd.choice([",", ", "]).join((repr(round(rnd.uniform(14, 18), 2)) if not odd() else fval(rnd, 0).replace(",", ".")) for _ in range(n))}
    c["PHASECURVES"] = {"phase_function": rnd.choice(["HG", "HG1G2", "HG12", "linear", "none"]) if not odd() else rnd.choice(["hg", "", "H", "HG1"])}
    cam = rnd.choice(["circle", "circle", "footprint", "none", "visits_footprint" if des else "footprint"]) if not odd() else rnd.choice(["visits_footprint", "Circle", "", "foot"])
    v = {"camera_model": cam}
    if cam == "circle":
        for x, b in (("fill_factor", (0, 1)), ("circle_radius", (0,))):
            if rnd.random() < 0.7:
                v[x] = fval(rnd, *b) if odd() or rnd.random() < 0.2 else rnd.choice(["0", "1", "0.5", "1.0", "0.0"])
        if len(v) == 1 and not odd():
            v["circle_radius"] = rnd.choice(["1.75", "0"])
    elif cam == "visits_footprint" and not odd():
        v["visits_query"] = "SELECT 2"
    elif cam == "footprint":
        if rnd.random() < 0.4:
            v["footprint_path"] = "there.csv" if not odd() else "nowhere.csv"
        if rnd.random() < 0.4:
            v["footprint_edge_threshold"] = rnd.choice(["2.0", "0", "10"]) if not odd() else fval(rnd, 0)
    if cam != "none" and odd():
        v[rnd.choice(["fill_factor", "circle_radius", "footprint_edge_threshold", "visits_query"])] = rnd.choice(["0", "0.0", "1", "x"])
    c["FOV"] = v
    if des:
        c["FADINGFUNCTION"] = {"fading_function_on": bval(rnd) if odd() else rnd.choice(T + F)}
        if rnd.random() < 0.4:
            c["FADINGFUNCTION"]["des_transient_efficency"] = rnd.choice(["0.8", "1", "0"]) if not odd() else fval(rnd, 0, 1)
        if odd():
            c["FADINGFUNCTION"][rnd.choice(["fading_function_width", "fading_function_peak_efficiency"])] = rnd.choice(["0.1", "0"])
        if odd():
            c["FADINGFUNCTION"].pop("fading_function_on")
    elif rnd.random() < 0.6:
        c["FADINGFUNCTION"] = {"fading_function_width": fval(rnd, 0, 0.5) if odd() or rnd.random() < 0.1 else rnd.choice(["0.1", "0.5"]), "fading_function_peak_efficiency": fval(rnd, 0, 1) if odd() or rnd.random() < 0.1 else rnd.choice(["1", "0", "0.9"])}
        if odd():
            c["FADINGFUNCTION"].pop(rnd.choice(list(c["FADINGFUNCTION"])))
    lk = {}
    if rnd.random() < (0.7 if not des else chaos):
        lk = {"ssp_detection_efficiency": rnd.choice(["0.95", "0", "1"]), "ssp_number_observations": rnd.choice(["2", "1", "3"]), "ssp_separation_threshold": rnd.choice(["0.5", "1"]), "ssp_maximum_time": rnd.choice(["0.0625", "0"]),
              "ssp_number_tracklets": rnd.choice(["3", "1"]), "ssp_track_window": rnd.choice(["15", "1"]), "ssp_night_start_utc": rnd.choice(["16", "0", "24"])}
        if rnd.random() < 0.15:
            lk["ssp_number_observations"], lk["ssp_separation_threshold"] = rnd.choice([("1", "0"), ("2", "0"), ("1", "-0.1")])
        B = {"ssp_detection_efficiency": (0, 1), "ssp_separation_threshold": (0,), "ssp_maximum_time": (0,), "ssp_night_start_utc": (0, 24)}
        for x, t in SSP.items():
            if rnd.random() < chaos / 2 or rnd.random() < 0.02:
                lk[x] = fval(rnd, *B[x]) if t == "f" else ival(rnd, 1, 0)
        if odd():
            for x in rnd.sample(list(SSP), rnd.choice([1, 1, 6])):
                lk.pop(x)
    if rnd.random() < 0.4:
        lk["drop_unlinked"] = bval(rnd) if odd() else rnd.choice(T + F)
    if des and rnd.random() < 0.5:
        lk["des_discovery_on"] = (bval(rnd) if odd() else rnd.choice(T + F)) or "true"
    for nm in ("distance", "motion"):
        if rnd.random() < (0.4 if des else chaos / 2):
            lk[nm + "_cut_upper"], lk[nm + "_cut_lower"] = (fval(rnd, 0) if odd() else rnd.choice(["10", "5.5", "0"])), (fval(rnd, 0) if odd() else rnd.choice(["0", "1.5"]))
            if odd():
                lk.pop(nm + rnd.choice(["_cut_upper", "_cut_lower"]))
    if lk or rnd.random() < 0.5:
        c["LINKINGFILTER"] = lk
    c["OUTPUT"] = {"output_format": rnd.choice(["csv", "sqlite3", "hdf5"]) if not odd() else rnd.choice(["h5", "sqlite", "CSV"]),
                   "output_columns": rnd.choice(["basic", "all", "ObjID,fieldMJD_TAI", "ObjID , RA_deg,Dec_deg", "ObjID, x,"]) if not odd() else rnd.choice(["Basic", "ObjID", "ba", "", "ObjID RA_deg"])}
    for x in ("position_decimals", "magnitude_decimals"):
        if rnd.random() < 0.5:
            c["OUTPUT"][x] = ival(rnd, 0, 3) if odd() else rnd.choice(["0", "3", "7"])
    for sec, key in (("LIGHTCURVE", "lc_model"), ("ACTIVITY", "comet_activity")):
        if rnd.random() < 0.5:
            c[sec] = {key: rnd.choice(["none", "identity"]) if not odd() else rnd.choice(["None", "", "sin", "Identity"])} if rnd.random() < 0.8 else {}
    e = {}
    for x in ("snr_limit", "mag_limit"):
        if rnd.random() < 0.25:
            e[x] = fval(rnd, 0) if odd() else rnd.choice(["0", "2.0", "24.5"])
            if not odd():
                break
    for x in ("default_snr_cut", "brute_force", "randomization_on", "vignetting_on", "trailing_losses_on"):
        if rnd.random() < 0.3:
            e[x] = bval(rnd) if odd() else rnd.choice(F if des and x.endswith("_on") and rnd.random() < 0.8 else T + F)
    if e or rnd.random() < 0.5:
        c["EXPERT"] = e
    if rnd.random() < 0.3:
        a = rnd.choice(AUX)
        r = rnd.random()
        x = {}
        if r < 0.7:
            x[a] = rnd.choice(["mine.bin", "@" + a])
        if r > 0.4 and (chaos or a in x and x[a][0] != "@"):
            x[a + "_url"] = rnd.choice(["https://x.y/z", "@" + a + "_url"])
        c["AUXILIARY"] = x
    if odd():
        c.pop(rnd.choice(list(c)))
    if odd():
        s = rnd.choice(list(c))
        if c[s]:
            c[s].pop(rnd.choice(list(c[s])))
    return {"survey": survey, "config": c, "direct": rnd.random() < 0.3}


CLS = {"INPUT": "inputConfigs", "SIMULATION": "simulationConfigs", "FILTERS": "filtersConfigs", "SATURATION": "saturationConfigs", "PHASECURVES": "phasecurvesConfigs", "FOV": "fovConfigs",
       "FADINGFUNCTION": "fadingfunctionConfigs", "LINKINGFILTER": "linkingfilterConfigs", "OUTPUT": "outputConfigs", "LIGHTCURVE": "lightcurveConfigs", "ACTIVITY": "activityConfigs",
       "EXPERT": "expertConfigs", "AUXILIARY": "auxiliaryConfigs"}


def typed(sec, k, v):
    """the value as a Python program would give it"""
    if k in ("observing_filters",):
        return [x.strip() for x in v.split(",")]
    for kind in (int, float):
        try:
            if kind is int and k in ("size_serial_chunk", "ar_picket", "ar_healpix_order", "ar_n_sub_intervals", "ssp_number_observations", "ssp_number_tracklets", "ssp_track_window", "position_decimals", "magnitude_decimals"):
                return int(v)
            if kind is float and k not in ("bright_limit",) and any(w in k for w in ("limit", "cut_upper", "cut_lower", "fov", "radius", "factor", "width", "efficiency", "threshold", "time", "utc")) and k != "ssp_detection_efficienc":
                return float(v)
        except ValueError:
            return v
    if k == "bright_limit" and "," not in v:
        try:
            return float(v)
        except ValueError:
            return v
    if k.endswith("_on") or k in ("brute_force", "default_snr_cut", "drop_unlinked"):
        return True if v == "True" else False if v == "False" else v
    return v


def build_direct(survey, cfg):
    o = type("Configs", (), {})()
    for sec, cls in CLS.items():
        kw = {k: typed(sec, k, v) for k, v in cfg.get(sec, {}).items()}
        if sec in ("FILTERS", "FOV", "EXPERT", "FADINGFUNCTION", "LINKINGFILTER"):
            kw["survey_name"] = survey
        if sec == "SIMULATION":
            kw["_ephemerides_type"] = o.input.ephemerides_type
        if sec == "SATURATION":
            kw["_observing_filters"] = o.filters.observing_filters
        setattr(o, sec.lower(), fn(f"{M}:{cls}")(**kw))
    return o


def run(c):
    if "config" not in c:
        raise Skip()
    from sorcha.lightcurves.lightcurve_registration import LC_METHODS
    from sorcha.activity.activity_registration import CA_METHODS

    A = fn(M + ":auxiliaryConfigs")
    for a in AUX:
        DEF[a], DEF[a + "_url"] = getattr(A, a), getattr(A, a + "_url")
    cfg = {s: {k: (DEF[v[1:]] if v.startswith("@") else v) for k, v in d.items()} for s, d in c["config"].items()}
    with scratch() as d:
        open("there.csv", "w").write("x\n")
        try:
            exp, why = spec(c["survey"], cfg, (LC_METHODS, CA_METHODS)), ""
        except No as e:
            exp, why = None, str(e)
        if c["direct"]:
            out = call(build_direct, c["survey"], cfg)
        else:
            with open("c.ini", "w") as f:
                for s, kv in cfg.items():
                    f.write(f"[{s}]\n" + "".join(f"{k} = {v}\n" for k, v in kv.items()) + "\n")
            out = call(fn(M + ":sorchaConfigs"), "c.ini", c["survey"])
        if exp is None:
            must_exit(out, why)
            return
        o = must_return(out)
        for sec, attrs in exp.items():
            got = getattr(o, sec)
            for k, v in attrs.items():
                w = getattr(got, k)
                if k == "fading_function_on" or k.endswith("_cut_on") or k == "bright_limit_on":
                    ok = bool(w) == bool(v) and type(w) in (bool, type(None))
                else:
                    ok = w == v and (type(w) is type(v) or isinstance(v, (int, float)) and not isinstance(v, bool) and not isinstance(w, bool) and isinstance(w, (int, float)))
                need(ok, f"{sec}.{k} = {w!r}, specified {v!r}")
        need(o.expert.brute_force in (True, False), "brute_force")


def base(survey):
    """a consistent configuration of this survey"""
    des = survey in DES
    return {"INPUT": {"ephemerides_type": "external", "eph_format": "csv", "aux_format": "csv", "size_serial_chunk": "10", "pointing_sql_query": "SELECT 1"}, "FILTERS": {"observing_filters": "g,r"},
            "PHASECURVES": {"phase_function": "HG"}, "FOV": {"camera_model": "none"}, "FADINGFUNCTION": {"fading_function_on": "False"} if des else {}, "LINKINGFILTER": {}, "OUTPUT": {"output_format": "csv", "output_columns": "basic"}}


KEYS = {"INPUT": ["ephemerides_type", "eph_format", "aux_format", "size_serial_chunk", "pointing_sql_query"], "SIMULATION": list(AR) + ["ar_n_sub_intervals"], "PHASECURVES": ["phase_function"],
        "FOV": ["camera_model", "footprint_path", "visits_query", "fill_factor", "circle_radius", "footprint_edge_threshold"],
        "FADINGFUNCTION": ["fading_function_on", "fading_function_width", "fading_function_peak_efficiency", "des_transient_efficency"],
        "LINKINGFILTER": list(SSP) + ["drop_unlinked", "des_discovery_on", "distance_cut_upper", "distance_cut_lower", "motion_cut_upper", "motion_cut_lower"],
        "OUTPUT": ["output_format", "position_decimals", "magnitude_decimals"], "EXPERT": ["snr_limit", "mag_limit", "default_snr_cut", "brute_force", "randomization_on", "vignetting_on", "trailing_losses_on"]}
SECTION = {"input": "INPUT", "simulation": "SIMULATION", "phasecurves": "PHASECURVES", "fov": "FOV", "fading": "FADINGFUNCTION", "linking": "LINKINGFILTER", "output": "OUTPUT", "expert": "EXPERT"}


def modelled(sec):
    """the settings of one section found by the verifier, within a consistent configuration"""

    def f(c):
        if "config" in c:
            return c
        survey = c.get("survey_name") or "rubin_sim"
        if survey not in LSST + DES:
            return {}
        cfg = base(survey)
        got = {k: str(c[k]) for k in KEYS[sec] if c.get(k) is not None}
        if any("\n" in v or v != v.strip() or not v.isascii() for v in got.values()):
            return {}
        if sec == "SIMULATION":
            cfg["INPUT"]["ephemerides_type"] = c.get("_ephemerides_type", "ar")
        if sec == "OUTPUT" and "output_columns" in cfg[sec]:
            got["output_columns"] = "basic"
        cfg[sec] = got
        return {"survey": survey, "config": cfg, "direct": True}

    return f


def gen_partial(rnd, k):
    """keys which only make sense together, with some left out, at values that may be zero or empty"""
    survey = rnd.choice(LSST + DES) if rnd.random() < 0.4 else "rubin_sim"
    cfg = base(survey)
    sec, group = rnd.choice([("LINKINGFILTER", list(SSP))] * 4 + [("SIMULATION", list(AR)), ("FADINGFUNCTION", KEYS["FADINGFUNCTION"]), ("FOV", KEYS["FOV"][1:]), ("LINKINGFILTER", KEYS["LINKINGFILTER"][-4:]),
                                                              ("INPUT", KEYS["INPUT"]), ("OUTPUT", ["output_format", "output_columns", "position_decimals"]), ("EXPERT", ["snr_limit", "mag_limit"])])
    good = {**{x: "1" for x in group}, "ssp_number_observations": "2", "ar_obs_code": "X05", "ephemerides_type": "external", "eph_format": "csv", "aux_format": "csv", "pointing_sql_query": "SELECT 1", "output_format": "csv", "output_columns": "all", "footprint_path": "there.csv"}
    mode = rnd.choice(["zero", "zero", "empty", "plain", "plain"])
    some = rnd.sample(group, rnd.randint(0, len(group)))
    cfg[sec] = {x: ("0" if x not in ("eph_format",) else "csv") if mode == "zero" else "" if mode == "empty" and rnd.random() < 0.5 else good[x] for x in some}
    if sec == "FOV":
        cfg[sec]["camera_model"] = rnd.choice(["circle", "footprint", "visits_footprint"])
    if sec == "SIMULATION":
        cfg["INPUT"]["ephemerides_type"] = rnd.choice(["ar", "external"])
    return {"survey": survey, "config": cfg, "direct": rnd.random() < 0.6}


TARGETS = {"file": Target(gen, run), "partial": Target(gen_partial, run, weight=0.4)}
for _t in ("input", "simulation", "filters", "saturation", "phasecurves", "fov", "fading", "linking", "output", "models", "expert", "aux"):
    TARGETS[_t] = Target(gen, run, modelled(SECTION[_t]) if _t in SECTION else None, weight=0.02)
