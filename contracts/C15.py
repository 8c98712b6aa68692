"""C15 Configuration validation accepts exactly the consistent configurations.

Values are the strings of a configuration file (any string), or absent; where a
validator also serves configurations built in Python, typed values as well.
int()/float() of a string are specified by 'is a number' predicates and its
value.  The specification of each section is written here on its own."""
from pyvc.contract import contract
from pyvc import lib as L
from contracts.common import *

C = "sorcha.utilities.sorchaConfigs:"
LSST = ["rubin_sim", "RUBIN_SIM", "LSST", "lsst"]
DES = ["DES", "des"]
TRUE, FALSE = ["true", "1", "yes", "y", "True"], ["false", "0", "no", "n", "False"]


def one_of(s, xs):
    if isinstance(s, bool):
        return z3.BoolVal(str(s) in xs)
    return z3.Or([s.t == z3.StringVal(x) for x in xs])


def _of(uf, number):
    """the predicate or value of a setting given as text, or as a number"""
    return lambda t: uf(t) if t.sort() == z3.StringSort() else number(t)


isf, isi = _of(L.STR_IS_FLOAT, lambda t: z3.BoolVal(True)), _of(L.STR_IS_INT, lambda t: z3.BoolVal(True))
tof = _of(L.STR_TO_FLOAT, lambda t: z3.ToReal(t) if t.sort() == z3.IntSort() else t)
toi = _of(L.STR_TO_INT, lambda t: t)

INTS = ["size_serial_chunk", "ar_picket", "ar_healpix_order", "ar_n_sub_intervals", "ssp_number_observations", "ssp_number_tracklets", "ssp_track_window", "position_decimals", "magnitude_decimals"]
REALS = ["ar_ang_fov", "ar_fov_buffer", "fill_factor", "circle_radius", "footprint_edge_threshold", "fading_function_width", "fading_function_peak_efficiency", "des_transient_efficency", "ssp_detection_efficiency",
         "ssp_separation_threshold", "ssp_maximum_time", "ssp_night_start_utc", "distance_cut_upper", "distance_cut_lower", "motion_cut_upper", "motion_cut_lower", "snr_limit", "mag_limit"]
BOOLS = ["fading_function_on", "drop_unlinked", "trailing_losses_on", "randomization_on", "vignetting_on", "default_snr_cut", "brute_force"]


def value(V, name):
    """any value of a key: the text of a configuration file or, in a
    configuration built in Python, a number or truth value"""
    if getattr(V, "typed", False):
        if name in INTS:
            return V.int(name)
        if name in REALS:
            return V.real(name)
        if name in BOOLS:
            return V.pick(name, [True, False])
    return V.str(name)


def opt(V, name):
    """a key that may be absent"""
    return value(V, name) if V.pick("has_" + name, [True, False]) else None


def lazy(V, present, name):
    return value(V, name) if present else None


def typed(body, target):
    """the same section, given as Python values"""
    cls = TYPED[body.__name__]

    def run(V):
        V.typed = True
        body(V)

    run.__doc__ = (body.__doc__ or "").strip() + " (Python values)"
    contract("C15", C + cls, name=f"{cls}.{body.__name__}.typed", target=target)(run)


def construct(V, ok, kw):
    """call the dataclass; -> the object, when accepted"""
    out = V.call(**kw)
    ok = z3.And([x if z3.is_expr(x) else z3.BoolVal(bool(x)) for x in ok]) if isinstance(ok, list) else ok
    if out.exc is not None:
        V.ensure("refused with an error message", out.exc == "SystemExit")
        V.ensure("only inconsistent settings are refused", z3.Not(ok))
        return None
    V.ensure("inconsistent settings are refused", ok)
    return out.value


def is_float(V, o, attr, s):
    v = o.attrs[attr]
    V.ensure(f"{attr} converted to its value", v.t == tof(s.t) if isinstance(v, SV) and v.sort == "real" else False)


def is_int(V, o, attr, s):
    v = o.attrs[attr]
    V.ensure(f"{attr} converted to its value", v.t == toi(s.t) if isinstance(v, SV) and v.sort == "int" else False)


def is_same(V, o, attr, v):
    w = o.attrs[attr]
    V.ensure(f"{attr} kept", w is v or (isinstance(v, str) and w == v) or (isinstance(v, SV) and isinstance(w, SV) and w.sort == v.sort and z3.eq(w.t, v.t)))


def is_bool(V, o, attr, s, default):
    w = o.attrs[attr]
    if s is None:
        V.ensure(f"{attr} at its default", w is default)
    elif s is True or s is False:
        V.ensure(f"{attr} as given", w is s)
    else:
        V.ensure(f"{attr} as written", w is True or w is False)
        V.ensure(f"{attr} as written.", one_of(s, TRUE if w is True else FALSE))


def isbool(s):
    return z3.BoolVal(True) if isinstance(s, bool) else one_of(s, TRUE + FALSE)


# ------------------------------------------------------------------ sections
@contract("C15", C + "inputConfigs", name="inputConfigs", target="input")
def inputs(V):
    names = ["ephemerides_type", "eph_format", "size_serial_chunk", "aux_format", "pointing_sql_query"]
    v = {n: opt(V, n) for n in names}
    ok = z3.BoolVal(False)
    if all(x is not None for x in v.values()):
        ok = z3.And(one_of(v["ephemerides_type"], ["ar", "external"]), one_of(v["eph_format"], ["csv", "whitespace", "hdf5"]), one_of(v["aux_format"], ["comma", "whitespace", "csv"]),
                    isi(v["size_serial_chunk"].t), toi(v["size_serial_chunk"].t) >= 1)
    o = construct(V, ok, {k: x for k, x in v.items() if x is not None})
    if o is not None:
        is_int(V, o, "size_serial_chunk", v["size_serial_chunk"])
        for n in names:
            if n != "size_serial_chunk":
                is_same(V, o, n, v[n])


@contract("C15", C + "simulationConfigs", name="simulationConfigs", target="simulation")
def simulation(V):
    eph = V.pick("_ephemerides_type", ["ar", "external", "other"])
    names = {"ar_ang_fov": "f", "ar_fov_buffer": "f", "ar_picket": "i", "ar_obs_code": "s", "ar_healpix_order": "i"}
    if eph == "ar":
        gone = V.pick("absent", [None] + list(names))
        v = {n: lazy(V, n != gone, n) for n in names}
    else:
        here = V.pick("present", [None] + list(names))
        v = {n: lazy(V, n == here, n) for n in names}
    v["ar_n_sub_intervals"] = opt(V, "ar_n_sub_intervals") if eph == "ar" else None
    if eph == "ar":
        ok = [all(v[n] is not None for n in names)]
        for n, k in list(names.items()) + [("ar_n_sub_intervals", "i")]:
            if v[n] is not None and k in "fi":
                ok.append((isf if k == "f" else isi)(v[n].t))
    else:
        ok = [eph == "external" and all(v[n] is None for n in names)]
    o = construct(V, ok, {**{k: x for k, x in v.items() if x is not None}, "_ephemerides_type": eph})
    if o is None or eph != "ar":
        return
    for n, k in list(names.items()):
        {"f": is_float, "i": is_int, "s": is_same}[k](V, o, n, v[n])
    if v["ar_n_sub_intervals"] is None:
        V.ensure("101 sub-intervals by default", o.attrs["ar_n_sub_intervals"] == 101)
    else:
        is_int(V, o, "ar_n_sub_intervals", v["ar_n_sub_intervals"])


class Csv:
    """a string that is a comma-separated list"""

    sym_type = "str"

    def __init__(self, toks):
        self.toks = toks

    def sym_getattr(self, I, name):
        if name == "split":
            def f(I, a, k):
                if a != [","] and a != (",",):
                    raise Unsupported("split")
                return [Tok(t) for t in self.toks]
            return Prim(f, name)
        raise Unsupported("string ." + name)

    def sym_contains(self, I, x):
        if x != ",":
            raise Unsupported("substring")
        return len(self.toks) > 1

    def sym_compare(self, I, op, a, b):
        raise Unsupported("comparison of a list string")


class Tok:
    """a piece of it, possibly padded with blanks"""

    def __init__(self, t):
        self.t = t

    def sym_getattr(self, I, name):
        if name in ("strip",):
            return Prim(lambda I, a, k: self.t, name)
        raise Unsupported("string ." + name)

    def sym_float(self, I):
        return I.lib.b_float(I, self.t)


@contract("C15", C + "filtersConfigs", name="filtersConfigs", target="filters")
def filters(V):
    survey = V.pick("survey_name", LSST + DES + ["other", None])
    k = V.pick("n_filters", [0, 1, 2, 3])
    toks = [V.str(f"filter{i}") for i in range(k)]
    aslist = V.pick("as_list", [False, True]) if k else False
    V.stub("numpy.setdiff1d", lambda I, a, kk: L.Opaque("set"))
    kw = {"survey_name": survey} if survey else {}
    if k:
        kw["observing_filters"] = list(toks) if aslist else Csv(toks)
    known = ["u", "g", "r", "i", "z", "y"] if survey in LSST else ["g", "r", "i", "z", "Y"] if survey in DES else None
    ok = [k > 0, survey is not None] + ([one_of(t, known) for t in toks] if known else [])
    o = construct(V, ok, kw)
    if o is not None:
        f = o.attrs["observing_filters"]
        V.ensure("the filters, in order", isinstance(f, list) and len(f) == k and all(isinstance(x, SV) and z3.eq(x.t, t.t) for x, t in zip(f, toks)))


@contract("C15", C + "saturationConfigs", name="saturationConfigs", target="saturation")
def saturation(V):
    nf = V.pick("n_filters", [1, 2, 3])
    fl = [f"f{i}" for i in range(nf)]
    how = V.pick("bright_limit", ["absent", "text", "number", "list"])
    k = V.pick("n_limits", [1, 2, 3]) if how in ("text", "list") else 1
    kw = {"_observing_filters": list(fl)} if V.pick("filters", [True, False]) else {}
    ok = [True]
    lim = []
    if how == "text":
        toks = [V.str(f"limit{i}") for i in range(k)]
        lim = [tof(t.t) for t in toks]
        ok = [isf(t.t) for t in toks]
        kw["bright_limit"] = Csv(toks)
    elif how == "number":
        x = V.real("limit")
        lim = [x.t]
        kw["bright_limit"] = x
    elif how == "list":
        xs = [V.real(f"limit{i}") for i in range(k)]
        lim = [x.t for x in xs]
        kw["bright_limit"] = list(xs)
    if how != "absent":
        ok += [k == 1 or k == nf, "_observing_filters" in kw]
    o = construct(V, ok, kw)
    if o is None:
        return
    if how == "absent":
        V.ensure("off without a limit", not o.attrs["bright_limit_on"] and o.attrs["bright_limit"] is None)
        return
    V.ensure("on with a limit", o.attrs["bright_limit_on"] is True)
    b = o.attrs["bright_limit"]
    good = isinstance(b, list) and len(b) == nf
    V.ensure("one limit per filter", good)
    if good:
        V.ensure("each filter its own limit", z3.And([to_real(b[i]) == (lim[0] if len(lim) == 1 else lim[i]) for i in range(nf)]))


@contract("C15", C + "phasecurvesConfigs", name="phasecurvesConfigs", target="phasecurves")
def phase(V):
    v = opt(V, "phase_function")
    o = construct(V, z3.BoolVal(False) if v is None else one_of(v, ["HG", "HG1G2", "HG12", "linear", "none"]), {} if v is None else {"phase_function": v})
    if o is not None:
        is_same(V, o, "phase_function", v)


EXISTS = z3.Function("path_exists", z3.StringSort(), z3.BoolSort())


@contract("C15", C + "fovConfigs", name="fovConfigs", target="fov")
def fov(V):
    cam = V.pick("camera_model", ["circle", "footprint", "visits_footprint", "none", None, "other"])
    survey = V.pick("survey_name", ["rubin_sim", "LSST", "lsst", "DES", "des", "Lsst", "other"])
    full = cam in ("circle", "footprint", "visits_footprint")
    keys = {"footprint_path": "s", "visits_query": "s", "fill_factor": "f", "circle_radius": "f", "footprint_edge_threshold": "f"}
    if full:
        v = {n: opt(V, n) for n in keys}
    else:
        v = {n: None for n in keys}

    def find(I, vals):
        p = vals["arg_fn"]
        if not I.ctx.branch(EXISTS(p.t)):
            raise PyExc("SystemExit", ("missing",))
        return p

    V.use("sorcha.utilities.fileAccessUtils:FindFileOrExit", find)
    has = lambda n: v[n] is not None
    low = survey.lower()
    if cam == "none":
        ok = [True]
    elif cam == "footprint":
        ok = [EXISTS(v["footprint_path"].t) if has("footprint_path") else low in ("lsst", "rubin_sim", "des"), isf(v["footprint_edge_threshold"].t) if has("footprint_edge_threshold") else True,
              not has("visits_query"), not has("fill_factor"), not has("circle_radius")]
    elif cam == "visits_footprint":
        ok = [low == "des", has("visits_query"), not has("footprint_edge_threshold"), not has("fill_factor"), not has("circle_radius")]
    elif cam == "circle":
        ok = [has("fill_factor") or has("circle_radius"), not has("footprint_edge_threshold")]
        if has("fill_factor"):
            ok.append(z3.And(isf(v["fill_factor"].t), tof(v["fill_factor"].t) >= 0, tof(v["fill_factor"].t) <= 1))
        if has("circle_radius"):
            ok.append(z3.And(isf(v["circle_radius"].t), tof(v["circle_radius"].t) >= 0))
    else:
        ok = [False]
    o = construct(V, ok, {**{k: x for k, x in v.items() if x is not None}, "survey_name": survey, **({"camera_model": cam} if cam else {})})
    if o is None:
        return
    V.ensure("camera model kept", o.attrs["camera_model"] == cam)
    for n, k in keys.items():
        if v[n] is None:
            V.ensure(f"{n} stays absent", o.attrs[n] is None)
        elif k == "f":
            is_float(V, o, n, v[n])
        else:
            is_same(V, o, n, v[n])


@contract("C15", C + "fadingfunctionConfigs", name="fadingfunctionConfigs", target="fading")
def fading(V):
    survey = V.pick("survey_name", LSST + DES + ["other"])
    names = ["fading_function_on", "fading_function_width", "fading_function_peak_efficiency", "des_transient_efficency"]
    v = {n: opt(V, n) for n in names}
    on, w, p, e = (v[n] for n in names)
    if survey in DES:
        ok = [on is not None, w is None, p is None]
        if on is not None:
            ok.append(isbool(on))
            if e is not None:
                ok.append(z3.Implies(one_of(on, TRUE), isf(e.t)))
    else:
        ok = [(w is None) == (p is None)]
        if w is not None and p is not None:
            ok += [isf(w.t), isf(p.t), tof(w.t) > 0, tof(w.t) <= q(0.5), tof(p.t) >= 0, tof(p.t) <= 1]
    o = construct(V, ok, {**{k: x for k, x in v.items() if x is not None}, "survey_name": survey})
    if o is None:
        return
    if survey in DES:
        is_bool(V, o, "fading_function_on", on, None)
        if o.attrs["fading_function_on"] is True:
            if e is None:
                V.ensure("full efficiency by default", o.attrs["des_transient_efficency"] == 1)
            else:
                is_float(V, o, "des_transient_efficency", e)
    else:
        V.ensure("on exactly with both parameters", o.attrs["fading_function_on"] is (w is not None))
        if w is not None:
            is_float(V, o, "fading_function_width", w)
            is_float(V, o, "fading_function_peak_efficiency", p)


SSP = {"ssp_detection_efficiency": "f", "ssp_number_observations": "i", "ssp_separation_threshold": "f", "ssp_maximum_time": "f", "ssp_number_tracklets": "i", "ssp_track_window": "i", "ssp_night_start_utc": "f"}


def ssp_ok(v):
    T = {n: (tof if k == "f" else toi)(v[n].t) for n, k in SSP.items()}
    return [(isf if k == "f" else isi)(v[n].t) for n, k in SSP.items()] + [
        T["ssp_detection_efficiency"] >= 0, T["ssp_detection_efficiency"] <= 1, T["ssp_number_observations"] >= 1, T["ssp_separation_threshold"] >= 0,
        z3.Or(T["ssp_separation_threshold"] > 0, T["ssp_number_observations"] == 1), T["ssp_maximum_time"] >= 0, T["ssp_number_tracklets"] >= 1, T["ssp_track_window"] >= 1,
        T["ssp_night_start_utc"] >= 0, T["ssp_night_start_utc"] <= 24]


@contract("C15", C + "linkingfilterConfigs", name="linkingfilterConfigs.ssp", target="linking")
def linking(V):
    """the linking keys"""
    survey = V.pick("survey_name", ["rubin_sim", "LSST", "other", "DES", "des"])
    mode = V.pick("ssp", ["all", "none", "some"])
    gone = set()
    if mode == "some":
        a = V.pick("first", list(SSP))
        gone = {a} if V.pick("how", ["without", "only"]) == "without" else set(SSP) - {a}
    elif mode == "none":
        gone = set(SSP)
    v = {n: lazy(V, n not in gone, n) for n in SSP}
    drop = opt(V, "drop_unlinked")
    des = survey.lower() == "des"
    if mode == "all" and not des:
        ok = ssp_ok(v)
    else:
        ok = [mode == "none"]
    if drop is not None:
        ok.append(isbool(drop))
    o = construct(V, ok, {**{k: x for k, x in v.items() if x is not None}, **({"drop_unlinked": drop} if drop is not None else {}), "survey_name": survey})
    if o is None:
        return
    V.ensure("on exactly with all the linking keys", o.attrs["ssp_linking_on"] is (mode == "all"))
    is_bool(V, o, "drop_unlinked", drop, True)
    if mode == "all":
        for n, k in SSP.items():
            (is_float if k == "f" else is_int)(V, o, n, v[n])
    V.ensure("no distance or motion cuts", not o.attrs["distance_cut_on"] and not o.attrs["motion_cut_on"])


@contract("C15", C + "linkingfilterConfigs", name="linkingfilterConfigs.cuts", target="linking")
def linking_cuts(V):
    """distance, motion and discovery keys"""
    survey = V.pick("survey_name", ["rubin_sim", "LSST", "other", "DES", "des"])
    des = survey.lower() == "des"
    cuts = ["distance_cut_upper", "distance_cut_lower", "motion_cut_upper", "motion_cut_lower"]
    v = {n: opt(V, n) for n in cuts}
    disc = opt(V, "des_discovery_on")
    ok = []
    for a, b in (cuts[:2], cuts[2:]):
        ok.append((v[a] is None) == (v[b] is None))
    if any(x is not None for x in v.values()):
        ok.append(des)
    ok += [isf(x.t) for x in v.values() if x is not None]
    if des and disc is not None:
        V.pre(z3.Length(disc.t) > 0)
        ok.append(isbool(disc))
    o = construct(V, ok, {**{k: x for k, x in v.items() if x is not None}, **({"des_discovery_on": disc} if disc is not None else {}), "survey_name": survey})
    if o is None:
        return
    for nm, a in (("distance", cuts[0]), ("motion", cuts[2])):
        w = o.attrs[nm + "_cut_on"]
        V.ensure(f"{nm} cut on exactly with its limits", (w is True) if v[a] is not None else not w)
    for n in cuts:
        if v[n] is not None:
            is_float(V, o, n, v[n])
    if des:
        if disc is None:
            V.ensure("discovery off by default", not o.attrs["des_discovery_on"])
        else:
            is_bool(V, o, "des_discovery_on", disc, None)
    V.ensure("no linking", o.attrs["ssp_linking_on"] is False)


@contract("C15", C + "outputConfigs", name="outputConfigs", target="output")
def output(V):
    fmt = opt(V, "output_format")
    k = V.pick("columns", [0, 1, 2, 3])
    toks = [V.str(f"column{i}") for i in range(k)]
    for t in toks:
        V.pre(z3.Not(z3.Contains(t.t, z3.StringVal(","))))
    pd, md = opt(V, "position_decimals"), opt(V, "magnitude_decimals")
    ok = [fmt is not None, k > 0]
    if fmt is not None:
        ok.append(one_of(fmt, ["csv", "sqlite3", "hdf5"]))
    if k == 1:
        ok.append(one_of(toks[0], ["basic", "all"]))
    for d in (pd, md):
        if d is not None:
            ok += [isi(d.t), toi(d.t) >= 0]
    kw = {"output_format": fmt, "position_decimals": pd, "magnitude_decimals": md}
    if k:
        kw["output_columns"] = toks[0] if k == 1 else Csv(toks)
    o = construct(V, ok, {n: x for n, x in kw.items() if x is not None})
    if o is None:
        return
    is_same(V, o, "output_format", fmt)
    c = o.attrs["output_columns"]
    if k == 1:
        is_same(V, o, "output_columns", toks[0])
    else:
        V.ensure("the columns, in order", isinstance(c, list) and len(c) == k and all(isinstance(x, SV) and z3.eq(x.t, t.t) for x, t in zip(c, toks)))
    for n, d in (("position_decimals", pd), ("magnitude_decimals", md)):
        if d is None:
            V.ensure(f"{n} absent", o.attrs[n] is None)
        else:
            is_int(V, o, n, d)


def model_section(V, cls_key, registry, field):
    V.patch("sorcha.utilities.sorchaConfigs", registry, {"identity": object, "model": object})
    v = opt(V, field)
    o = construct(V, z3.BoolVal(True) if v is None else one_of(v, ["identity", "model", "none"]), {} if v is None else {field: v})
    if o is None:
        return
    w = o.attrs[field]
    if v is None:
        V.ensure("no model", w is None)
    elif w is None:
        V.ensure("none means no model", v.t == z3.StringVal("none"))
    else:
        V.ensure("the model chosen", isinstance(w, SV) and z3.eq(w.t, v.t))
        V.ensure("none means no model.", v.t != z3.StringVal("none"))


@contract("C15", C + "lightcurveConfigs", name="lightcurveConfigs", target="models")
def lightcurve(V):
    model_section(V, "lightcurveConfigs", "LC_METHODS", "lc_model")


@contract("C15", C + "activityConfigs", name="activityConfigs", target="models")
def activity(V):
    model_section(V, "activityConfigs", "CA_METHODS", "comet_activity")


@contract("C15", C + "expertConfigs", name="expertConfigs.limits", target="expert")
def expert_limits(V):
    survey = V.pick("survey_name", ["rubin_sim", "DES", "other"])
    snr, mag = opt(V, "snr_limit"), opt(V, "mag_limit")
    ok = [not (snr is not None and mag is not None)]
    for x in (snr, mag):
        if x is not None:
            ok += [isf(x.t), tof(x.t) >= 0]
    o = construct(V, ok, {"survey_name": survey, **{n: x for n, x in (("snr_limit", snr), ("mag_limit", mag)) if x is not None}})
    if o is None:
        return
    for n, x in (("snr_limit", snr), ("mag_limit", mag)):
        V.ensure(f"{n} on exactly when given", o.attrs[n + "_on"] is (x is not None))
        if x is not None:
            is_float(V, o, n, x)


@contract("C15", C + "expertConfigs", name="expertConfigs.switches", target="expert")
def expert(V):
    survey = V.pick("survey_name", LSST + DES)
    des = survey in DES
    sw = {"trailing_losses_on": not des, "randomization_on": not des, "vignetting_on": not des}
    other = {"default_snr_cut": True, "brute_force": True}
    few = V.pick("subject", ["survey", "other"])
    v = {n: (opt(V, n) if (n in sw) == (few == "survey") else None) for n in {**sw, **other}}
    cam = V.pick("camera_model", [None, "footprint", "circle"])
    ok = []
    for n, x in v.items():
        if x is not None:
            ok.append(isbool(x))
            if des and n in sw:
                ok.append(z3.Not(one_of(x, TRUE)))
    o = construct(V, ok or [True], {"survey_name": survey, **({"camera_model": cam} if cam else {}), **{n: x for n, x in v.items() if x is not None}})
    if o is None:
        return
    for n, d in {**sw, **other}.items():
        is_bool(V, o, n, v[n], d)
    V.ensure("no limits", o.attrs["snr_limit_on"] is False and o.attrs["mag_limit_on"] is False)


AUX = ["planet_ephemeris", "earth_predict", "earth_historical", "earth_high_precision", "jpl_planets", "jpl_small_bodies", "leap_seconds", "observatory_codes_compressed", "orientation_constants"]


@contract("C15", C + "auxiliaryConfigs", name="auxiliaryConfigs", target="aux")
def auxiliary(V):
    """any one file, or its address, overridden"""
    f = V.pick("file", AUX)
    dflt = {n: V.get(C + "auxiliaryConfigs").lookup(n) for a in AUX for n in (a, a + "_url")}
    name, url = opt(V, "name"), opt(V, "address")
    kw = {n: x for n, x in ((f, name), (f + "_url", url)) if x is not None}
    same_name = z3.BoolVal(True) if name is None else name.t == z3.StringVal(dflt[f])
    same_url = z3.BoolVal(True) if url is None else url.t == z3.StringVal(dflt[f + "_url"])
    V.use(C + "auxiliaryConfigs._create_lists_auxiliary_configs", lambda I, vals: None)  # sets the list fields only (contract below)
    o = construct(V, z3.Not(z3.And(same_name, z3.Not(same_url))), kw)
    if o is None:
        return
    w = o.attrs[f + "_url"]
    if w is None:
        V.ensure("the address is dropped only with another file name", z3.And(z3.Not(same_name), same_url))
    else:
        V.ensure("the default address is not kept for another file", z3.Or(same_name, z3.Not(same_url)))
        V.ensure("the address given is kept", (isinstance(w, SV) and z3.eq(w.t, url.t)) if url is not None else w == dflt[f + "_url"])
    for a in AUX:
        if a != f:
            V.ensure("the other files keep their defaults", o.attrs[a] == dflt[a] and o.attrs[a + "_url"] == dflt[a + "_url"])


@contract("C15", C + "auxiliaryConfigs._create_lists_auxiliary_configs", name="auxiliary lists", target="aux")
def aux_lists(V):
    """the file lists follow the file names; the file names and addresses are left alone"""
    o = Obj(V.get(C + "auxiliaryConfigs"))
    for a in AUX:
        o.attrs[a], o.attrs[a + "_url"] = f"file {a}", f"address {a}"
    o.attrs["meta_kernel"], o.attrs["observatory_codes"] = "file meta_kernel", "file observatory_codes"
    before = dict(o.attrs)
    V.returns(V.call(o))
    V.ensure("names and addresses untouched", all(o.attrs[k] == x for k, x in before.items()))
    V.ensure("an address for each file", o.attrs["urls"] == {f"file {a}": f"address {a}" for a in AUX})
    V.ensure("all the files", sorted(o.attrs["data_file_list"]) == sorted(f"file {a}" for a in AUX + ["meta_kernel", "observatory_codes"]))
    V.ensure("the files to fetch", sorted(o.attrs["data_files_to_download"]) == sorted(f"file {a}" for a in AUX))
    V.ensure("the kernels", sorted(o.attrs["ordered_kernel_files"]) == sorted(f"file {a}" for a in ("leap_seconds", "earth_historical", "earth_predict", "orientation_constants", "planet_ephemeris", "earth_high_precision")))
    V.ensure("the registry", set(o.attrs["registry"]) == set(o.attrs["data_file_list"]))


SECTIONS = {"INPUT": "inputConfigs", "SIMULATION": "simulationConfigs", "FILTERS": "filtersConfigs", "SATURATION": "saturationConfigs", "PHASECURVES": "phasecurvesConfigs", "FOV": "fovConfigs",
            "FADINGFUNCTION": "fadingfunctionConfigs", "LINKINGFILTER": "linkingfilterConfigs", "OUTPUT": "outputConfigs", "LIGHTCURVE": "lightcurveConfigs", "ACTIVITY": "activityConfigs",
            "EXPERT": "expertConfigs", "AUXILIARY": "auxiliaryConfigs"}


class Section:
    """one section of a configuration file: any keys"""

    def __init__(self, name):
        self.name = name

    def sym_iterate(self, I):
        return [f"key of {self.name}"]

    def sym_getitem(self, I, k):
        return f"value of {k}"


class File:
    """a parsed configuration file: any set of sections"""

    def __init__(self, present):
        self.present = present

    def sym_getattr(self, I, name):
        if name == "has_section":
            return Prim(lambda I, a, k: a[0] in self.present, name)
        raise Unsupported("config file ." + name)

    def sym_getitem(self, I, k):
        return {f"key of {k}": f"value of {k}"}


@contract("C15", C + "sorchaConfigs._read_configs_from_object", name="sections", target="file")
def sections(V):
    """each section is validated by its own class, with what it needs from elsewhere"""
    gone = V.pick("without", [None] + list(SECTIONS))
    present = [s for s in SECTIONS if s != gone]
    if V.pick("few", [False, True]):
        present = ["INPUT", gone] if gone else ["INPUT"]
    survey = V.str("survey_name")
    eph, filt, cam = V.str("ephemerides_type"), V.str("observing_filters"), V.str("camera_model")
    seen = {}

    def maker(sec, cls):
        def make(I, a, k):
            seen[sec] = dict(k)
            o = Obj(cls)
            o.attrs.update({"ephemerides_type": eph, "observing_filters": filt, "camera_model": cam, "section": sec})
            return o
        return make

    for sec, cls in SECTIONS.items():
        V.patch("sorcha.utilities.sorchaConfigs", cls, Prim(maker(sec, cls), cls))
    self = Obj("sorchaConfigs")
    self.attrs["survey_name"] = survey
    out = V.call(self, File(present))
    V.returns(out)
    for sec in SECTIONS:
        got = seen.get(sec)
        want = {f"key of {sec}": f"value of {sec}"} if sec in present else {}
        if sec in ("FILTERS", "FOV", "EXPERT", "FADINGFUNCTION", "LINKINGFILTER"):
            want["survey_name"] = survey
        if sec == "SIMULATION":
            want["_ephemerides_type"] = eph
        if sec == "SATURATION":
            want["_observing_filters"] = filt
        if sec == "EXPERT" and sec in present:
            want["camera_model"] = cam
        V.ensure(f"{sec}: its own keys and what it needs from elsewhere", got is not None and set(got) == set(want) and all(got[k] is want[k] or (isinstance(want[k], str) and got[k] == want[k]) for k in want))
        o = self.attrs.get(sec.lower())
        V.ensure(f"{sec}: kept under its name", isinstance(o, Obj) and o.attrs["section"] == sec)


# the sections again, for configurations built in Python
TYPED = {"simulation": "simulationConfigs", "fov": "fovConfigs", "fading": "fadingfunctionConfigs", "linking": "linkingfilterConfigs", "linking_cuts": "linkingfilterConfigs", "output": "outputConfigs",
         "expert_limits": "expertConfigs", "expert": "expertConfigs", "inputs": "inputConfigs"}
for _f, _t in ((simulation, "simulation"), (fov, "fov"), (fading, "fading"), (linking, "linking"), (linking_cuts, "linking"), (output, "output"), (expert_limits, "expert"), (expert, "expert"), (inputs, "input")):
    typed(_f, _t)


@contract("C15", C + "sorchaConfigs", name="configuration file", target="file")
def from_file(V):
    """the sections are those of the very file given, for the survey given"""
    path, survey = V.str("path"), V.str("survey")
    V.pre(z3.Length(path.t) > 0)
    given = V.pick("file", [True, False])
    seen, read = [], []

    class Handle:
        def sym_enter(self, I):
            return self

        def sym_getattr(self, I, name):
            return Prim(lambda I, a, k: "content", name)

    class Parser:
        def __init__(self):
            self.files = []

        def sym_getattr(self, I, name):
            if name == "read":
                return Prim(lambda I, a, k: self.files.append(a[0]), name)
            if name == "read_file":
                raise Unsupported("reading from a handle")
            raise Unsupported("parser ." + name)

    def new(I, a, k):
        if a or k:
            raise Unsupported("options of the parser")
        return Parser()

    V.stub("open", lambda I, a, k: (read.append(a[0]), Handle())[1])
    V.stub("configparser.ConfigParser", new)
    V.use(C + "sorchaConfigs._read_configs_from_object", lambda I, v: seen.append((v["config_object"], v["self"].attrs.get("survey_name"))))
    out = V.call(path, survey) if given else V.call(None, survey)
    if not V.returns(out):
        return
    V.ensure("nothing read without a file", given or not (seen or read))
    if given:
        V.ensure("its sections read once", len(seen) == 1)
        p, s = seen[0]
        V.ensure("from the file given", isinstance(p, Parser) and len(p.files) == 1 and p.files[0] is path)
        V.ensure("for the survey given", s is survey)
