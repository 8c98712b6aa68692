"""C21 Every detection is matched to its own pointing and to no other.

The pointing table is a table keyed by FieldID (one pointing per FieldID); the
left join is used by its documented contract (every left row once, the values
of the right row of its key, missing when there is none)."""
from pyvc.contract import contract
from pyvc import lib as L
from contracts.common import *

M = "sorcha.modules."
RUBIN, DESN = ["rubin_sim", "RUBIN_SIM"], ["DES", "des"]
SKIP = ["fieldJD_TDB", "pixels_begin", "pixels_end"] + [f"{n}_{a}" for n in ("visit_vector", "pixels", "r_obs", "v_obs", "r_sun", "v_sun") for a in "xyz"]
POINT = ["visitTime", "visitExposureTime", "seeingFwhmGeom_arcsec", "seeingFwhmEff_arcsec", "fieldFiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg", "fieldRotSkyPos_deg"]
GONE = ["observationStartMJD_TAI", "observationId_", "observationMidpointMJD_TAI"]


@contract("C21", M + "PPMatchPointingToObservations:PPMatchPointingToObservations", target="match")
def match(V):
    ar = V.pick("generated_ephemerides", [False, True])
    des = V.pick("des_columns", [False, True])
    df = V.frame("observations", {"ObjID": "str", "FieldID": "int", "fieldMJD_TAI": "real", "RA_deg": "real", "H_filter": "real"})
    i_, r_, s_, b_ = z3.IntSort(), z3.RealSort(), z3.StringSort(), z3.BoolSort()
    has = z3.Function("pointing_exists", i_, b_)
    names = POINT + GONE + (SKIP if ar else []) + (["c", "k"] if des else []) + ["OtherPointingColumn"]
    cols = {"optFilter": (z3.Function("pointing.optFilter", i_, s_), "str")}
    cols.update({c: (z3.Function("pointing." + c, i_, r_), "real") for c in names})
    V.pre_rows(df, lambda r: z3.And(df.cols["fieldMJD_TAI"](r).t >= 30000, df.cols["fieldMJD_TAI"](r).t <= 100000))
    g = {c: (lambda k, f=f, s=s: SV(s, f(k))) for c, (f, s) in cols.items()}
    n = V.int("n_pointings", 0)
    inp = df.copy()
    P = L.Keyed("FieldID", lambda k: has(k), g, n.t)
    out = V.call(df, P)
    start = lambda r: cols["observationStartMJD_TAI"][0](inp.cols["FieldID"](r).t)
    t = lambda r: inp.cols["fieldMJD_TAI"](r).t
    keep = lambda r: has(inp.cols["FieldID"](r).t)
    if out.exc is not None:
        V.ensure("refused with an error message", out.exc == "SystemExit")
        V.ensure_some_row("only when a time disagrees", inp, lambda r: z3.And(keep(r), start(r) != t(r)))
        return
    o = out.value
    V.ensure_filter(o, inp, keep, same_cols=list(inp.cols) + ["optFilter"] + POINT + (["c", "k"] if des else []) + ["OtherPointingColumn"], what="detections")
    if not isinstance(o, Frame):
        return
    r = V.row(inp)
    inside = z3.And(inp.view.inside(r), keep(r))
    V.ensure("no detection whose time disagrees by a day", z3.Implies(inside, z3.And(start(r) - t(r) <= 1.01, t(r) - start(r) <= 1.01)))
    for c in ["optFilter"] + POINT + (["c", "k"] if des else []) + ["OtherPointingColumn"]:
        if c in o.cols and not isinstance(o.cols[c], L.NullFn):
            V.ensure(f"{c} of its own pointing", z3.Implies(inside, o.cols[c](r).t == cols[c][0](inp.cols["FieldID"](r).t)))
        else:
            V.ensure(f"{c} of its own pointing", False)


@contract("C21", M + "PPReadPointingDatabase:PPReadPointingDatabase", target="read")
def read(V):
    survey = V.pick("survey", RUBIN + DESN + ["LSST"])
    nf = V.pick("n_filters", [1, 2, 3, 6])
    filters = [V.str(f"filter{i}") for i in range(nf)]
    des = survey in DESN
    ff = V.pick("fading_function_on", [False, True, None])
    absent = V.pick("without", [None, "c", "k"])
    cols = {"observationId": "int", "filter": "str", "visitTime": "real", "visitExposureTime": "real", "fieldRA_deg": "real"}
    cols["observationMidpointMJD_TAI" if des else "observationStartMJD_TAI"] = "real"
    cols.update({c: "real" for c in ("c", "k") if c != absent})
    df = V.frame("pointings", cols)
    null = {}
    for c in ("c", "k"):
        if c in df.cols:
            nf_ = z3.Function("missing_" + c, z3.IntSort(), z3.BoolSort())
            null[c] = nf_
            df.cols[c] = L.NullFn(df.cols[c], lambda r, nf_=nf_: nf_(r))
    inp = df.copy()
    seen = []
    V.stub("sqlite3.connect", lambda I, a, k: L.Opaque("connection"))
    fail = V.pick("query_fails", [False, True])

    def query(I, a, k):
        seen.append(a[0])
        if fail:
            raise PyExc("pandas.errors.DatabaseError")
        return df

    V.stub("pandas.read_sql_query", query)
    args = ["db", list(filters), "QUERY", survey]
    out = V.call(*args) if ff is None else V.call(*args, ff)
    if fail:
        V.ensure("a failing query is refused", out.exc == "SystemExit")
        return
    V.ensure("the configured query", seen == ["QUERY"])
    keep = lambda r: z3.Or([inp.cols["filter"](r).t == f.t for f in filters])
    r = V.row(inp)
    inside = z3.And(inp.view.inside(r), keep(r))
    need_ck = bool(ff) and des
    if out.exc is not None:
        V.ensure("refused with an error message", out.exc == "SystemExit")
        if survey == "LSST" or (need_ck and absent):
            return
        if need_ck:
            ws = [w for sp, w in V.ctx.rows if sp is inp.view.space]
            V.ensure("refused only without pointings in the filters, or for a missing c or k",
                     z3.Implies(inside, z3.Or([z3.And(inp.view.inside(w), keep(w), z3.Or([null[c](w) for c in null])) for w in ws])))
            return
        V.ensure("refused only when no pointing is in the filters", z3.Not(inside))
        return
    V.ensure("unknown surveys are refused", survey != "LSST")
    V.ensure("c and k required with the DES fading function", not (need_ck and absent))
    o = out.value
    g = lambda c, r=r: inp.cols[c](r).t
    V.ensure("rows of the database", isinstance(o, Frame) and o.view.space is inp.view.space)
    if not (isinstance(o, Frame) and o.view.space is inp.view.space):
        return
    V.ensure("exactly the pointings in the observing filters", z3.Implies(inp.view.inside(r), o.view.keep(r) == keep(r)))
    V.ensure("order kept", o.view.order == inp.view.order)
    new = {"FieldID", "observationId_", "optFilter", "observationStartMJD_TAI", "observationMidpointMJD_TAI"}
    V.ensure("columns", set(o.cols) == (set(inp.cols) - {"observationId", "filter"}) | new)
    val = lambda c: o.cols[c](r).t
    half = (g("visitExposureTime") if des else g("visitTime")) / 2 / 86400
    imp = lambda x: z3.Implies(inside, x)
    V.ensure("its identifier", imp(z3.And(val("FieldID") == g("observationId"), val("observationId_") == g("observationId"))))
    V.ensure("its filter", imp(val("optFilter") == g("filter")))
    V.ensure("its start and middle", imp(z3.And(val("observationMidpointMJD_TAI") == val("observationStartMJD_TAI") + half,
                                                  val("observationMidpointMJD_TAI") == g("observationMidpointMJD_TAI") if des else val("observationStartMJD_TAI") == g("observationStartMJD_TAI"))))
    for c in inp.cols:
        if c in ("c", "k"):
            V.ensure(f"{c} unchanged", o.cols[c] is inp.cols[c])
            if need_ck:
                V.ensure(f"{c} present everywhere", imp(z3.Not(null[c](r))))
        elif c in o.cols:
            V.ensure(f"{c} unchanged", imp(val(c) == g(c)))


from contracts.glue import glue
glue("C21")
