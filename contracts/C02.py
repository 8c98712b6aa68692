"""C02 Random survival filters: one uniform draw per row of the filter's own
stream, row kept iff the draw does not exceed its survival probability."""
import z3
from pyvc.contract import contract
from pyvc.values import *

M = "sorcha.modules."


def one_draw(V, module, what, view=None):
    """exactly one vector of uniform draws, requested once, from the module's own stream"""
    streams = {k: v for k, v in V.rngs.items() if v.__dict__.get("log")}
    V.ensure(f"{what}: draws come from the filter's own stream only", list(streams) == [module])
    log = [e for s in streams.values() for e in s.log]
    V.ensure(f"{what}: exactly one uniform number per detection", len(log) == 1 and log[0][0] == "uniform")
    return log[0][1] if len(log) == 1 else None


@contract("C02", M + "PPDropObservations:PPDropObservations", target="drop_observations", nfi=True)
def drop(V):
    df = V.frame("df", {"p": "real", "ObjID": "str"})
    V.const("column", "p")
    rngs = V.module_rngs()
    inp = df.copy()
    out = V.call(df, rngs, "p")
    if V.returns(out):
        u = one_draw(V, M + "PPDropObservations", "drop")
        if u is not None:
            V.ensure_filter(out.value, inp, lambda r: u(r) <= inp.cols["p"](r).t, reset=False)


@contract("C02", M + "PPFadingFunctionFilter:PPFadingFunctionFilter", target="fading", nfi=True)
def fading(V):
    chip = V.pick("perchip", [False, True])
    cols = {"PSFMag": "real", "fiveSigmaDepth_mag": "real", "ObjID": "str"}
    if chip:
        cols["limMag_perChip"] = "real"
    df = V.frame("df", cols)
    ff, w = V.real("fillfactor", 0, 1), V.real("width")
    V.pre(w.t > 0)
    rngs = V.module_rngs()
    inp = df.copy()
    out = V.call(df, ff, w, rngs, V.pick("verbose", [False, True]))
    if V.returns(out):
        from pyvc.smt import uf
        u = one_draw(V, M + "PPDropObservations", "fading")
        if u is not None:
            lim = "limMag_perChip" if chip else "fiveSigmaDepth_mag"
            prob = lambda r: ff.t / (1 + uf("exp")((inp.cols["PSFMag"](r).t - inp.cols[lim](r).t) / w.t))
            V.ensure_filter(out.value, inp, lambda r: u(r) <= prob(r))


@contract("C02", M + "DESFadingFunctionFilter:DESFadingFunctionFilter", target="des_fading", nfi=True)
def des_fading(V):
    df = V.frame("df", {"PSFMag": "real", "fiveSigmaDepth_mag": "real", "c": "real", "k": "real", "ObjID": "str"})
    eff = V.real("efficiency", 0, 1)
    rngs = V.module_rngs()
    inp = df.copy()
    out = V.call(df, eff, rngs, V.pick("verbose", [False, True]))
    if V.returns(out):
        u = one_draw(V, M + "PPDropObservations", "DES fading")
        if u is not None:
            from pyvc.smt import uf
            g = lambda n, r: inp.cols[n](r).t
            prob = lambda r: eff.t * (g("c", r) / (1 + uf("exp")(g("k", r) * (g("PSFMag", r) - g("fiveSigmaDepth_mag", r)))))
            V.ensure_filter(out.value, inp, lambda r: u(r) <= prob(r))


@contract("C02", M + "PPDetectionEfficiency:PPDetectionEfficiency", target="efficiency", nfi=True)
def efficiency(V):
    df = V.frame("df", {"x": "real", "ObjID": "str"})
    t = V.real("threshold")
    rngs = V.module_rngs()
    inp = df.copy()
    out = V.call(df, t, rngs)
    bad = z3.Or(t.t > 1, t.t < 0)
    V.ensure("refused exactly when the threshold is outside [0,1]", bad if out.exc == "SystemExit" else z3.Not(bad))
    V.ensure("no other exception", out.exc in (None, "SystemExit"))
    if out.exc is None:
        u = one_draw(V, M + "PPDetectionEfficiency", "efficiency")
        if u is not None:
            V.ensure_filter(out.value, inp, lambda r: u(r) <= t.t, reset=False)


@contract("C02", M + "PPApplyFOVFilter:PPSimpleSensorArea", target="sensor_area", nfi=True)
def sensor(V):
    df = V.frame("df", {"x": "real", "ObjID": "str"})
    f = V.real("fillfactor", 0, 1)
    rngs = V.module_rngs()
    # the caller resets the index of its table first, see PPApplyFOVFilter/PPCircleFootprint
    df = V.reset(df)
    inp = df.copy()
    out = V.call(df, rngs, f)
    if V.returns(out):
        u = one_draw(V, M + "PPApplyFOVFilter", "sensor area")
        if u is not None:
            V.ensure_filter(out.value, inp, lambda r: u(r) <= f.t)


@contract("C02", M + "PPApplyFOVFilter:PPApplyFOVFilter", target="fov_circle_fill", nfi=True)
def fov_fill(V):
    """the circle model applies its fill factor whatever its value"""
    df = V.reset(V.frame("df", {"x": "real", "ObjID": "str"}))
    use = V.pick("use_fill", [True, False])
    f = V.real("fillfactor", 0, 1)
    rngs = V.module_rngs()
    fov = Obj("fov", camera_model="circle", circle_radius=None, fill_factor=f if use else None, footprint_edge_threshold=None)
    inp = df.copy()
    out = V.call(df, Obj("sconfigs", fov=fov), rngs)
    if V.returns(out):
        if use:
            u = one_draw(V, M + "PPApplyFOVFilter", "fill factor")
            if u is not None:
                V.ensure_filter(out.value, inp, lambda r: u(r) <= f.t)
        else:
            V.ensure_filter(out.value, inp, lambda r: z3.BoolVal(True))


from contracts.glue import glue
glue("C02")
