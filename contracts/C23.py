"""C23 Faint-object culling never drops an object that could be detected."""
from pyvc.contract import contract
from pyvc import lib as L
from pyvc.lib import Col
from contracts.common import *

M = "sorcha.modules.PPFaintObjectCullingFilter"
PA = "sorcha.ephemeris.simulation_parsing"
RS, IS = z3.RealSort(), z3.IntSort()
FILTERS = ["r", "g"]


class Pointings:
    """the pointing table as the filter of each pointing and its depth; `has` the filters that occur"""

    def __init__(self, V, has):
        self.V, self.has, c = V, has, V.ctx
        self.FILT, self.DEPTH = z3.Function("filter_of_pointing", IS, z3.StringSort()), z3.Function("depth_of_pointing", IS, RS)
        self.MAX = {f: c.fresh(f"deepest_{f}", "real") for f in has}
        self.j = c.fresh("pointing", "int")
        V.pre(z3.Or([self.FILT(self.j) == z3.StringVal(f) for f in has]) if has else z3.BoolVal(False)) if has else None
        for f in has:  # the maximum of a group is one of its values and no less than any of them
            V.pre(z3.Implies(self.FILT(self.j) == z3.StringVal(f), self.DEPTH(self.j) <= self.MAX[f]))
            w = c.fresh(f"deepest_pointing_{f}", "int")
            V.pre(self.FILT(w) == z3.StringVal(f), self.DEPTH(w) == self.MAX[f])

    def sym_getattr(self, I, name):
        if name == "groupby":
            def groupby(I, a, k):
                self.V.ensure("depths by filter", (a[0] if a else k.get("by")) in ("optFilter", ["optFilter"]) and set(k) <= {"observed", "by", "sort"})
                return Grouped(self)
            return Prim(groupby, name)
        raise Unsupported("pointings." + name)


class Grouped:
    def __init__(self, p, col=None, agg=None):
        self.p, self.col, self.agg = p, col, agg

    def sym_getitem(self, I, k):
        if self.agg is not None:
            return SV("real", self.p.MAX[k])
        return Grouped(self.p, k)

    def sym_getattr(self, I, name):
        if name == "max" and self.col == "fieldFiveSigmaDepth_mag":
            return Prim(lambda I, a, k: Grouped(self.p, self.col, "max"), name)
        if name == "to_dict" and self.agg:
            return Prim(lambda I, a, k: {f: SV("real", m) for f, m in self.p.MAX.items()}, name)
        if name == "get" and self.agg:
            return Prim(lambda I, a, k: SV("real", self.p.MAX[a[0]]) if a[0] in self.p.MAX else (a[1] if len(a) > 1 else None), name)
        raise Unsupported("grouped pointings ." + name)


class Model:
    """a registered model that bounds the brightness it can reach"""

    def __init__(self, f):
        self.f = f

    def sym_call(self, I, a, k):
        return self

    def sym_getattr(self, I, name):
        if name == "maxBrightness":
            if self.f is None:
                raise PyExc("AttributeError", (name,))
            return Prim(lambda I, a, k: self.f(I, a, k), name)
        raise Unsupported("model." + name)


@contract("C23", M + ":PPFaintObjectCullingFilter", target="culling", name="PPFaintObjectCullingFilter")
def culling(V):
    c = V.ctx
    obs, has = V.pick("observing filters, filters with pointings", [(["r"], ["r", "g"]), (["r", "g"], ["r", "g"]), (["r", "g"], ["r"]), (["g", "r"], ["g"]), (["g"], ["g"])])
    lc, act, given = V.pick("light curve, activity, perihelion given", [(None, None, False), (None, None, True), ("lightcurve", None, True), (None, "comet", False), ("lightcurve", "comet", True), ("unbounded", None, False), ("lightcurve", "unbounded", False)])
    cols = {"ObjID": "str", "H_r": "real", "g-r": "real", "epochMJD_TDB": "real", "FORMAT": "str"}
    if given:
        cols["q"] = "real"
    aux = V.frame("objects", cols)
    inp = aux.copy()
    r = V.row(inp)
    sp = inp.view.space
    g = lambda n, x: inp.cols[n](x).t
    # designations are unique (C05)
    PERI = z3.Function("perihelion", IS, RS)
    rank = z3.Function("row_of_id", z3.StringSort(), IS)
    V.pre_rows(inp, lambda a: rank(g("ObjID", a)) == a)

    def peri(I, v):
        t = next(iter(v.values()))
        V.ensure("perihelia of these objects", isinstance(t, Frame) and t.view.space is sp and "q" not in t.cols)
        return Col(t.view, lambda x: SV("real", PERI(x)), "series")

    V.use(M + ":PPEstimatePerihelion", peri)
    P = Pointings(V, has)
    LCB, ACT = z3.Function("light_curve_brightening", IS, RS), z3.Function("brightness_with_activity", RS, z3.StringSort(), IS, RS)

    def lcmax(I, a, k):
        V.ensure("asked for these objects", isinstance(a[0], Frame) and a[0].view.space is sp)
        return Col(a[0].view, lambda x: SV("real", LCB(x)), "series")

    def actmax(I, a, k):
        t, filt, rho, delta, alpha = a
        V.ensure("asked for these objects, in one filter", isinstance(t, Frame) and t.view.space is sp and len(filt) == 1)
        w = c.row(sp, "w")
        q0 = qof(w)
        V.ensure("at perihelion and opposition", z3.Implies(t.view.inside(w), z3.And(to_real(rho.fn(w)) == q0, to_real(delta.fn(w)) == q0 - 1)))
        V.ensure("in the filter it is asked for", z3.Implies(t.view.inside(w), to_str_term(t.cols["optFilter"](w)) == z3.StringVal(filt[0])))
        m = t.cols["trailedSourceMagTrue"]
        return Col(t.view, lambda x: SV("real", ACT(to_real(m(x)), z3.StringVal(filt[0]), x)), "series")

    V.patch(M, "LC_METHODS", {"lightcurve": Model(lcmax), "unbounded": Model(None)})
    V.patch(M, "CA_METHODS", {"comet": Model(actmax), "unbounded": Model(None)})
    qof = lambda x: g("q", x) if given else PERI(x)
    out = V.call(aux, P, "r", list(obs), lc, act)
    if not V.returns(out):
        return
    o = out.value
    log10 = F("log10")

    def best(f, x):
        m = g("H_r", x) + (g("g-r", x) if f == "g" else 0) + 5 * log10(qof(x)) + 5 * log10(qof(x) - 1)
        if lc:
            m = m + LCB(x)
        return ACT(m, z3.StringVal(f), x) if act else m

    V.ensure("objects of the input", isinstance(o, Frame) and o.view.space is sp)
    if not isinstance(o, Frame):
        return
    if "unbounded" in (lc, act):
        V.ensure("nothing dropped when a model does not bound the brightness", z3.Implies(inp.view.inside(r), o.view.keep(r)))
        V.ensure_columns_same(o, inp.cols, r)
        return
    dropped = z3.And(inp.view.inside(r), z3.Not(o.view.keep(r)))
    V.ensure("no object that may come within 2 au is dropped", z3.Implies(dropped, qof(r) >= 2))
    for f in obs:
        V.ensure(f"none that is ever brighter than two magnitudes below a pointing in {f}", z3.Implies(z3.And(dropped, P.FILT(P.j) == z3.StringVal(f)), best(f, r) > P.DEPTH(P.j) + 2))
    V.ensure("every object too faint for every filter is dropped", z3.Implies(z3.And(inp.view.inside(r), qof(r) >= 2, *[best(f, r) > P.MAX[f] + 2 for f in obs if f in has]), z3.Not(o.view.keep(r))))
    V.ensure("order kept", o.view.order == inp.view.order)
    V.ensure("columns", set(o.cols) - {"q"} == set(inp.cols) - {"q"})
    V.ensure_columns_same(o, inp.cols, r)


@contract("C23", M + ":PPEstimatePerihelion", target="perihelion", name="PPEstimatePerihelion")
def estimate(V):
    c = V.ctx
    names = V.pick("columns", [("a", "e", "inc", "node", "argPeri", "ma"), ("x", "y", "z", "xdot", "ydot", "zdot")])
    aux = V.frame("objects", {"ObjID": "str", "FORMAT": "str", "epochMJD_TDB": "real", **{n: "real" for n in names}})
    inp = aux.copy()
    r = V.row(inp)
    V.pre(inp.view.inside(r))
    Q = z3.Function("perihelion", *[RS] * 6, RS)

    def peri(I, v):
        sun = v["ssb_dict"]
        items = list(sun.items() if isinstance(sun, dict) else sun.items)
        V.ensure("heliocentric", len(items) == 1)
        ep, s = items[0]
        V.ensure("the epoch the Sun is given for", to_real(ep) == to_real(v["epochJD_TDB"]))
        V.ensure("Sun at rest in the origin", z3.And([to_real(I.getattr(s, x)) == 0 for x in ("x", "y", "z", "vx", "vy", "vz")]))
        V.ensure("masses", z3.And(close(v["gm_sun"], 2.9591220828559115e-04), close(v["gm_total"], 2.9630927487993194e-04)))
        # the perihelion of a two-body orbit does not depend on the epoch
        return tuple([SV("real", Q(*[to_real(I.getitem(v["row"], n)) for n in names]))] + [SV("real", c.fresh("element", "real")) for _ in range(5)])

    V.use(PA + ":get_perihelion_row", peri)
    out = V.call(aux)
    if not V.returns(out):
        return
    o = out.value
    V.ensure("a value per object", isinstance(o, Col) and L.same_rows(o.view, inp.view))
    V.ensure("its own perihelion distance", to_real(o.fn(r)) == Q(*[inp.cols[n](r).t for n in names]))
    V.ensure("objects unchanged", set(aux.cols) == set(inp.cols))
    V.ensure_columns_same(aux, inp.cols, r)


def close(a, b, rel=1e-3):
    a = to_real(a)
    return z3.And(a >= q(b * (1 - rel)), a <= q(b * (1 + rel)))


from contracts.glue import glue
glue("C23")
