"""C07 Apparent magnitudes: own filter, colour and phase law."""
from pyvc.contract import contract
from pyvc.smt import uf
from contracts.common import *

M = "sorcha.modules."
AU = q(149597870.7)
PARS = {"HG": ["GS"], "HG1G2": ["G1", "G2"], "HG12": ["G12"], "linear": ["S"], "none": []}
UFN = {"HG": "phase_HG", "HG1G2": "phase_HG1G2", "HG12": "phase_HG12_Pen16"}


def reduced(fun, H, ps, alpha):
    if fun == "none":
        return H
    if fun == "linear":
        return H + ps[0] * alpha
    return H + uf(UFN[fun], len(ps) + 1)(*ps, alpha)


def byfilter(f, filters, get):
    t = get(filters[-1])
    for x in filters[:-1]:
        t = z3.If(f == z3.StringVal(x), get(x), t)
    return t


def obs_cols(fun, filters, main, per):
    cols = {"H_" + main: "real", "optFilter": "str", "ObjID": "str", "phase_deg": "real", "Range_LTC_km": "real",
            "Obj_Sun_x_LTC_km": "real", "Obj_Sun_y_LTC_km": "real", "Obj_Sun_z_LTC_km": "real"}
    for x in filters:
        if x != main:
            cols[f"{x}-{main}"] = "real"
    for p in PARS[fun]:
        for n in ([p + x for x in filters] if per else [p]):
            cols[n] = "real"
    return cols


@contract("C07", M + "PPApplyColourOffsets:PPApplyColourOffsets", target="colours", nfi=True)
def colours(V):
    fun = V.pick("function", ["HG", "HG1G2", "HG12", "linear", "none"])
    per = V.pick("per_filter", [False, True]) if fun != "none" else V.pick("per_filter", [False])
    filters = ["r", "g", "z"]
    main = "r"
    df = V.frame("df", obs_cols(fun, filters, main, per))
    V.domain(df, "optFilter", filters)
    inp = df.copy()
    out = V.call(df, fun, [f"{x}-{main}" for x in filters[1:]], filters, main)
    if V.returns(out):
        o, r = out.value, V.row(inp)
        V.pre(inp.view.inside(r))
        g = lambda c: inp.cols[c](r).t
        f = g("optFilter")
        want = g("H_r") + byfilter(f, filters, lambda x: q(0) if x == main else g(f"{x}-{main}"))
        V.ensure("H in its own filter is there", "H_filter" in o.cols)
        if "H_filter" in o.cols:
            V.ensure("H in its own filter is H plus its own colour", o.cols["H_filter"](r).t == want)
        drop = [f"{x}-{main}" for x in filters if x != main]
        if per:
            for p in PARS[fun]:
                V.ensure(f"{p} there", p in o.cols)
                if p in o.cols:
                    V.ensure(f"{p} is that of its own filter", o.cols[p](r).t == byfilter(f, filters, lambda x: g(p + x)))
            drop += [p + x for p in PARS[fun] for x in filters]
        V.ensure_columns_same(o, inp.cols, r, skip=drop)
        V.ensure("columns", set(o.cols) == (set(inp.cols) - set(drop)) | {"H_filter"} | (set(PARS[fun]) if per else set()))
        V.ensure("same rows", o.view.space is inp.view.space and o.view.order == inp.view.order)
        V.ensure("no row dropped", o.view.keep(r))


@contract("C07", M + "PPApplyColourOffsets:PPApplyColourOffsets", target="colours_bad", name="colours.refused", nfi=True)
def colours_bad(V):
    filters = ["r", "g"]
    fun = V.pick("function", ["HG", "HG1G2", "HG12", "linear", "unknown", "hg", ""])
    cols = obs_cols(fun if fun in PARS else "none", filters, "r", False)
    missing = V.pick("missing", [0, 1])
    if fun in PARS:
        ps = PARS[fun]
        cols.pop(ps[missing % len(ps)])
    df = V.frame("df", cols)
    V.domain(df, "optFilter", filters)
    out = V.call(df, fun, ["g-r"], filters, "r")
    V.ensure("missing phase parameters or unknown law are refused", out.exc == "SystemExit")


def lc_class(V, shift):
    return Prim(lambda I, a, k: Obj("lc", compute=Prim(lambda I, a, k: shift(I, a[0]), "compute")), "lc")


@contract("C07", M + "PPCalculateApparentMagnitudeInFilter:PPCalculateApparentMagnitudeInFilter", target="infilter")
def infilter(V):
    fun = V.pick("function", ["HG", "HG1G2", "HG12", "linear", "none"])
    cols = obs_cols(fun, ["r"], "r", False)
    cols["H_filter"] = "real"
    rho_col = V.pick("rho_given", [False, True])
    if rho_col:
        cols["Obj_Sun_LTC_km"] = "real"
    df = V.frame("df", cols)
    V.pre_rows(df, lambda r: df.cols["Range_LTC_km"](r).t > 0)
    colname = V.pick("colname", ["trailedSourceMagTrue", "out"])
    lc = V.pick("lc", [None, "model"])
    ca = V.pick("ca", [None, "comet"])
    seen = {}
    dm = z3.Function("lc_shift", z3.IntSort(), z3.RealSort())
    V.patch(M + "PPCalculateApparentMagnitudeInFilter", "LC_METHODS",
            {"model": lc_class(V, lambda I, fr: (seen.__setitem__("lc", fr.copy()), Col(fr.view, lambda r: SV("real", dm(r)), "array"))[1])})

    def cacall(I, a, k):
        fr = a[0]
        seen["ca"] = (fr.copy(), a[1:], k)
        o2 = fr.copy()
        old = fr.cols[colname] if colname in fr.cols else None
        cm = z3.Function("ca_mag", z3.IntSort(), z3.RealSort())
        o2.cols[colname] = lambda r: SV("real", old(r).t - cm(r))
        return o2

    V.patch(M + "PPCalculateSimpleCometaryMagnitude", "CA_METHODS",
            {"comet": Prim(lambda I, a, k: Obj("ca", compute=Prim(cacall, "compute")), "ca")})
    inp = df.copy()
    kw = {}
    if colname != "trailedSourceMagTrue":
        kw["colname"] = colname
    out = V.call(df, fun, ["r"], lightcurve_choice=lc, cometary_activity_choice=ca, **kw)
    if V.returns(out):
        o, r = out.value, V.row(inp)
        V.pre(inp.view.inside(r))
        g = lambda c: inp.cols[c](r).t
        delta = g("Range_LTC_km") / AU
        rho = (g("Obj_Sun_LTC_km") if rho_col else
               sqrt(g("Obj_Sun_x_LTC_km") * g("Obj_Sun_x_LTC_km") + g("Obj_Sun_y_LTC_km") * g("Obj_Sun_y_LTC_km") + g("Obj_Sun_z_LTC_km") * g("Obj_Sun_z_LTC_km"))) / AU
        base = 5 * log10(delta) + 5 * log10(rho) + reduced(fun, g("H_filter"), [g(p) for p in PARS[fun]], g("phase_deg"))
        V.ensure("magnitude column", colname in o.cols)
        mag = base
        if lc:
            mag = mag + dm(r)
            V.ensure("light curve model applied", "lc" in seen)
            V.ensure("light curve change stored", "Delta_m" in o.cols and z3.eq(z3.simplify(o.cols["Delta_m"](r).t), dm(r)))
        if ca:
            V.ensure("activity model applied", "ca" in seen)
            mag = mag - z3.Function("ca_mag", z3.IntSort(), z3.RealSort())(r)
            fr, args, k = seen.get("ca", (None, (), {}))
            if fr is not None:
                V.ensure("activity model receives filters, distances and phase",
                         len(args) == 4 and args[0] == ["r"] and all(isinstance(x, Col) for x in args[1:]))
                if len(args) == 4 and all(isinstance(x, Col) for x in args[1:]):
                    V.ensure("activity: heliocentric distance in au", args[1].fn(r).t == rho)
                    V.ensure("activity: geocentric distance in au", args[2].fn(r).t == delta)
                    V.ensure("activity: phase angle", args[3].fn(r).t == g("phase_deg"))
        if colname in o.cols:
            V.ensure("apparent magnitude law", o.cols[colname](r).t == mag)
        V.ensure_columns_same(o, inp.cols, r, skip={colname})
        V.ensure("columns", set(o.cols) == set(inp.cols) | {colname} | ({"Delta_m"} if lc else set()))
        V.ensure("same rows", o.view.space is inp.view.space and o.view.order == inp.view.order)
        V.ensure("no row dropped", o.view.keep(r))


@contract("C07", M + "PPCalculateApparentMagnitudeInFilter:PPCalculateApparentMagnitudeInFilter", target="infilter_bad", name="infilter.unknown_law", nfi=True)
def infilter_bad(V):
    cols = obs_cols("none", ["r"], "r", False)
    cols["H_filter"] = "real"
    for ps in PARS.values():
        for p in ps:
            cols[p] = "real"
    df = V.frame("df", cols)
    fun = V.pick("function", ["unknown", "hg", "", "HG12_Pen16", "NONE"])
    out = V.call(df, fun, ["r"])
    V.ensure("unknown phase law refused", out.exc == "SystemExit")


@contract("C07", M + "PPCalculateApparentMagnitude:PPCalculateApparentMagnitude", target="apparent")
def whole(V):
    single = V.pick("single", [False, True])
    filters = ["r"] if single else ["r", "g"]
    fun = V.pick("function", ["HG", "linear", "none"])
    per = V.pick("per_filter", [False, True]) if fun != "none" and not single else V.pick("per_filter", [False])
    df = V.frame("df", obs_cols(fun, filters, "r", per))
    V.pre_rows(df, lambda r: df.cols["Range_LTC_km"](r).t > 0)
    V.domain(df, "optFilter", filters)
    inp = df.copy()
    out = V.call(df, fun, "r", None if single else ["g-r"], filters)
    if V.returns(out):
        o, r = out.value, V.row(inp)
        V.pre(inp.view.inside(r))
        g = lambda c: inp.cols[c](r).t
        f = g("optFilter")
        H = g("H_r") + byfilter(f, filters, lambda x: q(0) if x == "r" else g(f"{x}-r"))
        ps = [byfilter(f, filters, lambda x: g(p + x)) if per else g(p) for p in PARS[fun]]
        rho = sqrt(g("Obj_Sun_x_LTC_km") * g("Obj_Sun_x_LTC_km") + g("Obj_Sun_y_LTC_km") * g("Obj_Sun_y_LTC_km") + g("Obj_Sun_z_LTC_km") * g("Obj_Sun_z_LTC_km")) / AU
        V.ensure("columns there", {"trailedSourceMagTrue", "H_filter", "H_r"} <= set(o.cols))
        if {"trailedSourceMagTrue", "H_filter", "H_r"} <= set(o.cols):
            V.ensure("apparent magnitude", o.cols["trailedSourceMagTrue"](r).t == 5 * log10(g("Range_LTC_km") / AU) + 5 * log10(rho) + reduced(fun, H, ps, g("phase_deg")))
            V.ensure("H in own filter", o.cols["H_filter"](r).t == H)
            V.ensure("reported H unchanged", o.cols["H_r"](r).t == g("H_r"))
        V.ensure("same rows", o.view.space is inp.view.space and o.view.order == inp.view.order)
        V.ensure("no row dropped", o.view.keep(r))


class Header:
    """the first line of the physical parameters file, as text"""

    def __init__(self, s, newline=True):
        self.s, self.newline = s, newline

    def sym_getattr(self, I, name):
        def f(I, a, k):
            if name == "find" and isinstance(a[0], str):
                return SV("int", z3.IndexOf(self.s, z3.StringVal(a[0]), 0))
            if name in ("strip", "rstrip") and (not a or a[0] in ("\n", "\r\n")):
                return Header(self.s, False)
            if name == "split" and not self.newline:
                return Fields(I, self.s, a[0] if a and a[0] is not None else " ")
            if name == "split" and not a:
                return Fields(I, self.s, " ")
            raise Unsupported("str." + name)
        return Prim(f, name)

    def sym_contains(self, I, x):
        if isinstance(x, str) and "\n" not in x:
            return SV("bool", z3.Contains(self.s, z3.StringVal(x)))
        raise Unsupported("in header")

    def sym_getitem(self, I, i):
        if isinstance(i, slice):
            if i.start is None and i.step is None and i.stop == -1 and self.newline:
                return Header(self.s, False)
            raise Unsupported("slice of the header")
        i = to_int(i)
        return SV("str", z3.SubString(self.s, i, 1))


class Fields:
    """str.split: the texts between the separators (fields are separated by single ones)"""

    def __init__(self, I, s, sep):
        self.s, self.sep = s, sep
        self.n = I.ctx.fresh("fields", "int")
        I.ctx.assume(z3.And(self.n >= 1, (self.n >= 2) == z3.Contains(s, z3.StringVal(sep))))

    def has(self, x):
        t = z3.StringVal(self.sep)
        return z3.Contains(z3.Concat(t, self.s, t), z3.Concat(t, x, t))

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_contains(self, I, x):
        x = z3.StringVal(x) if isinstance(x, str) else x.t
        return SV("bool", self.has(x))


class HeaderFile:
    def __init__(self, text):
        self.text, self.read = text, False

    def sym_enter(self, I):
        return self

    def sym_exit(self, I, *a):
        return None

    def sym_getattr(self, I, name):
        if name == "__enter__":
            return Prim(lambda I, a, k: self, name)
        if name in ("__exit__", "close"):
            return Prim(lambda I, a, k: None, name)
        if name == "readline":
            def f(I, a, k):
                if self.read:
                    raise Unsupported("the rows after the header")
                self.read = True
                return Header(self.text)
            return Prim(f, name)
        raise Unsupported("file ." + name)


@contract("C07", M + "PPGetMainFilterAndColourOffsets:PPGetMainFilterAndColourOffsets", name="main filter and colours", target="main_filter")
def main_filter(V):
    c = V.ctx
    fs = V.pick("filters", [["r"], ["g", "r"], ["r", "g", "i", "z"], ["Y", "g"]])
    fmt = V.pick("aux_format", ["csv", "comma", "whitespace", "tab"])
    s = V.str("header").t
    sep = z3.StringVal(" " if fmt == "whitespace" else ",")
    at = z3.IndexOf(s, z3.StringVal("H_"), 0)
    mainf = z3.SubString(s, at + 2, 1)
    # H_<filter> has a filter letter, and the main filter comes first among the observing filters
    V.pre(z3.Implies(at >= 0, z3.Length(mainf) == 1), z3.And([mainf != z3.StringVal(f) for f in fs[1:]]))
    V.stub("open", lambda I, a, k: (V.ensure("opens the physical parameters file", a[0] == "PARAMS"), HeaderFile(s))[1])
    out = V.call("PARAMS", list(fs), fmt)
    has = lambda x: z3.Contains(z3.Concat(sep, s, sep), z3.Concat(sep, x, sep))
    cols = [z3.StringVal(f"{f}-{fs[0]}") for f in fs[1:]]
    good = z3.And([at >= 0, mainf == z3.StringVal(fs[0]), z3.BoolVal(fmt != "tab"), z3.Contains(s, sep)] + [has(x) for x in cols])
    if out.exc is not None:
        V.ensure("stops with a message", out.exc == "SystemExit" and len(out.args) > 0)
        V.ensure("refused only without main filter, colours or the right format", z3.Not(good))
        return
    V.ensure("refused without main filter, colours or the right format", good)
    v = out.value
    ok = isinstance(v, tuple) and len(v) == 2
    V.ensure("main filter and offsets", ok)
    if not ok:
        return
    st = lambda x: z3.StringVal(x) if isinstance(x, str) else x.t
    V.ensure("the filter of the H column", st(v[0]) == mainf)
    off = [] if v[1] is None else v[1]
    V.ensure("one colour per further filter, in order", isinstance(off, list) and len(off) == len(cols))
    if isinstance(off, list) and len(off) == len(cols):
        for x, y in zip(off, cols):
            V.ensure("colour relative to the main filter", st(x) == y)


from contracts.glue import glue
glue("C07")
