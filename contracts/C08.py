"""C08 Randomised measurements are truth plus scaled noise."""
from pyvc.contract import contract
from contracts.common import *

M = "sorcha.modules.PPRandomizeMeasurements"
arctan2 = F("arctan2")


def draws(V, kinds, what):
    """the draws made, each from this module's own stream"""
    streams = {k: v for k, v in V.rngs.items() if v.__dict__.get("log")}
    V.ensure(f"{what}: draws come from the module's own stream only", list(streams) == [M])
    log = [e for s in streams.values() for e in s.log]
    V.ensure(f"{what}: draws {kinds}", [e[0] for e in log] == kinds)
    return [e[1] for e in log] if [e[0] for e in log] == kinds else None


def sphere(ra, dec, sig, e):
    c = [cos(dec) * cos(ra), cos(dec) * sin(ra), sin(dec)]
    v = [ci + sig * ei for ci, ei in zip(c, e)]
    n = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    return v, n


@contract("C08", M + ":randomizePhotometry", target="phot", nfi=True)
def phot(V):
    df = V.frame("df", {"m": "real", "s": "real", "ObjID": "str"})
    rngs = V.module_rngs()
    inp = df.copy()
    out = V.call(df, rngs, magName="m", sigName="s")
    if V.returns(out):
        z = draws(V, ["normal"], "photometry")
        if z:
            r = V.row(inp)
            V.ensure("truth plus sigma times draw", out.value.fn(r).t == inp.cols["m"](r).t + inp.cols["s"](r).t * z[0](r))
            V.ensure("same rows", out.value.view.space is inp.view.space)
            V.ensure_columns_same(df, inp.cols, r)


@contract("C08", M + ":radec2icrf", target="radec2icrf")
def fwd(V):
    a, d = V.real("ra"), V.real("dec")
    deg = V.pick("deg", [True, False])
    out = V.call(a, d, deg=deg)
    if V.returns(out):
        x, y, z = out.value.data
        A, D = (rad(a.t), rad(d.t)) if deg else (a.t, d.t)
        V.ensure("unit vector of the direction", z3.And(x.t == cos(D) * cos(A), y.t == cos(D) * sin(A), z.t == sin(D)))
        V.ensure("length one", x.t * x.t + y.t * y.t + z.t * z.t == 1)


@contract("C08", M + ":icrf2radec", target="icrf2radec")
def back(V):
    x, y, z = V.real("x"), V.real("y"), V.real("z")
    V.pre(x.t * x.t + y.t * y.t + z.t * z.t > 0)
    deg = V.pick("deg", [True, False])
    out = V.call(x, y, z, deg=deg)
    if V.returns(out):
        ra, dec = out.value
        n = sqrt(x.t * x.t + y.t * y.t + z.t * z.t)
        full = q(360) if deg else 2 * PI
        conv = degs if deg else (lambda t: t)
        A = conv(arctan2(y.t / n, x.t / n))
        V.ensure("right ascension is the azimuth, wrapped", z3.Or(ra.t == A, ra.t == A + full))
        V.ensure("declination", dec.t == conv(arcsin(z.t / n)))
        V.ensure("right ascension in [0, 360)", z3.And(ra.t >= 0, ra.t < full))
        V.ensure("declination in [-90, 90]", z3.And(dec.t >= -full / 4, dec.t <= full / 4))


@contract("C08", M + ":sampleNormalFOV", target="sample")
def sample(V):
    df = V.frame("df", {"cx": "real", "cy": "real", "cz": "real", "s": "real"})
    rngs = V.module_rngs()
    c = V.I.lib.to_mat(V.I, [Col(df.view, df.cols[k], "array") for k in ("cx", "cy", "cz")])
    c = V.I.lib.a_Mat_T(V.I, c)
    out = V.call(c, Col(df.view, df.cols["s"], "series"), rngs, ndim=3)
    if V.returns(out):
        e = draws(V, ["mvn0", "mvn1", "mvn2"], "positions")
        if e:
            r = V.row(df)
            g = lambda k: df.cols[k](r).t
            v = [g(k) + g("s") * ei(r) for k, ei in zip(("cx", "cy", "cz"), e)]
            n = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
            m = out.value
            V.ensure("one vector per detection", getattr(m, "rowaxis", None) == 0 and len(m.data) == 3)
            for i in range(3):
                V.ensure(f"component {i}: displaced and projected back to the sphere", m.data[i].fn(r).t == v[i] / n)


@contract("C08", M + ":randomizeAstrometry", target="astro")
def astro(V):
    units = V.pick("sigUnits", ["deg", "mas", "rad"])
    rd = V.pick("radecUnits", ["deg", "rad"])
    df = V.frame("df", {"RA_deg": "real", "Dec_deg": "real", "sig": "real", "ObjID": "str"})
    V.pre_rows(df, lambda r: df.cols["sig"](r).t >= 0)
    rngs = V.module_rngs()
    inp = df.copy()
    kw = {} if rd == "deg" else {"radecUnits": "rad"}
    out = V.call(df, rngs, sigName="sig", sigUnits=units, **kw)
    if V.returns(out):
        e = draws(V, ["mvn0", "mvn1", "mvn2"], "positions")
        o, r = out.value, V.row(inp)
        V.pre(inp.view.inside(r))
        V.ensure("true and measured positions are there", {"RA_deg", "Dec_deg", "RATrue_deg", "DecTrue_deg"} <= set(o.cols))
        if e and {"RA_deg", "Dec_deg", "RATrue_deg", "DecTrue_deg"} <= set(o.cols):
            g = lambda k: inp.cols[k](r).t
            G = lambda k: o.cols[k](r).t
            sig = {"deg": rad(g("sig")), "mas": rad(g("sig") / 3600000), "rad": g("sig")}[units]
            A, D = (rad(g("RA_deg")), rad(g("Dec_deg"))) if rd == "deg" else (g("RA_deg"), g("Dec_deg"))
            v, n = sphere(A, D, sig, [f(r) for f in e])
            u = [t / n for t in v]
            V.pre(v[0] * v[0] + v[1] * v[1] + v[2] * v[2] > 0)  # a displaced vector of length exactly zero has no direction
            full = q(360) if rd == "deg" else 2 * PI
            conv = degs if rd == "deg" else (lambda t: t)
            n2 = sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2])
            w = [t / n2 for t in u]
            az = conv(arctan2(w[1], w[0]))
            V.ensure("true RA kept", G("RATrue_deg") == g("RA_deg"))
            V.ensure("true Dec kept", G("DecTrue_deg") == g("Dec_deg"))
            V.ensure("RA of the displaced direction", z3.Or(G("RA_deg") == az, G("RA_deg") == az + full))
            V.ensure("Dec of the displaced direction", G("Dec_deg") == conv(arcsin(w[2])))
            V.ensure("RA in [0, 360)", z3.And(G("RA_deg") >= 0, G("RA_deg") < full))
        V.ensure_columns_same(o, inp.cols, r, skip={"RA_deg", "Dec_deg"})
        V.ensure("columns", set(o.cols) == set(inp.cols) | {"RATrue_deg", "DecTrue_deg"})
        V.ensure("same rows", o.view.space is inp.view.space and o.view.order == inp.view.order)
        V.ensure("no row dropped", o.view.keep(r))


@contract("C08", M + ":randomizeAstrometryAndPhotometry", target="both")
def both(V):
    on = V.pick("trailing_losses_on", [True, False])
    cut = V.pick("default_snr_cut", [True, False])
    df = V.frame("df", {"RA_deg": "real", "Dec_deg": "real", "astrometricSigma_deg": "real", "trailedSourceMagTrue": "real", "trailedSourceMagSigma": "real",
                        "PSFMagTrue": "real", "PSFMagSigma": "real", "SNRPSFMag": "real", "SNRTrailedSourceMag": "real", "ObjID": "str"})
    rngs = V.module_rngs()
    inp = df.copy()
    placed = {}

    def astro_contract(I, vals):
        fr = vals["df"]
        placed["args"] = (vals["sigName"], vals["sigUnits"], vals["radecUnits"], vals["raName"], vals["decName"], vals["raOrigName"], vals["decOrigName"])
        o2 = fr.copy()
        o2.cols["RATrue_deg"], o2.cols["DecTrue_deg"] = fr.cols["RA_deg"], fr.cols["Dec_deg"]
        a, b = z3.Function("ra_measured", z3.IntSort(), z3.RealSort()), z3.Function("dec_measured", z3.IntSort(), z3.RealSort())
        o2.cols["RA_deg"], o2.cols["Dec_deg"] = (lambda r: SV("real", a(r))), (lambda r: SV("real", b(r)))
        return o2

    V.use(M + ":randomizeAstrometry", astro_contract)  # proved above
    out = V.call(df, Obj("sconfigs", expert=Obj("expert", trailing_losses_on=on, default_snr_cut=cut)), rngs)
    if V.returns(out):
        V.ensure("positions randomised once, with their own uncertainty",
                 placed.get("args") == ("astrometricSigma_deg", "deg", "deg", "RA_deg", "Dec_deg", "RATrue_deg", "DecTrue_deg"))
        z = draws(V, ["normal", "normal"] if on else ["normal"], "photometry")
        o, r = out.value, V.row(inp)
        keep = inp.cols["SNRPSFMag"](r).t > 2 if cut else z3.BoolVal(True)
        V.ensure("rows of the table", o.view.space is inp.view.space and o.view.order == inp.view.order)
        V.ensure("default cut keeps exactly SNR above 2", z3.Implies(inp.view.inside(r), o.view.keep(r) == keep))
        g = lambda k: inp.cols[k](r).t
        V.ensure("measured magnitudes are there", {"trailedSourceMag", "PSFMag"} <= set(o.cols))
        if z and {"trailedSourceMag", "PSFMag"} <= set(o.cols):
            G = lambda k: o.cols[k](r).t
            t = g("trailedSourceMagTrue") + g("trailedSourceMagSigma") * z[0](r)
            V.ensure("trailed magnitude", G("trailedSourceMag") == t)
            V.ensure("PSF magnitude", G("PSFMag") == (g("PSFMagTrue") + g("PSFMagSigma") * z[1](r) if on else t))
        V.ensure_columns_same(o, inp.cols, r, skip={"RA_deg", "Dec_deg"})


from contracts.glue import glue
glue("C08")
