"""C06 Uncertainties follow the survey error model."""
from pyvc.contract import contract
from contracts.common import *
from contracts.C04 import AB, arg, speed

M = "sorcha.modules.PPAddUncertainties:"


def snr(x):
    return 1 / sqrt((q(0.04) - q(0.039)) * x + q(0.039) * x * x)


def xval(m, m5):
    return pow10(q(0.4) * (m - m5))


def sigma_mas(F, S, coeff=q(0.6), floor=q(10), nv=None):
    e = coeff * F / S
    if nv is not None:
        e = e / sqrt(nv)
    return sqrt(floor * floor + e * e)


@contract("C06", M + "calcPhotometricUncertainty", target="phot_sigma")
def phot(V):
    s = V.real("snr")
    V.pre(s.t > 0)
    out = V.call(s)
    if V.returns(out):
        V.ensure("the law", out.value.t == q(2.5) * log10(1 + 1 / s.t))
        V.ensure("positive", out.value.t > 0)
        s2 = z3.Real("s2!")
        V.ensure("lemma: lower SNR, larger argument", z3.Implies(z3.And(s2 > 0, s2 <= s.t), 1 + 1 / s2 >= 1 + 1 / s.t))
        A, B = z3.Real("A!"), z3.Real("B!")
        V.ensure("lemma: log10 grows", z3.Implies(z3.And(A >= 1, A <= B), log10(A) <= log10(B)))


@contract("C06", M + "calcRandomAstrometricErrorPerCoord", target="astro_rand")
def rand(V):
    f, s, k = V.real("FWHMeff", 0), V.real("snr"), V.real("coeff")
    V.pre(s.t > 0)
    d = V.pick("default", [False, True])
    out = V.call(f, s) if d else V.call(f, s, k)
    if V.returns(out):
        V.ensure("coefficient * FWHM / SNR", out.value.t == (q(0.6) if d else k.t) * f.t / s.t)


@contract("C06", M + "calcAstrometricUncertainty", target="astro_sigma")
def astro(V):
    m, m5 = V.real("mag"), V.real("m5")
    f = V.real("FWHMeff", 0)
    units = V.pick("units", ["mas", "arcsec"])
    mode = V.pick("mode", ["plain", "nvisit", "all"])
    kw, nv, floor, co = {}, None, q(10), q(0.6)
    if mode != "plain":
        n = V.int("nvisit", 1)
        kw["nvisit"] = n
        nv = z3.ToReal(n.t)
    if mode == "all":
        e, c = V.real("error_sys", 0), V.real("coeff", 0)
        kw["error_sys"], kw["astErrCoeff"] = e, c
        floor, co = e.t, c.t
    out = V.call(m, m5, FWHMeff=f, output_units=units, **kw)
    if V.returns(out):
        a, s, er = out.value
        S = snr(xval(m.t, m5.t))
        V.ensure("signal-to-noise law", s.t == S)
        scale = 1 if units == "mas" else 1000
        if nv is None:
            V.ensure("astrometric law", a.t * scale == sigma_mas(f.t, S, co, floor))
        else:
            # for one visit sqrt(nvisit) is 1
            V.ensure("astrometric law", z3.And(z3.Implies(nv == 1, a.t * scale == sigma_mas(f.t, S, co, floor)),
                                               z3.Implies(nv > 1, a.t * scale == sigma_mas(f.t, S, co, floor, nv))))
        E2 = z3.Real("e!")
        V.ensure("lemma: a quadrature sum is never below its floor", z3.Implies(z3.And(floor >= 0), sqrt(floor * floor + E2 * E2) >= floor))


@contract("C06", None, target=None, name="lemma.monotone")
def mono(V):
    """fainter sources never get smaller uncertainties (over the laws proved above)"""
    m, m2, m5 = V.real("m"), V.real("m2"), V.real("m5")
    x, y = xval(m.t, m5.t), xval(m2.t, m5.t)
    V.called = True
    V.ensure("x grows with magnitude", z3.Implies(m.t <= m2.t, x <= y))
    X, Y = z3.Real("X!"), z3.Real("Y!")
    g = lambda t: (q(0.04) - q(0.039)) * t + q(0.039) * t * t
    V.ensure("noise grows with x", z3.Implies(z3.And(X > 0, X <= Y), z3.And(g(X) > 0, g(X) <= g(Y))))
    V.ensure("sqrt grows", z3.Implies(z3.And(X > 0, X <= Y), z3.And(sqrt(X) > 0, sqrt(X) <= sqrt(Y))))
    V.ensure("SNR falls", z3.Implies(z3.And(X > 0, X <= Y), 1 / Y <= 1 / X))
    f = z3.Real("f!")
    V.ensure("random error grows", z3.Implies(z3.And(f >= 0, X > 0, X <= Y), q(0.6) * f / Y <= q(0.6) * f / X))
    V.ensure("quadrature sum grows", z3.Implies(z3.And(X >= 0, X <= Y), sqrt(100 + X * X) <= sqrt(100 + Y * Y)))


@contract("C06", M + "addUncertainties", target="add_uncertainties")
def table(V):
    cols = {c: "real" for c in ("RARateCosDec_deg_day", "DecRate_deg_day", "seeingFwhmGeom_arcsec", "seeingFwhmEff_arcsec", "visitExposureTime",
                                "trailedSourceMagTrue", "PSFMagTrue", "fiveSigmaDepth_mag")}
    cols["ObjID"] = "str"
    df = V.frame("df", cols)
    V.pre_rows(df, lambda r: z3.And(df.cols["seeingFwhmGeom_arcsec"](r).t > 0, df.cols["visitExposureTime"](r).t >= 0))
    on = V.pick("trailing_losses_on", [True, False])
    rngs = V.module_rngs()
    inp = df.copy()
    out = V.call(df, Obj("sconfigs", expert=Obj("expert", trailing_losses_on=on)), rngs)
    if V.returns(out):
        o = out.value
        r = V.row(inp)
        g = lambda c: inp.cols[c](r).t
        G = lambda c: o.cols[c](r).t
        see = g("seeingFwhmGeom_arcsec")
        loss = q(1.25) * log10(arg(speed(g("RARateCosDec_deg_day"), g("DecRate_deg_day")) * g("visitExposureTime") / see, "trailedSource")) if on else q(0)
        need = {"astrometricSigma_deg", "SNRTrailedSourceMag", "trailedSourceMagSigma", "SNRPSFMag", "PSFMagSigma"}
        V.ensure("all uncertainty columns are there", need <= set(o.cols))
        if need <= set(o.cols):
            S1 = snr(xval(g("trailedSourceMagTrue") + loss, g("fiveSigmaDepth_mag")))
            S2 = snr(xval(g("PSFMagTrue"), g("fiveSigmaDepth_mag")))
            V.ensure("trailed SNR from the trailed magnitude plus its loss", G("SNRTrailedSourceMag") == S1)
            V.ensure("PSF SNR from the PSF magnitude alone", G("SNRPSFMag") == S2)
            V.ensure("trailed photometric uncertainty", G("trailedSourceMagSigma") == q(2.5) * log10(1 + 1 / S1))
            V.ensure("PSF photometric uncertainty", G("PSFMagSigma") == q(2.5) * log10(1 + 1 / S2))
            V.ensure("astrometric uncertainty in degrees", G("astrometricSigma_deg") == sigma_mas(see * 1000, S1) / 3600000)
        V.ensure_columns_same(o, inp.cols, r, skip=need)
        V.ensure("same rows", o.view.space is inp.view.space and o.view.order == inp.view.order)
        V.ensure("no row dropped", o.view.keep(r))
        V.ensure("no random draw", not any(x.__dict__.get("log") for x in V.rngs.values()))


from contracts.glue import glue
glue("C06")
