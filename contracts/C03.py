"""C03 Fading functions follow the published detection-probability laws."""
from pyvc.contract import contract, also
from contracts.common import *

M = "sorcha.modules."


def law(m, lim, ff, w):
    return ff / (1 + exp((m - lim) / w))


@contract("C03", M + "PPDetectionProbability:calcDetectionProbability", target="calc_prob")
def calc(V):
    m, lim, ff, w = V.real("mag"), V.real("limmag"), V.real("fillFactor", 0, 1), V.real("w")
    V.pre(w.t > 0)
    out = V.call(m, lim, ff, w)
    if V.returns(out):
        P = out.value.t
        V.ensure("the fading law", P == law(m.t, lim.t, ff.t, w.t))
        V.ensure("between zero and the fill factor", z3.And(P >= 0, P <= ff.t))
        V.ensure("half the fill factor at the limiting depth", z3.Implies(m.t == lim.t, P == ff.t / 2))


@contract("C03", M + "PPDetectionProbability:calcDetectionProbability", target="calc_prob", name="calcDetectionProbability.monotone")
def calc_mono(V):
    m, m2, lim, ff, w = V.real("mag"), V.real("mag2"), V.real("limmag"), V.real("fillFactor", 0, 1), V.real("w")
    V.pre(w.t > 0, m.t < m2.t)
    a = V.call(m, lim, ff, w)
    b = V.call(m2, lim, ff, w)
    if V.returns(a) and V.returns(b):
        x1, x2 = (m.t - lim.t) / w.t, (m2.t - lim.t) / w.t
        V.ensure("lemma: larger exponent", x1 < x2)
        V.ensure("never increases with magnitude", z3.Implies(x1 < x2, b.value.t <= a.value.t))


@contract("C03", M + "PPDetectionProbability:PPDetectionProbability", target="prob_table")
def table(V):
    chip = V.pick("perchip", [False, True])
    cols = {"PSFMag": "real", "fiveSigmaDepth_mag": "real", "dmagDetect": "real", "FieldID": "str"}
    if chip:
        cols["limMag_perChip"] = "real"
    df = V.frame("df", cols)
    ff, w = V.real("fillfactor", 0, 1), V.real("width")
    V.pre(w.t > 0)
    tl = V.pick("trailing", [False, True])
    inp = df.copy()
    out = V.call(df, trailing_losses=tl, fillFactor=ff, w=w) if tl else V.call(df, fillFactor=ff, w=w)
    if V.returns(out):
        r = V.row(inp)
        g = lambda c: inp.cols[c](r).t
        lim = g("limMag_perChip") if chip else g("fiveSigmaDepth_mag")
        mag = g("PSFMag") + (g("dmagDetect") if tl else 0)
        V.ensure("one probability per row", isinstance(out.value, Col) and out.value.view.space is inp.view.space)
        V.ensure("the law at the row's own magnitude and depth", out.value.fn(r).t == law(mag, lim, ff.t, w.t))


@contract("C03", M + "PPDetectionProbability:PPDetectionProbability", target="prob_table", name="PPDetectionProbability.defaults")
def table_defaults(V):
    df = V.frame("df", {"PSFMag": "real", "fiveSigmaDepth_mag": "real"})
    V.const("defaults", True)
    inp = df.copy()
    out = V.call(df)
    if V.returns(out):
        r = V.row(inp)
        g = lambda c: inp.cols[c](r).t
        V.ensure("default fill factor 1 and width 0.1", out.value.fn(r).t == law(g("PSFMag"), g("fiveSigmaDepth_mag"), q(1), q(0.1)))


def deslaw(m, lim, c, k, e):
    return e * (c / (1 + exp(k * (m - lim))))


@contract("C03", M + "DESDetectionProbability:DEScalcDetectionProbability", target="des_calc")
def des(V):
    m, lim, c, k, e = V.real("mag"), V.real("limmag"), V.real("c", 0, 1), V.real("k"), V.real("eff", 0, 1)
    V.pre(k.t > 0)
    out = V.call(m, lim, c, k, e)
    if V.returns(out):
        P = out.value.t
        V.ensure("the DES law", P == deslaw(m.t, lim.t, c.t, k.t, e.t))
        V.ensure("half at the limiting depth", z3.Implies(m.t == lim.t, P == e.t * c.t / 2))
        X = c.t / (1 + exp(k.t * (m.t - lim.t)))
        V.ensure("lemma: undiluted probability within [0,c]", z3.And(X >= 0, X <= c.t))
        Y = z3.Real("X!")
        V.ensure("lemma: dilution keeps it within [0,e*c]",
                 z3.Implies(z3.And(Y >= 0, Y <= c.t), z3.And(e.t * Y >= 0, e.t * Y <= e.t * c.t)))


@contract("C03", M + "DESDetectionProbability:DESDetectionProbability", target="des_table")
def des_table(V):
    df = V.frame("df", {"PSFMag": "real", "fiveSigmaDepth_mag": "real", "c": "real", "k": "real", "limMag_perChip": "real"})
    e = V.real("efficiency", 0, 1)
    inp = df.copy()
    out = V.call(df, e)
    if V.returns(out):
        r = V.row(inp)
        g = lambda c: inp.cols[c](r).t
        V.ensure("the law with the row's own c, k and depth",
                 out.value.fn(r).t == deslaw(g("PSFMag"), g("fiveSigmaDepth_mag"), g("c"), g("k"), e.t))


also("C03", "C02", ["PPFadingFunctionFilter", "DESFadingFunctionFilter"])


from contracts.glue import glue
glue("C03")
