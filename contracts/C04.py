"""C04 Trailing losses."""
from pyvc.contract import contract
from contracts.common import *

M = "sorcha.modules.PPTrailingLoss:"
AB = {"trailedSource": (q(0.761), q(1.162)), "circularPSF": (q(0.420), q(0.003))}


def arg(x, model):
    a, b = AB[model]
    return 1 + a * x * x / (1 + b * x)


def speed(dra, ddec):
    return sqrt(dra * dra + ddec * ddec) / 24


@contract("C04", M + "calcTrailingLoss", target="calc_loss")
def calc(V):
    dra, ddec, see, t = V.real("dra"), V.real("ddec"), V.real("seeing"), V.real("texp", 0)
    V.pre(see.t > 0)
    model = V.pick("model", ["trailedSource", "circularPSF"])
    default = V.pick("default_texp", [False, True])
    if default:
        V.pre(t.t == 30)
        out = V.call(dra, ddec, see, model=model)
    else:
        out = V.call(dra, ddec, see, texp=t, model=model)
    if V.returns(out):
        v = speed(dra.t, ddec.t)
        x = v * t.t / see.t
        L = out.value.t
        V.ensure("the published law", L == q(1.25) * log10(arg(x, model)))
        V.ensure("lemma: x is not negative", x >= 0)
        X = z3.Real("x!")
        V.ensure("lemma: argument at least one", z3.Implies(X >= 0, arg(X, model) >= 1))
        A = z3.Real("A!")
        V.ensure("lemma: log10 of it is not negative", z3.Implies(A >= 1, log10(A) >= 0))
        V.ensure("zero for a stationary source", z3.Implies(z3.And(dra.t == 0, ddec.t == 0), z3.And(x == 0, arg(q(0), model) == 1, log10(arg(q(0), model)) == 0)))
        Y = z3.Real("y!")
        V.ensure("lemma: argument grows with x", z3.Implies(z3.And(X >= 0, X < Y), arg(X, model) <= arg(Y, model)))
        B = z3.Real("B!")
        V.ensure("lemma: log10 grows", z3.Implies(z3.And(A >= 1, A <= B), log10(A) <= log10(B)))
        S, T2 = z3.Real("s!"), z3.Real("t2!")
        V.ensure("lemma: x grows with speed and exposure",
                 z3.Implies(z3.And(S >= v, T2 >= t.t), S * T2 / see.t >= v * t.t / see.t))


@contract("C04", M + "calcTrailingLoss", target="calc_loss", name="calcTrailingLoss.default_model")
def calc_default(V):
    dra, ddec, see, t = V.real("dra"), V.real("ddec"), V.real("seeing"), V.real("texp", 0)
    V.pre(see.t > 0)
    V.const("model", None)
    out = V.call(dra, ddec, see, t)
    if V.returns(out):
        V.ensure("circularPSF by default",
                 out.value.t == q(1.25) * log10(arg(speed(dra.t, ddec.t) * t.t / see.t, "circularPSF")))


@contract("C04", M + "calcTrailingLoss", target="calc_loss", name="calcTrailingLoss.unknown", nfi=True)
def calc_unknown(V):
    s = V.str("model")
    V.const("dra", 1.0), V.const("ddec", 1.0), V.const("seeing", 1.0), V.const("texp", 30.0)
    out = V.call(R(1), R(1), R(1), texp=R(30), model=s)
    known = z3.Or(s.t == z3.StringVal("circularPSF"), s.t == z3.StringVal("trailedSource"))
    V.ensure("refused exactly when the model is unknown", z3.Not(known) if out.exc == "SystemExit" else known)
    V.ensure("no other exception", out.exc in (None, "SystemExit"))


@contract("C04", M + "PPTrailingLoss", target="loss_table")
def table(V):
    df = V.frame("df", {"RARateCosDec_deg_day": "real", "DecRate_deg_day": "real", "Dec_deg": "real", "seeingFwhmEff_arcsec": "real",
                        "seeingFwhmGeom_arcsec": "real", "visitExposureTime": "real"})
    V.pre_rows(df, lambda r: z3.And(df.cols["seeingFwhmEff_arcsec"](r).t > 0, df.cols["visitExposureTime"](r).t >= 0))
    model = V.pick("model", ["trailedSource", "circularPSF", None])
    inp = df.copy()
    out = V.call(df, model) if model else V.call(df)
    if V.returns(out):
        r = V.row(inp)
        g = lambda c: inp.cols[c](r).t
        x = speed(g("RARateCosDec_deg_day"), g("DecRate_deg_day")) * g("visitExposureTime") / g("seeingFwhmEff_arcsec")
        V.ensure("the law with the row's own rates, exposure and seeing",
                 out.value.fn(r).t == q(1.25) * log10(arg(x, model or "circularPSF")))


from contracts.glue import glue
glue("C04")
