"""C05 Vignetting."""
from pyvc.contract import contract
from contracts.common import *

M = "sorcha.modules.PPVignetting:"


def gcd(ra1, d1, ra2, d2):
    """haversine formula, radians"""
    return 2 * arcsin(sqrt(sin((d2 - d1) / 2) * sin((d2 - d1) / 2) + cos(d1) * cos(d2) * sin((ra2 - ra1) / 2) * sin((ra2 - ra1) / 2)))


@contract("C05", M + "haversine", target="haversine")
def hav(V):
    ra1, d1, ra2, d2 = V.real("ra1"), V.real("dec1"), V.real("ra2"), V.real("dec2")
    out = V.call(ra1, d1, ra2, d2)
    if V.returns(out):
        h = sin((d2.t - d1.t) / 2) * sin((d2.t - d1.t) / 2) + cos(d1.t) * cos(d2.t) * sin((ra2.t - ra1.t) / 2) * sin((ra2.t - ra1.t) / 2)
        V.ensure("haversine formula", out.value.t == gcd(ra1.t, d1.t, ra2.t, d2.t))
        V.ensure("zero on the same point", z3.Implies(z3.And(ra1.t == ra2.t, d1.t == d2.t), out.value.t == 0))
        # 1-2h is the cosine of the angular distance (textbook half-angle and difference identities)
        a, b = d2.t - d1.t, ra2.t - ra1.t
        ident = z3.And(2 * sin(a / 2) * sin(a / 2) == 1 - cos(a), 2 * sin(b / 2) * sin(b / 2) == 1 - cos(b),
                       cos(a) == cos(d2.t) * cos(d1.t) + sin(d2.t) * sin(d1.t))
        V.ensure("lemma: it is the great-circle distance",
                 z3.Implies(ident, 1 - 2 * h == sin(d1.t) * sin(d2.t) + cos(d1.t) * cos(d2.t) * cos(b)))


@contract("C05", M + "vignetFunc", target="vignet")
def vig(V):
    x, y = V.real("x", 0, 2), V.real("y", 0, 2)
    V.pre(x.t <= y.t)
    a = V.call(x)
    b = V.call(y)
    if V.returns(a) and V.returns(b):
        V.ensure("zero on-axis", z3.Implies(x.t == 0, a.value.t == 0))
        V.ensure("never negative", a.value.t >= 0)
        V.ensure("never decreases off-axis", a.value.t <= b.value.t)


@contract("C05", M + "vignettingEffects", target="vignet_table")
def table(V):
    df = V.frame("df", {"RA_deg": "real", "Dec_deg": "real", "fieldRA_deg": "real", "fieldDec_deg": "real",
                        "fieldFiveSigmaDepth_mag": "real", "FieldID": "str"})
    # vignetFunc is used by its contract: some function of the angle alone
    g_ = z3.Function("vignet_loss", z3.RealSort(), z3.RealSort())

    def vf(I, vals):
        from pyvc.lib import elementwise
        return elementwise(I, lambda v: SV("real", g_(to_real(v))), vals["x"])
    V.use(M + "vignetFunc", vf)
    inp = df.copy()
    out = V.call(df)
    if V.returns(out):
        r = V.row(inp)
        g = lambda c: inp.cols[c](r).t
        th = degs(gcd(rad(g("RA_deg")), rad(g("Dec_deg")), rad(g("fieldRA_deg")), rad(g("fieldDec_deg"))))
        V.ensure("depth of the row's own field minus the loss at its own off-axis angle",
                 out.value.fn(r).t == g("fieldFiveSigmaDepth_mag") - g_(th))


@contract("C05", M + "vignetFunc", target="vignet", name="vignetFunc.nodes")
def vig_nodes(V):
    import json, os
    d = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "vignetting_curve.json")))
    i = V.ctx.choose(len(d["r"]), "node")
    V.const("x", d["r"][i])
    out = V.call(R(d["r"][i]))
    if V.returns(out):
        V.ensure("the tabulated throughput at the node", out.value.t == q(-2.5) * log10(q(d["frac"][i]) / q(d["frac"][0])))


from contracts.glue import glue
glue("C05")
