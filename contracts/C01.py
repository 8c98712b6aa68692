"""C01 Threshold cuts."""
import z3
from pyvc.contract import contract
from pyvc.values import *

M = "sorcha.modules."


@contract("C01", M + "PPSNRLimit:PPSNRLimit", target="snr_limit")
def snr(V):
    df = V.frame("df", {"SNRPSFMag": "real", "SNRx": "real"})
    named = V.pick("named", [False, True])
    lim = V.real("limit")
    inp = df.copy()
    out = V.call(df, lim, "SNRx") if named else V.call(df, lim)
    if V.returns(out):
        c = "SNRx" if named else "SNRPSFMag"
        V.ensure_filter(out.value, inp, lambda r: inp.cols[c](r).t > lim.t)


@contract("C01", M + "PPSNRLimit:PPSNRLimit", target="snr_limit", name="PPSNRLimit.default")
def snr_default(V):
    df = V.frame("df", {"SNRPSFMag": "real", "SNRx": "real"})
    inp = df.copy()
    V.const("named", False)
    V.const("limit", None)
    out = V.call(df)
    if V.returns(out):
        V.ensure_filter(out.value, inp, lambda r: inp.cols["SNRPSFMag"](r).t > 2)


@contract("C01", M + "PPMagnitudeLimit:PPMagnitudeLimit", target="mag_limit")
def mag(V):
    df = V.frame("df", {"trailedSourceMag": "real", "PSFMag": "real"})
    named = V.pick("named", [False, True])
    lim = V.real("limit")
    inp = df.copy()
    out = V.call(df, lim, "PSFMag") if named else V.call(df, lim)
    if V.returns(out):
        c = "PSFMag" if named else "trailedSourceMag"
        V.ensure_filter(out.value, inp, lambda r: inp.cols[c](r).t < lim.t)


@contract("C01", M + "PPBrightLimit:PPBrightLimit", target="bright_limit", name="PPBrightLimit.float")
def bright_float(V):
    df = V.frame("df", {"PSFMag": "real", "optFilter": "str"})
    lim = V.real("limit")
    V.const("filters", ["g", "r"])
    inp = df.copy()
    out = V.call(df, ["g", "r"], lim)
    if V.returns(out):
        V.ensure_filter(out.value, inp, lambda r: z3.Not(inp.cols["PSFMag"](r).t < lim.t))


# every observing-filter list has at most 7 distinct entries, so these seven
# lengths are all the lists there are
for _n in range(1, 8):

    @contract("C01", M + "PPBrightLimit:PPBrightLimit", target="bright_limit", name=f"PPBrightLimit.list{_n}")
    def bright_list(V, n=_n):
        df = V.frame("df", {"PSFMag": "real", "optFilter": "str"})
        filters = ["r", "g", "i", "z", "u", "y", "Y"][:n]
        V.const("filters", filters)
        lims = [V.real(f"lim{i}") for i in range(n)]
        inp = df.copy()
        out = V.call(df, list(filters), list(lims))
        if V.returns(out):
            f, m = inp.cols["optFilter"], inp.cols["PSFMag"]
            V.ensure_filter(
                out.value, inp,
                lambda r: z3.Not(z3.Or(*[z3.And(f(r).t == z3.StringVal(x), m(r).t < l.t) for x, l in zip(filters, lims)])))


@contract("C01", M + "PPBrightLimit:PPBrightLimit", target=None, name="PPBrightLimit.badtype")
def bright_bad(V):
    df = V.frame("df", {"PSFMag": "real", "optFilter": "str"})
    out = V.call(df, ["r"], V.pick("limit", ["17.0", None, 17]))
    V.ensure("rejects anything that is neither a float nor a list", out.exc == "SystemExit")


from contracts.glue import glue
glue("C01")
