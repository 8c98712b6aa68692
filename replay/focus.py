"""End-to-end runs in which only the stages of one property are switched on."""
from common import Target

OFF = dict(camera="none", trailing=False, vignetting=False, snr=None, mag=None, fading=False, bright=None, link=None, format="csv", columns="all",
           posdec=None, magdec=None, stats=False, ar=False, ret=False)


def focus(weight, survey, vary):
    """vary(rnd) -> the settings that are on"""

    def gen(rnd, k):
        import pipeline as PL

        c = PL.gen(rnd, k, **({"survey": "DES"} if survey == "DES" else {}))
        off = dict(OFF)
        if survey == "DES":
            off.update(distance=None, motion=None, discovery=False, eff=None)
            c.pop("nights", None)
        off.update(vary(rnd))
        c.update(off)
        if c["ar"]:
            c["eph"] = "csv"
        return c

    def run(c):
        import pipeline as PL

        return PL.run(c)

    t = Target(gen, run, from_model=lambda m: None, weight=weight)
    t.minimum = 8
    return t
