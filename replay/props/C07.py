"""C07 apparent magnitudes, concrete contracts."""
from common import *

M = "sorcha.modules."
PARS = {"HG": ["GS"], "HG1G2": ["G1", "G2"], "HG12": ["G12"], "linear": ["S"], "none": []}
AU = 149597870.7
LETTERS = "ugrizy"


def sbpy_mag(fun, H, ps, alpha):
    import astropy.units as u
    from sbpy.photometry import HG, HG1G2, HG12_Pen16, LinearPhaseFunc

    H = float(H)
    ps = [float(p) for p in ps]
    a = float(alpha) * u.deg
    if fun == "none":
        return H
    if fun == "linear":
        return H + ps[0] * float(alpha)
    if fun == "HG":
        return float(HG(H=H * u.mag, G=ps[0])(a).value)
    if fun == "HG1G2":
        return float(HG1G2(H=H * u.mag, G1=ps[0], G2=ps[1])(a).value)
    return float(HG12_Pen16(H=H * u.mag, G12=ps[0])(a).value)


def gen_obs(rnd, fun, filters, main, per, n):
    d = {"ObjID": [f"o{i % 4}" for i in range(n)], "optFilter": [rnd.choice(filters) for _ in range(n)],
         "H_" + main: [wide(rnd, rnd.uniform(-2, 25), -15, 45) for _ in range(n)], "phase_deg": [rnd.choice([0.0, 1e-3, rnd.uniform(0, 100), rnd.uniform(0, 150)]) for _ in range(n)],
         "Range_LTC_km": [AU * wide(rnd, rnd.uniform(0.01, 40), 1e-5, 1e5) for _ in range(n)]}
    for k in "xyz":
        d[f"Obj_Sun_{k}_LTC_km"] = [AU * wide(rnd, rnd.gauss(0, 5), 1e-3, 1e4) for _ in range(n)]
    for x in filters:
        if x != main:
            d[f"{x}-{main}"] = [wide(rnd, rnd.gauss(0, 1), -12, 12) for _ in range(n)]
    for p in PARS[fun]:
        for nm in ([p + x for x in filters] if per else [p]):
            d[nm] = [wide(rnd, rnd.uniform(0.05, 0.45), 0.001, 0.49) for _ in range(n)]
    keys = list(d)
    rnd.shuffle(keys)
    return {k: d[k] for k in keys}


def setup(rnd):
    filters = rnd.sample(LETTERS, rnd.choice([1, 2, 2, 3, 6]))
    fun = rnd.choice(list(PARS))
    per = rnd.random() < 0.5 and fun != "none" and len(filters) > 1
    return {"filters": filters, "main": filters[0], "function": fun, "per_filter": per}


def gen_colours(rnd, k):
    c = setup(rnd)
    c["df"] = gen_obs(rnd, c["function"], c["filters"], c["main"], c["per_filter"], nrows(rnd))
    c["index"] = rnd.choice([None, "shuffled"])
    return c


def model_setup(c):
    c = dict(c)
    c.setdefault("filters", ["r", "g", "z"])
    c.setdefault("main", "r")
    c.setdefault("per_filter", False)
    return c


def expect_H(r, main):
    f = r["optFilter"]
    return r["H_" + main] + (0.0 if f == main else r[f"{f}-{main}"])


def own_pars(r, fun, per):
    return [r[p + r["optFilter"]] if per else r[p] for p in PARS[fun]]


def ok(c, df):
    return len(df) == 0 or (set(df["optFilter"]) <= set(c["filters"]))


def run_colours(c):
    c = model_setup(c)
    df = index_for(mkframe(c["df"]), c.get("index"))
    if len(df) == 0 or not ok(c, df):
        raise Skip()
    inp = df.copy()
    main, fs, fun, per = c["main"], c["filters"], c["function"], c["per_filter"]
    out = must_return(call(fn(M + "PPApplyColourOffsets:PPApplyColourOffsets"), df, fun, [f"{x}-{main}" for x in fs[1:]], fs, main))
    need(len(out) == len(inp), "rows lost")
    gone = {f"{x}-{main}" for x in fs if x != main} | ({p + x for p in PARS[fun] for x in fs} if per else set())
    need(set(out.columns) == (set(inp.columns) - gone) | {"H_filter"} | (set(PARS[fun]) if per else set()), f"columns {sorted(out.columns)}")
    for i in range(len(inp)):
        r, o = inp.iloc[i], out.iloc[i]
        need(close(o["H_filter"], expect_H(r, main)), f"row {i}: H_filter {o['H_filter']} should be {expect_H(r, main)}")
        if per:
            for p, v in zip(PARS[fun], own_pars(r, fun, per)):
                need(same(o[p], v), f"row {i}: {p} not that of its own filter")
        for k in inp.columns:
            if k not in gone:
                need(same(o[k], r[k]), f"column {k} changed")


def gen_bad(rnd, k):
    c = {"function": rnd.choice(["HG", "HG1G2", "HG12", "linear", "unknown", "hg", ""]), "missing": rnd.choice([0, 1])}
    f = c["function"] if c["function"] in PARS else "none"
    d = gen_obs(rnd, f, ["r", "g"], "r", False, 3)
    if f != "none":
        d.pop(PARS[f][c["missing"] % len(PARS[f])])
    c["df"] = d
    return c


def run_bad(c):
    df = mkframe(c["df"])
    if len(df) == 0 or not set(df["optFilter"]) <= {"r", "g"}:
        raise Skip()
    must_exit(call(fn(M + "PPApplyColourOffsets:PPApplyColourOffsets"), df, c["function"], ["g-r"], ["r", "g"], "r"), f"law {c['function']} without its parameters")


class LC:
    seen = None

    def compute(self, df):
        LC.seen = df.copy()
        return 0.1 * np.arange(len(df)) + 0.05


class CA:
    seen = None

    def compute(self, df, filters, rho, delta, alpha):
        CA.seen = (df.copy(), filters, rho, delta, alpha)
        df["trailedSourceMagTrue"] = df["trailedSourceMagTrue"] - 0.01 * np.arange(len(df))
        df["coma"] = 1.0
        return df


class plugins:
    def __enter__(self):
        self.a = fn("sorcha.lightcurves.lightcurve_registration:LC_METHODS")
        self.b = fn("sorcha.activity.activity_registration:CA_METHODS")
        self.a["verif_lc"], self.b["verif_ca"] = LC, CA
        LC.seen = CA.seen = None

    def __exit__(self, *x):
        self.a.pop("verif_lc", None)
        self.b.pop("verif_ca", None)


def gen_apparent(rnd, k):
    c = gen_colours(rnd, k)
    c["lc"] = rnd.random() < 0.3
    c["ca"] = rnd.random() < 0.3
    return c


def check_mag(c, inp, out, H, pars, colname="trailedSourceMagTrue"):
    n = len(inp)
    need(len(out) == n, "rows lost")
    need(colname in out.columns, f"no {colname}")
    for i in range(n):
        r, o = inp.iloc[i], out.iloc[i]
        delta = r["Range_LTC_km"] / AU
        rho = math.sqrt(sum(r[f"Obj_Sun_{k}_LTC_km"] ** 2 for k in "xyz")) / AU
        if "Obj_Sun_LTC_km" in inp.columns:
            rho = r["Obj_Sun_LTC_km"] / AU
        if not (delta > 0 and rho > 0):
            continue
        try:
            m = sbpy_mag(c["function"], H(r), pars(r), r["phase_deg"])
        except Exception:
            continue
        m += 5 * math.log10(delta) + 5 * math.log10(rho)
        if c.get("lc"):
            m += 0.1 * i + 0.05
            need(close(o["Delta_m"], 0.1 * i + 0.05), "light curve change not stored")
        if c.get("ca"):
            m -= 0.01 * i
            need(close(CA.seen[2][i], rho) and close(CA.seen[3][i], delta) and close(CA.seen[4][i], r["phase_deg"]), "activity model arguments")
        if math.isfinite(m):
            need(close(o[colname], m, 1e-7, 1e-7), f"row {i}: {colname} {o[colname]}, law gives {m} ({c['function']})")


def run_apparent(c):
    c = model_setup(c)
    if c.get("single"):
        c["filters"] = ["r"]
    elif "single" in c:
        c["filters"] = ["r", "g"]
    df = index_for(mkframe(c["df"]), c.get("index"))
    if len(df) == 0 or not ok(c, df):
        raise Skip()
    inp = df.copy()
    main, fs, fun, per = c["main"], c["filters"], c["function"], c["per_filter"]
    with plugins():
        out = must_return(call(fn(M + "PPCalculateApparentMagnitude:PPCalculateApparentMagnitude"), df, fun, main,
                               [f"{x}-{main}" for x in fs[1:]] if len(fs) > 1 else None, fs,
                               "verif_ca" if c.get("ca") else None, "verif_lc" if c.get("lc") else None))
        need((LC.seen is not None) == bool(c.get("lc")), "light curve model use")
        need((CA.seen is not None) == bool(c.get("ca")), "activity model use")
        check_mag(c, inp, out, lambda r: expect_H(r, main), lambda r: own_pars(r, fun, per))
    for i in range(len(inp)):
        need(same(out.iloc[i]["H_" + main], inp.iloc[i]["H_" + main]), "reported H changed")
        need(close(out.iloc[i]["H_filter"], expect_H(inp.iloc[i], main)), "H_filter")
        for k in ("ObjID", "optFilter", "phase_deg", "Range_LTC_km"):
            need(same(out.iloc[i][k], inp.iloc[i][k]), f"column {k} changed")


def gen_infilter(rnd, k):
    n = nrows(rnd)
    fun = rnd.choice(list(PARS))
    d = gen_obs(rnd, fun, ["r"], "r", False, n)
    d["H_filter"] = [rnd.uniform(-2, 25) for _ in range(n)]
    if rnd.random() < 0.3:
        d["Obj_Sun_LTC_km"] = [AU * rnd.uniform(0.1, 40) for _ in range(n)]
    return {"df": d, "function": fun, "lc": rnd.choice([None, "model"]), "ca": None, "index": rnd.choice([None, "shuffled"]),
            "colname": rnd.choice(["trailedSourceMagTrue", "out"])}


def run_infilter(c):
    df = index_for(mkframe(c["df"]), c.get("index"))
    inp = df.copy()
    if len(df) == 0 or c.get("ca") and c["colname"] != "trailedSourceMagTrue":
        raise Skip()
    with plugins():
        out = must_return(call(fn(M + "PPCalculateApparentMagnitudeInFilter:PPCalculateApparentMagnitudeInFilter"), df, c["function"], ["r"],
                               colname=c["colname"], lightcurve_choice="verif_lc" if c.get("lc") else None,
                               cometary_activity_choice="verif_ca" if c.get("ca") else None))
        check_mag(c, inp, out, lambda r: r["H_filter"], lambda r: [r[p] for p in PARS[c["function"]]], c["colname"])
    for k in inp.columns:
        if k != c["colname"]:
            need(all(same(a, b) for a, b in zip(out[k], inp[k])), f"column {k} changed")


def gen_unknown(rnd, k):
    d = gen_obs(rnd, "none", ["r"], "r", False, 2)
    d["H_filter"] = [1.0, 2.0]
    for ps in PARS.values():
        for p in ps:
            d[p] = [0.15, 0.2]
    return {"df": d, "function": rnd.choice(["unknown", "hg", "", "HG12_Pen16", "NONE", "Linear"])}


def run_unknown(c):
    df = mkframe(c["df"])
    if len(df) == 0:
        raise Skip()
    must_exit(call(fn(M + "PPCalculateApparentMagnitudeInFilter:PPCalculateApparentMagnitudeInFilter"), df, c["function"], ["r"]), f"unknown law {c['function']!r}")


def gen_header(rnd, k):
    c = setup(rnd)
    fs, main = c["filters"], c["main"]
    cols = ["ObjID", "H_" + main] + [f"{x}-{main}" for x in fs if x != main] + ["GS", "extra"]
    head = cols[1:]
    rnd.shuffle(head)
    c["cols"] = ["ObjID"] + head
    c["break"] = rnd.choice([None, None, None, "colour", "longer", "noH", "sep", "filter"])
    c["sep"] = rnd.choice(["csv", "comma", "whitespace"])
    return c


def run_header(c):
    cols, fs, main, b = list(c["cols"]), list(c["filters"]), c["main"], c["break"]
    if b in ("colour", "longer"):
        if len(fs) < 2:
            raise Skip()
        i = cols.index(f"{fs[-1]}-{main}")
        if b == "longer":  # only columns whose name contains that of the colour
            cols[i:i + 1] = [f"{fs[-1]}-{main}_sigma", f"a{fs[-1]}-{main}"]
        else:
            del cols[i]
    if b == "noH":
        cols.remove("H_" + main)
    if b == "filter":
        fs = [x for x in LETTERS if x not in fs][:2] or None
        if not fs:
            raise Skip()
    sep = c["sep"]
    asked = sep if b != "sep" else ("whitespace" if sep != "whitespace" else "csv")
    with scratch() as d:
        p = os.path.join(d, "p.txt")
        with open(p, "w") as f:
            f.write((" " if sep == "whitespace" else ",").join(cols) + "\n")
        o = call(fn(M + "PPGetMainFilterAndColourOffsets:PPGetMainFilterAndColourOffsets"), p, fs, asked)
    if b:
        must_exit(o, f"physical parameter header broken ({b})")
        return
    m, off = must_return(o)
    need(m == main, f"main filter {m} instead of {main}")
    need((off or []) == [f"{x}-{main}" for x in fs[1:]], f"colour offsets {off}")


TARGETS = {"colours": Target(gen_colours, run_colours), "colours_bad": Target(gen_bad, run_bad, weight=0.3),
           "apparent": Target(gen_apparent, run_apparent, weight=2), "infilter": Target(gen_infilter, run_infilter),
           "infilter_bad": Target(gen_unknown, run_unknown, weight=0.2), "main_filter": Target(gen_header, run_header, lambda c: None, weight=0.5)}

from focus import focus

TARGETS["run"] = focus(0.8, "LSST", lambda rnd: {})
TARGETS["run_des"] = focus(0.4, "DES", lambda rnd: {})
