"""C28 plug-in models, concrete contracts: real subclasses, defined and forgotten
again, against an independent list of what was defined."""
import gc
import numpy as np
import pandas as pd
from common import *

KINDS = {"activity": ("sorcha.activity.activity_registration", "sorcha.activity.base_activity:AbstractCometaryActivity", "register_activity_subclasses", "update_activity_subclasses", "CA_METHODS"),
         "lightcurve": ("sorcha.lightcurves.lightcurve_registration", "sorcha.lightcurves.base_lightcurve:AbstractLightCurve", "register_lc_subclasses", "update_lc_subclasses", "LC_METHODS")}
NAMES = ["identity", "sin", "Sin", "sin2", "sin ", "comet", "lsst_comet", "none", "a", "aa", "Identity", "identity "]
CALLS = []
FROZEN = []


def define(kind, name, required=None, mag=None):
    base = fn(KINDS[kind][1])

    def init(self):
        base.__init__(self, *([list(required)] if required is not None else []))

    def compute(self, df, *a):
        CALLS.append((type(self), df.copy(), a))
        self._validate_column_names(df)
        if kind == "lightcurve":
            return np.full(len(df), mag or 0.0) + np.arange(len(df))
        out = df.copy()
        out["trailedSourceMagTrue"] = out["trailedSourceMagTrue"] - (mag or 0.0)
        return out

    return type("M_" + "".join(ch for ch in name if ch.isalnum()), (base,), {"__init__": init, "compute": compute, "name_id": staticmethod(lambda: name)})


class Registry:
    """the real registry, put back as it was afterwards"""

    def __init__(self, kind):
        self.kind = kind

    def __enter__(self):
        self.d = fn(f"{KINDS[self.kind][0]}:{KINDS[self.kind][4]}")
        self.old = dict(self.d)
        CALLS.clear()
        gc.collect()
        if not FROZEN:
            FROZEN.append(1)
            gc.freeze()  # later collections look at the model classes only
        return self.d

    def __exit__(self, *a):
        self.d.clear()
        self.d.update(self.old)
        CALLS.clear()
        gc.collect()


def gen_history(rnd, k):
    dup = rnd.random() < 0.5
    pool = rnd.sample(NAMES[1:], 6) if not dup else rnd.choices(NAMES, k=8)
    ops = []
    for _ in range(rnd.choice([0, 1, 2, 4, 7])):
        ops.append(rnd.choice(["update", "rebuild"]) if rnd.random() < 0.4 or not pool else "def:" + pool.pop())
    return {"kind": rnd.choice(list(KINDS)), "ops": ops + ["update", "rebuild"]}


def run_history(c):
    if "ops" not in c:
        raise Skip()
    kind = c["kind"]
    mod, base, reg, upd, _ = KINDS[kind]
    with Registry(kind) as table:
        live = list(fn(base).__subclasses__())
        n0 = len(live)
        want = dict(table)
        for op in c["ops"]:
            if op.startswith("def:"):
                live.append(define(kind, op[4:]))
            elif op == "update":
                must_return(call(fn(f"{mod}:{upd}")))
                for m in live:
                    want.setdefault(m.name_id(), m)
                need(dict(table) == want, f"after an update the registry has {sorted(table)}, expected {sorted(want)} with the first model of each name")
            else:
                names = [m.name_id() for m in live]
                out = call(fn(f"{mod}:{reg}"))
                if len(set(names)) != len(names):
                    need(out.exc is not None, f"two models named alike accepted: {names}")
                else:
                    got = must_return(out)
                    need(dict(got) == {m.name_id(): m for m in live}, f"registry built as {got}, models are {names}")
        need(len(live) == n0 + sum(1 for o in c["ops"] if o.startswith("def:")), "harness")
        del live, want
        table.clear()


def gen_columns(rnd, k):
    pool = ["a", "b", "a ", "A", "time", "fieldMJD_TAI", "c d"]
    return {"kind": rnd.choice(list(KINDS)), "required": rnd.choice([None, []]) if rnd.random() < 0.1 else rnd.sample(pool, rnd.choice([1, 2, 3, 5])),
            "columns": rnd.sample(pool, rnd.choice([0, 1, 3, 5, 6, 7])), "n": rnd.choice([0, 1, 3])}


def run_columns(c):
    if "columns" not in c:
        raise Skip()
    df = pd.DataFrame({x: [1.0] * c["n"] for x in c["columns"]})
    cls = define(c["kind"], "columns_test", c["required"])
    out = call(cls()._validate_column_names, df)
    missing = [x for x in (c["required"] or []) if x not in c["columns"]]
    if missing:
        need(out.exc in ("ValueError", "SystemExit"), f"columns {missing} are missing but the model went on ({out.exc})")
    else:
        must_return(out)


def gen_identity(rnd, k):
    return {"n": rnd.choice([0, 1, 2, 7]), "seed": rnd.randint(0, 10**6), "time": rnd.random() < 0.8, "ints": rnd.random() < 0.3, "kind": rnd.choice(list(KINDS))}


def run_identity(c):
    if "seed" not in c:
        raise Skip()
    R = random.Random(c["seed"])
    n = c["n"]
    df = pd.DataFrame({"ObjID": [str(R.randrange(5)) for _ in range(n)], "trailedSourceMagTrue": [R.uniform(10, 25) for _ in range(n)]})
    if c["time"]:
        df["fieldMJD_TAI"] = [R.randrange(60000, 61000) if c["ints"] else R.uniform(60000, 61000) for _ in range(n)]
    df.index = [3 * i + 1 for i in range(n)]
    inp = df.copy()
    with Registry(c["kind"]) as table:
        need("identity" in table, "the identity model is not registered")
        m = must_return(call(table["identity"]))
    if c["kind"] == "lightcurve":
        out = call(m.compute, df)
        if not c["time"]:
            need(out.exc == "ValueError", f"missing time column not refused ({out.exc})")
        else:
            v = must_return(out)
            need(len(v) == n and all(float(x) == 0 for x in np.asarray(v)), f"identity light curve shifts by {list(v)}")
    else:
        v = must_return(call(m.compute, df, ["r"], np.ones(n), np.ones(n), np.zeros(n)))
        rows_equal(v, inp, [True] * n, "identity activity", reset=False)
    rows_equal(df, inp, [True] * n, "input table", reset=False)


def gen_select(rnd, k):
    names = rnd.sample(NAMES[1:], rnd.choice([1, 2, 4]))
    return {"kind": rnd.choice(list(KINDS)), "names": names, "choice": rnd.choice(names + ["identity", None]), "seed": rnd.randint(0, 10**6), "n": rnd.choice([1, 3, 8]),
            "order": rnd.random() < 0.5}


def run_select(c):
    if "names" not in c:
        raise Skip()
    R = random.Random(c["seed"])
    n, kind, ch = c["n"], c["kind"], c["choice"]
    if ch is not None and ch != "identity" and ch not in c["names"]:
        raise Skip()
    AU = 149597870.7
    df = pd.DataFrame({"ObjID": [str(i) for i in range(n)], "fieldMJD_TAI": [60000.0 + i for i in range(n)], "Range_LTC_km": [R.uniform(0.5, 5) * AU for _ in range(n)],
                       "Obj_Sun_LTC_km": [R.uniform(1, 5) * AU for _ in range(n)], "phase_deg": [R.uniform(0, 30) for _ in range(n)], "H_filter": [R.uniform(10, 20) for _ in range(n)]})
    base = df["H_filter"] + 5 * np.log10(df["Range_LTC_km"] / AU) + 5 * np.log10(df["Obj_Sun_LTC_km"] / AU)
    with Registry(kind) as table:
        mods = {nm: define(kind, nm, mag=(i + 1) * 0.37) for i, nm in enumerate(c["names"])}
        must_return(call(fn(f"{KINDS[kind][0]}:{KINDS[kind][3]}")))
        kw = {"lightcurve_choice" if kind == "lightcurve" else "cometary_activity_choice": ch}
        o = must_return(call(fn("sorcha.modules.PPCalculateApparentMagnitudeInFilter:PPCalculateApparentMagnitudeInFilter"), df.copy(), "none", ["r"], **kw))
        if ch in mods:
            need([x[0] for x in CALLS] == [mods[ch]], f"{ch!r} chosen, used {[x[0].name_id() for x in CALLS]}")
            a = (c["names"].index(ch) + 1) * 0.37
            want = base + a + np.arange(n) if kind == "lightcurve" else base - a
        else:
            need(not CALLS, f"{ch!r} chosen, used {[x[0].name_id() for x in CALLS]}")
            want = base
        need(close(o["trailedSourceMagTrue"], want), f"magnitudes {list(o['trailedSourceMagTrue'])}, expected {list(want)}")
        del mods
        table.clear()


SECT = {"lightcurve": ("lightcurveConfigs", "lc_model"), "activity": ("activityConfigs", "comet_activity")}


def gen_config(rnd, k):
    return {"kind": rnd.choice(list(KINDS)), "models": rnd.sample(NAMES[1:], rnd.choice([0, 1, 3])), "choice": rnd.choice(NAMES + [None, "nothing", "IDENTITY", "iden"])}


def run_config(c):
    if "models" not in c:
        raise Skip()
    kind, ch = c["kind"], c["choice"]
    with Registry(kind) as table:
        mods = [define(kind, nm) for nm in c["models"]]
        must_return(call(fn(f"{KINDS[kind][0]}:{KINDS[kind][3]}")))
        cls, key = SECT[kind]
        out = call(fn("sorcha.utilities.sorchaConfigs:" + cls), **({} if ch is None else {key: ch}))
        if ch in (None, "none"):
            need(getattr(must_return(out), key) is None, f"{ch!r} selects {getattr(out.value, key)!r}")
        elif ch in c["models"] or ch == "identity":
            need(getattr(must_return(out), key) == ch, f"{ch!r} selects {getattr(out.value, key)!r}")
        else:
            must_exit(out, f"{ch!r} is not registered")
        del mods
        table.clear()


INI = """[INPUT]
ephemerides_type = external
eph_format = csv
size_serial_chunk = 10
aux_format = whitespace
pointing_sql_query = SELECT 1
[FILTERS]
observing_filters = r,g
[PHASECURVES]
phase_function = HG
[FOV]
camera_model = circle
circle_radius = 1.75
[FADINGFUNCTION]
fading_function_on = False
[OUTPUT]
output_format = csv
output_columns = basic
[LIGHTCURVE]
lc_model = {lc}
[ACTIVITY]
comet_activity = {ca}
"""


def gen_execute(rnd, k):
    return {"lc": rnd.choice(["none", "identity", "plug_lc", "missing"]), "ca": rnd.choice(["none", "identity", "plug_ca", "missing"]),
            "cpp": rnd.random() < 0.7, "survey": rnd.choice(["rubin_sim", "RUBIN_SIM", "DES", "des"])}


def run_execute(c):
    if "cpp" not in c or not isinstance(c["cpp"], bool):
        raise Skip()
    import argparse
    import sorcha.sorcha as S
    import sorcha.des as D
    run = fn("sorcha_cmdline.run:execute")
    ran = []
    with scratch() as d, Registry("lightcurve") as t1, Registry("activity") as t2:
        mods = [define("lightcurve", "plug_lc"), define("activity", "plug_ca")]
        for nm in ("params.txt", "orbits.txt", "eph.csv", "pointing.db", "cpp.txt"):
            open(os.path.join(d, nm), "w").write("x\n")
        open(os.path.join(d, "c.ini"), "w").write(INI.format(**c))
        a = argparse.Namespace(c="c.ini", p="params.txt", ob="orbits.txt", er="eph.csv", ew=None, ar=None, pd="pointing.db", o=d, t="stem", s=c["survey"], l=False, f=False,
                               st=None, vd=None, cp="cpp.txt" if c["cpp"] else None)
        o1, o2 = S.runLSSTSimulation, D.runDESSimulation
        S.runLSSTSimulation = lambda *x: ran.append(("lsst", x))
        D.runDESSimulation = lambda *x: ran.append(("des", x))
        old = dict(os.environ)
        try:
            out = call(run, a)
        finally:
            S.runLSSTSimulation, D.runDESSimulation = o1, o2
            os.environ.clear()
            os.environ.update(old)
            logging.disable(logging.CRITICAL)
            for h in list(logging.getLogger().handlers):
                logging.getLogger().removeHandler(h)
                h.close()
        why = "unregistered model" if "missing" in (c["lc"], c["ca"]) else "no complex parameters" if not c["cpp"] and (c["lc"] != "none" or c["ca"] != "none") else None
        if why:
            need(not ran, f"ran although: {why}")
            must_exit(out, why)
        else:
            must_return(out)
            need([x[0] for x in ran] == ["des" if c["survey"] in ("DES", "des") else "lsst"], f"ran {[x[0] for x in ran]}")
            sc = ran[0][1][1]
            got = (sc.lightcurve.lc_model, sc.activity.comet_activity)
            need(got == tuple(None if x == "none" else x for x in (c["lc"], c["ca"])), f"selected {got}")
        del mods
        t1.clear()
        t2.clear()


TARGETS = {"register": Target(gen_history, run_history, weight=2), "update": Target(gen_history, run_history, weight=1), "columns": Target(gen_columns, run_columns),
           "identity": Target(gen_identity, run_identity), "select": Target(gen_select, run_select, weight=2), "config": Target(gen_config, run_config),
           "execute": Target(gen_execute, run_execute, weight=2)}
