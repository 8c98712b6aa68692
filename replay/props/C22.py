"""C22 what is written to the results and statistics files."""
import sqlite3
from common import *
import pipeline as PL

BASIC, POS, MAG = PL.BASIC, PL.POSCOLS, PL.MAGCOLS
SUN = ["Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km"]
M = "sorcha.modules.PPOutput:"
EXTRA = ["Obs_Sun_x_km", "RARateCosDec_deg_day", "SNRPSFMag", "H_filter"]
ALL = ["ObjID", "FieldID", "fieldMJD_TAI"] + sorted(set(BASIC + POS + MAG + SUN + EXTRA) - {"ObjID", "FieldID", "fieldMJD_TAI", "Obj_Sun_LTC_km", "optFilter"}) + ["optFilter"]


def cfg(**kw):
    o = type("Cfg", (), {})()
    o.__dict__.update(kw)
    return o


def rows_of(c):
    R = random.Random(c["seed"])
    ids = c["ids"]
    out = []
    for i in range(c["n"]):
        r = {}
        for k in ALL:
            if k == "ObjID":
                r[k] = ids[min(len(ids) - 1, i * len(ids) // max(1, c["n"]))] if R.random() < 0.9 else R.choice(ids)
            elif k == "FieldID":
                r[k] = R.randint(1, 10**6)
            elif k == "optFilter":
                r[k] = R.choice(c["filters"][: R.choice([1, len(c["filters"])])])
            elif k in SUN:
                r[k] = R.uniform(-1e9, 1e9)
            elif k in POS:
                r[k] = R.choice([R.uniform(-360, 360), 0.5, 1.5, 2.5, -0.5, 0.0, 359.9999999, 1e-9, 12.3449999])
            elif k in MAG:
                r[k] = R.choice([R.uniform(14, 26), 0.5, 20.5, 21.5, 22.25, 24.4999999, 1e-7])
            elif k == "phase_deg":
                r[k] = R.uniform(0, 180)
            else:
                r[k] = R.choice([R.uniform(-1e3, 1e3), 0.1 + 0.2, 1 / 3, R.uniform(-1e-12, 1e-12)])
        if c["link"] != "off":
            r["object_linked"] = R.random() < 0.6
            r["date_linked_MJD"] = 60000.0 + R.randint(0, 50) if r["object_linked"] else float("nan")
        out.append(r)
    return out


def table(c, rows):
    df = pd.DataFrame(rows, columns=ALL + (["object_linked", "date_linked_MJD"] if c["link"] != "off" else []))
    if not rows:
        df = df.astype({k: float for k in df.columns if k not in ("ObjID", "FieldID", "optFilter", "object_linked")} | {"FieldID": int, "ObjID": "str"} | ({"object_linked": bool} if "object_linked" in df else {}))
    df["optFilter"] = pd.Categorical(df["optFilter"], categories=c["filters"])
    for k in c.get("drop", []):
        df = df.drop(columns=[k])
    return df


def gen(rnd, k):
    fl = rnd.sample("ugrizy", rnd.choice([1, 2, 3, 6]))
    n = rnd.choice([1, 1, 2, 3, 7, 20])
    k = rnd.choice(["basic", "all", "list", "list", "bad"])
    cols = {"list": rnd.sample(ALL + ["Obj_Sun_LTC_km"], rnd.choice([2, 3, 8])), "bad": ["ObjID", "RA_deg", rnd.choice(["RA", "nothing", "objid"])]}.get(k, k)
    return {"seed": rnd.randint(0, 10**9), "n": n, "filters": fl, "ids": rnd.choice([["A", "BB", "CCCCCC"], ["1", "02", "10"], ["X"], ["S1", "S1a", "2011_AB"]]), "link": rnd.choice(["off", "drop", "keep"]),
            "format": rnd.choice(["csv", "csv", "sqlite3", "hdf5"]), "columns": cols, "posdec": rnd.choice([None, None, 0, 1, 3, 7]), "magdec": rnd.choice([None, None, 0, 1, 3]),
            "cuts": sorted(rnd.sample(range(1, n), rnd.randint(0, min(3, n - 1)))) if n > 1 else [], "stem": rnd.choice(["out", "a.b", "x-1"]),
            "drop": rnd.sample(["RATrue_deg", "PSFMagTrue", "trailedSourceMagTrue", "DecTrue_deg"], rnd.choice([0, 0, 2])) if k == "all" else []}


def run(c):
    if "seed" not in c:
        raise Skip()
    rows = rows_of(c)
    bad = isinstance(c["columns"], list) and any(x not in ALL + ["Obj_Sun_LTC_km", "object_linked", "date_linked_MJD"] for x in c["columns"])
    sc = cfg(output=cfg(output_format=c["format"], output_columns=c["columns"], position_decimals=c["posdec"], magnitude_decimals=c["magdec"]),
             linkingfilter=cfg(ssp_linking_on=c["link"] != "off", drop_unlinked=c["link"] != "keep"))
    cuts = [0] + c["cuts"] + [len(rows)]
    with scratch() as d:
        a = cfg(outpath=d, outfilestem=c["stem"])
        for lo, hi in zip(cuts, cuts[1:]):
            df = table(c, rows[lo:hi])
            out = call(fn(M + "PPWriteOutput"), a, sc, df)
            if bad:
                must_exit(out, "unknown column")
                need(not os.listdir(d), "something is written although the columns are refused")
                return
            must_return(out)
        p = os.path.join(d, c["stem"] + {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[c["format"]])
        need(os.listdir(d) == [os.path.basename(p)], f"files {os.listdir(d)}")
        if c["format"] == "sqlite3":
            must_return(call(fn(M + "PPIndexSQLDatabase"), p))
        t = read(c["format"], p)
    full = table(c, rows)
    want = BASIC + (["object_linked"] if c["link"] == "keep" else []) if c["columns"] == "basic" else list(full.columns) + ["Obj_Sun_LTC_km"] if c["columns"] == "all" else c["columns"]
    need(list(t.columns) == want, f"columns {list(t.columns)}, specified {want}")
    need(len(t) == len(rows), f"{len(t)} rows written, {len(rows)} detections")
    for i, r in enumerate(rows):
        for k in want:
            x = math.sqrt(sum(r[s] ** 2 for s in SUN)) if k == "Obj_Sun_LTC_km" else r[k]
            g = t[k].iloc[i]
            if isinstance(x, str):
                need(str(g) == x, f"{k} of row {i}: {g!r}, simulated {x!r}")
                continue
            if isinstance(x, bool):
                need(bool(g) == x, f"{k} of row {i}: {g!r}")
                continue
            if x != x:
                need(pd.isna(g), f"{k} of row {i}: {g!r}, specified NaN")
                continue
            dec = c["posdec"] if k in POS else c["magdec"] if k in MAG else None
            g = float(g)
            if dec is None:
                need(abs(g - x) <= 1e-15 * abs(x) if k != "Obj_Sun_LTC_km" else abs(g - x) <= 1e-13 * abs(x), f"{k} of row {i}: {g!r}, simulated {x!r}")
            else:
                u = 10.0 ** -dec
                need(abs(g - x) <= u / 2 * (1 + 1e-6) + 1e-13 * abs(x), f"{k} of row {i}: {g!r} is not {x!r} rounded to {dec} decimals")
                need(abs(g / u - round(g / u)) < 1e-6, f"{k} of row {i}: {g!r} is not rounded to {dec} decimals")


def read(fmt, p):
    if fmt == "csv":
        return pd.read_csv(p, dtype={"ObjID": str}, keep_default_na=True, float_precision="round_trip")
    if fmt == "sqlite3":
        con = sqlite3.connect(p)
        try:
            names = [x[0] for x in con.execute("select name from sqlite_master where type='table'")]
            need(names == ["sorcha_results"], f"tables {names}")
            return pd.read_sql("select * from sorcha_results order by rowid", con)
        finally:
            con.close()
    return pd.read_hdf(p, key="sorcha_results")


def gen_stats(rnd, k):
    c = gen(rnd, k)
    c.update(n=rnd.choice([1, 2, 5, 12, 40]), drop=[], cuts=[], ret=rnd.random() < 0.3, equal=rnd.random() < 0.2)
    c["times"] = 1 if c["ret"] else rnd.choice([1, 1, 2, 3])
    return c


def run_stats(c):
    if "times" not in c:
        raise Skip()
    sc = cfg(linkingfilter=cfg(ssp_linking_on=c["link"] != "off", drop_unlinked=c["link"] != "keep"))
    R = random.Random(c["seed"])
    want = {}
    with scratch() as d:
        frames = []
        for j in range(c["times"]):
            rows = rows_of({**c, "seed": c["seed"] + j, "ids": [f"{x}_{j}" for x in c["ids"]]})
            if c["equal"]:
                for r in rows:
                    r["trailedSourceMag"] = 20.0
            linked = {r["ObjID"]: R.random() < 0.6 for r in rows}
            for r in rows:
                if c["link"] != "off":
                    r["object_linked"], r["date_linked_MJD"] = linked[r["ObjID"]], (60010.0 + len(r["ObjID"]) if linked[r["ObjID"]] else float("nan"))
                want.setdefault((r["ObjID"], r["optFilter"]), []).append(r)
            df = table(c, rows)
            df = df.sample(frac=1, random_state=c["seed"] % 1000).reset_index(drop=True) if c["seed"] % 2 else df
            before = df.copy()
            out = call(fn("sorcha.modules.PPStats:stats"), df, "st", d, sc, c["ret"])
            v = must_return(out)
            need(df.equals(before), "the detections are changed")
            if c["ret"]:
                frames.append(v.reset_index())
        if c["ret"]:
            need(not os.listdir(d), "written although only returned")
            t = frames[0]
        else:
            need(os.listdir(d) == ["st.csv"], f"files {os.listdir(d)}")
            t = pd.read_csv(os.path.join(d, "st.csv"), dtype={"ObjID": str, "optFilter": str})
    got = {}
    for r in t.to_dict("records"):
        k = (str(r["ObjID"]), str(r["optFilter"]))
        if int(r["number_obs"]) == 0:
            continue
        need(k not in got, f"{k} twice")
        got[k] = r
    need(set(got) == set(want), f"statistics of {sorted(set(got) ^ set(want))[:3]}")
    for k, rs in want.items():
        m, p = [r["trailedSourceMag"] for r in rs], [r["phase_deg"] for r in rs]
        e = {"number_obs": len(rs), "min_apparent_mag": min(m), "max_apparent_mag": max(m), "median_apparent_mag": float(np.median(m)), "min_phase": min(p), "max_phase": max(p)}
        if c["link"] != "off":
            dl = rs[0]["date_linked_MJD"]
            need(same(float(got[k]["date_linked_MJD"]), dl), f"{k}: date linked {got[k]['date_linked_MJD']}, specified {dl}")
        if c["link"] == "keep":
            need(bool(got[k]["object_linked"]) == rs[0]["object_linked"], f"{k}: linked flag")
        else:
            need("object_linked" not in got[k], "linked flag")
        for nm, x in e.items():
            need(abs(float(got[k][nm]) - x) <= 1e-12 * abs(x), f"{k}: {nm} {got[k][nm]}, true value {x}")


TARGETS = {"pipeline_output": Target(gen, run), "writers": Target(gen, run, weight=0.3), "stats": Target(gen_stats, run_stats, weight=0.7), "pipeline": PL.target(0.6)}
