"""C21 reading the pointing database and matching detections to pointings."""
import sqlite3
from common import *
import pipeline as PL

M = "sorcha.modules."
SKIP = ["fieldJD_TDB", "pixels_begin", "pixels_end"] + [f"{n}_{a}" for n in ("visit_vector", "pixels", "r_obs", "v_obs", "r_sun", "v_sun") for a in "xyz"]
POINT = ["visitTime", "visitExposureTime", "seeingFwhmGeom_arcsec", "seeingFwhmEff_arcsec", "fieldFiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg", "fieldRotSkyPos_deg"]
FILTERS = ["u", "g", "r", "i", "z", "y", "Y"]


def gen_match(rnd, k):
    npt = rnd.choice([1, 2, 3, 8, 30])
    return {"seed": rnd.randint(0, 10**9), "np": npt, "n": rnd.choice([0, 1, 2, 5, 20, 60]), "ids": rnd.choice(["seq", "sparse", "big", "desc"]), "ar": rnd.random() < 0.4, "des": rnd.random() < 0.3,
            "outside": rnd.choice([0, 0, 0.2, 0.9]), "off": rnd.choice([None, None, None, 0.7, 1.5, -3.0, 400.0, "swap"]), "jitter": rnd.choice([0.0, 0.0, 2e-4]), "gaps": rnd.choice([0, 0, 0.1, 0.6]), "index": rnd.choice(["plain", "offset", "shuffled"])}


def run_match(c):
    if "np" not in c:
        raise Skip()
    R = random.Random(c["seed"])
    n = c["np"]
    ids = {"seq": list(range(n)), "sparse": R.sample(range(10**5), n), "big": [2**40 + 3 * i for i in range(n)], "desc": list(range(100 + n, 100, -1))}[c["ids"]]
    cats = R.sample(FILTERS, 3)
    rows = []
    for i in ids:
        p = {"FieldID": i, "observationId_": i, "optFilter": R.choice(cats), "observationStartMJD_TAI": 60000 + R.uniform(0, 3650)}
        p["observationMidpointMJD_TAI"] = p["observationStartMJD_TAI"] + 17 / 86400
        for x in POINT:
            p[x] = R.uniform(0, 50)
        if c["ar"]:
            for x in SKIP:
                p[x] = R.uniform(-1, 1)
        if c["des"]:
            p["c"], p["k"] = R.uniform(0.5, 1), R.uniform(1, 5)
        if R.random() < c.get("gaps", 0):  # a value the survey does not know
            p[R.choice(POINT)] = float("nan")
        rows.append(p)
    P = pd.DataFrame(rows)
    P["optFilter"] = P["optFilter"].astype("category")
    P.index = sorted(R.sample(range(5 * n), n)) if c["index"] != "plain" else P.index
    byid = {p["FieldID"]: p for p in rows}
    ob = []
    for j in range(c["n"]):
        if R.random() < c["outside"]:
            f, t = R.choice([x for x in (-1, 10**7, 10**7 + 1)]), 60000 + R.uniform(0, 3650)
        else:
            p = R.choice(rows)
            f, t = p["FieldID"], p["observationStartMJD_TAI"] + c["jitter"] * R.random()
        ob.append({"ObjID": f"o{R.randint(0, 5)}", "FieldID": f, "fieldMJD_TAI": t, "RA_deg": R.uniform(0, 360), "H_filter": float("nan") if R.random() < c.get("gaps", 0) else R.uniform(10, 20)})
    bad = None
    inside = [o for o in ob if o["FieldID"] in byid]
    if c["off"] is not None and inside:
        o = R.choice(inside)
        if c["off"] == "swap":
            a, b = min(rows, key=lambda p: p["observationStartMJD_TAI"]), max(rows, key=lambda p: p["observationStartMJD_TAI"])
            if b["observationStartMJD_TAI"] - a["observationStartMJD_TAI"] > 1.01:
                o["FieldID"], o["fieldMJD_TAI"], bad = a["FieldID"], b["observationStartMJD_TAI"], True
        else:
            o["fieldMJD_TAI"] += c["off"]
            bad = abs(c["off"]) > 1.01
            if not bad:
                raise Skip()
    df = pd.DataFrame(ob, columns=["ObjID", "FieldID", "fieldMJD_TAI", "RA_deg", "H_filter"])
    if not ob:
        df = df.astype({"FieldID": int, "fieldMJD_TAI": float, "RA_deg": float, "H_filter": float})
    index_for(df, c["index"])
    P0 = P.copy()
    out = call(fn(M + "PPMatchPointingToObservations:PPMatchPointingToObservations"), df.copy(), P)
    need(P.equals(P0), "the pointing table is changed")
    if bad:
        must_exit(out, "times disagree")
        return
    t = must_return(out)
    exp = [o for o in ob if o["FieldID"] in byid]
    want = list(df.columns) + ["optFilter"] + POINT + (["c", "k"] if c["des"] else [])
    need(sorted(t.columns) == sorted(want), f"columns {sorted(set(t.columns) ^ set(want))}")
    need(len(t) == len(exp), f"{len(t)} detections, specified {len(exp)}")
    need(list(t.index) == list(range(len(t))), "rows not renumbered")
    for i, o in enumerate(exp):
        for x in want:
            v = o[x] if x in o else byid[o["FieldID"]][x]
            need(t[x].iloc[i] == v or v != v and pd.isna(t[x].iloc[i]), f"{x} of row {i}: {t[x].iloc[i]!r}, specified {v!r}")


def gen_read(rnd, k):
    return {"seed": rnd.randint(0, 10**9), "rows": rnd.choice([0, 1, 2, 5, 30]), "filters": rnd.sample(FILTERS, rnd.choice([1, 2, 3, 6])), "survey": rnd.choice(["rubin_sim", "RUBIN_SIM", "DES", "des", "rubin_sim", "LSST"]),
            "ff": rnd.choice([True, False, None]), "missing": rnd.choice([None, None, "c", "k", "nullc", "nullk", "nullk_other"]), "bad": rnd.choice([None] * 6 + ["query", "nodb"]), "same": rnd.random() < 0.1}


def run_read(c):
    if "survey" not in c or "bad" not in c:
        raise Skip()
    R = random.Random(c["seed"])
    des = c["survey"] in ("DES", "des")
    rows = []
    ids = R.sample(range(10**6), c["rows"])
    for i in ids:
        p = {"observationId": i, "visitTime": R.choice([34.0, 30.0, 0.0, R.uniform(1, 100)]), "visitExposureTime": R.choice([30.0, 29.2, R.uniform(1, 200)]), "filter": R.choice(FILTERS if not c["same"] else FILTERS[:1]),
             "fieldRA_deg": R.uniform(0, 360)}
        p["observationMidpointMJD_TAI" if des else "observationStartMJD_TAI"] = 60000 + R.uniform(0, 3650)
        for x in "ck":
            if c["missing"] != x:
                p[x] = R.uniform(0.1, 5)
        rows.append(p)
    if c["missing"] and c["missing"].startswith("null") and rows:
        r = R.choice(rows)
        r[c["missing"][4]] = None
    cols = ["observationId", "visitTime", "visitExposureTime", "filter", "fieldRA_deg", "observationMidpointMJD_TAI" if des else "observationStartMJD_TAI"] + [x for x in "ck" if c["missing"] != x]
    kept = [p for p in rows if p["filter"] in c["filters"]]
    with scratch() as d:
        con = sqlite3.connect("p.db")
        pd.DataFrame(rows, columns=cols).to_sql("observations", con, index=False)
        con.commit()
        con.close()
        before = open("p.db", "rb").read()
        q = f"SELECT {', '.join(cols)} FROM observations order by rowid"
        if c["bad"] == "query":
            q = q.replace("fieldRA_deg", "noSuchColumn")
        a = ["p.db" if c["bad"] != "nodb" else "nowhere.db", c["filters"], q, c["survey"]]
        if c["bad"] == "nodb":
            raise Skip()
        out = call(fn(M + "PPReadPointingDatabase:PPReadPointingDatabase"), *(a if c["ff"] is None else a + [c["ff"]]))
        need(open("p.db", "rb").read() == before and os.listdir(d) == ["p.db"], "the database is changed")
    refuse = None
    if c["bad"]:
        refuse = "the query is wrong"
    elif not kept:
        refuse = "no pointing in the filters"
    elif c["survey"] == "LSST":
        refuse = "unknown survey"
    elif c["ff"] and des and (c["missing"] in ("c", "k") or any(p.get("c") is None or p.get("k") is None for p in kept)):
        refuse = "c or k missing"
    if refuse:
        must_exit(out, refuse)
        return
    t = must_return(out)
    need(len(t) == len(kept), f"{len(t)} pointings, specified {len(kept)}")
    want = [x for x in cols if x not in ("observationId", "filter")] + ["FieldID", "observationId_", "optFilter", "observationStartMJD_TAI", "observationMidpointMJD_TAI"]
    need(set(t.columns) == set(want), f"columns {set(t.columns) ^ set(want)}")
    for i, p in enumerate(kept):
        g = lambda x: t[x].iloc[i]
        need(g("FieldID") == p["observationId"] and g("observationId_") == p["observationId"] and g("optFilter") == p["filter"], f"row {i} is not pointing {p['observationId']}")
        if des:
            m = p["observationMidpointMJD_TAI"]
            s = m - p["visitExposureTime"] / 2 / 86400
        else:
            s = p["observationStartMJD_TAI"]
            m = s + p["visitTime"] / 2 / 86400
        need(abs(g("observationStartMJD_TAI") - s) < 3e-10 and abs(g("observationMidpointMJD_TAI") - m) < 3e-10, f"times of row {i}: {g('observationStartMJD_TAI')!r} {g('observationMidpointMJD_TAI')!r}, specified {s!r} {m!r}")
        for x in cols:
            if x in ("observationId", "filter"):
                continue
            v = p[x]
            need(pd.isna(g(x)) if v is None else g(x) == v or abs(g(x) - v) < 3e-10 and "MJD" in x, f"{x} of row {i}: {g(x)!r}, specified {v!r}")


TARGETS = {"match": Target(gen_match, run_match), "read": Target(gen_read, run_read), "pipeline": PL.target(0.4)}
