"""C11 linking outcome of an object, concrete contracts."""
from common import *
from tracklets import *

M = "sorcha.modules.PPLinkingFilter:PPLinkingFilter"
IDS = ["S1", "S10", "S100", "a", "aa", "A", "0001", "001", "1", "obj with space", "(2024) AB1", "2010 TU149", "x-1", "x_1", "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"]


def gen_filter(rnd, k):
    start = rnd.choice([16.0, 16.0, 0.0, 12.0, 16.25, 3.7, 11.95, 24.0])
    maxt, minsep = rnd.choice([0.0625, 0.0625, 0.04]), rnd.choice([0.5, 1.0])
    ids = rnd.sample(IDS, rnd.choice([1, 2, 3, 5, 8]))
    rows = []
    for o in ids:
        m, r, d = gen_object(rnd, start / 24, maxt * 1440, minsep, nights=rnd.choice([1, 2, 3, 4, 6]))
        seen = set()
        for t, a, b in zip(m, r, d):
            if t not in seen:
                seen.add(t)
                rows.append([o, t, a, b])
                if rnd.random() < 0.08:  # the same instant twice, in two rows
                    rows.append([o, t, a, b])
    rnd.shuffle(rows)
    return {"rows": rows, "start": start, "maxt": maxt, "minsep": minsep, "nmin": rnd.choice([1, 2, 2, 3]), "nlink": rnd.choice([1, 2, 3]), "window": rnd.choice([3, 15, 15]),
            "eff": rnd.choice([1.0, 1.0, 0.95, 0.5, 0.0]), "drop": rnd.random() < 0.6, "perm": rnd.randrange(10 ** 6), "index": rnd.choice(["default", "shuffled", "offset"])}


def table(c, rows):
    d = {"ObjID": [r[0] for r in rows], "FieldID": list(range(1000, 1000 + len(rows))), "fieldMJD_TAI": [r[1] for r in rows], "RA_deg": [r[2] for r in rows],
         "Dec_deg": [r[3] for r in rows], "PSFMag": [float(i) for i in range(len(rows))], "optFilter": ["r"] * len(rows)}
    return index_for(pd.DataFrame(d), c["index"])


def link(c, df):
    return must_return(call(fn(M), df, c["eff"], c["nmin"], c["nlink"], c["window"], c["minsep"], c["maxt"], c["start"], drop_unlinked=c["drop"]))


def dates(c, out):
    r = {}
    for o, t in zip(out["ObjID"], out["date_linked_MJD"]):
        need(o not in r or same(r[o], float(t)), f"{o}: several linking dates")
        r[o] = float(t)
    return r


def run_filter(c):
    rows = [list(r) for r in c["rows"]]
    if not rows:
        raise Skip()
    df = table(c, rows)
    inp = df.copy()
    out = link(c, df)
    ids = sorted({r[0] for r in rows})
    got = dates(c, out)
    # the specified outcome
    for o in ids:
        mine = [r for r in rows if r[0] == o]
        opp, *_ = link_object([r[1] for r in mine], [r[2] for r in mine], [r[3] for r in mine], c["maxt"] * 1440, c["minsep"], c["nmin"], c["window"], c["nlink"], c["start"] / 24)
        linked = o in got and not math.isnan(got[o])
        if c["eff"] == 1.0:
            need(linked == bool(opp), f"{o}: linked {linked}, opportunities {opp}")
            if linked:
                need(got[o] == opp[0], f"{o}: linked on {got[o]}, specified {opp[0]}")
        if c["eff"] == 0.0 or not opp:
            need(not linked, f"{o} linked without an opportunity")
        if linked:
            need(got[o] in opp, f"{o}: linking date {got[o]} is no opportunity {opp}")
        # alone in the table: same outcome
        alone = table(c, mine)
        oa = link(c, alone)
        da = dates(c, oa)
        la = o in da and not math.isnan(da[o])
        need(la == linked and (not linked or da[o] == got[o]), f"{o}: linked {linked} on {got.get(o)} with other objects in the table, {la} on {da.get(o)} alone")
    linked = {o for o in ids if o in got and not math.isnan(got[o])}
    # exactly the specified rows, unchanged
    want = {f: i for i, f in enumerate(inp["FieldID"]) if not c["drop"] or inp["ObjID"].iloc[i] in linked}
    need(sorted(out["FieldID"]) == sorted(want), "detections lost, duplicated or kept wrongly")
    for j in range(len(out)):
        i = want[out["FieldID"].iloc[j]]
        for col in inp.columns:
            need(same(out[col].iloc[j], inp[col].iloc[i]), f"column {col} of a detection changed")
        need(bool(out["object_linked"].iloc[j]) == (out["ObjID"].iloc[j] in linked), "linked flag")
    # another order of the same rows
    p = list(rows)
    random.Random(c["perm"]).shuffle(p)
    got2 = dates(c, link(c, table(c, p)))
    need(set(got2) == set(got) and all(same(got[o], got2[o]) for o in got), "outcome depends on the order of the rows")


TARGETS = {"filter": Target(gen_filter, run_filter, from_model=lambda m: None)}

from focus import focus

TARGETS["run"] = focus(0.3, "LSST", lambda rnd: {"link": rnd.choice(["drop", "keep"]), "density": 0.9, "columns": "basic"})
