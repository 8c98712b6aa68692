"""C14 orbit files, concrete contracts on real files and tables."""
from common import *

O = "sorcha.readers.OrbitAuxReader:OrbitAuxReader"
EL = {
    "KEP": ["a", "e", "inc", "node", "argPeri", "ma", "epochMJD_TDB"],
    "COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"],
    "CART": ["x", "y", "z", "xdot", "ydot", "zdot", "epochMJD_TDB"],
}


def value(rnd, c, bad):
    if c == "e":
        return rnd.choice([0.0, 0.1, 0.5, 0.999999, 5e-324, rnd.random()] if not bad else [1.0, 1.5, -0.1, -5e-324, 0.9999999999999999, 1.0000000000000002, 30.0, rnd.uniform(-1, 3)])
    if c in ("a", "q"):
        return rnd.choice([1.0, 2.5, 30.0, 1e-6, 5e-324, 5000.0, rnd.uniform(0.1, 50)] if not bad else [-1.0, -5e-324, -30.0, 0.0, rnd.uniform(-5, 5)])
    if c == "t_p_MJD_TDB":
        return rnd.choice([60000.0, 0.0, -1e5, 2400000.5, 2400001.0, rnd.uniform(4e4, 7e4)])
    if c == "epochMJD_TDB":
        return rnd.choice([60218.0, 54800.0, 0.0])
    if c in ("inc", "node", "argPeri", "ma"):
        return rnd.choice([0.0, 180.0, 360.0, -180.0, 400.0, -5.0, 181.0, rnd.uniform(-400, 400)])
    return rnd.choice([0.0, rnd.uniform(-50, 50)])


def gen(rnd, k):
    fam = rnd.choice(list(EL))
    n = rnd.choice([1, 1, 2, 3, 6, 20]) if rnd.random() > 0.01 else rnd.choice([300, 1500])
    fmt = rnd.choice([fam, fam, "B" + fam])
    fs = [fmt] * n
    if rnd.random() < (0.2 if n < 100 else 0.6):
        fs[rnd.randrange(n) if n < 100 else n - 1] = rnd.choice(list(EL) + ["B" + x for x in EL] + ["XYZ", "kep", "COMET", "", "BB" + fam, fam + "B"])
    if rnd.random() < 0.1:
        fs = [rnd.choice(list(EL) + ["B" + x for x in EL] + ["XYZ", "kep", "COMET", "BB" + fam, "CAR"])] * n
    p = rnd.choice([0.0, 0.0, 0.0, 1.0 / n, 0.5]) if n < 100 else 0.0
    rows = {c: [value(rnd, c, rnd.random() < p or (n > 100 and i == n - 1 and rnd.random() < 0.2)) for i in range(n)] for c in EL[fam]}
    cols = ["ObjID", "FORMAT"] + list(EL[fam])
    layout = "exact" if n > 100 else rnd.choice(["exact"] * 6 + ["shuffled"] * 4 + ["extra", "less", "other", "noformat", "swap"])
    if layout == "extra":
        cols.append(rnd.choice(["H", "a" if fam != "KEP" else "q", "GS", "Format"]))
    elif layout == "less":
        cols.remove(rnd.choice(EL[fam]))
    elif layout == "other":
        cols[cols.index(rnd.choice(EL[fam]))] = rnd.choice(["H", "Inc", "epoch", "a" if fam != "KEP" else "q"])
    elif layout == "noformat":
        cols.remove("FORMAT")
        if rnd.random() < 0.5:
            cols.append("format")
    elif layout == "swap":
        f2 = rnd.choice([f for f in EL if f != fam])
        cols = ["ObjID", "FORMAT"] + list(EL[f2])
        rows.update({c: [value(rnd, c, False) for _ in range(n)] for c in EL[f2]})
    rest = cols[1:]
    if layout == "shuffled":
        rnd.shuffle(rest)
    for c in rest:
        if c not in rows and c != "FORMAT":
            rows[c] = [1.0] * n
    if rnd.random() < 0.2:
        rows = {c: [float(round(x)) for x in v] for c, v in rows.items()}
        ints = True
    else:
        ints = False
    return {"cols": cols[:1] + rest, "format": fs, "rows": rows, "n": n, "ints": ints, "sep": rnd.choice(["csv", "whitespace"]), "block": rnd.choice([None, None, 1, 2, 5]) if n < 100 else rnd.choice([None, 1200]), "pad": rnd.random() < 0.15,
            "cache": rnd.random() < 0.3}


def model(m):
    d = m.get("df") or {}
    cols = list(d)
    if not cols or "ObjID" not in cols:
        return None
    n = len(d[cols[0]])
    if n == 0:
        return None
    cols = ["ObjID"] + [c for c in cols if c != "ObjID"]
    if any(not isinstance(x, (int, float)) for c in cols if c not in ("ObjID", "FORMAT") for x in d[c]):
        return None
    fs = d.get("FORMAT") or ["KEP"] * n
    return {"cols": cols, "format": fs, "rows": {c: d[c] for c in cols if c not in ("ObjID", "FORMAT")}, "n": n, "ints": False, "sep": "csv", "block": None, "pad": False, "cache": False}


def verdict(cols, fs, rows, lo, hi):
    """None when acceptable, else the reason"""
    f = set(fs[lo:hi])
    if "FORMAT" not in cols:
        return "no format"
    if len(f) != 1:
        return "mixed formats"
    f = f.pop()
    fam = {p + x: x for x in EL for p in ("", "B")}.get(f)
    if fam is None:
        return f"unknown format {f!r}"
    if sorted(cols) != sorted(["ObjID", "FORMAT"] + EL[fam]):
        return "other columns"
    for i in range(lo, hi):
        if fam == "KEP":
            if not 0 <= rows["e"][i] < 1:
                return f"eccentricity {rows['e'][i]}"
            if rows["a"][i] < 0:
                return f"semi-major axis {rows['a'][i]}"
        if fam == "COM":
            if rows["e"][i] < 0:
                return f"eccentricity {rows['e'][i]}"
            if rows["q"][i] < 0:
                return f"perihelion {rows['q'][i]}"
    return None


def run(c):
    if "cols" not in c:
        raise Skip()
    n, cols, rows = c["n"], c["cols"], c["rows"]
    if any(f == "" for f in c["format"]) and c["sep"] == "whitespace":
        raise Skip()
    if any(not (abs(x) < 1e12) for v in rows.values() for x in v):
        raise Skip()
    with scratch():
        sep = " " if c["sep"] == "whitespace" else ","
        pad = " " if c["pad"] and c["sep"] != "whitespace" else ""
        if pad and cols[1:].count("FORMAT") == 0:
            pad = ""
        ids = [f"o{i}" for i in range(n)]
        with open("orb.csv", "w") as f:
            f.write(cols[0] + "".join(sep + pad + x for x in cols[1:]) + "\n")
            for i in range(n):
                f.write(sep.join([ids[i]] + [c["format"][i] if x == "FORMAT" else (str(int(rows[x][i])) if c["ints"] else repr(float(rows[x][i]))) for x in cols[1:]]) + "\n")
        r = must_return(call(fn(O), "orb.csv", sep=c["sep"], cache_table=c["cache"]))
        size = c["block"] or n
        lo = 0
        while lo < n:
            hi = min(n, lo + size)
            why = verdict(cols, c["format"], rows, 0 if c["cache"] else lo, n if c["cache"] else hi)
            out = call(r.read_rows, lo, c["block"])
            if why:
                must_exit(out, why)
                return
            d = must_return(out)
            need(sorted(d.columns) == sorted(cols), f"columns {sorted(d.columns)}")
            need(list(d["ObjID"]) == ids[lo:hi], "object IDs")
            need(list(d["FORMAT"]) == c["format"][lo:hi], "formats")
            for x in cols:
                if x in rows:
                    need([float(y) for y in d[x]] == [float(y) for y in rows[x][lo:hi]], f"values of {x} changed")
            lo = hi
        # by object
        w = ids[::2]
        r = must_return(call(fn(O), "orb.csv", sep=c["sep"], cache_table=c["cache"]))
        d = must_return(call(r.read_objects, w)) if verdict(cols, c["format"], rows, 0, n) is None else None
        if d is not None:
            need(list(d["ObjID"]) == w, "objects requested")


TARGETS = {"orbits": Target(gen, run, model, 1.0)}
