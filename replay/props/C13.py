"""C13 readers, concrete contracts on real CSV, whitespace and HDF5 files in a scratch directory."""
from common import *

R = "sorcha.readers."
EPHCOLS = ["FieldID", "fieldMJD_TAI", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day",
           "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s",
           "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"]
IDS = ["0001", "1", "1.0", "01", "1e3", "1000", "S1", "s1", "2021_AB", "+5", "5", "-5", "0x10", "True", "1_000", "2021-01-01", "inf", "ObjID", "obj#1", "00", "0", "1.", "12345678901234567890", "a.b", "é"]
PRE = ["# comment", "# a,b,c", "", "# some text, with 3 fields, x, y, z, w", "Objects of the run", "## ObjID below", "1 2 3", "# 1,2"]


def gen_ids(rnd, n, uniq):
    pool = IDS + [f"obj{i}" for i in range(n)]
    if uniq:
        rnd.shuffle(pool)
        return pool[:n]
    k = max(1, rnd.choice([1, 2, n // 2 or 1, n]))
    sub = rnd.sample(pool, min(k, len(pool)))
    return [rnd.choice(sub) for _ in range(n)]


def gen_table(rnd, uniq=False, n=None):
    n = rnd.choice([1, 1, 2, 3, 4, 7, 12, 30]) if n is None else n
    return {"ids": gen_ids(rnd, n, uniq), "v": [round(rnd.uniform(-5, 5), 6) if rnd.random() < 0.7 else float(rnd.randint(-3, 9)) for _ in range(n)], "k": [rnd.randint(0, 5) for _ in range(n)],
            "t": [rnd.choice(["red", "b", "x_y", "7z", "NAME"]) for _ in range(n)]}


def gen_file(rnd, nm, tab, kinds=("csv", "comma", "whitespace", "h5"), eph=False):
    k = rnd.choice(kinds)
    pre = [rnd.choice(PRE) for _ in range(rnd.choice([0, 0, 1, 2, 5, 40]))]
    if k == "whitespace":
        pre = [p for p in pre]
    return {"name": nm, "kind": k, "pre": pre if k != "h5" else [], "given": rnd.random() < 0.3, "tab": tab, "cache": rnd.random() < 0.4, "eph": eph,
            "pad": k != "h5" and k != "whitespace" and rnd.random() < 0.2, "eol": rnd.random() < 0.8, "wide": rnd.random() < 0.3,
            "h5chunks": rnd.choice([1, 1, 2, 3]), "h5keys": rnd.choice(["x", "data"])}


def frame(f):
    t = f["tab"]
    d = pd.DataFrame({"ObjID": t["ids"], "v": t["v"], "k": t["k"], "t": t["t"]})
    if f["eph"]:
        d = pd.DataFrame({"ObjID": t["ids"]})
        for i, c in enumerate(EPHCOLS):
            d[c] = [x + i for x in t["v"]]
    for a, b in (f.get("rename") or {}).items():
        d = d.rename(columns={a: b})
    return d


def write(f):
    d = frame(f)
    if f["eph"] and f.get("extra"):
        d = d.assign(**{c: 1.0 for c in f["extra"]})
    p = f["name"] + (".h5" if f["kind"] == "h5" else ".csv")
    if f["kind"] == "h5":
        m = f["h5chunks"]
        size = max(1, -(-len(d) // m))
        ms = {c: 20 for c in d.columns if d[c].dtype == object or str(d[c].dtype).startswith("str")}
        parts = [d.iloc[i:i + size] for i in range(0, len(d), size)] or [d]
        for q in parts:
            q.reset_index(drop=True).to_hdf(p, key=f["h5keys"], format="table", append=True, mode="a", data_columns=True, min_itemsize=ms)
        return p
    sep = " " if f["kind"] == "whitespace" else ","
    hs = sep
    wide = (lambda s: ("   " + s)) if f["wide"] and f["kind"] == "whitespace" else (lambda s: s)
    lines = list(f["pre"])
    cols = list(d.columns)
    lines.append(cols[0] + "".join((hs + wide((" " + c + "  ") if f["pad"] else c)) for c in cols[1:]))
    for r in d.itertuples(index=False):
        lines.append(str(r[0]) + "".join(sep + wide(repr(float(x)) if isinstance(x, float) else str(x)) for x in r[1:]))
    open(p, "w").write("\n".join(lines) + ("\n" if f["eol"] else ""))
    return p


def opener(f, p):
    hdr = len(f["pre"]) if f["given"] else -1
    if f["eph"]:
        kind = f["kind"]
        kw = {} if kind == "h5" else {"header": hdr}
        return call(fn(R + "EphemerisReader:EphemerisDataReader"), p, {"h5": f.get("h5name", "hdf5")}.get(kind, kind), cache_table=f["cache"], **kw)
    if f["kind"] == "h5":
        return call(fn(R + "HDF5Reader:HDF5DataReader"), p, cache_table=f["cache"])
    return call(fn(R + "CSVReader:CSVDataReader"), p, sep=f["kind"], header=hdr, cache_table=f["cache"])


def same_rows(out, exp, what):
    need(isinstance(out, pd.DataFrame), f"{what}: no table")
    need(set(out.columns) == set(exp.columns), f"{what}: columns {sorted(map(str, set(out.columns) ^ set(exp.columns)))}")
    need(len(out) == len(exp), f"{what}: {len(out)} rows, {len(exp)} specified")
    for c in exp.columns:
        a, b = list(out[c]), list(exp[c])
        if c == "ObjID":
            need(all(isinstance(x, str) for x in a), f"{what}: object IDs are not text: {a[:3]}")
        for i, (x, y) in enumerate(zip(a, b)):
            if not (x == y or (isinstance(x, (float, int, np.number)) and isinstance(y, (float, int, np.number)) and abs(x - y) < 1e-9)):
                raise Bad(f"{what}: column {c} row {i}: {x!r}, the file has {y!r}")


def gen_rows(rnd, k):
    f = gen_file(rnd, "f", gen_table(rnd), eph=rnd.random() < 0.25)
    n = len(f["tab"]["ids"])
    if f["eph"]:
        f["extra"] = rnd.choice([[], ["V"], ["V", "V(H=0)"], ["fieldJD_TDB"]])
        f["h5name"] = rnd.choice(["h5", "hdf5", "HDF5"])
    reads = []
    for _ in range(rnd.choice([1, 2, 4])):
        if rnd.random() < 0.6:
            reads.append(["rows", rnd.choice([0, 0, 1, 2, n - 1, n, max(0, n // 2), rnd.randint(0, n), rnd.randint(0, n)]), rnd.choice([None, 1, 2, n, n + 3, max(1, n // 2)])])
        else:
            ids = sorted(set(f["tab"]["ids"]))
            w = [i for i in ids if rnd.random() < rnd.choice([0.2, 0.5, 1.0])] + rnd.sample(["nobody", "1", "01", "1.0"], rnd.choice([0, 1, 2]))
            rnd.shuffle(w)
            reads.append(["objects", w, None])
    return {"file": f, "reads": reads, "size": rnd.choice([None, 1, 2, 3, max(1, n // 2), n, n + 1])}


def run_rows(c):
    if "file" not in c:
        raise Skip()
    f = c["file"]
    with scratch():
        p = write(f)
        full = frame(f)
        r = must_return(opener(f, p))
        for what, a, b in c["reads"]:
            if what == "rows":
                if a > len(full):
                    continue
                out = call(r.read_rows, a, b)
                exp = full.iloc[a:] if b is None else full.iloc[a:a + b]
                if a == len(full) and out.exc is not None and f["kind"] == "h5" and False:
                    continue
                same_rows(must_return(out), exp, f"rows {a}+{b}")
            else:
                out = must_return(call(r.read_objects, a))
                same_rows(out, full[full["ObjID"].isin(a)], f"objects {a}")
        if c["size"]:
            r2 = must_return(opener(f, p))
            got, pos = [], 0
            while pos < len(full):
                q = must_return(call(r2.read_rows, pos, c["size"]))
                need(len(q) > 0, "an empty block before the end")
                got.append(q)
                pos += len(q)
            same_rows(pd.concat(got), full, "all blocks")


# ------------------------------------------------------------------ combined
def gen_combined(rnd, k):
    n = rnd.choice([1, 2, 3, 5, 9, 20])
    ids = gen_ids(rnd, n, True)
    n = len(ids)
    aux = []
    for i in range(rnd.choice([1, 2, 2, 3])):
        order = list(ids)
        if i:
            rnd.shuffle(order)
        t = gen_table(rnd, n=n)
        t["ids"] = order
        f = gen_file(rnd, f"aux{i}", t, kinds=("csv", "whitespace", "comma"))
        f["rename"] = {c: f"{c}{i}" for c in ("v", "k", "t")}
        aux.append(f)
    e = gen_table(rnd, n=rnd.choice([0, 1, 5, 15, 40]))
    e["ids"] = [rnd.choice(ids) for _ in e["v"]]
    if rnd.random() < 0.15:
        e["ids"] = [rnd.choice(ids + ["stranger"]) for _ in e["v"]]
    if rnd.random() < 0.5:
        e["ids"].sort()
    ef = gen_file(rnd, "eph", e, eph=True) if e["ids"] else None
    bad = None
    if len(aux) > 1 and rnd.random() < 0.2:
        bad = rnd.choice(["missing", "extra", "other", "double"])
        j = rnd.randrange(1, len(aux))
        t = aux[j]["tab"]
        if bad == "missing" and len(t["ids"]) > 1:
            for c in t:
                t[c] = t[c][:-1]
        elif bad == "extra":
            for c in t:
                t[c] = t[c] + [t[c][0]]
            t["ids"][-1] = "more"
        elif bad == "double" and len(t["ids"]) > 1:
            t["ids"][-1] = t["ids"][0]
        else:
            t["ids"][0] = "other"
    return {"aux": aux, "eph": ef, "size": rnd.choice([None, 1, 2, 3, n, n + 2]), "primary": rnd.random() < 0.2, "bad": bad, "mode": rnd.choice(["aux", "eph"])}


def run_combined(c):
    if "aux" not in c:
        raise Skip()
    with scratch():
        rd = [must_return(opener(f, write(f))) for f in c["aux"]]
        tabs = [frame(f) for f in c["aux"]]
        use_eph = c["mode"] == "eph" and c["eph"] is not None
        if c["primary"] and not use_eph:
            raise Skip()
        comb = must_return(call(fn(R + "CombinedDataReader:CombinedDataReader"), ephem_primary=c["primary"]))
        for r in rd:
            comb.add_aux_data_reader(r)
        out = call(comb.check_aux_object_ids)
        ok = len(tabs) > 1 and all(sorted(t["ObjID"]) == sorted(tabs[0]["ObjID"]) for t in tabs)
        if not ok:
            must_exit(out, "files with different object IDs" if len(tabs) > 1 else "a single file")
            if len(tabs) > 1:
                return
        else:
            must_return(out)
        if use_eph:
            comb.add_ephem_reader(must_return(opener(c["eph"], write(c["eph"]))))
            et = frame(c["eph"])
        by = [t.set_index("ObjID") for t in tabs]
        pos, done = 0, 0
        total = len(et) if c["primary"] else len(tabs[0])
        for _ in range(total + 2):
            out = call(comb.read_block if use_eph else comb.read_aux_block, block_size=c["size"])
            src = et if c["primary"] else tabs[0]
            blk = src.iloc[pos:] if c["size"] is None else src.iloc[pos:pos + c["size"]]
            pos += len(blk)
            if len(blk) == 0:
                need(must_return(out) is None, "something is returned after the last row")
                done = 1
                break
            base = (blk if c["primary"] else et[et["ObjID"].isin(set(blk["ObjID"]))]) if use_eph else blk
            strangers = set(base["ObjID"]) - set(tabs[0]["ObjID"])
            if strangers:
                must_exit(out, f"no auxiliary rows for {sorted(strangers)}")
                return
            o = must_return(out)
            exp = base.reset_index(drop=True)
            for t, b in zip(tabs, by):
                if not use_eph and t is tabs[0]:
                    continue
                for col in b.columns:
                    exp[col] = [b[col][i] for i in exp["ObjID"]]
            if len(exp) == 0:
                need(o is not None and len(o) == 0, "rows for a block without ephemerides")
                continue
            same_rows(o, exp, f"block ending at row {pos}")
        need(done, "the last row is never reached")


# ------------------------------------------------------------------ refusals
def gen_refuse(rnd, k):
    return {"what": rnd.choice(["delimiter", "nohdr", "onecol", "noid", "badeph", "format", "late", "wrongsep"]), "n": rnd.choice([0, 1, 3, 30, 98, 99, 100]), "sep": rnd.choice(["csv", "comma", "whitespace"])}


def run_refuse(c):
    if "what" not in c:
        raise Skip()
    C = fn(R + "CSVReader:CSVDataReader")
    E = fn(R + "EphemerisReader:EphemerisDataReader")
    s = " " if c["sep"] == "whitespace" else ","
    with scratch():
        w = c["what"]
        if w == "delimiter":
            open("f", "w").write("ObjID,a\nx,1\n")
            must_exit(call(C, "f", sep="tab"), "unknown delimiter")
        elif w == "nohdr":
            open("f", "w").write("\n".join(["x" + s + "1"] * (c["n"] + 1)))
            must_exit(call(C, "f", sep=c["sep"]), "no header")
        elif w == "onecol":
            open("f", "w").write("ObjID\nx\n")
            must_exit(call(C, "f", sep=c["sep"]), "one column")
        elif w == "noid":
            open("f", "w").write(s.join(["ObjIDs", "a"]) + "\n" + s.join(["x", "1"]) + "\n")
            must_exit(call(C, "f", sep=c["sep"]), "no ObjID")
        elif w == "wrongsep":
            o = ",".join(["ObjID", "a", "b"]) + "\nx,1,2\n" if s == " " else "ObjID a b\nx 1 2\n"
            open("f", "w").write(o)
            must_exit(call(C, "f", sep=c["sep"]), "another separator")
        elif w == "badeph":
            d = pd.DataFrame({"ObjID": ["x"], **{q: [1.0] for q in EPHCOLS}, "unexpected": [1.0]})
            d.to_csv("f", index=False)
            must_exit(call(lambda: E("f", "csv").read_rows()), "unexpected ephemeris columns")
        elif w == "format":
            open("f", "w").write("ObjID,a\nx,1\n")
            must_exit(call(E, "f", "fits"), "unknown format")
        elif w == "late":
            open("f", "w").write("# line\n" * c["n"] + s.join(["ObjID", "a"]) + "\n" + s.join(["x", "1"]) + "\n")
            r = must_return(call(C, "f", sep=c["sep"]))
            o = must_return(call(r.read_rows))
            need(o["ObjID"].tolist() == ["x"], "rows after a late header")


TARGETS = {
    "rows": Target(gen_rows, run_rows, None, 3.0),
    "objects": Target(gen_rows, run_rows, None, 0.01),
    "ephemeris": Target(gen_rows, run_rows, None, 0.01),
    "combined": Target(gen_combined, run_combined, None, 2.0),
    "refused": Target(gen_refuse, run_refuse, None, 0.05),
}

from focus import focus

TARGETS["run"] = focus(0.5, "LSST", lambda rnd: {})
