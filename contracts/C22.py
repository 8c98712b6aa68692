"""C22 Output files hold exactly the selected columns and every surviving row.

PPWriteOutput is proved to hand the writer of the chosen format a table with
exactly the input rows in order and the selected columns, values rounded to the
configured decimals or untouched.  The writers are proved against a ghost file
(rows stored so far, with their header); pandas' to_csv/to_sql/HDFStore are
used by their documented contracts (append the rows of the table)."""
from pyvc.contract import contract
from pyvc import lib as L
from contracts.common import *

O = "sorcha.modules.PPOutput:"
S = z3.StringSort()
BASIC = ["ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter", "trailedSourceMag", "trailedSourceMagSigma",
         "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s"]
POS = ["fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "RATrue_deg", "DecTrue_deg"]
MAG = ["PSFMag", "trailedSourceMag", "trailedSourceMagTrue", "PSFMagTrue", "PSFMagSigma", "trailedSourceMagSigma", "fieldFiveSigmaDepth_mag", "fiveSigmaDepth_mag"]
SUN = ["Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km"]
LISTS = [["ObjID", "RA_deg"], ["Obj_Sun_LTC_km", "PSFMag", "ObjID"], ["optFilter", "RATrue_deg"], ["ObjID", "missing", "RA_deg"]]


def cfg(**kw):
    o = Obj("cfg")
    o.attrs.update(kw)
    return o


@contract("C22", O + "PPWriteOutput", name="PPWriteOutput", target="pipeline_output")
def write(V):
    fmt = V.pick("output_format", ["csv", "sqlite3", "hdf5"])
    sel = V.pick("columns", ["basic", "all", 0, 1, 2, 3])
    link = V.pick("linking", ["off", "drop", "keep"])
    nopsf = V.pick("without_true_columns", [False, True]) if sel == "all" else False
    cols = {c: "str" if c in ("ObjID", "optFilter") else "real" for c in BASIC}
    cols.update({c: "real" for c in SUN + ["PSFMag"]})
    if not nopsf:
        cols.update({c: "real" for c in POS + MAG})
    if link != "off":
        cols["object_linked"] = "bool"
    df = V.frame("observations", cols)
    pd_, md = (V.int(nm, 0) if V.pick("has_" + nm, [True, False]) else None for nm in ("position_decimals", "magnitude_decimals"))
    inp = df.copy()
    got = []
    for w, f in (("PPOutWriteCSV", "csv"), ("PPOutWriteSqlite3", "sqlite3"), ("PPOutWriteHDF5", "hdf5")):
        def writer(I, vals, f=f):
            v = list(vals.values())
            got.append((f, v[0].copy() if isinstance(v[0], Frame) else v[0], v[1]))
            return None
        V.use(O + w, writer)
    V.stub("os.path.join", lambda I, a, k: "/".join(a))
    names = list(LISTS[sel]) if isinstance(sel, int) else sel
    sc = cfg(output=cfg(output_format=fmt, output_columns=names, position_decimals=pd_, magnitude_decimals=md),
             linkingfilter=cfg(ssp_linking_on=link != "off", drop_unlinked=link != "keep"))
    out = V.call(cfg(outpath="dir", outfilestem="stem"), sc, df)
    if sel == 3:
        V.ensure("an unknown column is refused", out.exc == "SystemExit")
        V.ensure("nothing is written", not got)
        return
    if not V.returns(out):
        return
    V.ensure("written once", len(got) == 1)
    if len(got) != 1:
        return
    f, t, path = got[0]
    V.ensure("in the configured format", f == fmt)
    V.ensure("to the stem's file", path == "dir/stem." + {"csv": "csv", "sqlite3": "db", "hdf5": "h5"}[fmt])
    if isinstance(sel, int):
        want = names
    elif sel == "basic":
        want = BASIC + ["Obj_Sun_LTC_km"] + (["object_linked"] if link == "keep" else [])
    else:
        want = list(inp.cols) + ["Obj_Sun_LTC_km"]
    V.ensure("exactly the selected columns", list(t.cols) == want if isinstance(t, Frame) else False)
    if not isinstance(t, Frame):
        return
    V.ensure("every row once, in order", t.view.space is inp.view.space)
    if t.view.space is not inp.view.space:
        return
    r = V.row(inp)
    V.ensure("no row dropped", t.view.keep(r) == inp.view.keep(r))
    V.ensure("row order kept", t.view.order == inp.view.order)
    g = lambda c: inp.cols[c](r).t
    for c in want:
        if c not in t.cols:
            continue
        x = sqrt(g(SUN[0]) * g(SUN[0]) + g(SUN[1]) * g(SUN[1]) + g(SUN[2]) * g(SUN[2])) if c == "Obj_Sun_LTC_km" else g(c)
        d = pd_ if c in POS else md if c in MAG else None
        V.ensure(f"{c}: the simulated value" + (" rounded" if d is not None else ""), t.cols[c](r).t == (L.ROUND(x, d.t) if d is not None else x))


class Table:
    """a table of results: blocks of rows with their columns"""

    def __init__(self, blocks, cols, log, wide=()):
        self.blocks, self.cols, self.log = list(blocks), list(cols), log
        self.texts = set(wide)

    def same(self, **kw):
        t = Table(self.blocks, self.cols, self.log, self.texts)
        for k, v in kw.items():
            setattr(t, k, v)
        return t

    def sym_getattr(self, I, name):
        if name == "columns":
            return list(self.cols)
        if name == "copy":
            return Prim(lambda I, a, k: self.same(), name)
        if name == "astype":
            def f(I, a, k):
                d = a[0]
                if not isinstance(d, dict) or any(getattr(x, "name", x) not in ("str", "object") for x in d.values()):
                    raise Unsupported("astype")
                if any(c not in self.cols for c in d):
                    raise PyExc("KeyError")
                return self.same(texts=self.texts | set(d))
            return Prim(f, name)
        if name == "drop":
            def f(I, a, k):
                a = dict(zip(("labels", "axis"), a), **k)
                if a.get("labels") is not None and a.get("axis") in (1, "columns"):
                    c = a["labels"]
                elif a.get("columns") is not None:
                    c = a["columns"]
                else:
                    raise Unsupported("drop")
                c = [c] if isinstance(c, str) else list(c)
                if any(x not in self.cols for x in c) and a.get("errors") != "ignore":
                    raise PyExc("KeyError")
                return self.same(cols=[x for x in self.cols if x not in c])
            return Prim(f, name)
        if name == "to_csv":
            def f(I, a, k):
                self.log.append(("csv", self, a[0] if a else k.get("path_or_buf"), {x: y for x, y in k.items() if x != "path_or_buf"}))
                return None
            return Prim(f, name)
        if name == "to_sql":
            def f(I, a, k):
                k = dict(zip(("name", "con"), a), **k)
                self.log.append(("sql", self, k.pop("name"), k))
                return None
            return Prim(f, name)
        raise Unsupported("table ." + name)


@contract("C22", O + "PPOutWriteCSV", name="PPOutWriteCSV", target="writers")
def csv(V):
    path, there = V.str("path"), V.bool("file_exists")
    sep = V.pick("separator", [None, ",", ";"])
    V.stub("os.path.exists", lambda I, a, k: there if a[0] is path else V.bool("other"))
    V.stub("os.path.isfile", lambda I, a, k: there if a[0] is path else V.bool("other"))
    log = []
    t = Table(["new"], ["a", "ObjID"], log)
    out = V.call(t, path, sep) if sep else V.call(t, path)
    if not V.returns(out):
        return
    V.ensure("one write", len(log) == 1)
    if len(log) != 1:
        return
    _, w, p, k = log[0]
    V.ensure("all the rows and columns", w.blocks == ["new"] and w.cols == ["a", "ObjID"])
    V.ensure("to the given file", p is path)
    V.ensure("added to what is there", k.get("mode") == "a")
    V.ensure("no row labels", k.get("index") is False)
    V.ensure("the separator", k.get("sep", ",") == (sep or ","))
    V.ensure("nothing else changes the numbers or the rows", set(k) <= {"mode", "index", "sep", "header"})
    h = k.get("header", True)
    h = h.t if isinstance(h, SV) else z3.BoolVal(h is True) if isinstance(h, bool) else None
    V.ensure("a header exactly in a new file", h == z3.Not(there.t) if h is not None else False)


@contract("C22", O + "PPOutWriteSqlite3", name="PPOutWriteSqlite3", target="writers")
def sql(V):
    path = V.str("path")
    level = V.pick("level_0", [False, True])
    tab = V.pick("table", [None, "other_table"])
    V.stub("sqlite3.connect", lambda I, a, k: L.Opaque(("connection", a[0])))
    log = []
    t = Table(["new"], (["level_0"] if level else []) + ["a", "ObjID"], log)
    out = V.call(t, path, tab) if tab else V.call(t, path)
    if not V.returns(out):
        return
    V.ensure("one write", len(log) == 1)
    if len(log) != 1:
        return
    _, w, n, k = log[0]
    V.ensure("all the rows and columns", w.blocks == ["new"] and w.cols == ["a", "ObjID"])
    V.ensure("into the table", n == (tab or "sorcha_results"))
    V.ensure("added to what is there", k.get("if_exists") == "append")
    V.ensure("no row labels", k.get("index") is False)
    V.ensure("nothing else", set(k) <= {"if_exists", "index", "con"})


class Store:
    """an HDF5 file: key -> table; append refuses text wider than the column"""

    def __init__(self, V, tables, log):
        self.V, self.tables, self.log = V, tables, log

    def sym_enter(self, I):
        return self

    def sym_contains(self, I, k):
        return k in self.tables

    def sym_getitem(self, I, k):
        if k not in self.tables:
            raise PyExc("KeyError")
        return self.tables[k].same()

    def sym_getattr(self, I, name):
        if name in ("append", "put"):
            def f(I, a, k):
                key, t = a[0], a[1]
                if not k.get("data_columns"):
                    self.log.append("not searchable")
                if name == "append" or (k.get("append") is True):
                    old = self.tables.get(key)
                    if old is not None and list(old.cols) != list(t.cols):
                        raise PyExc("ValueError", ("columns",))
                    if old is not None and self.V.ctx.branch(self.V.ctx.fresh("text_too_long", "bool")):
                        raise PyExc("ValueError", ("width",))
                    if "ObjID" in t.cols and "ObjID" not in t.texts and (old is None):
                        raise PyExc("TypeError", ("string dtype",))
                    self.tables[key] = t.same(blocks=(old.blocks if old is not None else []) + t.blocks)
                else:
                    self.tables[key] = t.same()
                return None
            return Prim(f, name)
        if name in ("close", "flush"):
            return Prim(lambda I, a, k: None, name)
        if name == "keys":
            return Prim(lambda I, a, k: ["/" + x for x in self.tables], name)
        if name == "remove":
            def f(I, a, k):
                del self.tables[a[0]]
            return Prim(f, name)
        raise Unsupported("store ." + name)


@contract("C22", O + "PPOutWriteHDF5", name="PPOutWriteHDF5", target="writers")
def hdf(V):
    before = V.pick("before", [None, "same columns", "other columns"])
    key = V.pick("key", [None, "other_key"])
    objid = V.pick("ObjID", [True, False])
    log = []
    k = key or "sorcha_results"
    cols = ["a", "ObjID"] if objid else ["a", "b"]
    tables = {} if before is None else {k: Table(["old"], cols if before == "same columns" else ["x"], log, ["ObjID"])}
    store = Store(V, tables, log)
    V.stub("pandas.HDFStore", lambda I, a, kk: store)
    V.stub("warnings.filterwarnings", lambda I, a, kk: None)

    def concat(I, a, kk):
        ts = list(a[0])
        if any(list(x.cols) != list(ts[0].cols) for x in ts):
            raise Unsupported("concat of different tables")
        return ts[0].same(blocks=[b for x in ts for b in x.blocks], texts=set.intersection(*[x.texts for x in ts]))

    V.stub("pandas.concat", concat)
    t = Table(["new"], cols, log)
    out = V.call(t, V.str("path"), key) if key else V.call(t, V.str("path"))
    if before == "other columns":
        V.ensure("a different table in the file is not replaced", out.exc is not None and tables[k].blocks == ["old"])
        return
    if not V.returns(out):
        return
    V.ensure("the rows after those already there, once", k in tables and tables[k].blocks == (["old"] if before else []) + ["new"])
    V.ensure("the columns", k in tables and tables[k].cols == cols)
    V.ensure("no other table", set(tables) == {k})
    V.ensure("searchable", "not searchable" not in log)


class Cursor:
    def __init__(self, cols, log):
        self.cols, self.log = cols, log

    def sym_getattr(self, I, name):
        if name == "execute":
            def f(I, a, k):
                q = a[0]
                if not isinstance(q, str):
                    raise Unsupported("query")
                w = q.replace("(", " ").replace(")", " ").replace(";", " ").split()
                if w[:2] == ["CREATE", "INDEX"]:
                    name, tab, col = w[2], w[4], w[5]
                    if col not in self.cols:
                        raise PyExc("OperationalError", ("no such column",))
                    self.log.append((tab, col))
                    return self
                if w[0] == "PRAGMA" and w[1] == "table_info":
                    self.rows = [(i, c, "TEXT", 0, None, 0) for i, c in enumerate(self.cols)]
                    return self
                raise Unsupported("SQL")
            return Prim(f, name)
        if name in ("fetchall",):
            return Prim(lambda I, a, k: list(self.rows), name)
        if name in ("commit", "close"):
            return Prim(lambda I, a, k: None, name)
        if name == "cursor":
            return Prim(lambda I, a, k: self, name)
        raise Unsupported("cursor ." + name)

    def sym_iterate(self, I):
        return list(self.rows)


@contract("C22", O + "PPIndexSQLDatabase", name="PPIndexSQLDatabase", target="pipeline_output")
def index(V):
    cols = V.pick("columns", [["ObjID", "fieldMJD_TAI", "optFilter", "RA_deg"], ["RA_deg", "Dec_deg"], ["RA_deg", "optFilter"]])
    tab = V.pick("table", [None, "other_table"])
    log = []
    V.stub("sqlite3.connect", lambda I, a, k: Cursor(cols, log))
    out = V.call("db", tab) if tab else V.call("db")
    V.returns(out)
    V.ensure("an index on the columns that are there", sorted(log) == sorted((tab or "sorcha_results", c) for c in ("ObjID", "fieldMJD_TAI", "optFilter") if c in cols))


# ----------------------------------------------------------- statistics
class Grouped:
    """the detections grouped by object and filter"""

    def __init__(self, by, col=None):
        self.by, self.col = by, col

    def sym_getitem(self, I, k):
        return Grouped(self.by, k)

    def sym_getattr(self, I, name):
        def res(I, what):
            if isinstance(what, (list, tuple)):
                return Summary({w: (self.col, w) for w in what}, self.by)
            return Column((self.col, what), self.by)
        if name in ("agg", "aggregate"):
            return Prim(lambda I, a, k: res(I, a[0]), name)
        if name in ("min", "max", "median", "size", "count", "first", "all", "any", "sum", "mean", "nunique", "last"):
            return Prim(lambda I, a, k: res(I, name), name)
        raise Unsupported("groupby ." + name)


class Column:
    def __init__(self, what, by):
        self.what, self.by = what, by

    def sym_getattr(self, I, name):
        if name in ("to_frame", "rename"):
            def f(I, a, k):
                n = a[0] if a else k.get("name")
                return Summary({n: self.what}, self.by) if name == "to_frame" else Column(self.what, self.by)
            return Prim(f, name)
        raise Unsupported("statistic ." + name)


class Summary:
    """one row per group: column -> (input column, statistic)"""

    def __init__(self, cols, by, log=None):
        self.cols, self.by, self.log = dict(cols), by, log

    def sym_setitem(self, I, k, v):
        if not isinstance(v, Column):
            raise Unsupported("statistic")
        self.cols[k] = v.what

    def sym_getattr(self, I, name):
        if name == "rename":
            return Prim(lambda I, a, k: Summary({k["columns"].get(c, c): w for c, w in self.cols.items()}, self.by), name)
        if name == "join":
            def f(I, a, k):
                cols = dict(self.cols)
                for o in (a[0] if isinstance(a[0], (list, tuple)) else [a[0]]):
                    if o.by != self.by:
                        raise Unsupported("join of different groups")
                    if set(cols) & set(o.cols):
                        raise PyExc("ValueError")
                    cols.update(o.cols)
                return Summary(cols, self.by, self.log)
            return Prim(f, name)
        if name == "to_csv":
            def f(I, a, k):
                I._stats_log.append((self, a[0] if a else k.get("path_or_buf"), {x: y for x, y in k.items() if x != "path_or_buf"}))
            return Prim(f, name)
        raise Unsupported("statistics ." + name)


class Obs:
    def sym_getattr(self, I, name):
        if name == "groupby":
            def f(I, a, k):
                by = a[0] if a else k["by"]
                if k.get("sort") is False:
                    raise Unsupported("unsorted groups")
                return Grouped(tuple(by))
            return Prim(f, name)
        raise Unsupported("observations ." + name)


@contract("C22", "sorcha.modules.PPStats:stats", name="stats", target="stats")
def stats(V):
    on, drop = V.pick("ssp_linking_on", [True, False]), V.pick("drop_unlinked", [True, False])
    ret = V.pick("return_only", [True, False])
    there = V.bool("file_exists")
    V.stub("os.path.join", lambda I, a, k: "/".join(a))
    V.stub("os.path.exists", lambda I, a, k: there if a[0] == "dir/stem.csv" else V.bool("other"))
    V.I._stats_log = log = []
    out = V.call(Obs(), "stem", "dir", cfg(linkingfilter=cfg(ssp_linking_on=on, drop_unlinked=drop)), ret)
    if not V.returns(out):
        return
    want = {"number_obs": (None, "size"), "min_apparent_mag": ("trailedSourceMag", "min"), "max_apparent_mag": ("trailedSourceMag", "max"), "median_apparent_mag": ("trailedSourceMag", "median"),
            "min_phase": ("phase_deg", "min"), "max_phase": ("phase_deg", "max")}
    if on:
        want["date_linked_MJD"] = ("date_linked_MJD", "first")
        if not drop:
            want["object_linked"] = ("object_linked", "all")
    if ret:
        V.ensure("nothing written", not log)
        s = out.value
    else:
        V.ensure("written once", len(log) == 1)
        if len(log) != 1:
            return
        s, p, k = log[0]
        V.ensure("to the statistics file", p == "dir/stem.csv")
        V.ensure("added to what is there", k.get("mode") == "a")
        V.ensure("with the object and filter", k.get("index", True) is True)
        V.ensure("nothing else", set(k) <= {"mode", "index", "header"})
        h = k.get("header", True)
        V.ensure("a header exactly in a new file", (h.t if isinstance(h, SV) else z3.BoolVal(bool(h))) == z3.Not(there.t))
    V.ensure("one row per object and filter", isinstance(s, Summary) and s.by == ("ObjID", "optFilter"))
    # the linking date and flag are one and the same on every row of an object
    same = lambda c, a, w: a == w or (c == w[0] and c == "object_linked" and a[0] == c and a[1] in ("all", "any", "first", "last", "min", "max")) \
        or (c == "date_linked_MJD" and a[0] == c and a[1] in ("first", "last", "min", "max"))
    V.ensure("the true number, extremes and median", isinstance(s, Summary) and set(s.cols) == set(want) and all(same(c, s.cols[c], want[c]) for c in want))


from contracts.glue import glue
glue("C22")
