"""C13 Readers return exactly the requested rows, whatever the block.

A file is lines: some before the header, the header, then one line per row.
pandas.read_csv / read_hdf are assumed by contract (the lines that are not
skipped, the first of them being the header; rows start..stop; rows by
position).  Everything above them - which lines are skipped, caching, the
delegating ephemeris reader, joining - is verified."""
from pyvc.contract import contract
from pyvc import lib as L
from pyvc.values import Arr, Seg, has_seg
from contracts.common import *
import ast

R = "sorcha.readers."
CSV = R + "CSVReader:CSVDataReader"
H5 = R + "HDF5Reader:HDF5DataReader"
OBJ = R + "ObjectDataReader:ObjectDataReader"
EPH = R + "EphemerisReader:EphemerisDataReader"
COM = R + "CombinedDataReader:CombinedDataReader"


class Ids:
    """the requested IDs: any set of strings"""

    def __init__(self, c, nm="wanted"):
        self.f = z3.Function(c.fresh_name(nm), z3.StringSort(), z3.BoolSort())

    def has(self, t):
        return self.f(t)

    def sym_contains(self, I, x):
        return SV("bool", self.f(x.t if isinstance(x, SV) else z3.StringVal(x)))


class File:
    """h lines, the header, n rows; the ID of row r"""

    def __init__(self, V, csv=True):
        c = self.c = V.ctx
        self.h, self.n = c.fresh("header_line", "int"), c.fresh("n_rows", "int")
        c.assume(z3.And(self.h >= 0, self.n >= 0))
        self.id = z3.Function(c.fresh_name("id_of_row"), z3.IntSort(), z3.StringSort())
        self.x = c.fresh("line", "int")  # any line of the file
        c.assume(z3.And(self.x >= 0, self.x <= self.h + self.n))
        self.r = c.fresh("row", "int")  # any row
        c.assume(z3.And(self.r >= 0, self.r < self.n))
        self.blank = c.fresh("blank_line_before_header", "bool")
        self.calls = []


class IdCol:
    """the ID column of the whole file"""

    def __init__(self, f):
        self.f = f

    def sym_getattr(self, I, name):
        if name == "astype":
            return Prim(lambda I, a, k: self, name)
        if name in ("values", "str"):
            return self
        if name in ("to_numpy", "strip", "copy"):
            return Prim(lambda I, a, k: self, name)
        if name == "isin":
            def f(I, a, k):
                if not isinstance(a[0], Ids):
                    raise Unsupported("isin of something else")
                return Mask(self.f, lambda r: a[0].has(self.f.id(r)))
            return Prim(f, name)
        raise Unsupported("ID column ." + name)

    def sym_iter(self, I):
        return L.Iter(self.f.n, lambda k: SV("str", self.f.id(k)))

    def sym_len(self, I):
        return SV("int", self.f.n)


class Mask:
    def __init__(self, f, p):
        self.f, self.p = f, p

    def sym_unop(self, I, op):
        if isinstance(op, (ast.Invert, ast.Not)):
            return Mask(self.f, lambda r: z3.Not(self.p(r)))
        raise Unsupported("mask operator")

    def sym_getattr(self, I, name):
        if name in ("values",):
            return self
        if name in ("to_numpy", "tolist", "copy"):
            return Prim(lambda I, a, k: self, name)
        raise Unsupported("mask ." + name)

    def sym_iter(self, I):
        return L.Iter(self.f.n, lambda k: SV("bool", self.p(k)))

    def sym_len(self, I):
        return SV("int", self.f.n)

    def sym_getitem(self, I, k):
        if isinstance(k, (int, SV)):
            t = to_int(k)
            if not I.ctx.branch(z3.And(t >= -self.f.n, t < self.f.n)):
                raise PyExc("IndexError")
            return SV("bool", self.p(z3.If(t < 0, t + self.f.n, t)))
        raise Unsupported("mask index")


class Positions:
    """row numbers satisfying a condition, ascending"""

    def __init__(self, m, n):
        self.m, self.n = m, n

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_getattr(self, I, name):
        if name == "size":
            return SV("int", self.n)
        if name in ("tolist", "copy"):
            return Prim(lambda I, a, k: self, name)
        raise Unsupported("positions ." + name)


class Read:
    """what one reading call of pandas returned"""

    def __init__(self, f, **kw):
        self.f = f
        self.__dict__.update(kw)
        self.valid = False

    def sym_getitem(self, I, k):
        if k == "ObjID":
            return IdCol(self.f)
        raise Unsupported("column of a file")

    def sym_setitem(self, I, k, v):
        if not (k == "ObjID" and isinstance(v, IdCol)):
            raise Unsupported("column set")

    def sym_len(self, I):
        if getattr(self, "whole", False):
            return SV("int", self.f.n)
        raise Unsupported("length of a read")


def istext(I, d):
    if isinstance(d, dict):
        d = d.get("ObjID")
    return isinstance(d, L.Lib) and d.name in ("str", "object", "builtins.str", "numpy.str_") or d in ("str", "object", "string")


def opt(a, k, i, *names):
    if len(a) > i:
        return a[i]
    for nm in names:
        if nm in k:
            return k[nm]
    return None


def read_csv(V, f, path, sep):
    c = V.ctx

    def rd(I, a, k):
        extra = set(k) - {"filepath_or_buffer", "sep", "delimiter", "skiprows", "nrows", "dtype", "usecols", "header", "delim_whitespace", "low_memory", "engine"}
        if extra:
            raise Unsupported(f"read_csv options {sorted(extra)}")
        V.ensure("reads its own file", opt(a, k, 0, "filepath_or_buffer") == path)
        s = k.get("sep", k.get("delimiter"))
        s = "\\s+" if k.get("delim_whitespace") else (s if s is not None else ",")
        V.ensure("with the separator of the file", s == ({"whitespace": "\\s+"}.get(sep, ",")))
        V.ensure("object IDs are read as text", istext(I, k.get("dtype")))
        sk = k.get("skiprows")
        x = SV("int", f.x)
        if sk is None:
            t = z3.BoolVal(False)
        elif isinstance(sk, (int, SV)):
            t = f.x < to_int(sk)
        elif isinstance(sk, (L.Func, L.Prim, L.Bound)):
            v = I.call(sk, [x], {})
            t = to_bool_term(v)
        else:
            if isinstance(sk, (list, tuple)) and len(sk) == 0:
                t = z3.BoolVal(False)
            else:
                t = to_bool_term(I.lib.contains(I, sk, x))
        h = k.get("header", "infer")
        cols = k.get("usecols")
        nr = k.get("nrows")
        r = Read(f, skip=t, header=h, usecols=cols, nrows=nr)
        f.calls.append(r)
        return r

    V.stub("pandas.read_csv", rd)


def header_ok(f, r):
    """the header of the file is taken as the header"""
    if isinstance(r.header, (int, str)) and r.header in ("infer", 0):
        return z3.And(z3.Implies(f.x < f.h, r.skip), z3.Implies(f.x == f.h, z3.Not(r.skip)))
    if isinstance(r.header, (int, SV)):
        # header=N counts the lines that are not blank
        return z3.And(to_int(r.header) == f.h, z3.Not(f.blank), z3.Implies(f.x <= f.h, z3.Not(r.skip)))
    return z3.BoolVal(False)


def reader(V, cls, f, sep, **kw):
    o = Obj(V.get(cls))
    o.attrs.update(filename="FILE", sep=sep, header_row=SV("int", f.h), obj_id_table=None, _cache_table=False, _table=None)
    o.attrs.update(kw)
    return o


@contract("C13", CSV + "._read_rows_internal", name="CSVDataReader._read_rows_internal", target="rows")
def csv_rows(V):
    f = File(V)
    sep = V.pick("sep", ["csv", "comma", "whitespace"])
    read_csv(V, f, "FILE", sep)
    o = reader(V, CSV, f, sep)
    how = V.pick("how", ["block", "rest", "all"])
    b, m = V.int("block_start", 0), V.int("block_size", 0)
    args = {"block": [b, m], "rest": [b, None], "all": []}[how]
    out = V.call(o, *args)
    if not V.returns(out):
        return
    V.ensure("one read of the file", len(f.calls) == 1 and out.value is f.calls[0])
    r = f.calls[0]
    V.ensure("header found", header_ok(f, r))
    b0 = b.t if how != "all" else z3.IntVal(0)
    V.ensure("exactly the rows before the block are skipped", z3.Implies(f.x > f.h, r.skip == (f.x <= f.h + b0)))
    V.ensure("at most the block's rows are read", r.nrows is None if how != "block" else isinstance(r.nrows, (SV, int)) and to_int(r.nrows) == m.t)
    V.ensure("all columns", r.usecols is None)


def known_ids(V, f):
    """_build_id_map by its contract"""
    def build(I, v):
        if v["self"].attrs["obj_id_table"] is None:
            t = Read(f, whole=True)
            v["self"].attrs["obj_id_table"] = t
    return build


@contract("C13", CSV + "._build_id_map", name="CSVDataReader._build_id_map", target="objects")
def csv_idmap(V):
    f = File(V)
    sep = V.pick("sep", ["csv", "comma", "whitespace"])
    read_csv(V, f, "FILE", sep)
    o = reader(V, CSV, f, sep)
    again = V.pick("again", [False, True])
    if again:
        o.attrs["obj_id_table"] = Read(f, whole=True)
    old = o.attrs["obj_id_table"]
    if not V.returns(V.call(o)):
        return
    t = o.attrs["obj_id_table"]
    if again:
        V.ensure("read once", t is old and not f.calls)
        return
    V.ensure("one read of the file", len(f.calls) == 1 and t is f.calls[0])
    r = f.calls[0]
    V.ensure("header found", header_ok(f, r))
    V.ensure("every row's ID", z3.And(z3.Implies(f.x > f.h, z3.Not(r.skip)), z3.BoolVal(r.nrows is None and (r.usecols is None or list(r.usecols) == ["ObjID"]))))


@contract("C13", CSV + "._read_objects_internal", name="CSVDataReader._read_objects_internal", target="objects")
def csv_objects(V):
    f = File(V)
    ids = Ids(V.ctx)
    sep = V.pick("sep", ["csv", "comma", "whitespace"])
    read_csv(V, f, "FILE", sep)
    o = reader(V, CSV, f, sep)
    if V.pick("map_known", [False, True]):
        o.attrs["obj_id_table"] = Read(f, whole=True)
    V.use(CSV + "._build_id_map", known_ids(V, f))
    out = V.call(o, ids)
    if not V.returns(out):
        return
    V.ensure("one read of the file", len(f.calls) == 1 and out.value is f.calls[0])
    r = f.calls[0]
    V.ensure("header found", header_ok(f, r))
    V.ensure("exactly the rows of the requested objects", z3.Implies(f.x > f.h, r.skip == z3.Not(ids.has(f.id(f.x - f.h - 1)))))
    V.ensure("all columns and rows", r.usecols is None and r.nrows is None)


def read_hdf(V, f):
    def rd(I, a, k):
        extra = set(k) - {"path_or_buf", "key", "start", "stop", "where", "columns", "mode"}
        if extra:
            raise Unsupported("read_hdf options")
        V.ensure("reads its own file", opt(a, k, 0, "path_or_buf") == "FILE")
        r = Read(f, start=k.get("start"), stop=k.get("stop"), where=k.get("where"), usecols=k.get("columns"))
        f.calls.append(r)
        return r

    V.stub("pandas.read_hdf", rd)

    def nz(I, a, k):
        if not isinstance(a[0], Mask):
            raise Unsupported("positions of something else")
        n = V.ctx.fresh("n_match", "int")
        V.ctx.assume(z3.And(n >= 0, n <= f.n, z3.Implies(n == 0, z3.Not(a[0].p(f.r)))))
        return Positions(a[0], n)

    V.stub("numpy.flatnonzero", nz)
    V.stub("numpy.nonzero", lambda I, a, k: (nz(I, a, k),))
    V.stub("numpy.where", lambda I, a, k: (nz(I, a, k),))


def hdf_selected(f, r):
    """is row f.r among those returned"""
    if r.where is not None:
        if not isinstance(r.where, Positions) or r.start is not None or r.stop is not None:
            return None
        return r.where.m.p(f.r)
    lo = z3.IntVal(0) if r.start is None else to_int(r.start)
    return z3.And(f.r >= lo, z3.BoolVal(True) if r.stop is None else f.r < to_int(r.stop))


@contract("C13", H5 + "._read_rows_internal", name="HDF5DataReader._read_rows_internal", target="rows")
def h5_rows(V):
    f = File(V)
    read_hdf(V, f)
    o = reader(V, H5, f, None)
    how = V.pick("how", ["block", "rest", "all"])
    b, m = V.int("block_start", 0), V.int("block_size", 0)
    args = {"block": [b, m], "rest": [b, None], "all": []}[how]
    out = V.call(o, *args)
    if not V.returns(out):
        return
    V.ensure("one read of the file", len(f.calls) == 1 and out.value is f.calls[0])
    r = f.calls[0]
    sel = hdf_selected(f, r)
    V.ensure("all columns", r.usecols is None)
    b0 = b.t if how != "all" else z3.IntVal(0)
    V.ensure("exactly the rows of the block", False if sel is None else sel == z3.And(f.r >= b0, f.r < b0 + m.t if how == "block" else z3.BoolVal(True)))


@contract("C13", H5 + "._read_objects_internal", name="HDF5DataReader._read_objects_internal", target="objects")
def h5_objects(V):
    f = File(V)
    ids = Ids(V.ctx)
    read_hdf(V, f)
    o = reader(V, H5, f, None)
    known = V.pick("map_known", [False, True])
    if known:
        o.attrs["obj_id_table"] = Read(f, whole=True)
    out = V.call(o, ids)
    if not V.returns(out):
        return
    calls = list(f.calls)
    if not known:
        V.ensure("the IDs of the whole file are read", len(calls) == 2 and calls[0].where is None and calls[0].start is None and calls[0].stop is None
                 and (calls[0].usecols is None or list(calls[0].usecols) == ["ObjID"]))
        calls = calls[1:]
    V.ensure("one read of the rows", len(calls) == 1 and out.value is calls[-1])
    sel = hdf_selected(f, calls[-1])
    V.ensure("all columns", calls[-1].usecols is None)
    V.ensure("exactly the rows of the requested objects", False if sel is None else sel == ids.has(f.id(f.r)))


# ------------------------------------------------------------------ caching
class Tab:
    """rows of a file satisfying keep, in file order, processed or not"""

    def __init__(self, f, keep, length, done=False):
        self.f, self.keep, self.n, self.done = f, keep, length, done

    def sym_len(self, I):
        if self.n is None:
            raise Unsupported("length")
        return SV("int", self.n)

    def sym_getattr(self, I, name):
        if name == "iloc":
            return Iloc(self)
        if name == "columns":
            return ["ObjID", "x"]
        if name == "copy":
            return Prim(lambda I, a, k: Tab(self.f, self.keep, self.n, self.done), name)
        raise Unsupported("table ." + name)

    def sym_getitem(self, I, k):
        if k == "ObjID":
            return IdCol(self.f)
        if isinstance(k, Mask):
            return Tab(self.f, lambda r: z3.And(self.keep(r), k.p(r)), None, self.done)
        if isinstance(k, slice):
            return Iloc(self).sym_getitem(I, k)
        raise Unsupported("table index")


class Iloc:
    def __init__(self, t):
        self.t = t

    def sym_getitem(self, I, k):
        t = self.t
        if isinstance(k, slice) and k.step is None and getattr(t, "full", False):
            n = t.f.n
            c = lambda x, d: d if x is None else z3.If(to_int(x) < 0, z3.If(to_int(x) + n < 0, 0, to_int(x) + n), z3.If(to_int(x) > n, n, to_int(x)))
            lo, hi = c(k.start, z3.IntVal(0)), c(k.stop, n)
            return Tab(t.f, lambda r: z3.And(t.keep(r), r >= lo, r < hi), z3.If(hi > lo, hi - lo, 0), t.done)
        raise Unsupported("iloc")


def whole(f, done=False):
    t = Tab(f, lambda r: z3.BoolVal(True), f.n, done)
    t.full = True
    return t


def cached(V, f, o):
    """the reading and processing below, by their contracts"""
    c = V.ctx

    def rows(I, v):
        b, m = v.get("block_start", 0), v.get("block_size")
        b = 0 if b is None else b
        V.ensure("block starts within the file's rows", to_int(b) >= 0)
        if m is None and isinstance(b, int) and b == 0:
            return whole(f)
        n = f.n
        lo = to_int(b)
        hi = n if m is None else z3.If(lo + to_int(m) < n, lo + to_int(m), n)
        return Tab(f, lambda r: z3.And(r >= lo, r < hi), z3.If(hi > lo, hi - lo, 0))

    def objs(I, v):
        if not isinstance(v["obj_ids"], Ids):
            raise Unsupported("IDs")
        return Tab(f, lambda r: v["obj_ids"].has(f.id(r)), None)

    def proc(I, v):
        t = v["input_table"]
        V.ensure("each row is processed once", isinstance(t, Tab) and not t.done)
        n = Tab(f, t.keep, t.n, True)
        n.full = getattr(t, "full", False)
        return n

    V.use(CSV + "._read_rows_internal", rows)
    V.use(CSV + "._read_objects_internal", objs)
    V.use(CSV + "._process_and_validate_input_table", proc)


def cache_state(V, f):
    o = reader(V, CSV, f, "csv")
    st = V.pick("cache", ["off", "empty", "filled"])
    o.attrs["_cache_table"] = st != "off"
    if st == "filled":
        o.attrs["_table"] = whole(f, True)
    return o, st


def cache_kept(V, o, f, st):
    t = o.attrs["_table"]
    V.ensure("the cache is empty or the whole processed file", t is None or (isinstance(t, Tab) and t.done and getattr(t, "full", False) and t.f is f))
    if st == "off":
        V.ensure("nothing is cached unless asked for", t is None)


@contract("C13", OBJ + ".read_rows", name="ObjectDataReader.read_rows", target="rows")
def base_rows(V):
    f = File(V)
    o, st = cache_state(V, f)
    cached(V, f, o)
    how = V.pick("how", ["block", "rest", "all"])
    b, m = V.int("block_start", 0), V.int("block_size", 0)
    args = {"block": [b, m], "rest": [b, None], "all": []}[how]
    out = V.call(o, *args)
    if not V.returns(out):
        return
    t = out.value
    V.ensure("a processed table", isinstance(t, Tab) and t.done)
    if not isinstance(t, Tab):
        return
    b0 = b.t if how != "all" else z3.IntVal(0)
    V.ensure("exactly the rows of the block", t.keep(f.r) == z3.And(f.r >= b0, f.r < b0 + m.t if how == "block" else z3.BoolVal(True)))
    cache_kept(V, o, f, st)


@contract("C13", OBJ + ".read_objects", name="ObjectDataReader.read_objects", target="objects")
def base_objects(V):
    f = File(V)
    o, st = cache_state(V, f)
    cached(V, f, o)
    ids = Ids(V.ctx)
    out = V.call(o, ids)
    if not V.returns(out):
        return
    t = out.value
    V.ensure("a processed table", isinstance(t, Tab) and t.done)
    if not isinstance(t, Tab):
        return
    V.ensure("exactly the rows of the requested objects", t.keep(f.r) == ids.has(f.id(f.r)))
    cache_kept(V, o, f, st)


# --------------------------------------------------------------- validation
@contract("C13", CSV + "._process_and_validate_input_table", name="CSVDataReader._process_and_validate_input_table", target="rows")
def csv_process(V):
    which = V.pick("columns", ["usual", "padded", "no id", "one"])
    cols = {"usual": {"ObjID": "str", "q": "real", "x y": "int"}, "padded": {"ObjID": "str", " q": "real", "e\t": "real", "n": "int"}, "no id": {"id": "str", "q": "real"}, "one": {"ObjID": "str"}}[which]
    df = V.frame("rows", cols, other=False)
    before = dict(df.cols)
    view = df.view
    f = File(V)
    o = reader(V, CSV, f, "csv")
    out = V.call(o, df)
    if which in ("no id", "one"):
        V.ensure("refused", out.exc == "SystemExit")
        return
    if not V.returns(out):
        return
    t = out.value
    r = V.row(df)
    V.ensure("same rows", t.view is view)
    V.ensure("columns without their padding", list(t.cols) == [x.strip() for x in cols])
    for x in before:
        if x.strip() in t.cols:
            V.ensure(f"{x.strip()} unchanged", t.cols[x.strip()](r).t == before[x](r).t)


EPHCOLS = ["ObjID", "FieldID", "fieldMJD_TAI", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km",
           "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s", "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s",
           "Obs_Sun_vz_km_s", "phase_deg"]


@contract("C13", EPH + "._process_and_validate_input_table", name="EphemerisDataReader._process_and_validate_input_table", target="ephemeris")
def eph_process(V):
    more = V.pick("more", [[], ["fieldJD_TDB"], ["V", "V(H=0)"], ["V", "fieldJD_TDB"], ["unknown"], ["V", "mag "]])
    rot = V.pick("order", [0, 7])
    names = EPHCOLS[rot:] + EPHCOLS[:rot] + more
    df = V.frame("rows", {x: ("str" if x == "ObjID" else "real") for x in names}, other=False)
    before, view = dict(df.cols), df.view
    o = Obj(V.get(EPH))
    out = V.call(o, df)
    if set(x.strip() for x in more) - {"fieldJD_TDB", "V", "V(H=0)"}:
        V.ensure("unknown columns are refused", out.exc == "SystemExit")
        return
    if not V.returns(out):
        return
    t = out.value
    r = V.row(df)
    V.ensure("same rows", t.view is view)
    V.ensure("the ephemeris columns", list(t.cols) == EPHCOLS)
    for x in EPHCOLS:
        if x in t.cols:
            V.ensure(f"{x} unchanged", t.cols[x](r).t == before[x](r).t)


@contract("C13", EPH + "._read_rows_internal", name="EphemerisDataReader delegates", target="ephemeris")
def eph_delegates(V):
    f = File(V)
    o = Obj(V.get(EPH))
    o.attrs.update(reader=reader(V, CSV, f, "csv"), _cache_table=False, _table=None)
    seen = []
    V.use(OBJ + ".read_rows", lambda I, v: (seen.append(("rows", v["self"], v.get("block_start"), v.get("block_size"))), "T")[1])
    V.use(OBJ + ".read_objects", lambda I, v: (seen.append(("objects", v["self"], v.get("obj_ids"))), "T")[1])
    if V.pick("what", ["rows", "objects"]) == "rows":
        b, m = V.int("block_start", 0), V.pick("size", [None, V.int("block_size", 0)])
        out = V.call(o, b, m)
        V.ensure("the block asked for, of the wrapped reader", out.exc is None and out.value == "T" and len(seen) == 1 and seen[0][0] == "rows" and seen[0][1] is o.attrs["reader"] and seen[0][2] is b and seen[0][3] is m)
    else:
        ids = Ids(V.ctx)
        out = V.call_fn(EPH + "._read_objects_internal", o, ids)
        V.ensure("the objects asked for, of the wrapped reader", out.exc is None and out.value == "T" and len(seen) == 1 and seen[0] == ("objects", o.attrs["reader"], ids))


@contract("C13", CSV + "._find_and_validate_header_line", name="CSVDataReader._find_and_validate_header_line", target="rows")
def csv_header(V):
    c = V.ctx
    n = c.fresh("n_lines", "int")
    c.assume(n >= 0)
    line = z3.Function(c.fresh_name("line"), z3.IntSort(), z3.StringSort())
    given = V.pick("given", [False, True])
    hdr = V.int("header", 0) if given else None
    if given:
        c.assume(hdr.t <= 100)
    match = lambda k: (k == hdr.t) if given else z3.PrefixOf(z3.StringVal("ObjID"), line(k))

    class FH:
        def sym_enter(self, I):
            return self

        def sym_iter(self, I):
            return L.Iter(n, lambda k: SV("str", line(k)))

    checked = []
    V.stub("open", lambda I, a, k: (V.ensure("opens its own file", a[0] == "FILE"), FH())[1])
    V.use(CSV + "._check_header_line", lambda I, v: checked.append(v["header_line"]))
    j = z3.Int("j")
    x0 = c.fresh("x0", "int")

    def inv(env, k, I):
        kk = k if not isinstance(k, SV) else k.t
        return [("no header line so far", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < kk), z3.Not(match(j))))), ("within the first hundred lines", kk <= 102)]

    V.invariant(CSV + "._find_and_validate_header_line", 0, inv)
    o = Obj(V.get(CSV))
    o.attrs.update(filename="FILE", sep="csv")
    out = V.call(o, *([hdr] if given else []))
    if out.exc is not None:
        V.ensure("refused only without a header line", z3.And(z3.BoolVal(out.exc == "SystemExit"), z3.Implies(z3.And(x0 >= 0, x0 < n, x0 <= 100), z3.Not(match(x0)))))
        return
    t = to_int(out.value)
    V.ensure("the first header line", z3.And(t >= 0, t < n, match(t), z3.Implies(z3.And(x0 >= 0, x0 < t), z3.Not(match(x0)))))
    V.ensure("which is validated", checked[0].t == line(t) if len(checked) == 1 and isinstance(checked[0], SV) else False)


# ------------------------------------------------------------------ combining
class RowsOf:
    """rows of a reader's file: those of the given IDs, joined with the rows of other tables"""

    def __init__(self, src, has, joined=(), n=None):
        self.src, self.has, self.joined, self.n = src, has, tuple(joined), n

    def sym_len(self, I):
        if self.n is None:
            raise Unsupported("length")
        return SV("int", self.n)

    def sym_getattr(self, I, name):
        if name == "columns":
            return ["ObjID", "x"]
        if name == "set_index":
            def f(I, a, k):
                if (a[0] if a else k.get("keys")) != "ObjID" or k.get("drop") is False:
                    raise Unsupported("set_index")
                return ById(self)
            return Prim(f, name)
        if name == "join":
            def f(I, a, k):
                V_ = I.ctx.V
                V_.ensure("joined on the object ID", isinstance(a[0], ById) and k.get("on") == "ObjID" and k.get("how", "left") == "left" and set(k) <= {"on", "how"})
                return RowsOf(self.src, self.has, self.joined + (a[0].t,), self.n)
            return Prim(f, name)
        if name == "merge":
            def f(I, a, k):
                if not (isinstance(a[0], RowsOf) and k.get("on") == "ObjID" and set(k) <= {"on", "how"}):
                    raise Unsupported("merge")
                I.ctx.V.ensure("no row is lost or added in joining", k.get("how", "inner") == "left")
                return RowsOf(self.src, self.has, self.joined + (a[0],), self.n)
            return Prim(f, name)
        raise Unsupported("table ." + name)

    def sym_getitem(self, I, k):
        if k == "ObjID":
            return IdsOf(self)
        raise Unsupported("table index")


class ById:
    def __init__(self, t):
        self.t = t


class IdsOf:
    """the set of IDs of a table (as a column, array, list or set)"""

    def __init__(self, t, unique=False):
        self.t, self.unique = t, unique

    def sym_getattr(self, I, name):
        if name == "unique" or name == "drop_duplicates":
            return Prim(lambda I, a, k: IdsOf(self.t, True), name)
        if name in ("tolist", "astype", "to_list", "copy", "to_numpy"):
            return Prim(lambda I, a, k: self, name)
        if name == "values":
            return self
        if name == "issubset":
            return Prim(lambda I, a, k: subset(I, self, a[0]), name)
        raise Unsupported("IDs ." + name)

    def sym_set(self, I):
        return IdsOf(self.t, True)

    def sym_len(self, I):
        if not self.unique:
            return self.t.sym_len(I)
        n = I.ctx.fresh("n_ids", "int")
        I.ctx.assume(z3.And(n >= 0, n <= self.t.n, (n == 0) == (self.t.n == 0)))
        return SV("int", n)

    def sym_truth(self, I):
        return I.ctx.branch(self.t.n > 0)

    def sym_compare(self, I, op, a, b):
        if isinstance(op, ast.LtE):
            return subset(I, a, b)
        raise Unsupported("comparison of IDs")


def subset(I, a, b):
    if not (isinstance(a, IdsOf) and isinstance(b, IdsOf)):
        raise Unsupported("subset")
    c = I.ctx
    t, w = c.fresh("subset", "bool"), c.fresh("witness", "str")
    s = z3.String("s!sub")
    c.assume(z3.If(t, z3.ForAll([s], z3.Implies(a.t.has(s), b.t.has(s))), z3.And(a.t.has(w), z3.Not(b.t.has(w)))))
    return SV("bool", t)


class GhostReader:
    """a reader by its contract: n rows; the IDs in it"""

    def __init__(self, V, nm):
        c = self.c = V.ctx
        self.nm = nm
        self.n = c.fresh("rows_" + nm, "int")
        c.assume(self.n >= 0)
        self.ids = z3.Function(c.fresh_name("in_" + nm), z3.StringSort(), z3.BoolSort())
        self.asked = []

    def sym_getattr(self, I, name):
        c = self.c
        if name == "get_reader_info":
            return Prim(lambda I, a, k: self.nm, name)
        if name == "filename":
            return self.nm
        if name == "read_rows":
            def f(I, a, k):
                b, m = opt(a, k, 0, "block_start"), opt(a, k, 1, "block_size")
                b = 0 if b is None else b
                n = c.fresh("got", "int")
                left = z3.If(self.n > to_int(b), self.n - to_int(b), 0)
                c.assume(n == (left if m is None else z3.If(to_int(m) < left, to_int(m), left)))
                part = z3.Function(c.fresh_name("block_ids"), z3.StringSort(), z3.BoolSort())
                s = z3.String("s!b")
                c.assume(z3.ForAll([s], z3.Implies(part(s), self.ids(s)), patterns=[part(s)]))
                t = RowsOf(self, part, (), n)
                self.asked.append(("rows", to_int(b), m, t))
                return t
            return Prim(f, name)
        if name == "read_objects":
            def f(I, a, k):
                w = a[0]
                if not isinstance(w, IdsOf):
                    raise Unsupported("IDs")
                n = c.fresh("got", "int")
                c.assume(n >= 0)
                t = RowsOf(self, lambda s: z3.And(self.ids(s), w.t.has(s)), (), n)
                self.asked.append(("objects", w, None, t))
                return t
            return Prim(f, name)
        raise Unsupported("reader ." + name)


def combined(V, naux, ephem, primary=False):
    o = Obj(V.get(COM))
    aux = [GhostReader(V, f"aux{i}") for i in range(naux)]
    eph = GhostReader(V, "ephem") if ephem else None
    pos = V.int("block_start", 0)
    o.attrs.update(ephem_reader=eph, aux_data_readers=aux, block_start=pos, ephem_primary=primary)
    V.stub("pandas.unique", lambda I, a, k: IdsOf(a[0].t, True) if isinstance(a[0], IdsOf) else (_ for _ in ()).throw(Unsupported("unique")))
    return o, aux, eph, pos


def advanced(o, pos, blk, m):
    """exactly past the rows read; past the last row any later position is as good"""
    new = to_int(o.attrs["block_start"])
    exact = new == pos.t + blk.n
    return exact if m is None else z3.Or(exact, z3.And(blk.n < to_int(m), new >= pos.t + blk.n))


@contract("C13", COM + ".read_block", name="CombinedDataReader.read_block", target="combined")
def read_block(V):
    c = V.ctx
    primary = V.pick("ephem_primary", [False, True])
    o, aux, eph, pos = combined(V, V.pick("naux", [1, 2, 3]), True, primary)
    size = V.pick("size", [V.int("block_size", 1), None])
    out = V.call(o, block_size=size)
    first = eph if primary else aux[0]
    V.ensure("one block of the primary file is read", len(first.asked) >= 1 and first.asked[0][0] == "rows" and len([1 for x in first.asked if x[0] == "rows"]) == 1
             and all(not [1 for x in r.asked if x[0] == "rows"] for r in aux + [eph] if r is not first))
    if not first.asked or first.asked[0][0] != "rows":
        return
    _, b, m, blk = first.asked[0]
    V.ensure("from the current position, of the configured size", z3.And(b == pos.t, z3.BoolVal(m is size)))
    V.ensure("the position advances by the rows read", advanced(o, pos, blk, m))
    w = c.fresh("an_id", "str")
    if out.exc is not None:
        V.ensure("stops only when an object of the ephemerides lacks auxiliary rows", out.exc == "SystemExit" and True)
        s = z3.String("s!e")
        E = blk.has if primary else (lambda t: z3.And(eph.ids(t), blk.has(t)))
        V.ensure("and then it does lack them", z3.Exists([s], z3.And(E(s), z3.Or([z3.Not(z3.And(a.ids(s))) for a in aux]))))
        return
    t = out.value
    if t is None:
        V.ensure("nothing is returned only after the last row", blk.n == 0)
        return
    V.ensure("the result is the ephemeris rows", isinstance(t, RowsOf) and t.src is eph)
    if not isinstance(t, RowsOf):
        return
    V.ensure("rows of the block's objects", t.has(w) == (blk.has(w) if primary else z3.And(eph.ids(w), blk.has(w))))
    V.ensure("each auxiliary file is joined once, in order", [j.src for j in t.joined] == aux)
    for j in t.joined:
        V.ensure("each row finds the auxiliary rows of its own object", z3.Implies(t.has(w), j.has(w)))
        V.ensure("only rows of the block's objects are read", z3.Implies(j.has(w), blk.has(w)))


@contract("C13", COM + ".read_aux_block", name="CombinedDataReader.read_aux_block", target="combined")
def read_aux_block(V):
    c = V.ctx
    o, aux, eph, pos = combined(V, V.pick("naux", [1, 2, 3]), V.pick("ephem", [False, True]))
    size = V.pick("size", [V.int("block_size", 1), None])
    out = V.call(o, block_size=size)
    if not V.returns(out, "never refused: every row read is of the block's objects"):
        return
    first = aux[0]
    V.ensure("one block of the primary file is read", len(first.asked) == 1 and first.asked[0][0] == "rows" and all(not [1 for x in r.asked if x[0] == "rows"] for r in aux[1:]))
    _, b, m, blk = first.asked[0]
    V.ensure("from the current position, of the configured size", z3.And(b == pos.t, z3.BoolVal(m is size)))
    V.ensure("the position advances by the rows read", advanced(o, pos, blk, m))
    t = out.value
    if t is None:
        V.ensure("nothing is returned only after the last row", blk.n == 0)
        return
    V.ensure("the result is the block", isinstance(t, RowsOf) and t.src is first and t.n is blk.n)
    if not isinstance(t, RowsOf):
        return
    w = c.fresh("an_id", "str")
    V.ensure("each further file is joined once, in order", [j.src for j in t.joined] == aux[1:])
    for j in t.joined:
        V.ensure("all rows of the block's objects are read", j.has(w) == z3.And(j.src.ids(w), blk.has(w)))


@contract("C13", COM + ".check_aux_object_ids", name="CombinedDataReader.check_aux_object_ids", target="combined")
def check_ids(V):
    c = V.ctx
    n = V.pick("naux", [0, 1, 2, 3])
    ms = []  # the multiset of IDs of each file
    S = z3.DeclareSort("IdBag")
    size = z3.Function("bag_size", S, z3.IntSort())
    readers = []

    class Vals:
        def __init__(self, m):
            self.m = m

        def sym_getattr(self, I, name):
            if name in ("values",):
                return self
            if name in ("tolist", "to_list", "to_numpy"):
                return Prim(lambda I, a, k: self, name)
            raise Unsupported("IDs ." + name)

        def sym_sorted(self, I):
            return Bag(self.m)

    class Bag:
        def __init__(self, m):
            self.m = m

        def sym_compare(self, I, op, a, b):
            if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, Bag) and isinstance(b, Bag):
                e = a.m == b.m
                return SV("bool", e if isinstance(op, ast.Eq) else z3.Not(e))
            raise Unsupported("comparison of counts")

    class Tbl:
        def __init__(self, m):
            self.m = m

        def sym_len(self, I):
            return SV("int", size(self.m))

        def sym_getitem(self, I, k):
            if k != "ObjID":
                raise Unsupported("column")
            return Vals(self.m)

    class Rd:
        def __init__(self, i):
            self.m, self.t, self.i = z3.Const(c.fresh_name("bag"), S), None, i

        def sym_getattr(self, I, name):
            if name == "_build_id_map":
                def f(I, a, k):
                    self.t = Tbl(self.m)
                return Prim(f, name)
            if name == "obj_id_table":
                return self.t
            if name == "filename":
                return f"file{self.i}"
            raise Unsupported("reader ." + name)

    readers = [Rd(i) for i in range(n)]
    V.stub("collections.Counter", lambda I, a, k: Bag(a[0].m))
    o = Obj(V.get(COM))
    o.attrs.update(ephem_reader=None, aux_data_readers=list(readers), block_start=0, ephem_primary=False)
    out = V.call(o)
    if n <= 1:
        V.ensure("a single file is refused", out.exc == "SystemExit")
        return
    same = z3.And([r.m == readers[0].m for r in readers[1:]])
    V.ensure("accepted exactly when all files hold the same IDs", (same if out.exc is None else z3.And(z3.BoolVal(out.exc == "SystemExit"), z3.Not(same))))
    V.ensure("the reading position does not move", o.attrs["block_start"] == 0)


@contract("C13", CSV, name="readers of their own file", target="rows")
def constructed(V):
    """every reader reads the file and the format it is given, from the header
    line found there, and starts without cached rows or IDs"""
    which = V.pick("reader", ["csv", "orbits", "hdf5", "ephemeris"])
    cache = V.pick("cache_table", [None, False, True])
    kw = {} if cache is None else {"cache_table": cache}
    row = V.int("header_row", lo=0)
    asked = []
    V.use(CSV + "._find_and_validate_header_line", lambda I, v: (asked.append((v["self"].attrs.get("sep"), v.get("header"))), row)[1])
    form = {"csv": [None, "csv", "comma", "whitespace", "tab"], "orbits": [None, "csv", "comma", "whitespace", "tab"], "hdf5": [None],
            "ephemeris": ["csv", "comma", "whitespace", "h5", "hdf5", "HDF5", "xml"]}[which]
    form = V.pick("format", form)
    cls = {"csv": CSV, "orbits": "sorcha.readers.OrbitAuxReader:OrbitAuxReader", "hdf5": H5, "ephemeris": EPH}[which]
    head = V.pick("header", [None, V.int("line", lo=0)]) if which in ("csv", "orbits") else None
    args = ["FILE"] + ([] if form is None else [form])
    if head is not None:
        kw["header"] = head
    out = V.call_fn(V.get(cls), *args, **kw)
    if form in ("tab", "xml"):
        V.ensure("an unknown format is refused", out.exc == "SystemExit")
        return
    if not V.returns(out):
        return
    o = out.value
    if which == "ephemeris":
        o = o.attrs["reader"]
        V.ensure("a reader of that format", isinstance(o, Obj) and o.cls is V.get(CSV if form in ("csv", "comma", "whitespace") else H5))
    elif head is not None:
        V.ensure("the header line asked for", len(asked) == 1 and asked[0][1] is head)
    a = o.attrs
    V.ensure("of the file given", a["filename"] == "FILE")
    V.ensure("nothing cached", a["_table"] is None and a["obj_id_table"] is None)
    V.ensure("caching as asked for", a["_cache_table"] is bool(cache))
    if "sep" in a:
        csv = ("csv", "comma")
        V.ensure("of that format", a["sep"] == (form or "csv") or (a["sep"] in csv and (form or "csv") in csv))
        V.ensure("with the header line found there", a["header_row"] is row)
        V.ensure("a header line of that format", len(asked) == 1 and asked[0][0] == a["sep"])


from contracts.glue import glue
glue("C13")
