"""C11 Linking outcome of an object depends only on its own observations."""
from pyvc.contract import contract, also
from pyvc import lib as L
from pyvc.lib import Iter, Keyed, KeyedCol
from pyvc.values import Arr
from contracts.common import *

M = "sorcha.modules.PPMiniDifi"
F = "sorcha.modules.PPLinkingFilter"
IS = z3.IntSort()
CONFIG = ["maxdt_minutes", "minlen_arcsec", "min_observations", "window", "nlink", "p", "night_start_utc_days"]


class DType:
    def __init__(self, rec=None, fields=None):
        self.rec, self.fields = rec, fields

    def sym_getattr(self, I, name):
        if name == "names" and self.rec is not None:
            return tuple(self.rec.cols)
        raise Unsupported("dtype." + name)

    def sym_setattr(self, I, name, v):
        if name != "names" or self.rec is None:
            raise Unsupported("dtype." + name)
        names = list(v)
        if len(names) != len(self.rec.cols):
            raise PyExc("ValueError", ("names",))
        self.rec.cols = dict(zip(names, self.rec.cols.values()))


class Rec:
    """structured array of detections: src(t) is the row of the input table at position t"""

    def __init__(self, n, cols, srt="int"):
        self.n, self.cols = n, dict(cols)

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_getattr(self, I, name):
        if name == "dtype":
            return DType(self)
        if name == "copy":
            return Prim(lambda I, a, k: Rec(self.n, self.cols), name)
        raise Unsupported("record array ." + name)

    def sym_getitem(self, I, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise PyExc("ValueError", (k,))
            return Named(self.cols[k])
        if isinstance(k, list) and k and all(isinstance(x, str) for x in k):
            if any(x not in self.cols for x in k):
                raise PyExc("KeyError")
            return Rec(self.n, {x: self.cols[x] for x in k})
        if isinstance(k, Arr) and k.sort == "int":
            return Rec(k.n, {c: I.lib.getitem(I, a, k) for c, a in self.cols.items()})
        raise Unsupported("record array index")


def Named(a):
    return a


class Out:
    """the result table, one row per object"""

    def __init__(self, n, fields, val=None):
        self.n, self.fields = n, fields
        self.val = val or {}

    def havoc(self, c, name):
        self.val = {f: c.fresh_array("res_" + f, s) for f, s in self.fields.items()}
        return self

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_setitem(self, I, k, v):
        kk = to_int(k)
        if not isinstance(v, tuple) or len(v) != len(self.fields):
            raise PyExc("ValueError")
        new = {}
        for (f, s), x in zip(self.fields.items(), v):
            t = to_real(x) if s == "real" else to_int(x)
            new[f] = z3.Store(self.val[f], kk, t)
        self.val = new


@contract("C11", M + ":linkObservations", target="filter")
def observations(V):
    c = V.ctx
    n, m = c.fresh("n", "int"), c.fresh("n_objects", "int")
    V.pre(n >= 0, m >= 0)
    cols = {"ssObjectId": V.arr("id", n, "int"), "diaSourceId": V.arr("src", n, "int"), "midPointTai": V.arr("t", n, "real"), "ra": V.arr("ra", n, "real"), "decl": V.arr("dec", n, "real")}
    obsv = Rec(n, cols)
    ID = lambda i: z3.Select(cols["ssObjectId"].arr, i)
    P, Q, U, FST, G = (z3.Function(x, IS, IS) for x in ("perm", "perm_inverse", "distinct_id", "first_of_group", "group_of_id"))
    permarr = Arr(n, z3.Lambda([z3.Int("x!")], P(z3.Int("x!"))), "int")
    end = lambda g: z3.If(g + 1 < m, FST(g + 1), n)

    def perm_facts(i):
        """argsort of the ids: a permutation of the rows"""
        return z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n, Q(P(i)) == i, Q(i) >= 0, Q(i) < n, P(Q(i)) == i))

    def group_facts(i):
        """np.unique of the sorted ids with first positions: row i's sorted position lies in the run of its own id"""
        g = G(ID(i))
        return z3.Implies(z3.And(i >= 0, i < n), z3.And(g >= 0, g < m, U(g) == ID(i), FST(g) <= Q(i), Q(i) < end(g)))

    def run_facts(g, t):
        """every sorted position inside the run of group g holds id U(g)"""
        return z3.Implies(z3.And(g >= 0, g < m), z3.And(FST(g) >= 0, FST(g) < end(g), end(g) <= n, G(U(g)) == g, z3.Implies(z3.And(t >= FST(g), t < end(g)), ID(P(t)) == U(g))))

    def argsort(I, a, k):
        if a[0] is not cols["ssObjectId"]:
            raise Unsupported("sorted by something else than the object")
        return permarr

    def unique(I, a, k):
        if k.get("return_index") is not True or len(k) != 1 or len(a) != 1:
            raise Unsupported("np.unique options")
        i = c.fresh("i", "int")
        c.assume(perm_facts(i))
        V.ensure("objects are told apart on the ids sorted together", z3.And(a[0].n == n, z3.Implies(z3.And(i >= 0, i < n), a[0].get(i).t == ID(P(i)))))
        return (Arr(m, z3.Lambda([z3.Int("x!")], U(z3.Int("x!"))), "int"), Arr(m, z3.Lambda([z3.Int("x!")], FST(z3.Int("x!"))), "int"))

    class Splits:
        def sym_len(self, I):
            return SV("int", m)

        def item(self, g):
            x = z3.Int("x!")
            return Arr(end(g) - FST(g), z3.Lambda([x], P(FST(g) + x)), "int")

        def sym_iter(self, I):
            return Iter(m, self.item)

        def sym_getitem(self, I, k):
            return self.item(to_int(k))

    def split(I, a, k):
        g = c.fresh("g", "int")
        V.ensure("split at the first position of every object but the first",
                 a[0] is permarr and z3.And(a[1].n == z3.If(m > 0, m - 1, 0), z3.Implies(z3.And(g >= 0, g < m - 1), a[1].get(g).t == FST(g + 1))))
        return Splits()

    V.stub("numpy.argsort", argsort)
    V.stub("numpy.unique", unique)
    V.stub("numpy.split", split)
    V.stub("numpy.dtype", lambda I, a, k: DType(None, a[0]))

    def zeros(I, a, k):
        d = k.get("dtype", a[1] if len(a) > 1 else None)
        if not isinstance(d, DType) or d.fields is None:
            raise Unsupported("zeros")
        fields = {}
        for f, s in d.fields:
            fields[f] = "real" if s == "f8" else "int"
        nn = to_int(a[0])
        return Out(nn, fields, {f: z3.K(IS, z3.RealVal(0) if s == "real" else z3.IntVal(0)) for f, s in fields.items()})

    V.stub("numpy.zeros", zeros)
    outc = {"discoveryObservationId": z3.Function("link_obs", IS, IS), "discoverySubmissionDate": z3.Function("link_date", IS, z3.RealSort()), "discoveryChances": z3.Function("link_chances", IS, IS)}
    cfg = {k: V.real(k, record=False) for k in CONFIG}
    seed = V.int("seed", record=False)
    r0 = c.fresh("any_row", "int")
    c.assume(z3.Implies(z3.And(r0 >= 0, r0 < n), z3.And(perm_facts(r0), group_facts(r0))))
    c.assume(z3.Implies(z3.And(m > 0), FST(0) == 0))

    def link(I, v):
        k = I.ctx.__dict__["k_loop"]
        ob = v["obsv"]
        names = ["diaSourceId", "midPointTai", "ra", "decl"]
        V.ensure("the columns the linker expects", isinstance(ob, Rec) and list(ob.cols) == names)
        if not isinstance(ob, Rec):
            raise Unsupported("linkObject input")
        t = I.ctx.fresh("t", "int")
        I.ctx.assume(z3.And(perm_facts(FST(k) + t), run_facts(k, FST(k) + t), run_facts(k, Q(r0))))
        inb = z3.And(t >= 0, t < ob.n)
        V.ensure("as many detections as the object has", ob.n == end(k) - FST(k))
        for nm in names:
            if nm in ob.cols:
                V.ensure(f"only the object's own detections, {nm}", z3.Implies(inb, z3.And(ID(P(FST(k) + t)) == U(k), ob.cols[nm].get(t).t == z3.Select(cols[nm].arr, P(FST(k) + t)))))
                own = z3.And(r0 >= 0, r0 < n, ID(r0) == U(k))
                w = Q(r0) - FST(k)
                V.ensure(f"all of the object's detections, {nm}", z3.Implies(own, z3.And(w >= 0, w < ob.n, ob.cols[nm].get(w).t == z3.Select(cols[nm].arr, r0))))
        V.ensure("the same base seed for every object", to_int(v["seed"]) == seed.t)
        for q_ in CONFIG:
            V.ensure(f"the given {q_}", to_real(v[q_]) == cfg[q_].t)
        return tuple(SV("real" if f == "discoverySubmissionDate" else "int", g(k)) for f, g in outc.items())

    V.use(M + ":linkObject", link)
    g0 = c.fresh("g0", "int")  # any object

    def row_ok(o, g):
        fs = list(o.fields)
        return z3.And([z3.Select(o.val[fs[0]], g) == U(g)] + [z3.Select(o.val[f], g) == outc[f](g) for f in fs[1:]])

    def inv(env, k, I):
        I.ctx.__dict__["k_loop"] = k if not z3.is_app(k) or k.num_args() == 0 else I.ctx.__dict__.get("k_loop", k)
        o = env.vars["obj"]
        return [("outcomes so far", z3.Implies(z3.And(g0 >= 0, g0 < k), row_ok(o, g0)))]

    V.invariant(M + ":linkObservations", 0, inv)
    out = V.call(obsv, seed, objectId="ssObjectId", **cfg)
    if not V.returns(out):
        return
    o = out.value
    V.ensure("a result table", isinstance(o, Out) and list(o.fields) == ["ssObjectId"] + list(outc))
    if isinstance(o, Out):
        V.ensure("one row per object", o.n == m)
        V.ensure("each object carries the outcome of its own detections", z3.Implies(z3.And(g0 >= 0, g0 < m), row_ok(o, g0)))


linked_date = z3.Function("linking_date", z3.StringSort(), z3.RealSort())
unlinked = z3.Function("linking_date_is_nan", z3.StringSort(), z3.BoolSort())
present = z3.Function("object_has_observations", z3.StringSort(), z3.BoolSort())


@contract("C11", F + ":PPLinkingFilter", target="filter")
def filter_(V):
    drop = V.pick("drop", [True, False])
    df = V.frame("df", {"ObjID": "str", "FieldID": "int", "fieldMJD_TAI": "real", "RA_deg": "real", "Dec_deg": "real", "PSFMag": "real"})
    inp = df.copy()
    V.pre_rows(df, lambda r: present(df.cols["ObjID"](r).t))
    eff, minsep, maxt, start = V.real("eff", 0, 1), V.real("minsep", 0), V.real("maxt", 0), V.real("start", 0, 24)
    nmin, ntrk, win = V.int("nmin", lo=1), V.int("nlink", lo=1), V.int("window", lo=1)
    got = {}

    class StrCol:
        """the ids as text; numpy's fixed-width bytes as wide as the longest"""

        def __init__(self, col):
            self.col = col

        def sym_getattr(self, I, name):
            if name == "len":
                return Prim(lambda I, a, k: Lens(), name)
            raise Unsupported("str." + name)

    class Lens:
        def sym_getattr(self, I, name):
            if name == "max":
                return Prim(lambda I, a, k: "<W>", name)
            raise Unsupported("lengths." + name)

        def sym_iterate(self, I):
            raise Unsupported("lengths")

    class Records:
        def __init__(self, frame):
            self.frame = frame

        def sym_getitem(self, I, k):
            if isinstance(k, str):
                if k not in self.frame.cols:
                    raise PyExc("KeyError")
                return Col(self.frame.view, self.frame.cols[k], "array", k)
            raise Unsupported("records")

    def to_records(I, o, index=True, column_dtypes=None, **k):
        V.ensure("records without the index", index is False)
        w = (column_dtypes or {}).get("ssObjectId")
        if isinstance(w, Opaque):
            raise Unsupported("width of the id column")
        V.ensure("ids kept in full", w is None or w in ("S<W>", "O"))
        for cc, ty in (column_dtypes or {}).items():
            if cc != "ssObjectId":
                V.ensure(f"{cc} kept in full precision", ty == ("u8" if cc == "diaSourceId" else "f8") or (cc == "diaSourceId" and ty == "i8"))
        return Records(o)

    V.lib.m_Frame_to_records = to_records
    V.lib.a_Col_str = lambda I, o: StrCol(o)

    def link(I, a):
        rec = a["obsv"]
        V.ensure("the linker gets the detections", isinstance(rec, Records))
        if not isinstance(rec, Records):
            raise Unsupported("linker input")
        fr = rec.frame
        r = V.row(inp)
        V.ensure("all of them", z3.Implies(z3.And(r >= 0, r < inp.view.space.n), fr.view.keep(r)))
        names = {a.get("objectId"): "ObjID", a.get("sourceId"): "FieldID", a.get("mjdTime"): "fieldMJD_TAI", a.get("ra"): "RA_deg", a.get("dec"): "Dec_deg"}
        for nm, src in names.items():
            V.ensure(f"its {src}", nm in fr.cols)
            if nm in fr.cols:
                V.ensure(f"{src} of its own row", fr.cols[nm](r).t == inp.cols[src](r).t)
        cf = a["config"]
        want = {"maxdt_minutes": maxt.t * 24 * 60, "minlen_arcsec": minsep.t, "min_observations": nmin.t, "window": win.t, "nlink": ntrk.t, "p": eff.t, "night_start_utc_days": start.t / 24}
        V.ensure("the configured criteria", set(cf) == set(want))
        for k, t in want.items():
            if k in cf:
                x = cf[k]
                V.ensure(f"the configured {k}", (to_real(x) if t.sort() == z3.RealSort() else to_int(x)) == t)
        V.ensure("a fixed base seed", isinstance(a["seed"], int))
        got["called"] = True
        # its contract (proved above): one row per object present, carrying that object's outcome
        d = Keyed(a["objectId"], present, {"discoverySubmissionDate": lambda k: SV("real", linked_date(k))})
        return d

    V.use(M + ":linkObservations", link)

    def isnan(I, a, k):
        if isinstance(a[0], KeyedCol) and a[0].name == "discoverySubmissionDate":
            return a[0].map(lambda x: SV("bool", unlinked(x)))
        raise Unsupported("isnan")

    V.stub("numpy.isnan", isnan)

    def isin(I, a, k):
        if k.get("invert"):
            raise Unsupported("isin invert")
        if isinstance(a[1], KeyedCol) and a[1].same_key and isinstance(a[0], Col):
            return Col(a[0].view, lambda r: SV("bool", a[1].owner_has(a[0].fn(r).t)), "array")
        raise Unsupported("isin")

    V.stub("numpy.isin", isin)
    kw = {"drop_unlinked": drop} if V.pick("kw", [True, False]) else {}
    if not kw:
        drop = True
    out = V.call(df, eff, nmin, ntrk, win, minsep, maxt, start, **kw)
    if not V.returns(out):
        return
    o = out.value
    V.ensure("linked by the linker", bool(got))
    linked = lambda r: z3.Not(unlinked(inp.cols["ObjID"](r).t))
    keep = linked if drop else (lambda r: z3.BoolVal(True))
    V.ensure("a table", isinstance(o, Frame))
    r = V.row(inp)
    V.ensure("exactly the detections of linked objects" if drop else "every detection", z3.And(o.view.space is inp.view.space and True, o.view.keep(r) == keep(r)))
    V.ensure("ordered by time", isinstance(o.view.order, tuple) and o.view.order[:3] == ("sort", ("fieldMJD_TAI",), True))
    V.ensure("rows renumbered", L.is_range(o.view))
    V.ensure("columns", set(o.cols) == set(inp.cols) | {"object_linked", "date_linked_MJD"})
    for cc in inp.cols:
        if cc in o.cols:
            V.ensure(f"{cc} unchanged", z3.Implies(keep(r), o.cols[cc](r).t == inp.cols[cc](r).t))
    if "object_linked" in o.cols:
        V.ensure("flagged as linked iff it is", z3.Implies(keep(r), o.cols["object_linked"](r).t == linked(r)))
    if "date_linked_MJD" in o.cols:
        V.ensure("the object's own linking date", z3.Implies(keep(r), o.cols["date_linked_MJD"](r).t == linked_date(inp.cols["ObjID"](r).t)))


also("C11", "C10", ["linkObject", "discoveryOpportunities"], target="filter")
also("C11", "C09", ["trackletsInNights"], target="filter")


from contracts.glue import glue
glue("C11")
