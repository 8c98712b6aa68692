"""C19 Per-visit CCD footprints keep a detection iff it falls on a CCD of its visit.

The visits database is a set of rows per visit, the grouping of detections by
visit a partition of the table.  The two external searches are used by their
documented contracts: the k-d tree returns positions of the points it was
given, and - provided it was given the five points of every CCD and the
detections, both with the RA shortened by cos(dec) - includes a point of the CCD
a detection lies on (assumed geometry: checked for the DECam and LSST layouts
by the replay); shapely's contains is point-in-polygon of the given corners."""
from pyvc.contract import contract
from pyvc import lib as L
from pyvc.lib import Iter
from contracts.common import *

M = "sorcha.modules.PPVisitsFootprintFilter"
A = "sorcha.modules.PPApplyFOVFilter"
IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
CORNERS = ["llc", "lrc", "urc", "ulc"]
NUMS = ["ra_centre", "dec_centre"] + [c + x for c in CORNERS for x in ("ra", "dec")] + ["limMag_perChip"]
POINTS = [("ra_centre", "dec_centre")] + [(c + "ra", c + "dec") for c in CORNERS]


class World:
    def __init__(self, V, n):
        self.V, c = V, V.ctx
        self.n = n
        self.G = c.fresh("n_visits", "int")
        V.pre(n >= 0, self.G >= 0)
        f = lambda nm, *s: z3.Function(nm, *s)
        self.visit, self.m = f("visit_of_group", IS, IS), f("group_size", IS, IS)
        self.idx = f("row_at", IS, IS, IS)
        self.group, self.pos = f("group_of_row", IS, IS), f("place_of_row", IS, IS)
        self.nccd = f("n_ccds", IS, IS)
        self.ccd = {c_: f("ccd." + c_, IS, IS, RS) for c_ in NUMS}
        self.det = f("ccd.detectorID", IS, IS, IS)
        self.inside = f("point_in_quadrilateral", *([RS] * 10), BS)

    def group_facts(self, g):
        return z3.Implies(z3.And(g >= 0, g < self.G), z3.And(self.m(g) > 0, self.nccd(self.visit(g)) >= 0))

    def place_facts(self, g, j):
        i = self.idx(g, j)
        return z3.Implies(z3.And(g >= 0, g < self.G, j >= 0, j < self.m(g)), z3.And(i >= 0, i < self.n, self.group(i) == g, self.pos(i) == j))

    def row_facts(self, i):
        g, j = self.group(i), self.pos(i)
        return z3.Implies(z3.And(i >= 0, i < self.n), z3.And(g >= 0, g < self.G, j >= 0, j < self.m(g), self.idx(g, j) == i, self.group_facts(g)))

    def corners(self, v, q):
        return [self.ccd[c + x](v, q) for c in CORNERS for x in ("ra", "dec")]




class Column:
    """a column of the detections of one visit"""

    def __init__(self, n, item):
        self.n, self.item = n, item


class Table:
    def __init__(self, W, cols):
        self.W, self.cols = W, cols

    def sym_getattr(self, I, name):
        if name == "groupby":
            def groupby(I, a, k):
                if a[0] != "FieldID" or len(a) != 1 or any(k.values()):
                    raise Unsupported("groupby")
                return Groups(self.W, self.cols)
            return Prim(groupby, name)
        raise Unsupported("detections ." + name)

    def sym_truth(self, I):
        raise PyExc("ValueError")


class Groups:
    def __init__(self, W, cols):
        self.W, self.cols = W, cols

    def sym_iter(self, I):
        def item(g):
            I.ctx.assume(self.W.group_facts(g))
            return (SV("int", self.W.visit(g)), Group(self.W, self.cols, g))
        return Iter(self.W.G, item)


class Group:
    def __init__(self, W, cols, g):
        self.W, self.cols, self.g = W, cols, g

    def at(self, I, j):
        I.ctx.assume(self.W.place_facts(self.g, j))
        return self.W.idx(self.g, j)

    def sym_getitem(self, I, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise PyExc("KeyError", (k,))
            s, f = self.cols[k]
            return L.Iter2(self.W.m(self.g), lambda j: SV(s, f(self.W.idx(self.g, j))))
        if isinstance(k, list) and all(isinstance(x, str) for x in k):
            return Cols2([self.sym_getitem(I, x) for x in k], self.g)
        raise Unsupported("detections[...]")

    def sym_getattr(self, I, name):
        if name == "index":
            return L.Iter2(self.W.m(self.g), lambda j: SV("int", self.W.idx(self.g, j)))
        raise Unsupported("detections ." + name)

    def sym_len(self, I):
        return SV("int", self.W.m(self.g))


class Cols2:
    """rows of coordinate pairs"""

    def __init__(self, cols, g):
        self.cols, self.g = list(cols), g

    def sym_getattr(self, I, name):
        if name in ("to_numpy", "copy"):
            return Prim(lambda I, a, k: Cols2(self.cols, self.g), name)
        if name == "values":
            return Cols2(self.cols, self.g)
        raise Unsupported("points ." + name)

    def column(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and k[1] in (0, 1):
            return k[1]
        raise Unsupported("points[...]")

    def sym_getitem(self, I, k):
        return self.cols[self.column(k)]

    def sym_setitem(self, I, k, v):
        i = self.column(k)
        if not isinstance(v, L.Arr):
            raise Unsupported("points[...] = scalar")
        self.cols[i] = v

    def sym_binop(self, I, op, a, b):
        import ast
        o = b if a is self else a
        if isinstance(op, ast.Mult) and isinstance(o, L.Mat) and o.shape == (2,):
            return Cols2([I.lib.binop(I, op, c, s) for c, s in zip(self.cols, o.data)], self.g)
        raise Unsupported("points arithmetic")

    def sym_len(self, I):
        return SV("int", self.cols[0].n)

    def sym_iter(self, I):
        return Iter(self.cols[0].n, lambda j: (self.cols[0].get(j), self.cols[1].get(j)))


class Store2:
    """the array of CCD points, two columns of symbolic length"""

    def __init__(self, n):
        self.n = n
        self.v = [z3.K(IS, z3.RealVal(0)) for _ in range(2)]
        self.scale = None

    def havoc(self, c, name):
        self.v = [c.fresh_array(name, "real") for _ in range(2)]
        return self

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_setitem(self, I, k, v):
        if isinstance(k, slice) and k.step is None:
            a, b = to_int(k.start), to_int(k.stop)
            rows = list(I.iterate(v))
            I.V_ctx.ensure("one row per CCD point", b - a == len(rows))
            for i, r in enumerate(rows):
                r = list(I.iterate(r))
                if len(r) != 2:
                    raise PyExc("ValueError")
                for j in range(2):
                    self.v[j] = z3.Store(self.v[j], a + i, to_real(r[j]))
            return
        raise Unsupported("CCD points[...] =")

    def sym_getitem(self, I, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and k[1] in (0, 1):
            return L.Arr(self.n, self.v[k[1]], "real")
        raise Unsupported("CCD points[...]")

    def sym_binop(self, I, op, a, b):
        import ast
        o = b if a is self else a
        if isinstance(op, ast.Mult) and isinstance(o, L.Mat) and o.shape == (2,):
            x = Store2(self.n)
            x.v, x.scale = list(self.v), [to_real(s) for s in o.data]
            return x
        raise Unsupported("CCD points arithmetic")


class DBRows:
    def __init__(self, W, v):
        self.W, self.v = W, v

    def sym_truth(self, I):
        return I.ctx.branch(self.W.nccd(self.v) > 0)

    def sym_len(self, I):
        return SV("int", self.W.nccd(self.v))

    def sym_iter(self, I):
        return Iter(self.W.nccd(self.v), lambda q: DBRow(self.W, self.v, q))

    def sym_getitem(self, I, k):
        q = to_int(k)
        I.V_ctx.ensure("an existing CCD", z3.And(q >= 0, q < self.W.nccd(self.v)), "def")
        return DBRow(self.W, self.v, q)


class DBRow:
    def __init__(self, W, v, q):
        self.W, self.v, self.q = W, v, q

    def sym_getitem(self, I, k):
        self.W.read = self.q
        if k == "detectorID":
            return SV("int", self.W.det(self.v, self.q))
        if k in self.W.ccd:
            return SV("real", self.W.ccd[k](self.v, self.q))
        raise PyExc("IndexError", (k,))


class Cursor:
    def __init__(self, V, W, query):
        self.V, self.W, self.query, self.v = V, W, query, None

    def sym_getattr(self, I, name):
        if name == "execute":
            def execute(I, a, k):
                self.V.ensure("the configured query", a[0] is self.query or a[0] == self.query)
                self.v = to_int(list(I.iterate(a[1]))[0])
                return self
            return Prim(execute, name)
        if name == "fetchall":
            return Prim(lambda I, a, k: DBRows(self.W, self.v), name)
        if name == "close":
            return Prim(lambda I, a, k: None, name)
        raise Unsupported("cursor ." + name)


class Connection:
    def __init__(self, V, W, query):
        self.a = (V, W, query)

    def sym_enter(self, I):
        return self

    def sym_setattr(self, I, name, v):
        if name != "row_factory":
            raise Unsupported("connection ." + name)

    def sym_getattr(self, I, name):
        if name == "cursor":
            return Prim(lambda I, a, k: Cursor(*self.a), name)
        if name == "execute":
            return Cursor(*self.a).sym_getattr(I, name)
        if name == "close":
            return Prim(lambda I, a, k: None, name)
        raise Unsupported("connection ." + name)


class GPoint:
    def __init__(self, x, y):
        self.x, self.y = x, y


class Quad:
    def __init__(self, W, c):
        self.W, self.c = W, c

    def sym_getattr(self, I, name):
        if name == "contains":
            def contains(I, a, k):
                if not isinstance(a[0], GPoint):
                    raise Unsupported("contains")
                self.W.tested = self
                return SV("bool", self.W.inside(*self.c, a[0].x, a[0].y))
            return Prim(contains, name)
        raise Unsupported("polygon ." + name)


class GSet:
    """the detections found so far"""

    def __init__(self, W, arr):
        self.W, self.arr = W, arr

    def havoc(self, c, name):
        self.arr = c.fresh_array(name, "bool")
        return self

    def sym_getattr(self, I, name):
        if name == "add":
            def add(I, a, k):
                i = to_int(a[0])
                self.arr = z3.Store(self.arr, i, z3.BoolVal(True))
                self.W.found(i)
            return Prim(add, name)
        raise Unsupported("set ." + name)

    def sym_list(self, I):
        return self.W.listing(self)


class GDict:
    def __init__(self, dom, arr, s):
        self.dom, self.arr, self.s = dom, arr, s

    def havoc(self, c, name):
        self.dom, self.arr = c.fresh_array(name + "_keys", "bool"), c.fresh_array(name, self.s)
        return self

    def sym_setitem(self, I, k, v):
        i = to_int(k)
        self.dom = z3.Store(self.dom, i, z3.BoolVal(True))
        self.arr = z3.Store(self.arr, i, to_real(v) if self.s == "real" else to_int(v))

    def sym_getitem(self, I, k):
        i = to_int(k)
        I.V_ctx.ensure("a key that is there", z3.Select(self.dom, i), "def")
        return SV(self.s, z3.Select(self.arr, i))


def seg_inv(V, lst, k, same):
    """the list has k elements and same(x, p) holds of every element"""
    if not isinstance(lst, list):
        raise Unsupported("list")
    parts, n = L.seg_bounds(lst)
    out = [("length", n == k)]
    for p, x in parts:
        if isinstance(x, Seg):
            j = V.ctx.fresh("j", "int")
            out.append(("elements", z3.Implies(z3.And(j >= 0, j < x.n), same(x.item(j), p + j))))
        else:
            out.append(("element", same(x, p)))
    return out


@contract("C19", M + ":PPVisitsFootprint", target="visits")
def visits(V):
    c = V.ctx
    V.I.V_ctx = V
    n = c.fresh("n_detections", "int")
    W = World(V, n)
    f = {nm: ("real", z3.Function(nm, IS, RS)) for nm in ("RA_deg", "Dec_deg", "fieldRA_deg")}
    f["FieldID"] = ("int", z3.Function("FieldID", IS, IS))
    ra, dec, fra = (lambda i, nm=nm: f[nm][1](i) for nm in ("RA_deg", "Dec_deg", "fieldRA_deg"))
    i0, q0 = c.fresh("any_detection", "int"), c.fresh("any_ccd", "int")
    V.pre(W.row_facts(i0), i0 >= 0, i0 < n)
    g0, j0 = W.group(i0), W.pos(i0)
    v0 = W.visit(g0)
    V.pre(f["FieldID"][1](i0) == v0)
    x0 = ra(i0) + 360 * z3.ToReal(L.round_half_even((fra(i0) - ra(i0)) / 360))
    isin = lambda q: z3.And(q >= 0, q < W.nccd(v0), W.inside(*W.corners(v0, q), x0, dec(i0)))
    hit = isin(q0)
    query = "QUERY"
    W.ghost = c.fresh("witness", "int")
    W.tested = None

    def found(i):
        q = getattr(W.tested, "q", None)
        if q is None:
            raise Unsupported("detection without a tested CCD")
        W.ghost = z3.If(i == i0, q, W.ghost)

    W.found = found
    V.stub("sqlite3.connect", lambda I, a, k: Connection(V, W, query) if a[0] == "visits.db" else V.ensure("the visits database", False))

    # ---- numpy on tables of symbolic length
    def array(I, a, k):
        x = a[0]
        if isinstance(x, Iter):
            return Cols2([L.Iter2(x.n, lambda j, d=d: L.SV("real", to_real(x.item(j)[d]))) for d in (0, 1)], W.now["g"])
        if isinstance(x, Cols2):
            return Cols2(x.cols, x.g)
        return V.lib.f_np_array(I, *a, **{kk: v for kk, v in k.items() if kk != "dtype"})

    V.stub("numpy.array", array)

    def empty(I, a, k):
        s = a[0]
        if not (isinstance(s, tuple) and len(s) == 2 and s[1] == 2):
            raise Unsupported("np.empty")
        return Store2(to_int(s[0]))

    V.stub("numpy.empty", empty)
    V.stub("numpy.zeros", empty)
    mean = z3.Function("mean_of", z3.ArraySort(IS, RS), IS, RS)
    V.stub("numpy.mean", lambda I, a, k: SV("real", mean(a[0].arr, a[0].n)))

    # ---- shapely
    V.stub("shapely.geometry.Point", lambda I, a, k: GPoint(*[to_real(t) for t in (a if len(a) == 2 else I.iterate(a[0]))]))

    def polygon(I, a, k):
        m = a[0] if isinstance(a[0], L.Mat) else V.lib.to_mat(I, a[0])
        if m.shape not in ((4, 2), (5, 2)):
            raise Unsupported("polygon corners")
        t = [to_real(x) for x in m.data]
        if m.shape[0] == 5:
            V.ensure("the outline is closed", z3.And(t[8] == t[0], t[9] == t[1]))
        p = Quad(W, t[:8])
        p.q = W.read  # the CCD whose corners were read last: a witness, checked by the obligations
        return p

    W.read = None
    V.stub("shapely.geometry.Polygon", polygon)

    # ---- the nearest points
    class Near:
        def __init__(self, n, item):
            self.n, self.item = n, item

        def sym_getattr(self, I, name):
            if name in ("flatten", "ravel"):
                return Prim(lambda I, a, k: Iter(self.n, self.item), name)
            raise Unsupported("nearest ." + name)

    class Tree:
        def __init__(self, pts):
            self.pts = pts

        def sym_getattr(self, I, name):
            if name != "query":
                raise Unsupported("tree ." + name)

            def q(I, a, k):
                pts, S, v = a[0], self.pts, W.visit(W.now["g"])
                nn = k.get("k", a[1] if len(a) > 1 else 1)
                V.ensure("the three nearest points are asked for", z3.Or(to_int(nn) >= 3, to_int(nn) >= S.n))
                ok = isinstance(pts, Cols2) and S.scale is not None
                V.ensure("distances on the sky", ok)
                if not ok:
                    raise Unsupported("tree query")
                t, e = filled.t, c.fresh("e", "int")
                V.ensure("five points of every CCD", S.n == 5 * W.nccd(v))
                for d, (px, py) in enumerate(POINTS):
                    V.ensure(f"point {d} of every CCD", z3.Implies(z3.And(t >= 0, t < W.nccd(v)), z3.And(
                        z3.Select(S.v[0], 5 * t + d) == W.ccd[px](v, t), z3.Select(S.v[1], 5 * t + d) == W.ccd[py](v, t))))
                sc = V.lib.f_np_cos(I, V.lib.f_np_radians(I, SV("real", mean(S.v[1], S.n)))).t
                V.ensure("the RA shortened by the cosine of the declination, in the tree", z3.And(S.scale[0] == sc, S.scale[1] == 1))
                i = W.idx(W.now["g"], e)
                tx = ra(i) + 360 * z3.ToReal(L.round_half_even((fra(i) - ra(i)) / 360))
                V.ensure("and in the detections", z3.Implies(z3.And(e >= 0, e < W.m(W.now["g"])), z3.And(pts.cols[0].n == W.m(W.now["g"]), pts.cols[0].get(e).t == tx * sc, pts.cols[1].get(e).t == dec(i))))
                near = z3.Function(c.fresh_name("nearest"), IS, IS)
                nf = c.fresh("n_nearest", "int")
                c.assume(nf >= 0)
                W.near_q0 = c.fresh("near_point_of_ccd", "int")
                c.assume(z3.Implies(z3.And(W.now["g"] == g0, hit), z3.And(W.near_q0 >= 0, W.near_q0 < nf, near(W.near_q0) / 5 == q0)))

                def item(j):
                    c.assume(z3.Implies(z3.And(j >= 0, j < nf), z3.And(near(j) >= 0, near(j) < S.n)))
                    return SV("int", near(j))

                return (L.Opaque("distances"), Near(nf, item))

            return Prim(q, name)

    V.stub("scipy.spatial.cKDTree", lambda I, a, k: Tree(a[0]))

    # ---- the state of the search
    W.now = {}

    def member(x, i):
        if isinstance(x, set):
            return z3.BoolVal(i in x)
        return z3.Select(x.arr, i)

    def keyed(x, i):
        return z3.BoolVal(False) if isinstance(x, dict) else z3.Select(x.dom, i)

    def state(env, before, upto=None):
        """what is known of detection i0 once the places `before` were searched"""
        S, D, Lm = (env.vars[x] for x in ("detected_indices", "detector_for_index", "lim_mag_list"))
        if isinstance(S, (set, GSet)) and isinstance(D, (dict, GDict)) and isinstance(Lm, (dict, GDict)):
            pass
        else:
            raise Unsupported("state of the search")
        det, q = member(S, i0), W.ghost
        val = z3.BoolVal(True) if isinstance(D, dict) else z3.And(z3.Select(D.arr, i0) == W.det(v0, q), z3.Select(Lm.arr, i0) == W.ccd["limMag_perChip"](v0, q))
        return [("on one of the CCDs of its visit", z3.Implies(det, z3.And(before if upto is None else upto, isin(q), val))),
                ("keys", z3.And(keyed(D, i0) == det, keyed(Lm, i0) == det)),
                ("none missed", z3.Implies(z3.And(before, hit), det))]

    def outer(env, k, I):
        outer.env = env
        W.now["g"] = k
        return state(env, g0 < k)

    def outer_havoc(k):
        e = outer.env.vars
        W.ghost = c.fresh("witness", "int")
        e["detected_indices"] = GSet(W, c.fresh_array("detected", "bool"))
        e["detector_for_index"] = GDict(c.fresh_array("detector_keys", "bool"), c.fresh_array("detector", "int"), "int")
        e["lim_mag_list"] = GDict(c.fresh_array("limmag_keys", "bool"), c.fresh_array("limmag", "real"), "real")

    outer.havoc = outer_havoc
    outer.handles = {"detected_indices", "detector_for_index", "lim_mag_list"}
    V.invariant(M + ":PPVisitsFootprint", 0, outer)

    def filled(env, k, I):
        S, v = env.vars["all_ccd_points"], W.visit(W.now["g"])
        if not isinstance(S, Store2):
            raise Unsupported("CCD points")
        if not hasattr(filled, "t"):
            filled.t = c.fresh("any_filled", "int")
        t = filled.t
        return [(f"point {d} of every CCD so far", z3.Implies(z3.And(t >= 0, t < k), z3.And(
            z3.Select(S.v[0], 5 * t + d) == W.ccd[px](v, t), z3.Select(S.v[1], 5 * t + d) == W.ccd[py](v, t)))) for d, (px, py) in enumerate(POINTS)]

    def filled_all(env, k, I):
        """assumed for every CCD, checked for an arbitrary one"""
        return filled(env, k, I)

    V.invariant(M + ":PPVisitsFootprint", 1, filled_all)

    def quads(env, k, I):
        quads.env = env
        U, v = env.vars["unique_ccd_indices"], W.visit(W.now["g"])
        if not isinstance(U, L.IterSet):
            raise Unsupported("CCD indices")
        U.sym_iter(I).item(k)

        def poly(x, p):
            if not isinstance(x, Quad):
                return z3.BoolVal(False)
            return z3.And([a == b for a, b in zip(x.c, W.corners(v, U.u(p)))])

        vs = env.vars
        out = []
        for nm, same in (("polygons", poly), ("detectors", lambda x, p: to_int(x) == W.det(v, U.u(p))), ("limmag", lambda x, p: to_real(x) == W.ccd["limMag_perChip"](v, U.u(p)))):
            out += [(f"{nm}: {a}", t) for a, t in seg_inv(V, vs[nm], k, same)]
        return out

    def quads_havoc(k):
        vs = quads.env.vars
        U, v = vs["unique_ccd_indices"], W.visit(W.now["g"])
        fact = lambda p: U.sym_iter(V.I).item(p).t

        def quad(p):
            x = Quad(W, W.corners(v, fact(p)))
            x.q = U.u(p)
            return x

        vs["polygons"][:] = [Seg(k, quad)]
        vs["detectors"][:] = [Seg(k, lambda p: SV("int", W.det(v, fact(p))))]
        vs["limmag"][:] = [Seg(k, lambda p: SV("real", W.ccd["limMag_perChip"](v, fact(p))))]

    quads.havoc = quads_havoc
    quads.handles = {"polygons", "detectors", "limmag"}
    V.invariant(M + ":PPVisitsFootprint", 2, quads)

    def points(env, k, I):
        W.now["j"] = k
        g = W.now["g"]
        c.assume(W.place_facts(g, k))
        return state(env, z3.Or(g0 < g, z3.And(g0 == g, j0 < k)))

    def new_witness(k):
        W.ghost = c.fresh("witness", "int")

    points.havoc = new_witness
    V.invariant(M + ":PPVisitsFootprint", 3, points)

    def polys(env, k, I):
        g, j = W.now["g"], W.now["j"]
        out = state(env, z3.Or(g0 < g, z3.And(g0 == g, j0 < j)), z3.Or(g0 < g, z3.And(g0 == g, j0 <= j)))
        U = env.vars["unique_ccd_indices"]
        if isinstance(U, L.IterSet):
            pl = U.place(I, W.near_q0)
            S = env.vars["detected_indices"]
            out.append(("CCDs passed over do not contain it", z3.Implies(z3.And(g0 == g, j0 == j, hit), z3.And(pl < U.n, z3.Or(pl >= k, member(S, i0))))))
        return out

    polys.havoc = new_witness
    V.invariant(M + ":PPVisitsFootprint", 4, polys)

    # ---- the answer
    N, e = c.fresh("n_detected", "int"), z3.Function("detected_at", IS, IS)
    p0 = c.fresh("place_in_answer", "int")
    listed = []

    def listing(S):
        c.assume(z3.And(N >= 0, z3.Implies(member(S, i0), z3.And(p0 >= 0, p0 < N, e(p0) == i0))))
        c.assume(z3.Implies(z3.Not(member(S, i0)), e(p0) != i0))
        listed.append(S)
        return Iter(N, lambda p: SV("int", e(p)))

    W.listing = listing
    out = V.call(Table(W, f), query, "visits.db")
    if not V.returns(out):
        return
    V.ensure("three lists", isinstance(out.value, tuple) and len(out.value) == 3)
    X, Y, Z = out.value
    if not listed:
        V.ensure("no visits, no detections", all(isinstance(x, list) and not x for x in (X, Y, Z)))
        V.ensure("only without detections", z3.Not(z3.And(W.G > 0)))
        return
    S = listed[-1]
    V.ensure("lists of the same length", all(isinstance(x, Iter) for x in (X, Y, Z)) and z3.And(X.n == N, Y.n == N, Z.n == N))
    V.ensure("a detection on a CCD of its visit is kept", z3.Implies(hit, member(S, i0)))
    V.ensure("a kept detection is on a CCD of its visit", z3.Implies(member(S, i0), isin(W.ghost)))
    if not V.branch(member(S, i0)):
        return
    V.ensure("listed", X.item(p0).t == i0)
    V.ensure("with the number of that CCD", to_int(Y.item(p0)) == W.det(v0, W.ghost))
    V.ensure("and the limiting depth of that CCD", to_real(Z.item(p0)) == W.ccd["limMag_perChip"](v0, W.ghost))


@contract("C19", A + ":PPApplyFOVFilter", target="fov")
def wiring(V):
    from contracts import fov
    lists = [fov.Listing(x) for x in ("rows", "detectors", "limiting magnitudes")]
    obs = fov.Obs()
    seen = []

    def footprint(I, v):
        seen.append(v)
        V.ensure("these detections, this query, this database", v["field_df"] is obs and v["query"] == "QUERY" and v["visits_filename"] == "visits.db")
        for nm, d in (("ra_name", "RA_deg"), ("dec_name", "Dec_deg"), ("fieldId", "FieldID"), ("ccd_num", 3), ("plot", False)):
            V.ensure(f"{nm} as by default", nm not in v or v[nm] == d)
        return tuple(lists)

    V.use(M + ":PPVisitsFootprint", footprint)
    cfg = fov.config(V, "visits_footprint", {"visits_query": "QUERY"})
    ext = V.pick("ephemerides", ["ar", "external"])
    cfg.attrs["simulation"] = Obj("simulation", ar_ang_fov=SV("real", z3.RealVal("2.06")) if ext == "ar" else None, ar_fov_buffer=SV("real", z3.RealVal("0.2")) if ext == "ar" else None)
    out = V.call(obs, cfg, L.Opaque("rngs"), visits="visits.db", verbose=V.pick("verbose", [False, True]))
    V.ensure("searched once", len(seen) == 1)
    fov.wired(V, "visits_footprint", lists, ["detectorID", "limMag_perChip"])(out, obs)


from contracts.glue import glue
glue("C19")
