"""C20 Distance, motion and discovery cuts act on whole objects as specified.

Discovery criteria of the Dark Energy Survey, for the time-ordered detections T
of one object: a detection is a *night start* when it is the first or comes more
than 0.4 d after the one before it; the arc counts when it stays longer than half
a year with either its first or its last night left out (0.7 d)."""
from pyvc.contract import contract
from pyvc import lib as L
from pyvc.lib import Iter
from pyvc.values import Arr
from contracts.common import *

M = "sorcha.modules.PPDistanceandMotionCuts"
D = "sorcha.modules.DESDiscoveryFilter"
AU = q(149597870.7)
H = q(182.625)
IS = z3.IntSort()


@contract("C20", M + ":distance_cut", target="distance")
def distance(V):
    df = V.frame("observations", {"ObjID": "str", "Obj_Sun_x_LTC_km": "real", "Obj_Sun_y_LTC_km": "real", "Obj_Sun_z_LTC_km": "real"})
    hi, lo = V.real("upper", 0), V.real("lower", 0)
    inp = df.copy()
    out = V.call(df, hi, lo)
    if not V.returns(out):
        return
    o = out.value
    r, w = V.row(inp), V.row(inp, "w")
    g = lambda c, x: inp.cols[c](x).t
    d2 = lambda x: sum(g(f"Obj_Sun_{a}_LTC_km", x) * g(f"Obj_Sun_{a}_LTC_km", x) for a in "xyz")
    within = lambda x: z3.And(d2(x) < (hi.t * AU) * (hi.t * AU), d2(x) > (lo.t * AU) * (lo.t * AU))
    V.ensure("rows of the input", isinstance(o, Frame) and o.view.space is inp.view.space)
    if not isinstance(o, Frame):
        return
    V.ensure("every detection of an object that is seen within the limits", z3.Implies(z3.And(within(w), g("ObjID", w) == g("ObjID", r)), o.view.keep(r)))
    V.ensure("no detection of any other object", z3.Implies(o.view.keep(r), z3.Or([z3.And(inp.view.inside(x), within(x), g("ObjID", x) == g("ObjID", r)) for s, x in V.ctx.rows if s is inp.view.space])))
    V.ensure("order kept", o.view.order == inp.view.order)
    V.ensure("columns", set(o.cols) == set(inp.cols))
    V.ensure_columns_same(o, inp.cols, r)


@contract("C20", M + ":motion_cut", target="motion")
def motion(V):
    df = V.frame("observations", {"ObjID": "str", "RARateCosDec_deg_day": "real", "DecRate_deg_day": "real"})
    hi, lo = V.real("upper", 0), V.real("lower", 0)
    inp = df.copy()
    out = V.call(df, hi, lo)
    if not V.returns(out):
        return
    g = lambda c, x: inp.cols[c](x).t
    m2 = lambda x: g("RARateCosDec_deg_day", x) * g("RARateCosDec_deg_day", x) + g("DecRate_deg_day", x) * g("DecRate_deg_day", x)
    V.ensure_filter(out.value, inp, lambda x: z3.And(m2(x) < hi.t * hi.t, m2(x) > lo.t * lo.t), reset=False, what="detections")


def times(V):
    n = V.ctx.fresh("n", "int")
    V.pre(n >= 1)
    T = V.arr("times", n, "real")
    return n, T, lambda i: z3.Select(T.arr, i)


def extremes(V, T, n):
    """np.min, np.max of a non-empty array"""
    j = z3.Int("j!")

    def ext(sign):
        def f(I, a, k):
            if a[0] is not T:
                raise Unsupported("extreme of something else")
            v, w = I.ctx.fresh("extreme", "real"), I.ctx.fresh("at", "int")
            I.ctx.assume(z3.And(w >= 0, w < n, z3.Select(T.arr, w) == v))
            I.ctx.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), (z3.Select(T.arr, j) >= v) if sign < 0 else (z3.Select(T.arr, j) <= v))))
            return SV("real", v)
        return f

    for nm in ("min", "amin"):
        V.stub("numpy." + nm, ext(-1))
    for nm in ("max", "amax"):
        V.stub("numpy." + nm, ext(1))


@contract("C20", D + ":compute_arccut", target="arccut", nfi=True)
def arccut(V):
    n, T, t = times(V)
    extremes(V, T, n)
    j = z3.Int("j!")
    first, last = V.ctx.fresh("first", "real"), V.ctx.fresh("last", "real")
    u, v = V.ctx.fresh("u", "int"), V.ctx.fresh("v", "int")
    V.pre(u >= 0, u < n, v >= 0, v < n, t(u) == first, t(v) == last, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(first <= t(j), t(j) <= last))))
    i0, j0 = V.ctx.fresh("i0", "int"), V.ctx.fresh("j0", "int")
    late = lambda i: z3.And(i >= 0, i < n, t(i) - first > q(0.7))
    early = lambda i: z3.And(i >= 0, i < n, last - t(i) > q(0.7))

    def inv(env, k, I):
        g = lambda nm: env.vars[nm].t if nm in env.vars else None
        a, b = g("t1a"), g("t2a")
        if a is None or b is None:
            raise Unsupported("running extremes")
        return [("within the arc", z3.And(a <= last, b >= first)),
                ("no later start skipped", z3.Implies(z3.And(late(i0), i0 < k), a <= t(i0))), ("no earlier end skipped", z3.Implies(z3.And(early(j0), j0 < k), b >= t(j0))),
                ("start is one of them", z3.Or(a == last, z3.Exists([j], z3.And(late(j), j < k, t(j) == a)))),
                ("end is one of them", z3.Or(b == first, z3.Exists([j], z3.And(early(j), j < k, t(j) == b))))]

    V.invariant(D + ":compute_arccut", 0, inv)
    out = V.call(T)
    if not V.returns(out):
        return
    b = to_bool_term(out.value)
    V.ensure("an arc longer than half a year without its first or its last night counts", z3.Implies(z3.And(late(i0), last - t(i0) > H, early(j0), t(j0) - first > H), b))
    V.ensure("no other does: without the first night", z3.Implies(b, z3.Exists([j], z3.And(late(j), last - t(j) > H))))
    V.ensure("no other does: without the last night", z3.Implies(b, z3.Exists([j], z3.And(early(j), t(j) - first > H))))


class Nights:
    """the list of night starts: entry m is the time of detection idx[m]"""

    def __init__(self, T):
        self.T, self.n, self.idx = T, z3.IntVal(0), z3.K(IS, z3.IntVal(-1))

    def havoc(self, c, name):
        self.n, self.idx = c.fresh("n_det", "int"), c.fresh_array("det_idx", "int")
        return self

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_getattr(self, I, name):
        def append(I, a, k):
            x = a[0].t if isinstance(a[0], SV) else None
            if x is None or not z3.is_select(x) or not z3.eq(x.arg(0), self.T.arr):
                raise Unsupported("something else than a detection time")
            self.idx = z3.Store(self.idx, self.n, x.arg(1))
            self.n = z3.simplify(self.n + 1)
        if name == "append":
            return Prim(append, name)
        return NotImplemented

    def sym_getitem(self, I, k):
        t = to_int(k)
        if not I.ctx.branch(z3.And(t >= -self.n, t < self.n)):
            raise PyExc("IndexError")
        if not I.ctx.branch(t >= 0):
            t = t + self.n
        return SV("real", z3.Select(self.T.arr, z3.Select(self.idx, t)))


@contract("C20", D + ":compute_triplet", target="triplet", nfi=True)
def triplet(V):
    n, T, t = times(V)
    thresh = V.real("thresh")
    V.pre(thresh.t > 0, thresh.t < 900)
    p, s = z3.Ints("p! s!")
    V.pre(z3.ForAll([p, s], z3.Implies(z3.And(p >= 0, p <= s, s < n), t(p) <= t(s))))
    start = lambda i: z3.And(i >= 0, i < n, z3.Or(i == 0, t(i) - t(i - 1) > q(0.4)))
    rank = z3.Function("rank", IS, IS)
    V.pre(rank(0) == 0)
    a0, b0, c0 = (V.ctx.fresh(x, "int") for x in ("a0", "b0", "c0"))
    good = lambda a, b, c: z3.And(start(a), start(b), start(c), a < b, b < c, t(b) - t(a) < thresh.t, t(c) - t(b) < thresh.t)
    V.stub("numba.typed.List", lambda I, a, k: Nights(T))

    def the(env):
        d = [v for v in env.vars.values() if isinstance(v, Nights)]
        if len(d) != 1:
            raise Unsupported("list of nights")
        return d[0]

    def first(env, k, I):
        d = the(env)
        I.ctx.assume(rank(k + 1) == rank(k) + z3.If(start(k + 1), 1, 0))
        I.ctx.assume(z3.Implies(k >= 1, rank(k) == rank(k - 1) + z3.If(start(k), 1, 0)))
        at = lambda m: z3.Select(d.idx, m)
        return [("one entry per night so far", z3.And(d.n == rank(k) + 1, d.n >= 1)),
                ("all of them night starts", z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < d.n), z3.And(at(p) >= 0, at(p) <= k, start(at(p)))))),
                ("in order", z3.ForAll([p, s], z3.Implies(z3.And(p >= 0, p < s, s < d.n), at(p) < at(s))))] + \
               [(f"night start {x} is there", z3.Implies(z3.And(start(x), x <= k), z3.And(rank(x) >= 0, rank(x) < d.n, at(rank(x)) == x))) for x in (a0, b0, c0)]

    def second(env, k, I):
        d = the(env)
        e = lambda m: t(z3.Select(d.idx, m))
        m = rank(b0)
        return [("no triplet so far", z3.Implies(z3.And(m >= 1, m <= k, m + 1 < d.n), z3.Not(z3.And(e(m + 1) - e(m) < thresh.t, e(m) - e(m - 1) < thresh.t))))]

    V.invariant(D + ":compute_triplet", 0, first)
    V.invariant(D + ":compute_triplet", 1, second)
    out = V.call(T, thresh)
    if not V.returns(out):
        return
    b = to_bool_term(out.value)
    V.ensure("a triplet of nights is never missed", z3.Implies(good(a0, b0, c0), b))
    x, y, z = z3.Ints("x y z")
    V.ensure("reported only when there is one", z3.Implies(b, z3.Exists([x, y, z], good(x, y, z))))


@contract("C20", D + ":compute_nunique", target="nunique", nfi=True)
def nunique(V):
    n, T, t = times(V)
    j = z3.Int("j!")
    ab = lambda x: z3.If(x >= 0, x, -x)
    apart = lambda i, k: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), ab(t(j) - t(i)) >= q(0.4)))
    cnt = z3.Function("nights_before", IS, IS)
    V.pre(cnt(0) == 0)

    def outer(env, k, I):
        I.ctx.assume(cnt(k + 1) == cnt(k) + z3.If(apart(k, k), 1, 0))
        I.ctx.assume(z3.Implies(k >= 1, cnt(k) == cnt(k - 1) + z3.If(apart(k - 1, k - 1), 1, 0)))
        return [("nights so far", to_int(env.vars["nunique"]) == cnt(k))]

    def inner(env, k, I):
        i = to_int(env.vars["i"])
        return [("apart from all earlier ones", to_bool_term(env.vars["unique"]) == apart(i, k))]

    V.invariant(D + ":compute_nunique", 0, outer)
    V.invariant(D + ":compute_nunique", 1, inner)
    out = V.call(T)
    if V.returns(out):
        V.ensure("the number of detections without an earlier one within 0.4 d", to_int(out.value) == cnt(n))


class Rec:
    """structured array of the detections, positions 0..n-1"""

    def __init__(self, n, cols, name=""):
        self.n, self.cols, self.name = n, dict(cols), name

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_getitem(self, I, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise PyExc("ValueError", (k,))
            return self.cols[k]
        if isinstance(k, list) and k and all(isinstance(x, str) for x in k):
            return Rec(self.n, {x: self.sym_getitem(I, x) for x in k})
        if isinstance(k, Arr) and k.sort == "int":
            return Rec(k.n, {c: I.lib.getitem(I, a, k) for c, a in self.cols.items()})
        raise Unsupported("record array index")


class Mask:
    """a mask over the detections, set for whole groups"""

    def __init__(self, n, member):
        self.n, self.member, self.on = n, member, z3.K(IS, z3.BoolVal(False))
        self.now = lambda r: z3.BoolVal(False)

    def havoc(self, c, name):
        f = z3.Function(c.fresh_name("mask"), IS, z3.BoolSort())
        self.now = lambda r: f(r)
        return self

    def sym_setitem(self, I, k, v):
        if not (isinstance(k, Arr) and hasattr(k, "group")) or not isinstance(v, bool):
            raise Unsupported("mask assignment")
        old, g = self.now, k.group
        self.now = lambda r: z3.If(self.member(r, g), z3.BoolVal(v), old(r))


@contract("C20", D + ":DESDiscoveryFilter", target="discovery")
def discovery(V):
    c = V.ctx
    df = V.frame("observations", {"ObjID": "str", "fieldMJD_TAI": "real", "Obj_Sun_x_LTC_km": "real", "Obj_Sun_y_LTC_km": "real", "Obj_Sun_z_LTC_km": "real"})
    inp = df.copy()
    V.pre(inp.view.space.n >= 1)
    n, m = inp.view.space.n, c.fresh("n_objects", "int")
    V.pre(m >= 0)
    SS = z3.StringSort()
    P, Q, FST = (z3.Function(x, IS, IS) for x in ("perm", "perm_inverse", "first_of_group"))
    U, G = z3.Function("distinct_id", IS, SS), z3.Function("group_of_id", SS, IS)
    ID = lambda i: inp.cols["ObjID"](i).t
    x_ = z3.Int("x!")
    permarr = Arr(n, z3.Lambda([x_], P(x_)), "int")
    end = lambda g: z3.If(g + 1 < m, FST(g + 1), n)
    perm_facts = lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n, Q(P(i)) == i, Q(i) >= 0, Q(i) < n, P(Q(i)) == i))
    group_facts = lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(G(ID(i)) >= 0, G(ID(i)) < m, U(G(ID(i))) == ID(i), FST(G(ID(i))) <= Q(i), Q(i) < end(G(ID(i)))))
    run_facts = lambda g, t: z3.Implies(z3.And(g >= 0, g < m), z3.And(FST(g) >= 0, FST(g) < end(g), end(g) <= n, G(U(g)) == g, z3.Implies(z3.And(t >= FST(g), t < end(g)), ID(P(t)) == U(g))))
    NUN, ARC = z3.Function("n_nights", IS, IS), z3.Function("long_arc", IS, z3.BoolSort())
    TRI, D2 = z3.Function("triplet_within", IS, z3.RealSort(), z3.BoolSort()), z3.Function("smallest_distance_squared", IS, z3.RealSort())
    cols = {}
    st = {}

    def kgroup():
        if "k" not in st:
            raise Unsupported("outside the loop over objects")
        return st["k"]

    class Lens:
        def sym_getattr(self, I, name):
            if name == "max":
                return Prim(lambda I, a, k: 1, name)
            raise Unsupported("lengths")

    V.lib.a_Col_str = lambda I, o: type("StrCol", (), {"sym_getattr": lambda s, I, name: Prim(lambda I, a, k: Lens(), name) if name == "len" else NotImplemented})()

    def to_records(I, o, index=True, column_dtypes=None, **k):
        V.ensure("records without the index", index is False)
        for cc, ty in (column_dtypes or {}).items():
            if cc in o.cols:
                V.ensure(f"{cc} kept in full", ty == "f8" if cc != "ObjID" else ty == "O")
        r = V.row(inp)
        V.ensure("all detections", o.view.space is inp.view.space and z3.Implies(inp.view.inside(r), o.view.keep(r)))
        for cc, f in o.cols.items():
            so = "str" if f(r).t.sort() == SS else "real"
            cols[cc] = Arr(n, z3.Lambda([x_], f(x_).t), so)
        return Rec(n, cols)

    V.lib.m_Frame_to_records = to_records

    def argsort(I, a, k):
        if a[0] is cols.get("ObjID"):
            return permarr
        g = kgroup()
        t = c.fresh("t", "int")
        c.assume(z3.And(perm_facts(FST(g) + t), run_facts(g, FST(g) + t)))
        V.ensure("detections of one object ordered by their times", z3.And(a[0].n == end(g) - FST(g), z3.Implies(z3.And(t >= 0, t < a[0].n), a[0].get(t).t == inp.cols["fieldMJD_TAI"](P(FST(g) + t)).t)))
        S = z3.Function(c.fresh_name("by_time"), IS, IS)
        return sorted_by(S, a[0].n)

    def sorted_by(S, ln):
        arr = Arr(ln, z3.Lambda([x_], S(x_)), "int")
        arr.by_time = S
        st["S"] = S
        return arr

    def unique(I, a, k):
        if k.get("return_index") is not True or len(k) != 1 or len(a) != 1:
            raise Unsupported("np.unique options")
        i = c.fresh("i", "int")
        c.assume(perm_facts(i))
        V.ensure("objects are told apart on the ids sorted together", z3.And(a[0].n == n, z3.Implies(z3.And(i >= 0, i < n), a[0].get(i).t == ID(P(i)))))
        return (Arr(m, z3.Lambda([x_], U(x_)), "str"), Arr(m, z3.Lambda([x_], FST(x_)), "int"))

    class Splits:
        def sym_len(self, I):
            return SV("int", m)

        def item(self, g):
            a = Arr(end(g) - FST(g), z3.Lambda([x_], P(FST(g) + x_)), "int")
            a.group = g
            return a

        def sym_iter(self, I):
            return Iter(m, self.item)

    def split(I, a, k):
        g = c.fresh("g", "int")
        V.ensure("split at the first position of every object but the first",
                 a[0] is permarr and z3.And(a[1].n == z3.If(m > 0, m - 1, 0), z3.Implies(z3.And(g >= 0, g < m - 1), a[1].get(g).t == FST(g + 1))))
        return Splits()

    def smallest(I, a, k):
        g = kgroup()
        t = c.fresh("t", "int")
        c.assume(z3.And(perm_facts(FST(g) + t), run_facts(g, FST(g) + t)))
        d = lambda r: sum(inp.cols[f"Obj_Sun_{y}_LTC_km"](r).t * inp.cols[f"Obj_Sun_{y}_LTC_km"](r).t for y in "xyz")
        V.ensure("heliocentric distances of the object's own detections", z3.And(a[0].n == end(g) - FST(g), z3.Implies(z3.And(t >= 0, t < a[0].n), a[0].get(t).t == d(P(FST(g) + t)))))
        return SV("real", D2(g))

    V.stub("numpy.argsort", argsort)
    V.stub("numpy.unique", unique)
    V.stub("numpy.split", split)
    V.stub("numpy.min", smallest)
    V.stub("numpy.amin", smallest)
    member = lambda r, g: G(ID(r)) == g
    V.stub("numpy.zeros", lambda I, a, k: Mask(a[0], member))

    def ordered(I, v):
        """the criteria, by their contracts, take the time-ordered detections of one object"""
        g = kgroup()
        S = st.get("S")
        t = c.fresh("t", "int")
        a = v["times"]
        if S is None:
            V.ensure("times in order", False)
            raise Unsupported("unordered")
        c.assume(z3.And(perm_facts(FST(g) + S(t)), run_facts(g, FST(g) + S(t)), z3.Implies(z3.And(t >= 0, t < end(g) - FST(g)), z3.And(S(t) >= 0, S(t) < end(g) - FST(g)))))
        V.ensure("the object's own times, in order", z3.And(a.n == end(g) - FST(g), z3.Implies(z3.And(t >= 0, t < a.n), a.get(t).t == inp.cols["fieldMJD_TAI"](P(FST(g) + S(t))).t)))
        return g

    V.use(D + ":compute_nunique", lambda I, v: SV("int", NUN(ordered(I, v))))
    V.use(D + ":compute_arccut", lambda I, v: SV("bool", ARC(ordered(I, v))))
    V.use(D + ":compute_triplet", lambda I, v: SV("bool", TRI(ordered(I, v), to_real(v["thresh"]))))
    au50 = (50 * AU) * (50 * AU)
    found = lambda g: z3.Or(NUN(g) >= 9, z3.And(NUN(g) >= 7, ARC(g), z3.If(D2(g) >= au50, TRI(g, z3.RealVal(90)), TRI(g, z3.RealVal(60)))))
    r0 = V.row(inp, "any")
    c.assume(z3.And(perm_facts(r0), group_facts(r0)))
    c.assume(z3.Implies(m > 0, FST(0) == 0))

    def inv(env, k, I):
        mk = [v for v in env.vars.values() if isinstance(v, Mask)]
        if len(mk) != 1:
            raise Unsupported("mask")
        g = G(ID(r0))
        return [("objects so far", z3.Implies(g < k, mk[0].now(r0) == found(g))), ("nothing else yet", z3.Implies(g >= k, z3.Not(mk[0].now(r0))))]

    def at(k):
        st["k"] = k
        st.pop("S", None)

    inv.havoc = at
    V.invariant(D + ":DESDiscoveryFilter", 0, inv)
    old = V.lib.getitem

    def getitem(I, o, k):
        if isinstance(o, Frame) and isinstance(k, Mask):
            V.ensure("mask over the detections", o.view.space is inp.view.space)
            return old(I, o, L.Col(o.view, lambda r: SV("bool", k.now(r)), "array"))
        return old(I, o, k)

    V.lib.getitem = getitem
    out = V.call(df)
    if not V.returns(out):
        return
    o = out.value
    V.ensure("a table of the detections", isinstance(o, Frame) and o.view.space is inp.view.space)
    if not isinstance(o, Frame):
        return
    V.ensure("exactly the detections of objects that meet the criteria", o.view.keep(r0) == found(G(ID(r0))))
    V.ensure("ordered by time", isinstance(o.view.order, tuple) and o.view.order[:3] == ("sort", ("fieldMJD_TAI",), True))
    V.ensure("rows renumbered", L.is_range(o.view))
    V.ensure("columns", set(o.cols) == set(inp.cols))
    V.ensure_columns_same(o, inp.cols, r0)


from contracts.glue import glue
glue("C20")
