"""C18 The camera footprint decides on-sensor detections by true geometry."""
import ast
from pyvc.contract import contract
from pyvc import lib as L
from pyvc.lib import Iter
from contracts import fov
from contracts.common import *

FP = "sorcha.modules.PPFootprintFilter"
AV = "sorcha.modules.PPApplyFOVFilter"
IS, RS = z3.IntSort(), z3.RealSort()
FIELDS = ("ra", "dec", "fra", "fdec")


def dot(a, b):
    return sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0])


def sky(a, d):
    return (cos(a) * cos(d), sin(a) * cos(d), sin(d))


def circle(V, t):
    V.pre(sin(t) * sin(t) == 1 - cos(t) * cos(t))
    V.I.assumed.add("numpy.sin/cos: sin^2 + cos^2 = 1")


def col(V, df, name):
    return V.lib.getitem(V.I, df, name)


def at(V, c, df, r, what):
    """the value at row r of an array aligned with the table"""
    if not isinstance(c, Col):
        raise Unsupported(what)
    V.ensure(what + ": one value per detection", c.view.space is df.view.space and L.view_equal(V.I, c.view, df.view))
    return to_real(c.fn(r))


def tangent(ra, dec, fra, fdec):
    """v.f, v.e, v.n for a detection and the east and north axes of its field"""
    v, f = sky(ra, dec), sky(fra, fdec)
    e = (-sin(fra), cos(fra), num(0))
    n = (-cos(fra) * sin(fdec), -sin(fra) * sin(fdec), cos(fdec))
    return dot(v, f), dot(v, e), dot(v, n)


def domain(V, ra, dec, fra, fdec):
    for t in (fra, fdec):
        circle(V, t)
    V.pre(cos(fdec) > 0, sqrt(cos(fdec) * cos(fdec)) == cos(fdec))
    vf, ve, vn = tangent(ra, dec, fra, fdec)
    V.pre(vf > 0)
    return vf, ve, vn


def sky_table(V, extra=()):
    return V.frame("det", {c: "real" for c in FIELDS + tuple(extra)}, other=False)


@contract("C18", FP + ":radec_to_tangent_plane", target="project", name="gnomonic projection about the field")
def tangent_plane(V):
    df = sky_table(V)
    r = V.row(df)
    args = [df.cols[c](r).t for c in FIELDS]
    vf, ve, vn = domain(V, *args)
    out = V.call(*[col(V, df, c) for c in FIELDS])
    if not V.returns(out):
        return
    x, y = out.value
    V.ensure("east of the field", at(V, x, df, r, "x") * vf == ve)
    V.ensure("north of the field", at(V, y, df, r, "y") * vf == vn)


@contract("C18", FP + ":radec_to_focal_plane", target="project", name="rotation into the focal plane")
def focal_plane(V):
    df = sky_table(V, ["rot"])
    r = V.row(df)
    args = [df.cols[c](r).t for c in FIELDS]
    vf, ve, vn = domain(V, *args)
    t = df.cols["rot"](r).t
    out = V.call(*[col(V, df, c) for c in FIELDS], col(V, df, "rot"))
    if not V.returns(out):
        return
    x, y = out.value
    V.ensure("x of the rotated position", at(V, x, df, r, "x") * vf == cos(t) * ve - sin(t) * vn)
    V.ensure("y of the rotated position", at(V, y, df, r, "y") * vf == sin(t) * ve + cos(t) * vn)


# --------------------------------------------------------- distance to an edge
def points(V, name="pts"):
    df = V.frame(name, {"x": "real", "y": "real"}, other=False)
    P = V.lib.to_mat(V.I, [col(V, df, "x"), col(V, df, "y")])
    return df, P


def segment(px, py, x0, y0, x1, y1):
    """the parameter of the nearest point of the segment, and the square of the distance to its point u"""
    L2 = (x1 - x0) * (x1 - x0) + (y1 - y0) * (y1 - y0)
    t = ((px - x0) * (x1 - x0) + (py - y0) * (y1 - y0)) / L2
    s = z3.If(t > 1, z3.RealVal(1), z3.If(t < 0, z3.RealVal(0), t))

    def d2(u):
        a, b = px - (x0 + (x1 - x0) * u), py - (y0 + (y1 - y0) * u)
        return a * a + b * b

    return L2, t, s, d2


@contract("C18", FP + ":distToSegment", target="edges", name="distance of a point to an edge")
def seg(V):
    df, P = points(V)
    r = V.row(df)
    px, py = df.cols["x"](r).t, df.cols["y"](r).t
    e = [V.real(n) for n in ("x0", "y0", "x1", "y1")]
    x0, y0, x1, y1 = (v.t for v in e)
    u = V.real("u").t
    L2, t, s, d2 = segment(px, py, x0, y0, x1, y1)
    out = V.call(P, *e)
    if not V.returns(out):
        return
    d = at(V, out.value, df, r, "distance")
    V.ensure("not negative", d >= 0)
    point = z3.And(x0 == x1, y0 == y1)
    if V.branch(point):
        V.ensure("distance to the point", d * d == (px - x0) * (px - x0) + (py - y0) * (py - y0))
        return
    V.ensure("a proper segment has a length", L2 > 0)
    V.pre(L2 > 0)
    V.ensure("the points are left alone", z3.And(to_real(P.data[0].fn(r)) == px, to_real(P.data[1].fn(r)) == py))
    V.ensure("of a point of the segment", z3.And(s >= 0, s <= 1, d * d == d2(s)))
    V.ensure("by how much the others are farther", d2(u) == d2(s) + L2 * (u - s) * (u + s - 2 * t))
    V.ensure("none is nearer", z3.Implies(z3.And(u >= 0, u <= 1), L2 * (u - s) * (u + s - 2 * t) >= 0))


# ------------------------------------------------------------ inside a detector
N = 4  # corners
M = FP + ":Detector."
EPS = z3.Q(1, 10 ** 10)  # twice the area by which a point may lie outside


class Quad:
    """a detector with its corners in counterclockwise order, convex"""

    def __init__(self, V, convex=True):
        self.V = V
        self.x = [V.real(f"x{i}").t for i in range(N)]
        self.y = [V.real(f"y{i}").t for i in range(N)]
        self.cx, self.cy = sum(self.x) / N, sum(self.y) / N
        if convex:
            for i in range(N):
                for k in range(N):
                    if k not in (i, (i - 1) % N):
                        V.pre(self.cross(i, self.x[k], self.y[k]) > 0)

    def cross(self, i, px, py):
        """twice the signed area of the triangle of a point and the edge from corner i-1 to corner i"""
        j = (i - 1) % N
        return (self.x[j] - px) * (self.y[i] - py) - (self.y[j] - py) * (self.x[i] - px)

    def obj(self, units="radians", center=None):
        V = self.V
        d = Obj(V.get(FP + ":Detector"))
        mat = lambda v: L.Mat([SV("real", t) for t in v], (N,))
        cx, cy = center or (self.cx, self.cy)
        d.attrs.update(x=mat(self.x), y=mat(self.y), centerx=SV("real", cx), centery=SV("real", cy), units=units, ID=V.int("ID"))
        return d


def absv(x):
    return z3.If(x >= 0, x, -x)


def convex_point(V, Q):
    """an arbitrary point of the detector: a convex combination of its corners"""
    lam = [V.real(f"w{i}").t for i in range(N)]
    V.pre(*[t >= 0 for t in lam], lam[0] == 1 - sum(lam[1:]))
    return lam, sum(a * b for a, b in zip(lam, Q.x)), sum(a * b for a, b in zip(lam, Q.y))


@contract("C18", M + "segmentedArea", target="ison", name="area of the triangles with the corners")
def segmented(V):
    Q = Quad(V, False)
    df, P = points(V)
    r = V.row(df)
    out = V.call(Q.obj(), P)
    if V.returns(out):
        a = at(V, out.value, df, r, "area")
        V.ensure("half the sum of the cross products", a == sum(absv(Q.cross(i, df.cols["x"](r).t, df.cols["y"](r).t)) for i in range(N)) / 2)


@contract("C18", M + "trueArea", target="ison", name="area of a detector")
def true_area(V):
    Q = Quad(V, False)
    out = V.call(Q.obj())
    if V.returns(out):
        V.ensure("the area of the triangles with its centre", to_real(out.value) == sum(absv(Q.cross(i, Q.cx, Q.cy)) for i in range(N)) / 2)


@contract("C18", M + "trueArea", target="ison", name="geometry of convex quadrilaterals")
def geometry(V):
    """lemmas on the specification's own terms, used by the contract of ison"""
    Q = Quad(V)
    px, py = V.real("px").t, V.real("py").t
    lam, ix, iy = convex_point(V, Q)
    A2 = sum(Q.cross(i, Q.x[0], Q.y[0]) for i in range(N))
    V.ensure("the triangles of any point add up to the area", sum(Q.cross(i, px, py) for i in range(N)) == A2)
    V.ensure("the triangles of the centre add up to the area", sum(Q.cross(i, Q.cx, Q.cy) for i in range(N)) == A2)
    for i in range(N):
        on = [Q.cross(i, Q.x[k], Q.y[k]) for k in range(N)]
        V.ensure(f"edge {i}: passes through its corners", z3.And(on[i] == 0, on[i - 1] == 0))
        V.ensure(f"edge {i}: side of a combination of corners", Q.cross(i, ix, iy) == sum(a * b for a, b in zip(lam, on)))
        V.ensure(f"edge {i}: side of the centre", Q.cross(i, Q.cx, Q.cy) == sum(on) / N)
    R2 = [(x - Q.cx) * (x - Q.cx) + (y - Q.cy) * (y - Q.cy) for x, y in zip(Q.x, Q.y)]
    d2 = (ix - Q.cx) * (ix - Q.cx) + (iy - Q.cy) * (iy - Q.cy)
    V.ensure("in the bounding circle", sum(a * b for a, b in zip(lam, R2)) - d2 == sum(a * ((x - ix) * (x - ix) + (y - iy) * (y - iy)) for a, x, y in zip(lam, Q.x, Q.y)))


@contract("C18", M + "ison", target="ison", name="detections on a detector")
def ison(V):
    units = V.pick("units", ["radians", "degrees"])
    edge = V.pick("edge threshold", ["none", "given"])
    Q = Quad(V)
    df, P = points(V)
    r = V.row(df)
    px, py = df.cols["x"](r).t, df.cols["y"](r).t
    C = [z3.Function(f"side{i}", IS, RS) for i in range(N)]  # the sides of a point, see "geometry"
    D = [z3.Function(f"distance{i}", IS, RS) for i in range(N)]
    A2 = V.real("A2").t  # twice the area of the detector
    # lemmas proved as "geometry of convex quadrilaterals" and "area of ..."
    V.pre_rows(df, lambda k: sum(f(k) for f in C) == A2)
    inside = z3.And([f(r) >= 0 for f in C])  # of convex combinations of the corners
    R2 = [(x - Q.cx) * (x - Q.cx) + (y - Q.cy) * (y - Q.cy) for x, y in zip(Q.x, Q.y)]
    d2 = (px - Q.cx) * (px - Q.cx) + (py - Q.cy) * (py - Q.cy)
    V.pre(z3.Implies(inside, z3.Or([d2 <= t for t in R2])))

    def same_points(p):
        if not (isinstance(p, L.Mat) and getattr(p, "rowaxis", None) == 1 and p.shape == (2,)):
            raise Unsupported("points handed on")
        c = p.data[0]
        V.ensure("the points themselves", c.view.space is df.view.space and z3.And(to_real(c.fn(r)) == px, to_real(p.data[1].fn(r)) == py))
        return c.view

    def areas(I, v):
        view = same_points(v["point"])
        V.ensure("of this detector", v["self"] is det)
        return Col(view, lambda k: SV("real", sum(absv(f(k)) for f in C) / 2), "array")

    def area(I, v):
        V.ensure("of this detector", v["self"] is det)
        return SV("real", A2 / 2)

    def distance(I, v):
        view = same_points(v["points"])
        for i in range(N):
            j = (i - 1) % N
            ends = [Q.x[j], Q.y[j], Q.x[i], Q.y[i]]
            got = [to_real(v[n]) for n in ("x0", "y0", "x1", "y1")]
            for e in (got, got[2:] + got[:2]):
                if all(z3.eq(z3.simplify(a), z3.simplify(b)) for a, b in zip(e, ends)):
                    return Col(view, lambda k: SV("real", D[i](k)), "array")
        V.ensure("distance to an edge of the detector", False)
        raise Unsupported("edge")

    V.use(M + "segmentedArea", areas)
    V.use(M + "trueArea", area)
    V.use(FP + ":distToSegment", distance)
    det = Q.obj(units)
    kw = {}
    if edge == "given":
        e = V.real("edge")
        kw["edge_thresh"] = e
        thr = e.t / 3600 if units == "degrees" else e.t / 3600 * PI / 180
        far = z3.And([f(r) > thr for f in D])
    else:
        far = z3.BoolVal(True)
    out = V.call(det, P, **kw)
    if not V.returns(out):
        return
    o = out.value
    if not isinstance(o, L.PosVal):
        raise Unsupported("positions")
    V.ensure("positions among the points", o.view.space is df.view.space and L.view_equal(V.I, o.view, df.view))
    got = o.masked()._keep(r)
    V.ensure("points of the detector far enough from its edges are on it", z3.Implies(z3.And(inside, far), got))
    V.ensure("points on the detector lie inside every edge", z3.Implies(got, z3.And([f(r) >= -EPS for f in C])))
    V.ensure("and far enough from every edge", z3.Implies(got, far))


# ------------------------------------------------------------------- detectors
@contract("C18", FP + ":Detector", target="detector", name="corners of a detector on the focal plane")
def detector(V):
    units = V.pick("units", ["radians", "degrees", "deg", "default"])
    ra, dec = [[V.real(f"{n}{i}").t for i in range(N)] for n in ("ra", "dec")]
    pts = L.Mat([SV("real", t) for t in ra + dec], (2, N))
    u = (lambda t: t) if units in ("radians", "default") else rad
    on = [(cos(u(a)) * cos(u(d)), sin(u(a)) * cos(u(d)), sin(u(d))) for a, d in zip(ra, dec)]
    V.pre(*[v[0] > 0 for v in on], *[cos(u(a)) > 0 for a in ra], *[cos(u(d)) > 0 for d in dec])
    det = V.int("ID")
    out = V.call(pts, det, **({} if units == "default" else {"units": units}))
    if not V.returns(out):
        return
    D = out.value
    x, y = ([to_real(t) for t in V.I.iterate(D.attrs[n])] for n in ("x", "y"))
    V.ensure("as many corners", len(x) == N and len(y) == N)
    V.ensure("named", to_int(D.attrs["ID"]) == det.t)
    V.ensure("in radians", D.attrs["units"] == "radians")
    for i, v in enumerate(on):
        V.ensure(f"corner {i}: east of the centre of the camera", x[i] * v[0] == v[1])
        V.ensure(f"corner {i}: north of the centre of the camera", y[i] * v[0] == v[2])
    V.ensure("centre", z3.And(to_real(D.attrs["centerx"]) * N == sum(x), to_real(D.attrs["centery"]) * N == sum(y)))


@contract("C18", M + "sortCorners", target="detector", name="corners in counterclockwise order")
def sorting(V):
    import itertools
    Q = Quad(V, False)
    c = (V.real("centerx"), V.real("centery"))
    det = Q.obj(center=(c[0].t, c[1].t))
    at2 = F("arctan2")
    seen = []

    def argsort(I, a, k):
        t = [to_real(x) for x in I.iterate(a[0])]
        if len(t) != N or k.get("kind") not in (None, "stable", "quicksort", "mergesort", "heapsort"):
            raise Unsupported("argsort")
        p = V.pick("order", list(itertools.permutations(range(N))))
        for i, j in zip(p, p[1:]):
            V.pre(t[i] <= t[j])
        seen.append(p)
        return L.Mat(list(p), (N,))

    V.stub("numpy.argsort", argsort)
    out = V.call(det)
    if not V.returns(out):
        return
    x, y = ([to_real(t) for t in V.I.iterate(det.attrs[n])] for n in ("x", "y"))
    V.ensure("as many corners", len(x) == N and len(y) == N and len(seen) == 1)
    p = seen[0]
    for k in range(N):
        V.ensure("the same corners", z3.And(x[k] == Q.x[p[k]], y[k] == Q.y[p[k]]))
    ang = [at2(b - c[1].t, a - c[0].t) for a, b in zip(x, y)]
    for k in range(N - 1):
        V.ensure("by their angle about the centre", ang[k] <= ang[k + 1])
    V.ensure("the same centre", z3.And(to_real(det.attrs["centerx"]) == c[0].t, to_real(det.attrs["centery"]) == c[1].t))


# ----------------------------------------------------------------- the footprint
class Camera:
    """the detectors of a camera, any number of them"""

    def __init__(self, V, columns):
        self.V = V
        self.n = V.int("detectors").t
        V.pre(self.n >= 0)
        self.count = z3.Function("on_detector", IS, IS)
        self.df = V.frame("det", columns, other=True)
        self.r = V.row(self.df)


class Detector:
    def __init__(self, W, j):
        self.W, self.j = W, j

    def sym_getattr(self, I, name):
        if name != "ison":
            raise Unsupported("detector ." + name)

        def run(I, a, k):
            W = self.W
            k = dict(k)
            a = list(a)
            p = a.pop(0) if a else k.pop("point")
            if a or set(k) - {"edge_thresh", "plot"} or k.get("plot", False) is not False:
                raise Unsupported("options of ison")
            W.V.ensure("the edge threshold given", k.get("edge_thresh") is W.edge)
            if not (isinstance(p, L.Mat) and getattr(p, "rowaxis", None) == 1 and p.shape == (2,)):
                raise Unsupported("points")
            W.V.ensure("all detections", L.view_equal(I, p.data[0].view, W.df.view))
            for d, g in zip(p.data, ("X", "Y")):
                W.V.ensure("their places on the focal plane", to_real(d.fn(W.r)) == W.plane(g, W.r))
            I.ctx.assume(W.count(self.j) >= 0)
            return On(W, self.j)

        return Prim(run, name)


class On:
    """the positions of the detections on detector j"""

    def __init__(self, W, j):
        self.W, self.j = W, j

    def sym_len(self, I):
        return SV("int", self.W.count(self.j))

    def sym_getattr(self, I, name):
        if name == "size":
            return self.sym_len(I)
        if name == "shape":
            return (self.sym_len(I),)
        raise Unsupported("positions ." + name)


class Joined:
    def __init__(self, kind):
        self.kind = kind


@contract("C18", FP + ":Footprint.applyFootprint", target="footprint", name="every detector is asked about every detection")
def apply(V):
    names = V.pick("column names", ["default", "given"])
    rot = V.pick("rotation column", [True, False])
    cn = dict(ra_name="RA_deg", dec_name="Dec_deg", ra_name_field="fieldRA_deg", dec_name_field="fieldDec_deg", rot_name_field="fieldRotSkyPos_deg")
    kw = {}
    if names == "given":
        kw = {k: "my_" + v for k, v in cn.items()}
        cn = kw
    W = Camera(V, {c: "real" for k, c in cn.items() if rot or k != "rot_name_field"})
    W.edge = V.pick("edge threshold", [None, V.real("edge")])
    W.plane = lambda g, r: z3.Function("plane" + g, IS, RS)(r)
    val = lambda c: W.df.cols[cn[c]](W.r).t

    def plane(I, v):
        for p, c in (("ra", "ra_name"), ("dec", "dec_name"), ("field_ra", "ra_name_field"), ("field_dec", "dec_name_field"), ("field_rot", "rot_name_field")):
            x = v[p]
            if not isinstance(x, Col):
                raise Unsupported("coordinates")
            V.ensure("of all detections", L.view_equal(I, x.view, W.df.view))
            want = rad(val(c)) if c != "rot_name_field" or rot else z3.RealVal(0)
            V.ensure(f"{p} in radians", to_real(x.fn(W.r)) == want)
        return tuple(Col(W.df.view, lambda r, g=g: SV("real", W.plane(g, r)), v["ra"].kind) for g in ("X", "Y"))

    V.use(FP + ":radec_to_focal_plane", plane)

    def ids(x, j):
        """x is a list of count(j) numbers j"""
        if isinstance(x, list) and len(x) == 1 and isinstance(x[0], Seg):
            return z3.And(x[0].n == W.count(j), z3.Implies(W.count(j) > 0, to_int(x[0].item(V.int("any").t)) == j))
        if isinstance(x, list) and not x:
            return W.count(j) == 0
        raise Unsupported("detector numbers")

    def on(x, j):
        if not isinstance(x, On):
            raise Unsupported("detections on a detector")
        return x.j == j

    lists = {"detected": (On, on), "detectorId": (None, ids)}

    def grown(x, k, ok):
        if not isinstance(x, list):
            raise Unsupported("list of the loop")
        if not x:
            return k == 0
        if x[0] is seg_of.get(id(ok)):
            return z3.And([k == x[0].n + len(x) - 1] + [ok(y, x[0].n + i) for i, y in enumerate(x[1:])])
        raise Unsupported("list of the loop")

    seg_of = {}

    def inv(env, k, I):
        inv.env = env
        out = [(nm, grown(env.vars[nm], k, ok)) for nm, (_, ok) in lists.items()]
        i = env.vars.get("i")
        if isinstance(i, (int, SV)):
            out.append(("number of the detector", to_int(i) == k))
        return out

    def havoc(k):
        for nm, (cls, ok) in lists.items():
            item = (lambda j: On(W, j)) if cls is On else (lambda j: [Seg(W.count(j), lambda p: SV("int", j))])
            s = Seg(k, item)
            seg_of[id(ok)] = s
            inv.env.vars[nm] = [s]

    inv.havoc, inv.handles = havoc, set(lists)
    V.invariant(FP + ":Footprint.applyFootprint", 0, inv)

    def join(I, a, k):
        x = a[0]
        if len(a) != 1 or k or not (isinstance(x, list) and len(x) == 1):
            raise Unsupported("concatenate")
        for nm, (_, ok) in lists.items():
            if x[0] is seg_of.get(id(ok)):
                V.ensure("every detector", x[0].n == W.n)
                return Joined(nm)
        raise Unsupported("concatenate")

    V.stub("numpy.concatenate", join)
    fp = Obj(V.get(FP + ":Footprint"))
    fp.attrs.update(detectors=Iter(W.n, lambda j: Detector(W, j)), N=SV("int", W.n))
    if W.edge is not None:
        kw["edge_thresh"] = W.edge
    out = V.call(fp, W.df, **kw)
    if not V.returns(out):
        return
    o = out.value
    V.ensure("positions and their detectors", isinstance(o, tuple) and len(o) == 2 and all(isinstance(x, Joined) for x in o) and [x.kind for x in o] == ["detected", "detectorId"])


class Corners:
    """the table of the corners of the detectors; number(j) is the j-th
    detector named in it, in order of first appearance"""

    def __init__(self, V):
        self.n = V.int("detectors").t
        V.pre(self.n >= 0)
        self.number = z3.Function("number", IS, IS)

    def sym_getattr(self, I, name):
        if name == "detector":
            return DetectorColumn(self)
        if name in ("index", "iloc"):
            return Positions(self, name)
        raise Unsupported("corner table ." + name)

    def sym_getitem(self, I, k):
        if k == "detector":
            return DetectorColumn(self)
        raise Unsupported("corner table [...]")


class DetectorColumn:
    def __init__(self, W):
        self.W = W

    def sym_getattr(self, I, name):
        if name == "unique":
            return Prim(lambda I, a, k: Iter(self.W.n, lambda j: SV("int", self.W.number(j))), name)
        raise Unsupported("detector column ." + name)

    def sym_compare(self, I, op, a, b):
        v = b if a is self else a
        if not isinstance(op, ast.Eq) or not (isinstance(v, SV) and v.sort == "int"):
            raise Unsupported("comparison of the detector column")
        return CornersOf(self.W, v.t)


class CornersOf:
    """the rows (mask or positions) of the corners of detector d"""

    def __init__(self, W, d):
        self.W, self.d = W, d

    def sym_getattr(self, I, name):
        if name in ("tolist", "to_list", "to_numpy", "copy"):
            return Prim(lambda I, a, k: self, name)
        if name in ("x", "y"):
            return Coordinate(self, name)
        raise Unsupported("corners ." + name)


class Positions:
    def __init__(self, W, name):
        self.W, self.name = W, name

    def sym_getitem(self, I, k):
        if isinstance(k, CornersOf):
            return CornersOf(self.W, k.d)
        raise Unsupported("corner table ." + self.name + "[...]")


class Coordinate:
    def __init__(self, of, axis):
        self.of, self.axis = of, axis


class Groups:
    """the first n detectors with their corners"""

    def __init__(self, V, W, n):
        self.V, self.W, self.n = V, W, n

    def sym_setitem(self, I, k, v):
        if not isinstance(v, CornersOf) or not isinstance(k, SV):
            raise Unsupported("grouping of corners")
        self.V.ensure("the corners of the detector they are kept for", z3.And(to_int(k) == self.W.number(self.n), v.d == to_int(k)))
        self.n = self.n + 1

    def sym_getattr(self, I, name):
        if name == "items":
            return Prim(lambda I, a, k: Iter(self.n, lambda j: (SV("int", self.W.number(j)), CornersOf(self.W, self.W.number(j)))), name)
        raise Unsupported("groups ." + name)


@contract("C18", FP + ":Footprint", target="footprint", name="detectors of the camera file")
def camera(V):
    """one detector for every detector number of the file, with exactly the
    corners listed under that number, in the units of the file, sorted"""
    source = V.pick("source", ["file", "rubin_sim", "LSST", "DES", "des"])
    W = Corners(V)
    W.sorted = z3.IntVal(0)
    asked = []

    class Files:
        def sym_getattr(self, I, name):
            if name == "joinpath":
                return Prim(lambda I, a, k: ("built in", a[0]), name)
            raise Unsupported("resource ." + name)

    V.stub("importlib_resources.files", lambda I, a, k: Files())
    V.stub("pandas.read_csv", lambda I, a, k: (asked.append(a[0]), W)[1])

    def array(I, a, k):
        if len(a) == 1 and not k and isinstance(a[0], (tuple, list)) and len(a[0]) == 2 and all(isinstance(x, Coordinate) for x in a[0]):
            x, y = a[0]
            V.ensure("x and y of the corners", (x.axis, y.axis) == ("x", "y"))
            V.ensure("of one detector", x.of.d == y.of.d)
            return x.of
        raise Unsupported("array")

    V.stub("numpy.array", array)

    class Made:
        def __init__(self, d):
            self.d = d

        def sym_getattr(self, I, name):
            if name == "sortCorners":
                return Prim(self.sort, name)
            if name == "ID":
                return SV("int", self.d)
            raise Unsupported("detector ." + name)

        def sort(self, I, a, k):
            if I.ctx.feasible(self.d != W.number(W.sorted)):
                raise Unsupported("order of sorting")
            W.sorted = W.sorted + 1

    def make(I, a, k):
        k = dict(zip(("points", "ID", "units"), a), **k)
        pts, d = k["points"], k["ID"]
        if not isinstance(pts, CornersOf):
            raise Unsupported("corners of a detector")
        V.ensure("with its own corners", pts.d == to_int(d))
        V.ensure("in the units of the file", k.get("units", "radians") in (("degrees", "deg") if source.lower() == "des" else ("radians", "rad")))
        return Made(to_int(d))

    V.patch(FP, "Detector", Prim(make, "Detector"))

    def grouping(env, k, I):
        grouping.env = env
        g = env.vars["det_to_inds"]
        if not isinstance(g, (dict, Groups)) or isinstance(g, dict) and g:
            raise Unsupported("grouping")
        return [("detectors so far", (0 if isinstance(g, dict) else g.n) == k)]

    def havoc(k):
        grouping.env.vars["det_to_inds"] = Groups(V, W, k)

    grouping.havoc, grouping.handles = havoc, {"det_to_inds"}
    V.invariant(FP + ":Footprint.__init__", 0, grouping)

    def order(env, k, I):
        return [("detectors sorted so far", W.sorted == k)]

    order.havoc, order.handles = (lambda k: setattr(W, "sorted", k)), set()
    V.invariant(FP + ":Footprint.__init__", 1, order)
    out = V.call("PATH") if source == "file" else V.call(None, source)
    if not V.returns(out):
        return
    o = out.value.attrs
    V.ensure("reads the camera file", len(asked) == 1)
    V.ensure("the file given", (asked[0] == "PATH") if source == "file" else asked[0] == ("built in", "data/DES_ccd_corners.csv" if source.lower() == "des" else "data/LSST_detector_corners_100123.csv"))
    det = V.lib.as_iter(V.I, o["detectors"])
    if det is None:
        raise Unsupported("detectors")
    V.ensure("every detector of the file", det.n == W.n)
    V.ensure("as many as counted", to_int(o["N"]) == W.n)
    V.ensure("their corners sorted", W.sorted == W.n)
    j = V.int("j").t
    V.pre(0 <= j, j < W.n)
    V.ensure("in the order of the file", det.item(j).d == W.number(j))


@contract("C18", AV + ":PPApplyFOVFilter", target="fov", name="the camera footprint in the pipeline")
def wiring(V):
    lists = [fov.Listing(x) for x in ("rows", "detectors")]
    obs = fov.Obs()
    edge = V.pick("edge threshold", [None, V.real("edge")])
    seen = []

    class Camera:
        def sym_getattr(self, I, name):
            if name != "applyFootprint":
                raise Unsupported("footprint ." + name)

            def run(I, a, k):
                k = dict(k)
                a = list(a)
                df = a.pop(0) if a else k.pop("field_df")
                V.ensure("these detections", df is obs and not a)
                V.ensure("the configured edge threshold", k.pop("edge_thresh", None) is edge)
                for nm, d in (("ra_name", "RA_deg"), ("dec_name", "Dec_deg"), ("field_name", "FieldID"), ("ra_name_field", "fieldRA_deg"), ("dec_name_field", "fieldDec_deg"), ("rot_name_field", "fieldRotSkyPos_deg")):
                    V.ensure(f"{nm} of the pipeline", k.pop(nm, d) == d)
                V.ensure("no other option", not k)
                seen.append(1)
                return tuple(lists)

            return Prim(run, name)

    cfg = fov.config(V, "footprint", {"footprint_edge_threshold": edge})
    cfg.attrs["simulation"] = Obj("simulation", ar_ang_fov=SV("real", z3.RealVal("2.06")), ar_fov_buffer=SV("real", z3.RealVal("0.2")))
    out = V.call(obs, cfg, L.Opaque("rngs"), footprint=Camera(), verbose=V.pick("verbose", [False, True]))
    V.ensure("asked once", len(seen) == 1)
    fov.wired(V, "footprint", lists, ["detectorID"])(out, obs)


# ------------------------------------------------------------- circular footprint
class Coord:
    """positions on the sky, in degrees"""

    def __init__(self, ra, dec):
        self.ra, self.dec = ra, dec

    def sym_getattr(self, I, name):
        if name == "separation":
            return Prim(lambda I, a, k: Angle(L.elementwise(I, lambda *t: SV("real", separation(*[to_real(x) for x in t])), self.ra, self.dec, a[0].ra, a[0].dec)), name)
        raise Unsupported("SkyCoord." + name)


class Angle:
    def __init__(self, deg):
        self.deg = deg

    def sym_getattr(self, I, name):
        if name in ("degree", "deg"):
            return self.deg
        if name in ("value", "to_value") :
            raise Unsupported("angle value")
        raise Unsupported("Angle." + name)


SEP = z3.Function("separation", RS, RS, RS, RS, RS)


def separation(a, d, b, e):
    return SEP(a, d, b, e)


def sky_coord(V):
    def new(I, a, k):
        k = dict(k)
        if a:
            raise Unsupported("SkyCoord arguments")
        V.ensure("in degrees", k.pop("unit", None) in ("deg", "degree") and set(k) == {"ra", "dec"})
        return Coord(k["ra"], k["dec"])
    V.stub("astropy.coordinates.SkyCoord", new)
    V.I.assumed.add("astropy SkyCoord.separation: angular distance on the sky (symmetric)")


@contract("C18", AV + ":PPCircleFootprint", target="circle", name="circular footprint")
def circular(V):
    sky_coord(V)
    names = ("RA_deg", "Dec_deg", "fieldRA_deg", "fieldDec_deg")
    df = V.frame("obs", {c: "real" for c in names}, other=True)
    inp = df.copy()
    R_ = V.real("radius")
    c = lambda r: [df.cols[n](r).t for n in names]
    sep = lambda r: separation(*c(r))
    V.pre_rows(df, lambda r: separation(*(c(r)[2:] + c(r)[:2])) == sep(r))
    out = V.call(df, R_)
    if V.returns(out):
        V.ensure_filter(out.value, inp, lambda r: sep(r) < R_.t)


@contract("C18", AV + ":PPGetSeparation", target="circle", name="separation from the field centre")
def separated(V):
    sky_coord(V)
    a = [V.real(n) for n in ("ra", "dec", "cra", "cdec")]
    t = [x.t for x in a]
    V.pre(separation(*(t[2:] + t[:2])) == separation(*t))
    out = V.call(*a)
    if V.returns(out):
        V.ensure("angular distance in degrees", to_real(out.value) == separation(*t))


@contract("C18", AV + ":PPApplyFOVFilter", target="circle", name="the circular footprint in the pipeline")
def circle_wiring(V):
    radius = V.pick("radius", [None, V.real("r")])
    obs, kept = fov.Obs(), fov.Obs()
    seen = []

    def circle(I, v):
        V.ensure("these detections, the configured radius", v["observations"] is obs and v["circle_radius"] is radius)
        seen.append(1)
        return kept

    V.use(AV + ":PPCircleFootprint", circle)
    cfg = fov.config(V, "circle", {"circle_radius": radius, "fill_factor": None})
    cfg.attrs["simulation"] = Obj("simulation", ar_ang_fov=SV("real", z3.RealVal("2.06")), ar_fov_buffer=SV("real", z3.RealVal("0.2")))
    out = V.call(obs, cfg, L.Opaque("rngs"), footprint=None, verbose=V.pick("verbose", [False, True]))
    if V.returns(out):
        V.ensure("filtered once", out.value is (obs if radius is None else kept) and len(seen) == (radius is not None))


from contracts.glue import glue
glue("C18")
