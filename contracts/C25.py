"""C25 The sky-position cache always brackets the requested time.

Ghost state: an observatory position and a set of unit vectors carry the epoch
they belong to.  The representation invariant of PixelDict - tp = t0 + P,
tm = t0 - P, positions and vectors of exactly these epochs, pixels registered
for exactly these epochs - is established by the constructor and kept by every
update, hence it holds after every sequence of requests."""
from pyvc.contract import contract
from pyvc import lib as L
from pyvc.lib import Iter
from contracts.common import *

M = "sorcha.ephemeris.pixel_dict"
G = "sorcha.ephemeris.simulation_geometry"
PD = M + ":PixelDict"
IS, RS, SS = z3.IntSort(), z3.RealSort(), z3.StringSort()
AU_KM = q(149597870.700)


def vec(fs):
    return L.Mat([SV("real", f) for f in fs], (3,))


class Epoch:
    """a quantity that belongs to one epoch"""

    def __init__(self, kind, t):
        self.kind, self.t = kind, t


U = [z3.Function(f"unit_{c}", SS, RS, RS) for c in "xyz"]


class Vectors(Epoch):
    """the unit vectors of all objects at one epoch"""

    def sym_getitem(self, I, k):
        kt = to_str_term(k)
        return vec([f(kt, self.t) for f in U])


class Self(Obj):
    def havoc(self, c, name):
        self.attrs["pixel_dict"].havoc(c, name)
        return self


def instance(V, **attrs):
    o = Self(V.get(PD))
    o.attrs.update(attrs)
    return o


def methods(V, o):
    """the two position computations, by their contracts (proved below)"""
    def pos(I, v):
        return Epoch("observatory", to_real(v["t"]))

    def vecs(I, v):
        r, t = v["r_obs"], to_real(v["t"])
        V.ensure("vectors are seen from the observatory's position at their own epoch", isinstance(r, Epoch) and r.kind == "observatory" and r.t == t)
        return Vectors("vectors", t)

    def pix(I, v):
        s = v["self"]
        s.attrs["registered"] = tuple(to_real(s.attrs[x]) for x in ("tm", "t0", "tp"))

    V.use(PD + ".get_observatory_position", pos)
    V.use(PD + ".get_all_object_unit_vectors", vecs)
    V.use(PD + ".compute_pixel_traversed", pix)


NAMES = [("tm", "r_obs_m", "rho_hat_m_dict", -1), ("t0", "r_obs_0", "rho_hat_0_dict", 0), ("tp", "r_obs_p", "rho_hat_p_dict", 1)]


def check_inv(V, o, P, what=""):
    a = o.attrs
    if any(n not in a for row in NAMES for n in row[:3]):
        raise Unsupported("representation of the cache")
    t0 = to_real(a["t0"])
    for t, r, u, s in NAMES:
        V.ensure(f"{what}{t}: epochs one interval apart", to_real(a[t]) == t0 + s * P)
        V.ensure(f"{what}{t}: observatory position of this epoch", isinstance(a[r], Epoch) and a[r].kind == "observatory" and a[r].t == to_real(a[t]))
        V.ensure(f"{what}{t}: unit vectors of this epoch", isinstance(a[u], Vectors) and a[u].t == to_real(a[t]))
    g = a.get("registered")
    V.ensure(f"{what}pixels registered for these epochs", g is not None and z3.And([x == to_real(a[n]) for x, n in zip(g, ("tm", "t0", "tp"))]))


def state(V, P):
    """any state that satisfies the invariant"""
    t0 = V.real("t0").t
    a = {"picket_interval": SV("real", P)}
    for t, r, u, s in NAMES:
        x = t0 + s * P
        a[t], a[r], a[u] = SV("real", x), Epoch("observatory", x), Vectors("vectors", x)
    a["registered"] = (t0 - P, t0, t0 + P)
    return instance(V, **a), t0


@contract("C25", PD, target="history", name="PixelDict.__init__")
def init(V):
    P, jd = V.real("picket_interval"), V.real("jd")
    V.pre(P.t > 0)
    sims, eph, obsy = L.Opaque("sims"), L.Opaque("ephem"), L.Opaque("observatory")
    methods(V, None)
    V.stub("collections.defaultdict", lambda I, a, k: {})
    out = V.call(jd, sims, eph, "I11", obsy, P, SV("int", V.ctx.fresh("nside", "int")), True, V.int("n_sub", lo=2))
    if not V.returns(out):
        return
    o = out.value
    check_inv(V, o, P.t)
    V.ensure("the reference epoch is the first request", to_real(o.attrs["t0"]) == jd.t)
    V.ensure("interval kept", to_real(o.attrs["picket_interval"]) == P.t)
    V.ensure("objects kept", o.attrs["sim_dict"] is sims and o.attrs["ephem"] is eph and o.attrs["observatory"] is obsy and o.attrs["obsCode"] == "I11")


@contract("C25", PD + ".update_pickets", target="history", name="PixelDict.update_pickets")
def update(V):
    P, jd = V.real("picket_interval"), V.real("jd")
    V.pre(P.t > 0)
    o, t0 = state(V, P.t)
    methods(V, o)
    out = V.call(o, jd)
    if not V.returns(out):
        return
    check_inv(V, o, P.t)
    n0 = to_real(o.attrs["t0"])
    V.ensure("the requested time is within half an interval of the middle epoch", z3.And(jd.t - n0 <= P.t / 2, n0 - jd.t <= P.t / 2))
    V.ensure("nothing recomputed while the request is within half an interval", z3.Implies(z3.And(jd.t - t0 <= P.t / 2, t0 - jd.t <= P.t / 2), n0 == t0))


@contract("C25", PD + ".get_observatory_position", target="history", name="PixelDict.get_observatory_position")
def obs_position(V):
    t = V.real("t")
    B = [z3.Function(f"barycentric_{c}", RS, RS) for c in "xyz"]

    class Obsy:
        def sym_getattr(self, I, name):
            if name == "barycentricObservatory":
                def f(I, a, k):
                    V.ensure("the configured observatory", a[1] == "I11" and len(a) == 2 and not k)
                    return vec([b(to_real(a[0])) for b in B])
                return Prim(f, name)
            raise Unsupported("observatory." + name)

    V.stub("spiceypy.j2000", lambda I, a, k: SV("real", z3.RealVal(2451545)))
    out = V.call(instance(V, observatory=Obsy(), obsCode="I11"), t)
    if V.returns(out):
        et = (t.t - 2451545) * 86400
        for c, b, x in zip("xyz", B, V.I.iterate(out.value)):
            V.ensure(f"{c} of the observatory at that epoch, in au", to_real(x) * AU_KM == b(et))


class Sims:
    """the simulations: n objects with distinct designations"""

    def __init__(self, V):
        self.V, c = V, V.ctx
        self.n, self.key, self.idx = c.fresh("n_objects", "int"), z3.Function("designation", IS, SS), z3.Function("number_of", SS, IS)
        c.assume(self.n >= 0)

    def K(self, i):
        self.V.ctx.assume(self.idx(self.key(i)) == i)
        return SV("str", self.key(i))

    def sym_getitem(self, I, k):
        return {"sim": Epoch("sim", to_str_term(k)), "ex": Epoch("ex", to_str_term(k))}

    def sym_getattr(self, I, name):
        if name == "keys":
            return Prim(lambda I, a, k: Iter(self.n, self.K), name)
        if name == "items":
            return Prim(lambda I, a, k: Iter(self.n, lambda i: (self.K(i), self.sym_getitem(I, self.K(i)))), name)
        if name == "values":
            return Prim(lambda I, a, k: Iter(self.n, lambda i: self.sym_getitem(I, self.K(i))), name)
        raise Unsupported("sim_dict." + name)

    def sym_iter(self, I):
        return Iter(self.n, self.K)


class Vecs:
    """dictionary designation -> vector"""

    def __init__(self, skolem):
        self.s, self.has, self.val = skolem, z3.BoolVal(False), [z3.RealVal(0)] * 3

    def havoc(self, c, name):
        self.has, self.val = c.fresh("has", "bool"), [c.fresh("v", "real") for _ in range(3)]
        return self

    def sym_setitem(self, I, k, v):
        h = to_str_term(k) == self.s
        v = [to_real(x) for x in I.iterate(v)]
        if len(v) != 3:
            raise Unsupported("vector")
        self.has = z3.Or(self.has, h)
        self.val = [z3.If(h, x, y) for x, y in zip(v, self.val)]


def desigs(V):
    n = V.ctx.fresh("n_desigs", "int")
    D = z3.Function("requested", IS, SS)
    V.pre(n >= 0)
    return n, D, Iter(n, lambda i: SV("str", D(i)))


def loop_over(V, qual, n, D, s, i0, spec):
    """dictionary built for every requested object"""
    old = V.I.expr

    def expr(e, env):
        if type(e).__name__ == "Dict" and not e.keys and env.func is not None and env.func.qual == qual:
            return Vecs(s)
        return old(e, env)

    V.I.expr = expr
    t_ = z3.Int("t!")

    def inv(env, k, I):
        d = [v for v in env.vars.values() if isinstance(v, Vecs)]
        if len(d) != 1:
            raise Unsupported("result dictionary")
        d = d[0]
        return [("requested so far are there", z3.Implies(z3.And(i0 >= 0, i0 < k), d.has)),
                ("with their own vectors", z3.Implies(d.has, z3.And([x == y for x, y in zip(d.val, spec)]))),
                ("no other", z3.Implies(d.has, z3.Exists([t_], z3.And(t_ >= 0, t_ < k, D(t_) == s))))]

    V.invariant(qual, 0, inv)

    def done(out):
        d = out.value
        if not isinstance(d, Vecs):
            raise Unsupported("result dictionary")
        V.ensure("every requested object", z3.Implies(z3.And(i0 >= 0, i0 < n), d.has))
        V.ensure("its own vector", z3.Implies(d.has, z3.And([x == y for x, y in zip(d.val, spec)])))
        V.ensure("no other object", z3.Implies(d.has, z3.Exists([t_], z3.And(t_ >= 0, t_ < n, D(t_) == s))))
    return done


@contract("C25", PD + ".get_object_unit_vectors", target="history", name="PixelDict.get_object_unit_vectors")
def object_vectors(V):
    c = V.ctx
    n, D, it = desigs(V)
    i0 = c.fresh("i0", "int")
    s = D(i0)
    t, ref, lt0 = V.real("t"), V.real("jd_ref"), V.real("lt0")
    r_obs = vec([V.real("obs_" + x).t for x in "xyz"])
    RHO = [z3.Function(f"rho_{x}", SS, RS) for x in "xyz"]
    MAG = z3.Function("rho_mag", SS, RS)

    def lt(I, v):
        V.ensure("the object's own simulation", isinstance(v["sim"], Epoch) and isinstance(v["ex"], Epoch) and v["sim"].kind == "sim" and v["ex"].kind == "ex" and v["sim"].t == v["ex"].t)
        k = v["sim"].t
        V.ensure("at the epoch of the picket", to_real(v["t"]) == t.t - ref.t)
        V.ensure("from the observatory", v["r_obs"] is r_obs)
        V.ensure("light time from the given first guess", to_real(v["lt0"]) == lt0.t)
        I.ctx.assume(MAG(k) > 0)
        return (vec([f(k) for f in RHO]), SV("real", MAG(k)), SV("real", MAG(k)), L.Opaque("r_ast"), L.Opaque("v_ast"))

    V.use(G + ":integrate_light_time", lt)
    done = loop_over(V, PD + ".get_object_unit_vectors", n, D, s, i0, [f(s) / MAG(s) for f in RHO])
    V.pre(MAG(s) > 0)
    o = instance(V, sim_dict=Sims(V), ephem=Obj("ephem", jd_ref=ref))
    out = V.call(o, it, r_obs, t, lt0)
    if V.returns(out):
        done(out)


@contract("C25", PD + ".get_all_object_unit_vectors", target="history", name="PixelDict.get_all_object_unit_vectors")
def all_vectors(V):
    sims = Sims(V)
    r, t, lt0 = L.Opaque("r"), V.real("t"), V.real("lt0")
    res = L.Opaque("result")

    def f(I, v):
        d = v["desigs"]
        i = V.ctx.fresh("i", "int")
        it = V.lib.as_iter(I, d)
        V.ensure("all objects", it is not None and z3.And(it.n == sims.n, z3.Implies(z3.And(i >= 0, i < sims.n), to_str_term(it.item(i)) == sims.key(i))))
        V.ensure("same epoch, observatory and first guess", v["r_obs"] is r and z3.And(to_real(v["t"]) == t.t, to_real(v["lt0"]) == lt0.t))
        return res

    V.use(PD + ".get_object_unit_vectors", f)
    out = V.call(instance(V, sim_dict=sims), r, t, lt0)
    if V.returns(out):
        V.ensure("their unit vectors", out.value is res)


def lagrange(tm, t0, tp, t):
    return ((t - t0) * (t - tp) / ((tm - t0) * (tm - tp)), (t - tm) * (t - tp) / ((t0 - tm) * (t0 - tp)), (t - tm) * (t - t0) / ((tp - tm) * (tp - t0)))


@contract("C25", PD + ".interpolate_unit_vectors", target="history", name="PixelDict.interpolate_unit_vectors")
def interpolate(V):
    c = V.ctx
    P, jd = V.real("picket_interval"), V.real("jd")
    V.pre(P.t > 0)
    n, D, it = desigs(V)
    i0 = c.fresh("i0", "int")
    s = D(i0)
    o, _ = state(V, P.t)
    T = c.fresh("t0_after", "real")

    def upd(I, v):
        V.ensure("the cache is brought to the requested time", v["self"] is o and to_real(v["jd_tdb"]) == jd.t)
        for t, r, u, sg in NAMES:
            x = T + sg * P.t
            o.attrs[t], o.attrs[r], o.attrs[u] = SV("real", x), Epoch("observatory", x), Vectors("vectors", x)

    V.use(PD + ".update_pickets", upd)
    W = lagrange(T - P.t, T, T + P.t, jd.t)
    w = [c.fresh("weight", "real") for _ in range(3)]

    def lag(I, v):
        V.ensure("weights of the cached epochs at the requested time", z3.And(to_real(v["t0"]) == T - P.t, to_real(v["t1"]) == T, to_real(v["t2"]) == T + P.t, to_real(v["t"]) == jd.t))
        return tuple(SV("real", x) for x in w)

    V.use(M + ":lagrange3", lag)
    spec = [w[0] * u(s, T - P.t) + w[1] * u(s, T) + w[2] * u(s, T + P.t) for u in U]
    done = loop_over(V, PD + ".interpolate_unit_vectors", n, D, s, i0, spec)
    out = V.call(o, it, jd)
    if V.returns(out):
        done(out)


@contract("C25", M + ":lagrange3", target="lagrange", name="lagrange3", nfi=True)
def lagr(V):
    a, b, d, t = (V.real(x) for x in ("t0", "t1", "t2", "t"))
    V.pre(a.t != b.t, b.t != d.t, a.t != d.t)
    out = V.call(a, b, d, t)
    if not V.returns(out):
        return
    l = [to_real(x) for x in V.I.iterate(out.value)]
    V.ensure("three weights", len(l) == 3)
    if len(l) == 3:
        for x, w in zip(l, lagrange(a.t, b.t, d.t, t.t)):
            V.ensure("Lagrange's weight of its node", x == w)


# ------------------------------------------------------------- pixel lookup
class Bag:
    """a set of sky pixels of one object (by number)"""

    def __init__(self, has):
        self.has = has

    def sym_set(self, I):
        return self

    def sym_list(self, I):
        return self

    def union(self, o):
        h = [self.has] + ([o.has] if isinstance(o, Bag) else [lambda p, x=x: p == to_int(x) for x in o])
        return Bag(lambda p: z3.Or([f(p) for f in h]))

    def sym_binop(self, I, op, a, b):
        if type(op).__name__ == "BitOr" and a is self:
            return self.union(b)
        if type(op).__name__ == "Sub" and a is self and isinstance(b, (set, frozenset)):
            return Bag(lambda p: z3.And(self.has(p), *[p != x for x in b]))
        return NotImplemented

    def sym_getattr(self, I, name):
        if name in ("flatten", "ravel", "tolist", "copy"):
            return Prim(lambda I, a, k: self, name)
        if name == "union":
            return Prim(lambda I, a, k: self.union(a[0]), name)
        if name == "update":
            def f(I, a, k):
                self.has = self.union(a[0]).has
            return Prim(f, name)
        if name in ("discard", "remove"):
            def f(I, a, k):
                h, x = self.has, to_int(a[0])
                self.has = lambda p: z3.And(h(p), p != x)
            return Prim(f, name)
        return NotImplemented

    def sym_iter(self, I):
        c = I.ctx
        n, at, pos = c.fresh("n_pixels", "int"), z3.Function(c.fresh_name("pixel"), IS, IS), z3.Function(c.fresh_name("place"), IS, IS)
        c.assume(n >= 0)
        self.n, self.at, self.pos = n, at, pos
        has = self.has

        def item(m):
            c.assume(z3.And(has(at(m)), pos(at(m)) == m))
            return SV("int", at(m))
        return Iter(n, item)


class Registry:
    """pixel -> designations registered there, seen through one pixel and one object"""

    def __init__(self, p, key):
        self.p, self.key, self.on = p, key, z3.BoolVal(False)

    def havoc(self, c, name):
        self.on = c.fresh("registered", "bool")
        return self

    def sym_getitem(self, I, k):
        return Slot(self, to_int(k))


class Slot:
    def __init__(self, reg, pix):
        self.reg, self.pix = reg, pix

    def sym_getattr(self, I, name):
        if name in ("append", "add"):
            def f(I, a, k):
                r = self.reg
                r.on = z3.Or(r.on, z3.And(self.pix == r.p, to_str_term(a[0]) == r.key))
            return Prim(f, name)
        raise Unsupported("registry entry ." + name)


class Factor:
    """weights of the samples as a column, to be multiplied with a vector"""

    def __init__(self, f):
        self.f = f

    def sym_binop(self, I, op, a, b):
        o = b if a is self else a
        if type(op).__name__ == "Mult" and isinstance(o, L.Mat) and o.shape == (3,):
            return Track([lambda s, x=x: to_real(x) * self.f(s) for x in o.data])
        return NotImplemented


class Track:
    def __init__(self, f):
        self.f = f

    def sym_binop(self, I, op, a, b):
        if type(op).__name__ == "Add" and isinstance(a, Track) and isinstance(b, Track):
            return Track([lambda s, x=x, y=y: x(s) + y(s) for x, y in zip(a.f, b.f)])
        return NotImplemented

    def sym_getitem(self, I, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and isinstance(k[1], int):
            return Track([self.f[k[1]]])
        raise Unsupported("track index")

    def sym_getattr(self, I, name):
        if name == "T":
            return [Track([f]) for f in self.f]
        raise Unsupported("track." + name)


@contract("C25", PD + ".get_interp_factors", target="history", name="PixelDict.get_interp_factors")
def factors(V):
    c = V.ctx
    tm, t0, tp, n = V.real("tm"), V.real("t0"), V.real("tp"), V.int("n", lo=2)
    V.pre(tm.t < t0.t, t0.t < tp.t)
    times = type("Times", (), {})()
    w = [type("W", (), {"i": i, "sym_getitem": lambda s, I, k: ("column", s.i) if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and k[1] is None else (_ for _ in ()).throw(Unsupported("index"))})() for i in range(3)]

    def lin(I, a, k):
        V.ensure("samples spread evenly over the whole interval", not k and len(a) == 3 and z3.And(to_real(a[0]) == tm.t, to_real(a[1]) == tp.t, to_int(a[2]) == n.t))
        return times

    V.stub("numpy.linspace", lin)

    def lag(I, v):
        V.ensure("weights of the three epochs at the samples", v["t"] is times and z3.And(to_real(v["t0"]) == tm.t, to_real(v["t1"]) == t0.t, to_real(v["t2"]) == tp.t))
        return tuple(w)

    V.use(M + ":lagrange3", lag)
    out = V.call(instance(V), tm, t0, tp, n)
    if V.returns(out):
        V.ensure("one column of weights per epoch, in order", tuple(out.value) == (("column", 0), ("column", 1), ("column", 2)))


@contract("C25", PD + ".compute_pixel_traversed", target="history", name="PixelDict.compute_pixel_traversed")
def traversed(V):
    c = V.ctx
    P = V.real("picket_interval")
    V.pre(P.t > 0)
    o, t0 = state(V, P.t)
    sims = Sims(V)
    nside, nsub = V.int("nside", lo=1), V.int("n_sub", lo=2)
    o.attrs.update(sim_dict=sims, nside=nside, nested=True, n_sub_intervals=nsub, pixel_dict=None)
    i0, p0 = c.fresh("i0", "int"), c.fresh("pixel", "int")
    V.pre(i0 >= 0, i0 < sims.n, p0 >= 0)
    sims.K(i0)
    regs = []

    def fresh_registry(I, a, k):
        regs.append(Registry(p0, sims.key(i0)))
        return regs[-1]

    V.stub("collections.defaultdict", fresh_registry)
    Wf = [z3.Function(f"weight_{j}", IS, RS) for j in range(3)]

    def fac(I, v):
        V.ensure("weights of the cached epochs", z3.And(to_real(v["tm"]) == t0 - P.t, to_real(v["t0"]) == t0, to_real(v["tp"]) == t0 + P.t, to_int(v["n_sub_intervals"]) == nsub.t))
        return tuple(Factor(f) for f in Wf)

    V.use(PD + ".get_interp_factors", fac)
    TRAV, NB = z3.Function("traversed", IS, IS, z3.BoolSort()), z3.Function("neighbour", IS, IS, z3.BoolSort())
    cur = {}

    def v2p(I, a, k):
        i = cur.get("i")
        if i is None:
            raise Unsupported("outside the loop over objects")
        key, s = sims.key(i), c.fresh("sample", "int")
        V.ensure("pixels of the configured map", to_int(a[0]) == nside.t and len(a) == 4 and k.get("nest") is True)
        for x, u, got in zip("xyz", U, a[1:]):
            V.ensure(f"{x} of the object's own interpolated track", isinstance(got, Track) and len(got.f) == 1 and
                     got.f[0](s) == Wf[0](s) * u(key, t0 - P.t) + Wf[1](s) * u(key, t0) + Wf[2](s) * u(key, t0 + P.t))
        return Bag(lambda p: TRAV(i, p))

    def nbs(I, a, k):
        i = cur.get("i")
        p = c.fresh("p", "int")
        V.ensure("neighbours of the traversed pixels", to_int(a[0]) == nside.t and len(a) == 2 and k.get("nest") is True and isinstance(a[1], Bag) and (z3.Implies(p >= 0, a[1].has(p) == TRAV(i, p))))
        return Bag(lambda p: NB(i, p))

    V.stub("healpy.vec2pix", v2p)
    V.stub("healpy.get_all_neighbours", nbs)
    old = V.lib.b_list
    V.lib.b_list = lambda I, x=(): x.sym_list(I) if hasattr(x, "sym_list") else old(I, x)
    want = lambda i: z3.Or(TRAV(i, p0), NB(i, p0))
    now = {}

    def reg():
        r = o.attrs.get("pixel_dict")
        if not isinstance(r, Registry):
            raise Unsupported("pixel registry")
        return r

    def outer(env, k, I):
        return [("objects so far registered on every pixel they touch and on no other", reg().on == z3.And(i0 < k, want(i0)))]

    def at(k):
        cur["i"] = k
        now.pop("bag", None)

    outer.havoc = at

    def inner(env, m, I):
        b = [v for v in env.vars.values() if isinstance(v, Bag) and hasattr(v, "at")]
        if not b:
            raise Unsupported("pixels of the object")
        b = b[-1]
        i = cur["i"]
        c.assume(z3.Implies(b.has(p0), z3.And(b.pos(p0) >= 0, b.pos(p0) < b.n, b.at(b.pos(p0)) == p0)))
        return [("pixels so far", reg().on == z3.Or(z3.And(i0 < i, want(i0)), z3.And(i0 == i, b.has(p0), b.pos(p0) < m)))]

    V.invariant(PD + ".compute_pixel_traversed", 0, outer)
    V.invariant(PD + ".compute_pixel_traversed", 1, inner)
    out = V.call(o)
    if V.returns(out):
        V.ensure("every pixel traversed, with its neighbours, is registered for the object, and no other", reg().on == want(i0))
        V.ensure("registry rebuilt from nothing", reg() is regs[-1])


@contract("C25", PD + ".get_designations", target="candidates", name="PixelDict.get_designations")
def designations(V):
    c = V.ctx
    jd, ra, dec, fov, nside = V.real("jd"), V.real("ra"), V.real("dec"), V.real("fov"), V.int("nside", lo=1)
    REG = z3.Function("registered", IS, SS, z3.BoolSort())
    s = c.fresh("object", "str")
    n, PX = c.fresh("n_pixels", "int"), z3.Function("disc_pixel", IS, IS)
    V.pre(n >= 0)
    m0 = c.fresh("m0", "int")
    st = {"fresh": False}

    class Where:
        def __init__(self, p):
            self.p = p

    class Reg:
        def sym_getitem(self, I, k):
            V.ensure("looked up after the cache was brought to the requested time", st["fresh"])
            return Where(to_int(k))

        def sym_getattr(self, I, name):
            if name == "get":
                return Prim(lambda I, a, k: self.sym_getitem(I, a[0]), name)
            raise Unsupported("registry." + name)

    class Found:
        def __init__(self):
            self.on = z3.BoolVal(False)

        def havoc(self, c, name):
            self.on = c.fresh("found", "bool")
            return self

        def sym_getattr(self, I, name):
            if name in ("update",):
                def f(I, a, k):
                    if not isinstance(a[0], Where):
                        raise Unsupported("update")
                    self.on = z3.Or(self.on, REG(a[0].p, s))
                return Prim(f, name)
            raise Unsupported("set." + name)

    old = V.lib.b_set
    V.lib.b_set = lambda I, *x: old(I, *x) if x else Found()
    o = instance(V, nside=nside, nested=True, pixel_dict=Reg())

    def upd(I, v):
        V.ensure("brought to the requested time", v["self"] is o and to_real(v["jd_tdb"]) == jd.t)
        st["fresh"] = True

    V.use(PD + ".update_pickets", upd)

    def disc(I, v):
        V.ensure("the disc of the pointing", z3.And(to_real(v["ra_c"]) == ra.t, to_real(v["dec_c"]) == dec.t, to_real(v["search_radius"]) == fov.t))
        V.ensure("on the map of the registry", z3.And(to_int(v["nside"]) == nside.t) if v["nested"] is True else False)
        return Iter(n, lambda i: SV("int", PX(i)))

    V.use(G + ":get_hp_neighbors", disc)
    t_ = z3.Int("t!")

    def inv(env, k, I):
        d = [v for v in env.vars.values() if isinstance(v, Found)]
        if len(d) != 1:
            raise Unsupported("result set")
        return [("found so far", z3.Implies(z3.And(m0 >= 0, m0 < k, REG(PX(m0), s)), d[0].on)), ("no other", z3.Implies(d[0].on, z3.Exists([t_], z3.And(t_ >= 0, t_ < k, REG(PX(t_), s)))))]

    V.invariant(PD + ".get_designations", 0, inv)
    out = V.call(o, jd, ra, dec, fov)
    if not V.returns(out):
        return
    if not isinstance(out.value, Found):
        raise Unsupported("result set")
    V.ensure("every object registered on a pixel of the disc is a candidate", z3.Implies(z3.And(m0 >= 0, m0 < n, REG(PX(m0), s)), out.value.on))
    V.ensure("no other", z3.Implies(out.value.on, z3.Exists([t_], z3.And(t_ >= 0, t_ < n, REG(PX(t_), s)))))


@contract("C25", G + ":get_hp_neighbors", target="candidates", name="get_hp_neighbors", nfi=True)
def disc(V):
    ra, dec, r, nside = V.real("ra"), V.real("dec"), V.real("radius", 0, 180), V.int("nside", lo=1)
    V.pre(dec.t >= -90, dec.t <= 90)
    nested = V.pick("nested", [True, False])
    centre, res = L.Opaque("centre"), L.Opaque("pixels")

    def a2v(I, a, k):
        V.ensure("centre at colatitude 90 deg - Dec, longitude RA", not k and len(a) == 2 and z3.And(to_real(a[0]) == PI / 2 - rad(dec.t), to_real(a[1]) == rad(ra.t)))
        return centre

    def qd(I, a, k):
        k = dict(zip(("nside", "vec", "radius"), a), **k)
        V.ensure("all pixels that overlap the disc", k.get("vec") is centre and k.get("inclusive") is True and k.get("nest", False) is nested)
        V.ensure("of the given radius and map", z3.And(to_real(k["radius"]) == rad(r.t), to_int(k["nside"]) == nside.t))
        return res

    V.stub("healpy.ang2vec", a2v)
    V.stub("healpy.query_disc", qd)
    out = V.call(ra, dec, r, nside=nside, nested=nested)
    if V.returns(out):
        V.ensure("those pixels", out.value is res)
