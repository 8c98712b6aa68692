"""C10 Tracklets are grouped by local night and linked within the window."""
from pyvc.contract import contract, also
from pyvc import lib as L
from pyvc.values import Arr
from contracts.common import *

M = "sorcha.modules.PPMiniDifi"


class Draws:
    """the generator handed in: one block of uniform draws"""

    def __init__(self, c):
        self.c, self.blocks = c, []

    def sym_getattr(self, I, name):
        if name in ("uniform", "random"):
            def draw(I, a, k):
                n = k.get("size", a[-1] if a else None)
                if name == "uniform" and (len(a) > 1 or k.get("low") is not None or k.get("high") is not None):
                    raise Unsupported("non-standard uniform")
                u = Arr(to_int(n), self.c.fresh_array("u", "real"), "real")
                self.blocks.append(u)
                return u

            return Prim(draw, name)
        raise Unsupported("rng." + name)


@contract("C10", M + ":discoveryOpportunities", target="opportunities")
def opportunities(V):
    c = V.ctx
    m = c.fresh("n_nights", "int")
    V.pre(m >= 1)
    nights, trk = V.arr("nights", m, "int"), V.arr("trk", m, "bool")
    j, k = z3.Ints("j k")
    N = lambda x: z3.Select(nights.arr, x)
    V.pre(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < m), N(j) < N(k)), patterns=[z3.MultiPattern(N(j), N(k))]))
    window, nlink = V.int("window", lo=1), V.int("nlink", lo=1)
    p = V.real("p", 0, 1)
    rng = Draws(c)
    out = V.call(nights, trk, window, nlink, p, rng)
    if not V.returns(out):
        return
    idx, disc = out.value
    it = to_int(idx)
    V.ensure("one uniform draw per opportunity", len(rng.blocks) == 1 and True)
    if len(rng.blocks) != 1 or not isinstance(disc, Arr):
        V.ensure("opportunities are a list of nights", isinstance(disc, Arr))
        return
    u = rng.blocks[0]
    V.ensure("as many draws as opportunities", u.n == disc.n)
    U = lambda i: z3.Select(u.arr, i)
    i0 = c.fresh("i0", "int")
    inr = z3.And(i0 >= 0, i0 < disc.n)
    V.ensure("the reported opportunity succeeded", z3.Implies(it != -1, z3.And(it >= 0, it < disc.n, U(it) < p.t)))
    V.ensure("no earlier opportunity succeeded", z3.Implies(z3.And(inr, z3.Or(it == -1, i0 < it)), z3.Not(U(i0) < p.t)))
    t0 = c.fresh("night", "int")  # any night
    isdisc = lambda t, w: z3.And(w >= 0, w < disc.n, disc.get(w).t == t)
    many = z3.simplify(nlink.t > 1)
    solver_many = c.solver.check(nlink.t <= 1) == z3.unsat
    nz = c.__dict__.get("nonzeros", [])
    if not solver_many:
        # one tracklet night is enough: the opportunities are exactly the tracklet nights
        V.ensure("every opportunity is a tracklet night", z3.Implies(inr, z3.Exists([j], z3.And(j >= 0, j < m, N(j) == disc.get(i0).t, z3.Select(trk.arr, j)))))
        j0 = c.fresh("j0", "int")
        V.ensure("every tracklet night is an opportunity", z3.Implies(z3.And(j0 >= 0, j0 < m, z3.Select(trk.arr, j0)), z3.Exists([j], isdisc(N(j0), j))))
        return
    cs = c.__dict__.get("cumsums", [])
    if len(cs) != 2 or len(nz) < 2:
        raise Unsupported("opportunities not found by windowed prefix sums")
    (src1, ps1), (src2, ps2) = cs
    # n0: the first night
    n0 = N(0)
    tracklet_on = lambda t: z3.Exists([j], z3.And(j >= 0, j < m, N(j) == t, z3.Select(trk.arr, j)))
    V.ensure("the count runs over the nights from the first one on", z3.Implies(z3.And(t0 >= 0, t0 < src1.n), src1.get(t0).t == z3.If(tracklet_on(t0 + n0), 1, 0)))
    V.ensure("the range covers every night that can be within a window of the last one", src1.n >= N(m - 1) - n0 + window.t)
    V.ensure("same range for the identity of the tracklet nights", src2.n == src1.n)
    V.ensure("tracklet nights, and only they, carry an identity", z3.Implies(z3.And(t0 >= 0, t0 < src2.n), (src2.get(t0).t != 0) == tracklet_on(t0 + n0)))
    # number of tracklet nights among the window nights up to and including n0+t
    cnt = lambda a: (lambda t: z3.If(t >= window.t, z3.Select(a, t) - z3.Select(a, t - window.t), z3.Select(a, t)))
    C, ID = cnt(ps1), cnt(ps2)
    D1, D2 = nz[0], nz[1]
    P1 = lambda t: C(t) >= nlink.t
    # enough tracklet nights in the window ending at t
    V.ensure("candidate nights: exactly those with enough tracklet nights in the trailing window", z3.Implies(z3.And(t0 >= 0, t0 < src1.n), D1.nz[0](t0) == P1(t0)))
    V.ensure("every opportunity has enough tracklet nights in its window", z3.Implies(inr, z3.And(disc.get(i0).t - n0 >= 0, disc.get(i0).t - n0 < src1.n, P1(disc.get(i0).t - n0))))
    # a candidate is an opportunity iff it is the first, or the set of tracklet nights differs from the previous candidate's
    q0 = c.fresh("q0", "int")
    cand = z3.And(q0 >= 0, q0 < D1.n)
    d = lambda x: z3.Select(D1.arr, x)
    new = z3.If(q0 == 0, ID(d(q0)) != 0, ID(d(q0)) != ID(d(q0 - 1)))
    V.ensure("a candidate counts as an opportunity iff its set of tracklet nights is new", z3.Implies(cand, D2.nz[0](q0) == new))
    V.ensure("opportunities are the new candidates, in order", z3.Implies(inr, disc.get(i0).t == d(z3.Select(D2.arr, i0)) + n0))
    V.ensure("all of them", disc.n == D2.n)


def floor_(t):
    return z3.ToInt(t)


class Obs:
    """a numpy record array of one object's detections"""

    def __init__(self, n, cols):
        self.n, self.cols = n, cols

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_getitem(self, I, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise PyExc("ValueError", (k,))
            return self.cols[k]
        if isinstance(k, Arr) and k.sort == "int":
            return Obs(k.n, {c: I.lib.getitem(I, a, k) for c, a in self.cols.items()})
        raise Unsupported("record array index")


@contract("C10", M + ":linkObject", target="link")
def link(V):
    c = V.ctx
    n = c.fresh("n", "int")
    V.pre(n >= 0)
    cols = {"midPointTai": V.arr("t", n, "real"), "ra": V.arr("ra", n, "real"), "decl": V.arr("dec", n, "real"), "diaSourceId": V.arr("id", n, "int")}
    obs = Obs(n, cols)
    maxdt, minlen, p, start = V.real("maxdt", 0), V.real("minlen", 0), V.real("p", 0, 1), V.real("start", 0, 1)
    nmin, window, nlink, seed = V.int("nmin", lo=1), V.int("window", lo=1), V.int("nlink", lo=1), V.int("seed", lo=0)
    T = lambda i: z3.Select(cols["midPointTai"].arr, i)
    i_ = z3.Int("i")
    ph = lambda t: t - z3.ToReal(floor_(t))
    V.pre(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(T(i_) >= 1, ph(T(i_) - start.t) > q(Fraction(1, 10)), ph(T(i_) - start.t) < q(Fraction(9, 10)))), patterns=[T(i_)]))
    perm = z3.Array("perm", z3.IntSort(), z3.IntSort())
    P = lambda i: z3.Select(perm, i)
    got = {}

    def argsort(I, a, k):
        V.ensure("sorted by time", isinstance(a[0], Arr) and a[0] is cols["midPointTai"])
        I.ctx.assume(z3.ForAll([i_], z3.Implies(z3.And(i_ >= 0, i_ < n), z3.And(P(i_) >= 0, P(i_) < n)), patterns=[P(i_)]))
        j_ = z3.Int("j")
        I.ctx.assume(z3.ForAll([i_, j_], z3.Implies(z3.And(i_ >= 0, i_ < j_, j_ < n), T(P(i_)) <= T(P(j_))), patterns=[z3.MultiPattern(P(i_), P(j_))]))
        return Arr(n, perm, "int")

    V.stub("numpy.argsort", argsort)

    class Hash:
        def sym_getattr(self, I, name):
            return Prim(lambda I, a, k: self, name)

        def sym_getitem(self, I, k):
            return self

    def sha(I, a, k):
        src = a[0].attrs.get("src") if isinstance(a[0], Obj) else None
        V.ensure("the object's stream is keyed by its own time-ordered positions",
                 src is not None and z3.And(src.n == n, z3.Or([z3.Implies(inr, src.get(t0).t == z3.Select(cols[x].arr, P(t0))) for x in ("ra", "decl", "midPointTai")])))
        return Hash()

    V.stub("hashlib.sha256", sha)
    digest = z3.Int("digest_of_positions")

    def from_bytes(I, a, k):
        I.ctx.assume(z3.And(digest >= 0, digest < 2 ** 32))
        return SV("int", digest)

    V.stub("int.from_bytes", from_bytes)

    def default_rng(I, a, k):
        got["seed"] = a[0]
        return L.Logger()

    V.stub("numpy.random.default_rng", default_rng)
    t0 = c.fresh("d", "int")
    inr = z3.And(t0 >= 0, t0 < n)

    def tin(I, v):
        V.ensure("every detection is assigned its local night", z3.Implies(inr, v["night"].get(t0).t == floor_(T(P(t0)) - start.t)))
        for a, b in (("mjd", "midPointTai"), ("ra", "ra"), ("dec", "decl")):
            V.ensure(f"with its own {a}", z3.Implies(inr, v[a].get(t0).t == z3.Select(cols[b].arr, P(t0))))
        V.ensure("all detections", v["night"].n == n)
        V.ensure("with the configured criteria", z3.And(v["maxdt_minutes"].t == maxdt.t, v["minlen_arcsec"].t == minlen.t, v["min_observations"].t == nmin.t))
        m = I.ctx.fresh("n_nights", "int")
        got["nights"], got["trk"] = Arr(m, I.ctx.fresh_array("nights", "int"), "int"), Arr(m, I.ctx.fresh_array("trk", "bool"), "bool")
        got["night"] = v["night"]
        return (got["nights"], got["trk"])

    def dopp(I, v):
        V.ensure("the nights and their tracklets are linked", v["nights"] is got.get("nights") and v["nightHasTracklets"] is got.get("trk"))
        V.ensure("with the configured window, number and efficiency", z3.And(v["window"].t == window.t, v["nlink"].t == nlink.t, to_real(v["p"]) == p.t))
        k = I.ctx.fresh("n_opp", "int")
        d = Arr(k, I.ctx.fresh_array("opportunity", "int"), "int")
        ix = I.ctx.fresh("first_success", "int")
        I.ctx.assume(z3.And(k >= 0, z3.Or(ix == -1, z3.And(ix >= 0, ix < k))))
        got["ix"], got["disc"] = ix, d
        # the window of an opportunity holds tracklet nights, hence detections (proved above for the function itself)
        w = I.ctx.fresh("in_window", "int")
        nt = got["night"]
        dd = z3.Select(d.arr, ix)
        I.ctx.assume(z3.Implies(ix != -1, z3.And(w >= 0, w < n, nt.get(w).t > dd - window.t, nt.get(w).t <= dd)))
        return (SV("int", ix), d)

    V.use(M + ":trackletsInNights", tin)
    V.use(M + ":discoveryOpportunities", dopp)

    def searchsorted(I, a, k):
        arr, vals = a[0], a[1]
        side = k.get("side", a[2] if len(a) > 2 else "left")
        out = []
        for v in vals:
            b = I.ctx.fresh("bisect", "int")
            x = to_int(v)
            I.ctx.assume(z3.And(b >= 0, b <= arr.n))
            j_ = z3.Int("j")
            lt = (lambda e: e < x) if side == "left" else (lambda e: e <= x)
            s = L.arr_snapshot(arr)
            I.ctx.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < arr.n), lt(s.get(j_).t) == (j_ < b))))
            for h in hints:
                I.ctx.assume(z3.Implies(z3.And(h >= 0, h < arr.n), lt(s.get(h).t) == (h < b)))
            out.append(SV("int", b))
        return out

    hints = []
    V.stub("numpy.searchsorted", searchsorted)

    def argmin(I, a, k):
        s = L.arr_snapshot(a[0])
        w = I.ctx.fresh("argmin", "int")
        if not I.ctx.branch(s.n > 0):
            raise PyExc("ValueError", ("argmin of an empty array",))
        j_ = z3.Int("j")
        I.ctx.assume(z3.And(w >= 0, w < s.n))
        I.ctx.assume(z3.ForAll([j_], z3.Implies(z3.And(j_ >= 0, j_ < s.n), s.get(w).t <= s.get(j_).t)))
        return SV("int", w)

    V.stub("numpy.argmin", argmin)
    out = V.call(obs, seed, maxdt, minlen, nmin, window, nlink, p, start)
    if not V.returns(out):
        return
    oid, date, chances = out.value
    if "ix" not in got:
        V.ensure("linking is skipped only for an object without detections", n == 0)
        V.ensure("no discovery without detections", to_int(chances) == 0)
        return
    nan = not isinstance(date, (SV, int))
    V.ensure("no success, no discovery date", z3.BoolVal(nan) == (got["ix"] == -1))
    if nan:
        V.ensure("and no chances", to_int(chances) == 0)
        V.ensure("and no observation", to_int(oid) == 0xFFFFFFFFFFFFFFFF)
    else:
        V.ensure("the discovery date is the night of the first success", to_real(date) == z3.ToReal(z3.Select(got["disc"].arr, got["ix"])))
        V.ensure("chances are the opportunities", to_int(chances) == got["disc"].n)
        e = c.fresh("other", "int")
        nt = lambda i: floor_(T(P(i)) - start.t)
        dd = z3.Select(got["disc"].arr, got["ix"])
        j = z3.Int("j")
        V.ensure("the reported detection is the earliest of the window", z3.Exists([j], z3.And(
            j >= 0, j < n, to_int(oid) == z3.Select(cols["diaSourceId"].arr, P(j)), nt(j) > dd - window.t, nt(j) <= dd,
            z3.Implies(z3.And(e >= 0, e < n, nt(e) > dd - window.t, nt(e) <= dd), T(P(j)) <= T(P(e))))))
    s = got.get("seed")
    V.ensure("the object's own stream: a function of the seed and its own positions", s is not None and z3.And(to_int(s) == (seed.t + digest) % 0xFFFFFFFF))


from fractions import Fraction


also("C10", "C09", ["trackletsInNights"])


also("C10", "C11", ["PPLinkingFilter"])

from contracts.glue import glue
glue("C10")
