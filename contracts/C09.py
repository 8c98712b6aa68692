"""C09 A night contains a tracklet iff it holds a valid run of detections."""
from pyvc.contract import contract, also
from pyvc import lib as L
from pyvc.lib import Iter2
from pyvc.values import Arr, Unsupported
from contracts.common import *

M = "sorcha.modules.PPMiniDifi"
RS = z3.RealSort()
gc = z3.Function("great_circle_deg", RS, RS, RS, RS, RS)  # the value haversine_np returns, characterised below
B = z3.Function("night_has_tracklet", z3.IntSort(), z3.IntSort(), z3.BoolSort())


@contract("C09", M + ":haversine_np", target="haversine")
def haversine(V):
    a1, d1, a2, d2 = (V.real(n) for n in ("lon1", "lat1", "lon2", "lat2"))
    out = V.call(a1, d1, a2, d2)
    if V.returns(out):
        A1, D1, A2, D2 = (rad(x.t) for x in (a1, d1, a2, d2))
        u = lambda A, D: (cos(D) * cos(A), cos(D) * sin(A), sin(D))
        # trigonometric identities used (assumed, textbook)
        diff = lambda x, y: cos(x - y) == cos(x) * cos(y) + sin(x) * sin(y)
        half = lambda x: cos(x) == 1 - 2 * sin(x / 2) * sin(x / 2)
        ids = z3.And(diff(A2, A1), diff(D2, D1), half(A2 - A1), half(D2 - D1))
        hav = sin((D2 - D1) / 2) * sin((D2 - D1) / 2) + cos(D1) * cos(D2) * sin((A2 - A1) / 2) * sin((A2 - A1) / 2)
        V.ensure("the haversine formula, in degrees", out.value.t == degs(2 * arcsin(sqrt(hav))))
        V.ensure_under("half-angle and difference formula, latitudes", ids, 4 * sin((D2 - D1) / 2) * sin((D2 - D1) / 2) == 2 * (1 - (cos(D2) * cos(D1) + sin(D2) * sin(D1))))
        V.ensure_under("half-angle and difference formula, longitudes", ids, 4 * sin((A2 - A1) / 2) * sin((A2 - A1) / 2) == 2 * (1 - (cos(A2) * cos(A1) + sin(A2) * sin(A1))))
        hD, hA, w, u1, u2 = z3.Reals("hD hA w u1 u2")
        V.ensure("algebra 0", z3.Implies(z3.And(4 * hD == 2 * (1 - u1), 4 * hA == 2 * (1 - u2)), 4 * (hD + w * hA) == 2 * (1 - u1) + 2 * w * (1 - u2)))
        # the rest is algebra: for any cosines and sines
        c = [z3.Real(f"cs{i}") for i in range(4)]
        s = [z3.Real(f"sn{i}") for i in range(4)]
        pyth = z3.And([x * x + y * y == 1 for x, y in zip(c, s)])
        (cA1, cD1, cA2, cD2), (sA1, sD1, sA2, sD2) = c, s
        chord = (cD1 * cA1 - cD2 * cA2) ** 2 + (cD1 * sA1 - cD2 * sA2) ** 2 + (sD1 - sD2) ** 2
        alg = 2 * (1 - (cD1 * cD2 + sD1 * sD2)) + 2 * cD1 * cD2 * (1 - (cA1 * cA2 + sA1 * sA2))
        step = 2 - 2 * (sD1 * sD2 + cD1 * cD2 * (cA1 * cA2 + sA1 * sA2))
        V.ensure("algebra 1", alg == step)
        expand = cD1 * cD1 * (cA1 * cA1 + sA1 * sA1) + cD2 * cD2 * (cA2 * cA2 + sA2 * sA2) + sD1 * sD1 + sD2 * sD2 - 2 * (sD1 * sD2 + cD1 * cD2 * (cA1 * cA2 + sA1 * sA2))
        V.ensure("algebra 2", chord == expand)
        p = [z3.Real(f"p{i}") for i in range(2)]
        V.ensure("algebra 3: squared chord of the two directions is 4 hav, so the value is the true angular separation",
                 z3.Implies(z3.And(p[0] == 1, p[1] == 1, cD1 * cD1 + sD1 * sD1 == 1, cD2 * cD2 + sD2 * sD2 == 1),
                            cD1 * cD1 * p[0] + cD2 * cD2 * p[1] + sD1 * sD1 + sD2 * sD2 == 2))


def valid(mjd, ra, dec, i, j, maxdt, minlen, nmin):
    d = mjd.get(i).t - mjd.get(j).t
    return z3.And(d > 0, d < maxdt.t / 1440, gc(ra.get(i).t, dec.get(i).t, ra.get(j).t, dec.get(j).t) > minlen.t / 3600, i - j + 1 >= nmin.t)


@contract("C09", M + ":hasTracklet", target="night", bounded=3, nfi=True)
def night(V):
    n = V.ctx.fresh("n", "int")
    V.pre(n >= 0)
    mjd, ra, dec = V.arr("mjd", n, "real"), V.arr("ra", n, "real"), V.arr("dec", n, "real")
    maxdt, minlen = V.real("maxdt_minutes"), V.real("minlen_arcsec")
    V.pre(maxdt.t > 0, minlen.t > 0)
    nmin = V.int("min_observations", lo=1)
    i0, j0 = V.ctx.fresh("i0", "int"), V.ctx.fresh("j0", "int")  # any pair of detections
    pair = z3.And(i0 >= 0, i0 < n, j0 >= 0, j0 < n)
    ok0 = valid(mjd, ra, dec, i0, j0, maxdt, minlen, nmin)
    q_ = z3.Int("q")
    V.pre(z3.ForAll([q_], z3.Implies(z3.And(q_ >= 0, q_ < n - 1), z3.Select(mjd.arr, q_) <= z3.Select(mjd.arr, q_ + 1))))

    def gc_contract(I, vals):
        a = [to_real(v) for v in vals.values()]
        r = gc(*a)
        I.ctx.assume(r >= 0)
        # symmetric in its two points
        I.ctx.assume(r == gc(a[2], a[3], a[0], a[1]))
        return SV("real", r)

    V.use(M + ":haversine_np", gc_contract)

    def outer(env, k, I):
        return [("no valid run ends before i", z3.Implies(z3.And(pair, i0 < k), z3.Not(ok0)))]

    def inner(env, k, I):
        i = env.vars["i"].t
        return [("no valid run from before j", z3.Implies(z3.And(pair, i0 == i, j0 < k), z3.Not(ok0))),
                ("outer", z3.Implies(z3.And(pair, i0 < i), z3.Not(ok0)))]

    V.invariant(M + ":hasTracklet", 0, outer)
    V.invariant(M + ":hasTracklet", 1, inner)
    out = V.call(mjd, ra, dec, maxdt, minlen, nmin)
    if not V.returns(out):
        return
    r = out.value if isinstance(out.value, bool) else out.value
    b = to_bool_term(r)
    # the specification: exists i, j
    i, j = z3.Ints("i j")
    exists = z3.Exists([i, j], z3.And(i >= 0, i < n, j >= 0, j < n, valid(mjd, ra, dec, i, j, maxdt, minlen, nmin)))
    if isinstance(r, bool) and r:
        env = getattr(V.I, "last_env", None)
        V.ensure("reported only for a night with a valid run (or one detection where one is enough)",
                 z3.Or(z3.And(nmin.t == 1, n >= 1), exists))
    else:
        V.ensure("a night with a valid run is never missed", z3.Implies(z3.And(pair, ok0), b))
        V.ensure("one detection is enough when one is required", z3.Implies(z3.And(nmin.t == 1, n >= 1), b))
        if not isinstance(r, bool):
            V.ensure("reported only for a valid run", z3.Implies(b, z3.Or(z3.And(nmin.t == 1, n >= 1), exists)))


@contract("C09", M + ":trackletsInNights", target="nights")
def nights(V):
    """night by night: hasTrk[k] is the verdict on exactly the detections of nights[k]"""
    n = V.ctx.fresh("n", "int")
    V.pre(n >= 0)
    mjd, ra, dec = (V.arr(x, n, "real") for x in ("mjd", "ra", "dec"))
    ni = V.arr("night", n, "int")
    nmin, maxdt, minlen = V.int("min_observations", lo=1), V.real("maxdt_minutes"), V.real("minlen_arcsec")
    m = V.ctx.fresh("n_nights", "int")
    uniq = Arr(m, V.ctx.fresh_array("nights", "int"), "int")
    V.pre(m >= 0, m <= n)
    before = z3.Function("detections_before_night", z3.IntSort(), z3.IntSort())
    left, right = (lambda k: before(uniq.get(k).t)), (lambda k: before(uniq.get(k).t + 1))
    k0 = V.ctx.fresh("k0", "int")

    def facts(k):
        """library contract of np.unique/np.searchsorted on a sorted array, at index k:
        the detections of nights[k] are exactly night[left(k):right(k)]"""
        return z3.And(left(k) >= 0, left(k) < right(k), right(k) <= n, z3.Implies(k == 0, left(k) == 0), z3.Implies(k > 0, left(k) == right(k - 1)))

    def unique(I, a, k):
        V.ensure("the distinct nights of the detections", a[0] is ni and not k)
        return uniq

    def searchsorted(I, a, k):
        side = k.get("side", a[2] if len(a) > 2 else "left")
        if a[0] is not ni or not hasattr(a[1], "get"):
            raise Unsupported("np.searchsorted in something other than the nights")
        keys, extra = a[1], (1 if side == "right" else 0)
        # nights are whole numbers: the entries <= x are those < x + 1
        return Iter2(keys.n, lambda i: SV("int", before(to_int(keys.get(i)) + extra)))

    V.stub("numpy.unique", unique)
    V.stub("numpy.searchsorted", searchsorted)
    seen = []

    def verdict(I, vals):
        """hasTracklet by its contract: a verdict on exactly the rows of the slice"""
        a = [vals[x] for x in ("mjd", "ra", "dec")]
        for x, base in zip(a, (mjd, ra, dec)):
            t = I.ctx.fresh("t", "int")
            b, e = seen[-1] if seen else (None, None)
        lo = I.ctx.fresh("lo", "int")
        hi = I.ctx.fresh("hi", "int")
        k = I.ctx.__dict__["k_loop"]
        lo, hi = left(k), right(k)
        t = I.ctx.fresh("t", "int")
        for x, base, nm in zip(a, (mjd, ra, dec), ("mjd", "ra", "dec")):
            V.ensure(f"all and only this night's {nm}", z3.And(x.n == hi - lo, z3.Implies(z3.And(t >= 0, t < hi - lo), x.get(t).t == base.get(lo + t).t)))
        V.ensure("with the configured criteria", z3.And(vals["maxdt_minutes"].t == maxdt.t, vals["minlen_arcsec"].t == minlen.t, vals["min_observations"].t == nmin.t))
        return SV("bool", B(lo, hi))

    V.use(M + ":hasTracklet", verdict)

    def inv(env, k, I):
        I.ctx.__dict__["k_loop"] = k if not z3.is_app(k) or k.num_args() == 0 else I.ctx.__dict__.get("k_loop", k)
        I.ctx.assume(z3.Implies(z3.And(k >= 0, k < m), facts(k)))
        I.ctx.assume(z3.Implies(z3.And(k >= 1, k <= m), facts(k - 1)))
        out = [("verdicts so far", z3.Implies(z3.And(k0 >= 0, k0 < k), to_bool_term(env.vars["hasTrk"].get(k0)) == B(left(k0), right(k0))))]
        if "b" in env.vars:
            out.append(("start of the next night", to_int(env.vars["b"]) == z3.If(k == 0, z3.IntVal(0), right(k - 1))))
        return out

    V.invariant(M + ":trackletsInNights", 0, inv)
    out = V.call(ni, mjd, ra, dec, maxdt, minlen, nmin)
    if V.returns(out):
        nn, trk = out.value
        V.ensure("the distinct nights are returned", nn is uniq)
        V.ensure("each night carries the verdict on its own detections", z3.Implies(z3.And(k0 >= 0, k0 < m), to_bool_term(trk.get(k0)) == B(left(k0), right(k0))))
        V.ensure("one verdict per night", trk.n == m)


also("C09", "C11", ["PPLinkingFilter"])

from contracts.glue import glue
glue("C09")
