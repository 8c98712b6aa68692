"""C26 Orbital-element conversions.

The Stumpff functions c_k are uninterpreted; what is used of them is their
series on |x| <= 0.1, c_k = 1/k! - x c_{k+2} and the quadrupling formulas.
Everything is over the reals: the convergence tolerance of the root finder is
idealised (a converged root is a root)."""
from pyvc.contract import contract, also
from pyvc import lib as L, ring
from pyvc.lib import Iter
from contracts.common import *

O = "sorcha.ephemeris.orbit_conversion_utilities"
PA = "sorcha.ephemeris.simulation_parsing"
SE = "sorcha.ephemeris.simulation_setup"
RS, IS = z3.RealSort(), z3.IntSort()
C = [z3.Function(f"c{k}", RS, RS) for k in range(4)]
arccos, arctan2, arctan, tan, sinh, arctanh = (F(x) for x in ("arccos", "arctan2", "arctan", "tan", "sinh", "arctanh"))


def stumpff_facts(y):
    return [C[0](y) == 1 - y * C[2](y), C[1](y) == 1 - y * C[3](y)]


def series(k, y, n=7):
    f = 1
    out, p = z3.RealVal(0), z3.RealVal(1)
    for j in range(n):
        f = 1
        for m in range(2, 2 * j + k + 1):
            f *= m
        out = out + p / z3.RealVal(f)
        p = p * (-y)
    return out


@contract("C26", O + ":stumpff", target="stumpff", name="stumpff")
def stumpff(V):
    x = V.real("x")
    X = x.t
    P = z3.Function("four_to_the", IS, RS)
    c = V.ctx

    def pw(n):
        c.assume(z3.And(P(0) == 1, z3.Implies(n >= 0, P(n) > 0), z3.Implies(n >= 0, P(n + 1) == 4 * P(n)), z3.Implies(n >= 1, P(n) == 4 * P(n - 1)), z3.Implies(n >= 1, P(n - 1) > 0)))

    def facts(n):
        y = Y(n)
        for t in stumpff_facts(y):
            c.assume(t)
        c.assume(z3.Implies(z3.And(y <= q(0.1), y >= -q(0.1)), z3.And(C[2](y) == series(2, y), C[3](y) == series(3, y))))
        z = Y(n - 1)  # = 4 y
        for t in (C[0](z) == 2 * C[0](y) * C[0](y) - 1, C[1](z) == C[0](y) * C[1](y), C[2](z) == C[1](y) * C[1](y) / 2, C[3](z) == (C[2](y) + C[0](y) * C[3](y)) / 4):
            c.assume(z3.Implies(n >= 1, t))


    V.I.assumed.add("Stumpff functions: series on |x| <= 0.1 (truncated at x^6, remainder < 1e-20), c_k = 1/k! - x c_{k+2}, quadrupling formulas")
    V.pre(P(0) == 1)
    Y = z3.Function("quartered", IS, RS)  # Y(n) = x / 4^n

    def down(env, k, I):
        n = env.vars["n"]
        n = to_int(n)
        pw(n)
        c.assume(z3.And(Y(0) == X, Y(n + 1) == Y(n) / 4))
        return [("n counts the divisions", n >= 0), ("x divided by four n times", to_real(env.vars["x"]) == Y(n))]

    def up(env, k, I):
        n = to_int(env.vars["n"])
        c.assume(z3.And(Y(0) == X, z3.Implies(n >= 1, Y(n - 1) == 4 * Y(n))))
        facts(n)
        return [("n divisions left to undo", n >= 0)] + [(f"c{j} at x / 4^n", to_real(env.vars[f"d{j}"]) == C[j](Y(n))) for j in range(4)]

    V.invariant(O + ":stumpff", 0, down)
    V.invariant(O + ":stumpff", 1, up)
    out = V.call(x)
    if V.returns(out):
        for k in range(4):
            V.ensure(f"c{k}(x)", to_real(out.value[k]) == C[k](X))


def use_stumpff(V, n=2):
    def f(I, v):
        y = to_real(v["x"])
        for t in stumpff_facts(y)[:n]:
            I.ctx.assume(t)
        return tuple(SV("real", C[k](y)) for k in range(4))
    V.use(O + ":stumpff", f)


def G(k, s, alpha):
    t = C[k](alpha * s * s)
    for _ in range(k):
        t = t * s
    return t


@contract("C26", O + ":root_function", target="kepler equation", name="root_function")
def rootf(V):
    use_stumpff(V)
    s, mu, al, r0, rd, t = (V.real(x).t for x in ("s", "mu", "alpha", "r0", "r0dot", "t"))
    out = V.call(*(SV("real", x) for x in (s, mu, al, r0, rd, t)))
    if not V.returns(out):
        return
    g = [G(k, s, al) for k in range(4)]
    f, fp, fpp, fppp = (to_real(x) for x in out.value)
    # dG_0 = -alpha G_1, dG_k = G_{k-1}
    V.ensure("universal Kepler equation", f == r0 * g[1] + r0 * rd * g[2] + mu * g[3] - t)
    V.ensure("first derivative", fp == r0 * g[0] + r0 * rd * g[1] + mu * g[2])
    V.ensure("second derivative", fpp == -al * r0 * g[1] + r0 * rd * g[0] + mu * g[1])
    V.ensure("third derivative", fppp == -al * r0 * g[0] - al * r0 * rd * g[1] + mu * g[0])


@contract("C26", O + ":halley_safe", target="kepler equation", name="halley_safe")
def halley(V):
    Fs = [z3.Function(f"F{k}", RS, RS) for k in range(4)]
    c = V.ctx
    par = [V.real(x) for x in ("mu", "alpha", "r0", "r0dot", "t")]

    def rf(I, v):
        V.ensure("the caller's equation", z3.And([to_real(v[n]) == p.t for n, p in zip(("mu", "alpha", "r0", "r0dot", "t"), par)]))
        return tuple(SV("real", f(to_real(v["s"]))) for f in Fs)

    V.use(O + ":root_function", rf)
    x1, x2 = V.real("x1"), V.real("x2")
    acc = V.real("xacc")
    V.pre(acc.t > 0)
    st = {}

    def inv(env, k, I):
        g = {n: to_real(env.vars[n]) for n in ("xl", "xh", "rts", "f", "fp", "fpp", "dx")}
        st.update(g)
        F0 = Fs[0]
        return [("the bracket keeps a sign change", z3.And(F0(g["xl"]) < 0, F0(g["xh"]) >= 0)),
                ("function and derivatives at the current point", z3.And(g["f"] == F0(g["rts"]), g["fp"] == Fs[1](g["rts"]), g["fpp"] == Fs[2](g["rts"])))]

    V.invariant(O + ":halley_safe", 0, inv)
    out = V.call(x1, x2, *par, acc, V.int('maxit', 0))
    if not V.returns(out):
        return
    ok, root = out.value[0], out.value[1]
    f1, f2 = Fs[0](x1.t), Fs[0](x2.t)
    ok = ok.t if isinstance(ok, SV) else z3.BoolVal(bool(ok))
    V.ensure("without a sign change it does not converge", z3.Implies(f1 * f2 > 0, z3.Not(ok)))
    if isinstance(root, L.NaNVal):
        V.ensure("no root without convergence", z3.Not(ok))
        return
    R = to_real(root)
    V.ensure("a returned root has converged", ok)
    if not st:
        V.ensure("an end of the bracket is the root", z3.Or(z3.And(R == x1.t, f1 == 0), z3.And(R == x2.t, f2 == 0)))
        return
    d = R - st["rts"]
    mid = z3.And(2 * R == st["xl"] + st["xh"])
    half = (st["xh"] - st["xl"]) / 2
    small = lambda a: z3.And(a / R < acc.t, -(a / R) < acc.t)
    den = 2 * st["fp"] * st["fp"] - st["f"] * st["fpp"]
    hs = 2 * st["f"] * st["fp"] / den
    V.ensure("converged only when the last step is below the tolerance: half the bracket, or Halley's correction",
             z3.Implies(R != 0, z3.Or(z3.And(mid, small(half)), z3.And(R == st["rts"] - hs, small(hs)))))


@contract("C26", O + ":principal_value", target="kepler equation", name="principal_value")
def pv(V):
    th = V.real("theta")
    V.pre(PI > 3)
    out = V.call(th)
    if V.returns(out):
        d = to_real(out.value)
        n = th.t / (2 * PI)
        k = z3.ToReal(z3.ToInt(n))
        V.ensure("a whole number of turns removed", z3.Or(d == th.t - 2 * PI * k, z3.And(th.t < 0, d == th.t - 2 * PI * (k + 1)), z3.And(th.t < 0, d == th.t + 2 * PI * z3.ToReal(z3.ToInt(-n)))))
        V.pre(n * (2 * PI) == th.t)
        V.ensure("less than a turn", z3.And(d < 2 * PI, d > -2 * PI))


def frame_of(inc, node, arg):
    """unit vectors towards pericentre, along the motion there, and the normal"""
    ci, si, cO, sO, cw, sw = cos(inc), sin(inc), cos(node), sin(node), cos(arg), sin(arg)
    return ((cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si),
            (-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si),
            (sO * si, -cO * si, ci))


def trig(V, *angles):
    for a in angles:
        V.pre(sin(a) * sin(a) == 1 - cos(a) * cos(a))


def integers(t):
    """integer-valued subterms"""
    out, stack = {}, [t]
    while stack:
        x = stack.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_TO_REAL:
                out[x.get_id()] = x
            stack.extend(x.children())
    return list(out.values())


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0])


@contract("C26", O + ":universal_cartesian", target="elements", name="universal_cartesian", max_time=600)
def to_state(V):
    c = V.ctx
    mu, Q, e, inc, node, arg, tp, ep = (V.real(x).t for x in ("mu", "q", "e", "incl", "longnode", "argperi", "tp", "epoch"))
    V.pre(mu > 0, Q > 0, e >= 0)
    alpha = mu * (1 - e) / Q
    Fs = [z3.Function(f"F{k}", RS, RS) for k in range(4)]
    ts = []

    def same(v):
        V.ensure("Kepler's equation of this orbit, from pericentre", z3.And(to_real(v["mu"]) == mu, to_real(v["r0"]) == Q, to_real(v["r0dot"]) == 0))
        V.ensure("energy of this orbit", to_real(v["alpha"]) == alpha)
        t = to_real(v["t"])
        if not ts:
            ts.append(t)
        V.ensure("at one time", t == ts[0])

    def rf(I, v):
        same(v)
        return tuple(SV("real", f(to_real(v["s"]))) for f in Fs)

    def hs(I, v):
        same(v)
        ok, s = c.fresh("converged", "bool"), c.fresh("s", "real")
        c.assume(z3.Implies(ok, root(s)))
        return (SV("bool", ok), SV("real", s), SV("real", c.fresh("fp", "real")))

    def root(s):
        return mu * (s * s * s * C[3](alpha * s * s)) == ts[0] - Q * (s * C[1](alpha * s * s))

    V.I.assumed.add("halley_safe: a converged root is a root (the tolerance 1e-14 is idealised)")
    V.use(O + ":root_function", rf)
    V.use(O + ":halley_safe", hs)
    use_stumpff(V, 1)
    st = {}

    def bracket(env, k, I):
        g = {n: to_real(env.vars[n]) for n in ("s", "s_prev", "f", "f_prev")}
        return [("values at the two ends", z3.And(g["f"] == Fs[0](g["s"]), g["f_prev"] == Fs[0](g["s_prev"])))]

    def retry(env, k, I):
        st["ss"] = to_real(env.vars["ss"])
        return [("a converged value is a root", z3.Implies(to_bool_term(env.vars["converged"]), root(st["ss"])))]

    V.invariant(O + ":universal_cartesian", 0, bracket)
    V.invariant(O + ":universal_cartesian", 1, retry)
    out = V.call(*(SV("real", x) for x in (mu, Q, e, inc, node, arg, tp, ep)))
    if not V.returns(out):
        return
    dt = ep - tp
    V.ensure("Kepler's equation is solved", bool(ts))
    if not ts:
        return
    if V.branch(e < 1):
        a = Q / (1 - e)
        per = 2 * PI / sqrt(z3.simplify(mu / (a * a * a)))
        V.pre(PI > 3, per > 0)
        V.ensure("time from a perihelion passage", z3.Or([ts[0] == dt + k * per * z for z in integers(ts[0]) for k in (-1, 1)] + [ts[0] == dt]))
    else:
        V.ensure("time from perihelion", ts[0] == dt)
    if any(isinstance(x, L.NaNVal) for x in out.value):
        V.ensure("all or nothing", all(isinstance(x, L.NaNVal) for x in out.value))
        return
    st_ = [to_real(x) for x in out.value]
    x, v = st_[:3], st_[3:]
    s = st["ss"]
    y = alpha * s * s
    V.ensure("the value used is a root", root(s))
    V.pre(root(s))
    V.pre(C[0](y) == 1 - y * C[2](y), C[1](y) * C[1](y) == 2 * C[2](y) - y * C[2](y) * C[2](y))
    w = sqrt(z3.simplify(mu * (1 + e) / Q))
    V.pre(w * w == mu * (1 + e) / Q, w > 0)
    trig(V, inc, node, arg)
    g0, g1, g2 = C[0](y), s * C[1](y), s * s * C[2](y)
    r = Q * g0 + mu * g2
    V.I.assumed.add("the distance q c0 + mu s^2 c2 of an orbit with q > 0 is positive")
    V.pre(r > 0)
    P, T, W = frame_of(inc, node, arg)
    X, Y, VX, VY = Q - mu * g2, w * Q * g1, -mu * g1 / r, w * Q * g0 / r
    for i, n in enumerate("xyz"):
        V.ensure(f"{n} in the orbit plane", x[i] == X * P[i] + Y * T[i])
        V.ensure(f"v{n} in the orbit plane", v[i] == VX * P[i] + VY * T[i])
    V.ensure("distance", dot(x, x) == r * r)
    V.ensure("radial motion", dot(x, v) * r == (mu - alpha * Q) * g1 * r)
    V.ensure("vis-viva", dot(v, v) == 2 * mu / r - alpha)
    for i, n in enumerate("xyz"):
        V.ensure(f"angular momentum, {n}", cross(x, v)[i] == w * Q * W[i])


class Names:
    """constants standing for nonlinear terms, one per ring normal form, so that
    the path explorer meets only simple conditions; `reveal` brings the
    definitions back for the proofs"""

    def __init__(self, V):
        self.V, self.ring, self.memo, self.defs = V, ring.Ring(), {}, []

    def __call__(self, t, base="t", square=False):
        t = to_real(t)
        k = (square, ring.Ring.key(self.ring.norm(t)))
        if k not in self.memo:
            n = self.memo[k] = self.V.ctx.fresh(base, "real")
            if square:
                self.V.ctx.assume(n >= 0)
                self.defs.append(n * n == t)
            else:
                self.defs.append(n == t)
        return self.memo[k]

    def reveal(self):
        for d in self.defs:
            self.V.ctx.assume(d)

    def stubs(self):
        V, nm = self.V, self

        def items(I, a):
            return [to_real(t) for t in I.iterate(a)]

        def f_cross(I, a, k):
            return L.Mat([SV("real", nm(t, "cross")) for t in cross(items(I, a[0]), items(I, a[1]))], (3,))

        def f_dot(I, a, k):
            x, y = items(I, a[0]), items(I, a[1])
            if len(x) != 3 or len(y) != 3:
                raise Unsupported("dot")
            return SV("real", nm(dot(x, y), "dot"))

        def f_norm(I, a, k):
            x = items(I, a[0])
            return SV("real", nm(nm(dot(x, x), "dot"), "norm", True))

        def f_sqrt(I, a, k):
            return SV("real", nm(to_real(a[0]), "sqrt", True))

        V.stub("numpy.cross", f_cross)
        V.stub("numpy.dot", f_dot)
        V.stub("numpy.linalg.norm", f_norm)
        V.stub("numpy.sqrt", f_sqrt)


@contract("C26", O + ":universal_cometary", target="elements", name="universal_cometary", max_time=600)
def to_elements(V):
    c = V.ctx
    nm = Names(V)
    nm.stubs()
    mu = V.real("mu").t
    V.pre(mu > 0, PI > 3)
    x = [V.real(n).t for n in "xyz"]
    v = [V.real("v" + n).t for n in "xyz"]
    ep = V.real("epoch").t
    H = [nm(t, "H") for t in cross(x, v)]
    hs, rs, v2, rv = nm(dot(H, H)), nm(dot(x, x)), nm(dot(v, v)), nm(dot(x, v))
    h, r = nm(hs, "h", True), nm(rs, "r", True)
    V.pre(h > 0, r > 0)  # not a straight line through the focus
    turns = []

    def pv(I, a):
        k = c.fresh("turns", "int")
        d = c.fresh("principal", "real")
        turns.append((d, k, to_real(a["theta"])))
        return SV("real", d)

    V.use(O + ":principal_value", pv)
    eq = V.pick("equatorial", [False, True])
    inc = arccos(z3.simplify(H[2] / h))
    V.I.assumed.add("numpy trigonometry: cos(arccos z) = z, sin(arccos z) = sqrt(1 - z^2), arctan2 is the polar angle")
    later = [cos(inc) == H[2] / h]
    if eq:
        V.pre(H[0] == 0, H[1] == 0)
        later += [x[2] == 0, v[2] == 0, sin(inc) == 0]  # what that means for a nonzero H
        node = z3.RealVal(0)
        cO, sO = z3.RealVal(1), z3.RealVal(0)
        later += [cos(node) == 1, sin(node) == 0]
    else:
        V.pre(z3.Or(H[0] != 0, H[1] != 0))
        rho = c.fresh("rho", "real")
        node = arctan2(z3.simplify(H[0]), z3.simplify(-H[1]))
        V.pre(rho > 0)
        later += [rho * rho == H[0] * H[0] + H[1] * H[1], sin(inc) == rho / h, cos(node) == -H[1] / rho, sin(node) == H[0] / rho]
        cO, sO = cos(node), sin(node)
    ci, si = cos(inc), sin(inc)
    p = hs / mu
    ec, es = p / r - 1, rv / r * h / mu
    e = nm(ec * ec + es * es, "e", True)
    rcu = x[0] * cO + x[1] * sO
    rsu = (x[1] * cO - x[0] * sO) * ci + x[2] * si
    V.pre(z3.Or(rcu != 0, rsu != 0))  # their squares add up to r^2 > 0, see below
    out = V.call(*(SV("real", t) for t in (mu, *x, *v, ep)))
    if not V.returns(out):
        return
    Q, E, I_, O_, W_, tp = (to_real(t) for t in out.value)
    V.ensure("inclination of the orbit plane", I_ == inc)
    V.ensure("ascending node", O_ == node)
    circular = V.branch(z3.And(ec == 0, es == 0))
    nu = z3.RealVal(0) if circular else arctan2(z3.simplify(es), z3.simplify(ec))
    u = arctan2(z3.simplify(rsu), z3.simplify(rcu))
    V.ensure("argument of perihelion: argument of latitude less true anomaly", W_ == u - nu)
    V.ensure("perihelion distance", Q * (1 + e) == p)
    near = z3.And(e - 1 < q(1e-8), 1 - e < q(1e-8))
    a = mu / (2 * mu / r - v2)
    T = tan(z3.simplify(nu / 2))
    if V.branch(near):
        V.ensure("parabolic", E == 1)
        n = nm(mu / (p * p * p), "mm", True)
        V.ensure("Barker's equation", tp == ep - (T * T * T + 3 * T) / (6 * n))
    else:
        V.ensure("eccentricity", E == e)
        if V.branch(e < 1):
            n = nm(mu / (a * a * a), "mm", True)
            EE = 2 * arctan(z3.simplify(nm((1 - e) / (1 + e), "ratio", True) * T))
            V.ensure("time of perihelion", z3.Or([tp == ep - d / n for d, k, t in turns] + [tp == ep - (EE - e * sin(z3.simplify(EE))) / n]))
            if turns:
                V.ensure("mean anomaly", z3.Or([t == EE - e * sin(z3.simplify(EE)) for d, k, t in turns]))
        else:
            n = nm(-mu / (a * a * a), "mm", True)
            HH = 2 * arctanh(z3.simplify(nm((e - 1) / (e + 1), "ratio", True) * T))
            V.ensure("time of perihelion, hyperbolic", tp == ep - (e * sinh(z3.simplify(HH)) - HH) / n)


@contract("C26", O + ":universal_cometary", target="elements", name="universal_cometary: the elements describe the state")
def elements_lemma(V):
    """what the angles of the previous contract say about the state (a lemma over
    its postconditions; no code)"""
    c = V.ctx
    mu = V.real("mu").t
    V.pre(mu > 0)
    x = [V.real(n).t for n in "xyz"]
    v = [V.real("v" + n).t for n in "xyz"]
    H = cross(x, v)
    hs, rs, v2, rv = dot(H, H), dot(x, x), dot(v, v), dot(x, v)
    h, r, rho, e = (c.fresh(n, "real") for n in ("h", "r", "rho", "e"))
    V.pre(h > 0, r > 0, h * h == hs, r * r == rs)
    ec, es = hs / (mu * r) - 1, rv * h / (mu * r)
    V.pre(e * e == ec * ec + es * es)
    ci = H[2] / h
    eq = V.pick("equatorial", [False, True])
    if eq:
        V.pre(x[2] == 0, v[2] == 0)
        cO, sO, si = z3.RealVal(1), z3.RealVal(0), z3.RealVal(0)
    else:
        V.pre(rho > 0, rho * rho == H[0] * H[0] + H[1] * H[1])
        cO, sO, si = -H[1] / rho, H[0] / rho, rho / h
    V.called = True
    rcu = x[0] * cO + x[1] * sO
    rsu = (x[1] * cO - x[0] * sO) * ci + x[2] * si
    N, M = (cO, sO, z3.RealVal(0)), (-sO * ci, cO * ci, si)
    for i, n in enumerate("xyz"):
        V.ensure(f"{n} from the node and the argument of latitude", rcu * N[i] + rsu * M[i] == x[i])
    V.ensure("their squares add up", rcu * rcu + rsu * rsu == rs)
    V.ensure("energy, angular momentum and eccentricity", (2 * mu / r - v2) * hs == mu * mu * (1 - e * e))
    # the eccentricity vector lies e (cos nu, sin nu) from the object's direction
    ev = [(v2 / mu - 1 / r) * x[i] - rv / mu * v[i] for i in range(3)]
    V.ensure("e cos(true anomaly)", dot(ev, x) / r == ec)
    V.ensure("e sin(true anomaly)", -dot(ev, cross(H, x)) / (r * h) == es)
    V.ensure("length of the eccentricity vector", dot(ev, ev) == e * e)


@contract("C26", O + ":universal_keplerian", target="elements", name="universal_keplerian")
def keplerian(V):
    c = V.ctx
    mu, x, y, z, vx, vy, vz, ep = args = [V.real(n) for n in ("mu", "x", "y", "z", "vx", "vy", "vz", "epoch")]
    el = [c.fresh(n, "real") for n in ("q", "e", "inc", "node", "arg", "tp")]
    V.pre(mu.t > 0, el[0] > 0, el[1] >= 0, el[1] < 1)

    def com(I, v):
        V.ensure("elements of this state", z3.And([to_real(v[n]) == a.t for n, a in zip(("mu", "x", "y", "z", "vx", "vy", "vz", "epochMJD_TDB"), args)]))
        return tuple(SV("real", t) for t in el)

    V.use(O + ":universal_cometary", com)
    out = V.call(*args)
    if not V.returns(out):
        return
    a, e, i, n, w, M = (to_real(t) for t in out.value)
    V.ensure("semi-major axis", a * (1 - el[1]) == el[0])
    V.ensure("shape and angles", z3.And(e == el[1], i == el[2], n == el[3], w == el[4]))
    aa = el[0] / (1 - el[1])
    V.ensure("mean anomaly: mean motion times the time since perihelion", M == (ep.t - el[5]) * sqrt(z3.simplify(mu.t / (aa * aa * aa))))


FORMATS = ["KEP", "BKEP", "COM", "BCOM", "CART", "BCART"]
SUN = [z3.Function(f"sun_{n}", RS, RS) for n in ("x", "y", "z", "vx", "vy", "vz")]
TOEQ = [z3.Function(f"equatorial_{n}", RS, RS, RS, RS) for n in "xyz"]
TOECL = [z3.Function(f"ecliptic_{n}", RS, RS, RS, RS) for n in "xyz"]
CARTF = [z3.Function(f"state_{n}", *([RS] * 9)) for n in ("x", "y", "z", "vx", "vy", "vz")]
COMF = [z3.Function(f"element_{n}", *([RS] * 9)) for n in ("q", "e", "inc", "node", "arg", "tp")]
G_ = "sorcha.ephemeris.simulation_geometry"


class Suns:
    """positions of the Sun by epoch; what is cached is right"""

    def __init__(self, V, jd_ref):
        self.V, self.ref, self.new = V, jd_ref, None

    def sym_contains(self, I, k):
        return SV("bool", self.V.ctx.fresh("cached", "bool"))

    def sym_setitem(self, I, k, v):
        self.V.ensure("cached under its own epoch", isinstance(v, Obj) and v.attrs["x"].t.eq(SUN[0](to_real(k))) or to_real(k) == v.attrs["epoch"])

    def sym_getitem(self, I, k):
        return sun_at(to_real(k))


def sun_at(t):
    o = Obj("Particle", **{n: SV("real", f(t)) for n, f in zip(("x", "y", "z", "vx", "vy", "vz"), SUN)})
    o.attrs["epoch"] = t
    return o


def orbit_setup(V):
    c = V.ctx
    fmt = V.pick("FORMAT", FORMATS)
    names = {"KEP": ("a", "e", "inc", "node", "argPeri", "ma"), "COM": ("q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB"), "ART": ("x", "y", "z", "xdot", "ydot", "zdot")}[fmt[-3:]]
    row = {"FORMAT": fmt, "ObjID": V.str("ObjID")}
    for n in names:
        row[n] = V.real(n)
    ep, ref, gs, gt = V.real("epoch"), V.real("jd_ref"), V.real("gm_sun"), V.real("gm_total")
    V.pre(gs.t > 0, gt.t > 0)
    ephem = Obj("ephem", jd_ref=ref)

    def particle(I, a, k):
        V.ensure("the Sun", a[0] == "Sun")
        return sun_at(to_real(a[1]) + ref.t)

    ephem.attrs["get_particle"] = Prim(particle, "get_particle")
    V.use(G_ + ":ecliptic_to_equatorial", lambda I, v: vec([f(*[to_real(x) for x in I.iterate(next(iter(v.values())))]) for f in TOEQ]))
    V.use(G_ + ":equatorial_to_ecliptic", lambda I, v: vec([f(*[to_real(x) for x in I.iterate(next(iter(v.values())))]) for f in TOECL]))
    V.use(O + ":universal_cartesian", lambda I, v: tuple(SV("real", f(*[to_real(v[n]) for n in ("mu", "q", "e", "incl", "longnode", "argperi", "tp", "epochMJD_TDB")])) for f in CARTF))
    V.use(O + ":universal_cometary", lambda I, v: tuple(SV("real", f(*[to_real(v[n]) for n in ("mu", "x", "y", "z", "vx", "vy", "vz", "epochMJD_TDB")])) for f in COMF))
    return fmt, row, ep, ref, gs, gt, ephem, Suns(V, ref)


def vec(fs):
    return L.Mat([SV("real", f) for f in fs], (len(fs),))


def elements_of(fmt, row, ep, mu):
    """q, e, i, node, arg of perihelion (radians) and time of perihelion (JD)"""
    g = {n: t.t for n, t in row.items() if isinstance(t, SV) and t.sort == "real"}
    if fmt.endswith("KEP"):
        Q = g["a"] * (1 - g["e"])
        # n (epoch - tp) = M with n = sqrt(mu / a^3)
        tp = ep - rad(g["ma"]) * sqrt(z3.simplify(g["a"] * g["a"] * g["a"] / mu))
    else:
        Q, tp = g["q"], g["t_p_MJD_TDB"] + q(2400000.5)
    return [Q, g["e"], rad(g["inc"]), rad(g["node"]), rad(g["argPeri"]), tp]


def close(a, b):
    """the arguments of two applications agree"""
    return a == b


@contract("C26", PA + ":parse_orbit_row", target="formats", name="parse_orbit_row")
def parse(V):
    fmt, row, ep, ref, gs, gt, ephem, suns = orbit_setup(V)
    out = V.call(row, ep, ephem, suns, gs, gt)
    if not V.returns(out):
        return
    mu = gt.t if fmt.startswith("B") else gs.t
    if fmt.endswith("CART"):
        st = [row[n].t for n in ("x", "y", "z", "xdot", "ydot", "zdot")]
    else:
        st = [f(mu, *elements_of(fmt, row, ep.t, mu), ep.t) for f in CARTF]
    eq = [f(*st[:3]) for f in TOEQ] + [f(*st[3:]) for f in TOEQ]
    got = comps(V, out.value)
    V.ensure("six components", len(got) == 6)
    for n, x, y, s in zip(("x", "y", "z", "vx", "vy", "vz"), got, eq, SUN):
        if not fmt.startswith("B"):
            y = y + s(ep.t)  # heliocentric: the Sun's own state at the epoch
        V.ensure(f"barycentric equatorial {n}", x == y)


def comps(V, v):
    return [to_real(x) for x in V.I.iterate(v)]


@contract("C26", PA + ":parse_orbit_row", target="formats", name="parse_orbit_row: unknown format")
def parse_bad(V):
    fmt, row, ep, ref, gs, gt, ephem, suns = orbit_setup(V)
    row["FORMAT"] = V.pick("bad", ["XYZ", "KEPLER", "", "com"])
    out = V.call(row, ep, ephem, suns, gs, gt)
    V.ensure("refused", out.exc == "ValueError")


@contract("C26", PA + ":get_perihelion_row", target="formats", name="get_perihelion_row")
def peri(V):
    fmt, row, ep, ref, gs, gt, ephem, suns = orbit_setup(V)
    out = V.call(row, ep, ephem, suns, gs, gt)
    if not V.returns(out):
        return
    got = comps(V, out.value)
    V.ensure("six elements", len(got) == 6)
    g = {n: t.t for n, t in row.items() if isinstance(t, SV) and t.sort == "real"}
    if fmt in ("KEP", "COM"):
        Q, e, i, n, w, tp = elements_of(fmt, row, ep.t, gs.t)
        V.ensure("perihelion distance of the orbit", got[0] == Q)
        V.ensure("shape and orientation of the orbit", z3.And(got[1] == e, got[2] == g["inc"], got[3] == g["node"], got[4] == g["argPeri"]))
        if fmt == "COM":
            V.ensure("time of perihelion", got[5] == g["t_p_MJD_TDB"])
        else:
            K = sqrt(z3.simplify(g["a"] * g["a"] * g["a"] / gs.t))
            V.ensure("time of perihelion, up to a revolution", z3.Or(got[5] == tp - q(2400000.5), got[5] == tp + 2 * PI * K - q(2400000.5)))
        return
    st = [g[n] for n in ("x", "y", "z", "xdot", "ydot", "zdot")] if fmt.endswith("CART") else [f(gt.t, *elements_of(fmt, row, ep.t, gt.t), ep.t) for f in CARTF]
    if fmt.startswith("B"):  # relative to the Sun
        s = [f(ep.t) for f in SUN]
        sun = [f(*s[:3]) for f in TOECL] + [f(*s[3:]) for f in TOECL]
        st = [a - b for a, b in zip(st, sun)]
    want = [f(gs.t, *st, ep.t) for f in COMF]
    V.ensure("heliocentric perihelion distance of this state", got[0] == want[0])
    V.ensure("eccentricity", got[1] == want[1])
    for n, x, y in zip(("inclination", "node", "argument of perihelion"), got[2:5], want[2:5]):
        V.ensure(n + " in degrees", x == degs(y))
    V.ensure("time of perihelion (MJD)", got[5] == want[5] - q(2400000.5))


# ------------------------------------------------------- the simulations
class OrbitRow:
    def __init__(self, t, i):
        self.t, self.i = t, i

    def sym_getitem(self, I, k):
        return self.t.get(k, self.i)


class Orbits:
    def __init__(self, V):
        self.V, self.n, self.j = V, V.ctx.fresh("n_objects", "int"), V.ctx.fresh("object", "int")
        self.EP, self.OID = z3.Function("epoch_of", IS, RS), z3.Function("designation", IS, z3.StringSort())
        V.pre(self.n >= 0, self.j >= 0, self.j < self.n)
        self.rows = None

    def get(self, k, i):
        if k == "epochMJD_TDB":
            return SV("real", self.EP(i))
        if k == "ObjID":
            # designations are unique (C05)
            self.V.ctx.assume(z3.Implies(i != self.j, self.OID(i) != self.OID(self.j)))
            return SV("str", self.OID(i))
        raise Unsupported("orbit column " + str(k))

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_getattr(self, I, name):
        if name == "iterrows":
            return Prim(lambda I, a, k: Iter(self.n, lambda i: (SV("int", i), OrbitRow(self, i))), name)
        raise Unsupported("orbits." + name)


class SimDict:
    """what is stored for the designation of the object under observation"""

    def __init__(self, V, t):
        self.V, self.t, self.log = V, t, []
        self.ok = {"sim": z3.BoolVal(False), "ex": z3.BoolVal(False)}

    def havoc(self, c, name):
        self.settle()
        self.ok = {k: c.fresh(f"stored_{k}", "bool") for k in self.ok}
        return self

    def settle(self):
        for key, field, v in self.log:
            mine = key == self.t.OID(self.t.j)
            self.ok[field] = z3.If(mine, self.good(field, v), self.ok[field])
        self.log = []

    def good(self, field, v):
        return v.good(self.t.j)

    def sym_getitem(self, I, k):
        return SimSlot(self, to_str_term(k))


class SimSlot:
    def __init__(self, d, key):
        self.d, self.key = d, key

    def sym_setitem(self, I, k, v):
        if k not in ("sim", "ex") or not isinstance(v, Simulation if k == "sim" else Extras):
            raise Unsupported("entry " + str(k))
        self.d.log.append((self.key, k, v))


class Simulation:
    sym_type = "rebound.Simulation"

    def __init__(self, spec):
        self.spec, self.attrs, self.particles = spec, {}, []
        self.ias15 = Obj("ias15")
        self.extras = None

    def sym_getattr(self, I, name):
        if name == "add":
            return Prim(lambda I, a, k: self.particles.append(a[0]), name)
        if name == "ri_ias15":
            return self.ias15
        if name in self.attrs:
            return self.attrs[name]
        raise Unsupported("simulation." + name)

    def sym_setattr(self, I, name, v):
        self.attrs[name] = v

    def good(self, j):
        t = self.attrs.get("t")
        if t is None or len(self.particles) != 1 or self.extras is None or self.ias15.attrs.get("adaptive_mode") != 1:
            return z3.BoolVal(False)
        return z3.And(to_real(t) == self.spec["t"](j), *[to_real(self.particles[0][x]) == f(j) for x, f in self.spec["state"].items()])


class Extras:
    def __init__(self, sim):
        self.sim = sim
        self.forces = ["SUN", "PLANETS", "ASTEROIDS", "NON_GRAVITATIONAL", "EARTH_HARMONICS", "SUN_HARMONICS", "GR_EIH"]
        sim.extras = self

    def sym_getattr(self, I, name):
        if name == "forces":
            return list(self.forces)
        raise Unsupported("extras." + name)

    def sym_setattr(self, I, name, v):
        if name != "forces":
            raise Unsupported("extras." + name)
        self.forces = list(v)

    def good(self, j):
        if sorted(self.forces) != sorted(["SUN", "PLANETS", "ASTEROIDS", "NON_GRAVITATIONAL", "EARTH_HARMONICS", "SUN_HARMONICS", "GR_SIMPLE"]):
            return z3.BoolVal(False)
        return self.sim.good(j)


@contract("C26", SE + ":generate_simulations", target="simulations", name="generate_simulations")
def simulations(V):
    c = V.ctx
    T = Orbits(V)
    ref, gs, gt = V.real("jd_ref"), V.real("gm_sun"), V.real("gm_total")
    ephem = Obj("ephem", jd_ref=ref)
    ST = {x: z3.Function(f"state_{x}", IS, RS) for x in ("x", "y", "z", "vx", "vy", "vz")}
    BAD, NAN = z3.Function("refused", IS, z3.BoolSort()), z3.Function("fails", IS, z3.BoolSort())
    jd = lambda i: z3.If(T.EP(i) < q(2400000.5), T.EP(i) + q(2400000.5), T.EP(i))
    spec = {"t": lambda i: jd(i) - ref.t, "state": ST}
    cur = {"i": None}

    def parse(I, v):
        r = v["row"]
        if not isinstance(r, OrbitRow):
            raise Unsupported("orbit row")
        V.ensure("parsed with its own epoch", to_real(v["epochJD_TDB"]) == jd(r.i))
        V.ensure("and the constants of this ephemeris", v["ephem"] is ephem and v["gm_sun"] is gs and v["gm_total"] is gt)
        cur["i"] = r.i
        if c.branch(BAD(r.i)):
            raise PyExc("ValueError", ("format",))
        return tuple(SV("real", f(r.i)) for f in ST.values())

    V.use(PA + ":parse_orbit_row", parse)

    def isnan(I, a, k):
        if cur["i"] is None:
            raise Unsupported("isnan")
        return SV("bool", NAN(cur["i"]))

    V.stub("numpy.isnan", isnan)

    def particle(I, a, k):
        if a or set(k) != set(ST):
            raise Unsupported("particle")
        return dict(k)

    V.stub("rebound.Particle", particle)
    V.stub("rebound.Simulation", lambda I, a, k: Simulation(spec))
    V.stub("assist.Extras", lambda I, a, k: (V.ensure("forces of this ephemeris", a[1] is ephem), Extras(a[0]))[1])
    made = []
    V.stub("collections.defaultdict", lambda I, a, k: made.append(SimDict(V, T)) or made[-1])

    def inv(env, k, I):
        d = made[-1]
        d.settle()
        out = [(f"{f} of every object so far", z3.Implies(T.j < k, d.ok[f])) for f in d.ok]
        return out + [("no object so far was refused", z3.Implies(T.j < k, z3.Not(z3.Or(BAD(T.j), NAN(T.j)))))]

    V.invariant(SE + ":generate_simulations", 0, inv)
    args = Obj("args", pplogger=L.Logger() if hasattr(L, "Logger") else None)
    out = V.call(ephem, gs, gt, T, args)
    if out.exc is not None:
        V.ensure("stops only with a message", out.exc == "SystemExit")
        V.ensure("and only for an object whose elements failed", cur["i"] is not None and z3.Or(BAD(cur["i"]), NAN(cur["i"])))
        return
    V.ensure("no object was refused", z3.Not(z3.Or(BAD(T.j), NAN(T.j))))
    d = out.value
    V.ensure("the dictionary of this run", d is made[-1] and len(made) == 1)
    V.ensure("a simulation of every object from its own state and epoch", d.ok["sim"])
    V.ensure("with the forces of the ephemeris attached to it", d.ok["ex"])


also("C26", "C23", ["PPEstimatePerihelion"])
