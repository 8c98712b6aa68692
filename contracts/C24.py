"""C24 Ephemeris geometry.

Vectors are triples of reals; an object's track is an uninterpreted function of
time whose speed is bounded (an assumption of the light-time result), SPICE and
ASSIST are uninterpreted functions of the epoch they are asked for."""
from pyvc.contract import contract
from pyvc import lib as L
from pyvc.lib import Iter
from contracts.common import *

G = "sorcha.ephemeris.simulation_geometry"
DR = "sorcha.ephemeris.simulation_driver"
PA = "sorcha.ephemeris.simulation_parsing"
SE = "sorcha.ephemeris.simulation_setup"
IS, RS, SS = z3.IntSort(), z3.RealSort(), z3.StringSort()
AU_KM = q(149597870.700)
CKM = q(299792.458)
CAU = CKM * 86400 / AU_KM
arccos, arctan2 = F("arccos"), F("arctan2")


def vec(fs):
    return L.Mat([SV("real", f) for f in fs], (3,))


def vin(V, name):
    """an arbitrary vector"""
    return [V.real(f"{name}_{c}").t for c in "xyz"]


def dot(a, b):
    return sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0])


def comps(V, v):
    return [to_real(x) for x in V.I.iterate(v)]


def unit(V, name):
    v = vin(V, name)
    V.pre(dot(v, v) == 1)
    return v


# ---------------------------------------------------------- sky positions
@contract("C24", G + ":ra_dec2vec", target="sky", name="ra_dec2vec")
def radec(V):
    ra, dec = V.real("ra"), V.real("dec")
    out = V.call(ra, dec)
    if V.returns(out):
        v = comps(V, out.value)
        a, d = rad(ra.t), rad(dec.t)
        V.ensure("three components", len(v) == 3)
        for n, x, y in zip("xyz", v, (cos(a) * cos(d), sin(a) * cos(d), sin(d))):
            V.ensure(f"{n} of the unit vector", x == y)
        V.ensure("of length one", z3.Implies(z3.And(sin(a) * sin(a) + cos(a) * cos(a) == 1, sin(d) * sin(d) + cos(d) * cos(d) == 1), dot(v, v) == 1))


@contract("C24", G + ":ra_dec2vec", target="sky", name="ra_dec2vec of a table")
def radec_rows(V):
    df = V.frame("sky", {"ra": "real", "dec": "real"}, other=False)
    out = V.call(V.lib.getitem(V.I, df, "ra"), V.lib.getitem(V.I, df, "dec"))
    if not V.returns(out):
        return
    r = V.row(df)
    a, d = rad(df.cols["ra"](r).t), rad(df.cols["dec"](r).t)
    for i, (n, y) in enumerate(zip("xyz", (cos(a) * cos(d), sin(a) * cos(d), sin(d)))):
        c = V.lib.getitem(V.I, out.value, (slice(None), i))
        if not isinstance(c, Col):
            raise Unsupported("column of the result")
        V.ensure(f"{n} column aligned with the rows", c.view.space is df.view.space)
        V.ensure(f"{n} of every row", to_real(c.fn(r)) == y)


def wrap(x):
    return x - 360 * z3.ToReal(z3.ToInt(x / 360))


@contract("C24", G + ":vec2ra_dec", target="sky", name="vec2ra_dec")
def radec_back(V):
    v = unit(V, "v")
    V.ctx.check_defs = True
    out = V.call(vec(v))
    if not V.returns(out):
        return
    ra, dec = (to_real(x) for x in out.value)
    V.ensure("right ascension is the azimuth", ra == wrap(degs(arctan2(v[1], v[0]))))
    V.ensure("declination is the latitude", dec == degs(arcsin(v[2])))
    V.ensure("ranges", z3.And(ra >= 0, ra < 360, dec >= -90, dec <= 90))


@contract("C24", G + ":vec2ra_dec", target="sky", name="sky position -> vector -> sky position")
def roundtrip1(V):
    ra, dec = V.real("ra"), V.real("dec")
    V.pre(ra.t >= 0, ra.t < 360, dec.t > -90, dec.t < 90)
    a, d = rad(ra.t), rad(dec.t)
    y, x = sin(a) * cos(d), cos(a) * cos(d)
    # polar coordinates are unique (assumed of libm)
    V.pre(arctan2(y, x) == z3.If(ra.t > 180, a - 2 * PI, a), arcsin(sin(d)) == d)
    V.I.assumed.add("numpy.arctan2/arcsin: invert polar coordinates (injectivity)")
    out1 = V.call_fn(V.get(G + ":ra_dec2vec"), ra, dec)
    if not V.returns(out1):
        return
    out = V.call(out1.value)
    if V.returns(out):
        r, dd = (to_real(t) for t in out.value)
        V.ensure("right ascension", r == ra.t)
        V.ensure("declination", dd == dec.t)


@contract("C24", G + ":ra_dec2vec", target="sky", name="vector -> sky position -> vector")
def roundtrip2(V):
    v = unit(V, "v")
    V.pre(v[0] * v[0] + v[1] * v[1] > 0)
    out1 = V.call_fn(V.get(G + ":vec2ra_dec"), vec(v))
    if not V.returns(out1):
        return
    ra, dec = out1.value
    t = arctan2(v[1], v[0])
    r = sqrt(v[0] * v[0] + v[1] * v[1])
    m = rad(to_real(ra))
    # periodicity and polar coordinates (assumed of libm)
    V.pre(z3.Implies(to_real(ra) == wrap(degs(t)), z3.And(sin(m) == sin(t), cos(m) == cos(t))))
    V.pre(r * cos(t) == v[0], r * sin(t) == v[1], r > 0, r * r == v[0] * v[0] + v[1] * v[1])
    b = arcsin(v[2])
    V.pre(sin(b) == v[2], cos(b) == r)  # cos(arcsin z) = sqrt(1 - z^2)
    V.I.assumed.add("numpy trigonometry: periodicity, cos(arcsin z) = sqrt(1 - z^2)")
    out = V.call(ra, dec)
    if V.returns(out):
        for n, x, y in zip("xyz", comps(V, out.value), v):
            V.ensure(f"{n} recovered", x == y)


@contract("C24", DR + ":get_residual_vectors", target="basis", name="get_residual_vectors")
def basis(V):
    v = unit(V, "v")
    V.pre(v[2] < 1, v[2] > -1)
    V.ctx.check_defs = True
    out = V.call(vec(v))
    if not V.returns(out):
        return
    A, D = (comps(V, x) for x in out.value)
    s = sqrt(1 - v[2] * v[2])
    V.pre(s * s == 1 - v[2] * v[2], s > 0)
    for n, a, b in (("A.A", A, A), ("D.D", D, D)):
        V.ensure(f"{n} = 1", dot(a, b) == 1)
    for n, a, b in (("A.D", A, D), ("A.v", A, v), ("D.v", D, v)):
        V.ensure(f"{n} = 0", dot(a, b) == 0)
    V.ensure("A points to the east", z3.And(A[2] == 0, A[1] * s == v[0], A[0] * s == -v[1]))
    V.ensure("D points to the north", D[2] > 0)


# --------------------------------------------------------------- rotations
OBL = q(84381.448) / 3600 * PI / 180


def rotation(V, fn, sgn):
    """the transformed vector is the rotation by the obliquity"""
    v = vin(V, "v")
    V.pre(cos(-OBL) == cos(OBL), sin(-OBL) == -sin(OBL))
    V.pre(sin(z3.simplify(OBL)) == sin(OBL), cos(z3.simplify(OBL)) == cos(OBL), cos(z3.simplify(-OBL)) == cos(OBL), sin(z3.simplify(-OBL)) == -sin(OBL))
    V.I.assumed.add("numpy.sin/cos: odd/even")
    out = V.call(vec(v))
    if not V.returns(out):
        return None
    c, s = cos(OBL), sgn * sin(OBL)
    w = comps(V, out.value)
    for n, a, b in zip("xyz", w, (v[0], c * v[1] - s * v[2], s * v[1] + c * v[2])):
        V.ensure(f"{n} rotated by the obliquity", a == b)
    return v, w


@contract("C24", G + ":ecliptic_to_equatorial", target="basis", name="ecliptic_to_equatorial")
def ecl2eq(V):
    r = rotation(V, "ecliptic_to_equatorial", 1)
    if r:
        V.pre(sin(OBL) * sin(OBL) + cos(OBL) * cos(OBL) == 1)
        V.ensure("length kept", dot(r[0], r[0]) == dot(r[1], r[1]))


@contract("C24", G + ":equatorial_to_ecliptic", target="basis", name="equatorial_to_ecliptic")
def eq2ecl(V):
    r = rotation(V, "equatorial_to_ecliptic", -1)
    if r:
        V.pre(sin(OBL) * sin(OBL) + cos(OBL) * cos(OBL) == 1)
        V.ensure("length kept", dot(r[0], r[0]) == dot(r[1], r[1]))


@contract("C24", G + ":equatorial_to_ecliptic", target="basis", name="ecliptic -> equatorial -> ecliptic")
def there_and_back(V):
    v = vin(V, "v")
    c, s = cos(OBL), sin(OBL)
    V.pre(cos(-OBL) == c, sin(-OBL) == -s, s * s + c * c == 1)
    V.pre(sin(z3.simplify(OBL)) == s, cos(z3.simplify(OBL)) == c, cos(z3.simplify(-OBL)) == c, sin(z3.simplify(-OBL)) == -s)
    first, second = V.pick("order", [("ecliptic_to_equatorial", "equatorial_to_ecliptic"), ("equatorial_to_ecliptic", "ecliptic_to_equatorial")])
    out = V.call_fn(V.get(f"{G}:{first}"), vec(v))
    if not V.returns(out):
        return
    out = V.call_fn(V.get(f"{G}:{second}"), out.value)
    if V.returns(out):
        for n, a, b in zip("xyz", comps(V, out.value), v):
            V.ensure(f"{n} recovered", a == b)


# -------------------------------------------------------------- light time
BETA = z3.RealVal("1/100")  # objects are slower than a hundredth of the speed of light


class Track:
    """an object on its track: position and velocity are functions of the epoch
    the simulation was last brought to"""

    def __init__(self, V, key=None):
        self.V, self.now, self.visited = V, None, []
        self.X = [z3.Function(f"position_{c}", RS, RS) for c in "xyz"]
        self.Y = [z3.Function(f"velocity_{c}", RS, RS) for c in "xyz"]

    def at(self, t):
        return [f(t) for f in self.X]

    def sim(self):
        tr = self

        class Particle:
            def sym_getattr(self, I, name):
                if name in ("xyz", "vxyz"):
                    if tr.now is None:
                        raise Unsupported("state before the first integration")
                    return tuple(SV("real", f(tr.now)) for f in (tr.X if name == "xyz" else tr.Y))
                if name in ("x", "y", "z"):
                    return SV("real", tr.X["xyz".index(name)](tr.now))
                if name in ("vx", "vy", "vz"):
                    return SV("real", tr.Y["xyz".index(name[1])](tr.now))
                raise Unsupported("particle." + name)

        return Obj("simulation", particles=[Particle()])

    def ex(self):
        def go(I, a, k):
            self.now = z3.simplify(to_real(a[0]))
            self.visited.append(self.now)
        return Obj("extras", integrate_or_interpolate=Prim(go, "integrate_or_interpolate"))


def light_time(V, lt0, kw, n):
    tr = Track(V)
    t, c = V.real("t"), V.real("speed_of_light")
    r = vin(V, "obs")
    V.pre(c.t > 0)
    out = V.call(tr.sim(), tr.ex(), t, vec(r), speed_of_light=c, **kw)
    if not V.returns(out):
        return
    rho, mag, lt, target, vtarget = out.value
    rho, target, vtarget, mag, lt = comps(V, rho), comps(V, target), comps(V, vtarget), to_real(mag), to_real(lt)
    s = tr.now
    V.ensure("some epoch is looked up", s is not None)
    if s is None:
        return
    for n_, a, b in zip("xyz", target, tr.at(s)):
        V.ensure(f"{n_} of the object at the emission time", a == b)
    for n_, a, f in zip("xyz", vtarget, tr.Y):
        V.ensure(f"{n_} velocity of the object at the emission time", a == f(s))
    for n_, a, b, o in zip("xyz", rho, target, r):
        V.ensure(f"{n_} from the observer to the object", a == b - o)
    V.ensure("range is the length of it", z3.And(mag >= 0, mag * mag == dot(rho, rho)))
    V.ensure("light time is range over the speed of light", lt * c.t == mag)


@contract("C24", G + ":integrate_light_time", target="light time", name="integrate_light_time")
def ilt(V):
    n = V.pick("iterations", [1, 2, 3, 5])
    lt0 = V.real("lt0")
    light_time(V, lt0, {"lt0": lt0, "iter": n}, n)


@contract("C24", G + ":integrate_light_time", target="light time", name="light time converges", nfi=True)
def ilt_conv(V):
    """the contract of the callers: default number of iterations, each of which
    shrinks the error of the light time at least a hundredfold"""
    lt0 = V.real("lt0")
    D = z3.Function("distance", RS, RS)
    X = [z3.Function(f"position_{c}", RS, RS) for c in "xyz"]
    tr = Track(V)
    t = V.real("t")
    r = vin(V, "obs")

    def norm(I, a, k):
        got = comps(V, a[0])
        V.ensure("distance of the observer and the object", z3.And([g == x - o for g, x, o in zip(got, tr.at(tr.now), r)]))
        return SV("real", D(tr.now))

    V.stub("numpy.linalg.norm", norm)
    out = V.call(tr.sim(), tr.ex(), t, vec(r), lt0=lt0)
    if not V.returns(out):
        return
    lt, s = to_real(out.value[2]), tr.now
    for i, a in enumerate(tr.visited):
        for b in tr.visited[:i]:
            x, g = D(a) - D(b), z3.If(a > b, a - b, b - a)
            V.pre(z3.And(x <= BETA * CAU * g, -x <= BETA * CAU * g))
    e0 = D(t.t - lt0.t) / CAU - lt0.t
    e0 = z3.If(e0 > 0, e0, -e0)
    V.pre(e0 <= 10)
    res = lt - (t.t - s)
    V.ensure("light time is the time from emission to observation", z3.And(res <= BETA * BETA * e0, -res <= BETA * BETA * e0))


# ------------------------------------------------- rates and geometry
NAMES = ["ObjID", "FieldID", "fieldMJD_TAI", "fieldJD_TDB", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day",
         "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s",
         "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"]


class PointingRow:
    """one pointing: vectors and attributes by column name"""

    def __init__(self, V, i=None):
        self.V, self.i, self.seen = V, i, {}

    def val(self, k):
        if k not in self.seen:
            sort = {"FieldID": "str"}.get(k, "real")
            if self.i is None:
                self.seen[k] = SV(sort, self.V.ctx.fresh("pointing_" + k, sort))
            else:
                self.seen[k] = SV(sort, z3.Function("pointings." + k, IS, SORTS[sort])(self.i))
        return self.seen[k]

    def vec(self, n):
        return [self.val(f"{n}_{c}").t for c in "xyz"]

    def sym_getitem(self, I, k):
        if isinstance(k, (list, tuple)):
            return vec([self.val(x).t for x in k])
        return self.val(k)

    def sym_getattr(self, I, name):
        if name in ("get",):
            return Prim(lambda I, a, k: self.val(a[0]), name)
        return self.val(name)


@contract("C24", DR + ":get_vec", target="rates", name="get_vec")
def getvec(V):
    p = PointingRow(V)
    n = V.pick("vector", ["r_sun", "r_obs", "v_sun", "v_obs", "visit_vector"])
    out = V.call(p, n)
    if V.returns(out):
        for c, a, b in zip("xyz", comps(V, out.value), p.vec(n)):
            V.ensure(f"{c} of the vector", a == b)


@contract("C24", DR + ":calculate_rates_and_geometry", target="rates", name="calculate_rates_and_geometry", max_time=240)
def rates(V):
    c = V.ctx
    p = PointingRow(V)
    mag = V.real("rho_mag").t
    rhat = vin(V, "rho_hat")
    r_ast, v_ast = vin(V, "r_ast"), vin(V, "v_ast")
    V.pre(mag > 0)
    rho = [mag * x for x in rhat]
    A, D = vin(V, "A"), vin(V, "D")

    def resid(I, v):
        for a, b in zip(comps(V, v["v1"]), rhat):
            V.ensure("tangent plane at the object", a == b)
        return vec(A), vec(D)

    V.use(DR + ":get_residual_vectors", resid)
    ra, dec = c.fresh("ra0", "real"), c.fresh("dec0", "real")

    def sky(I, v):
        for a, b in zip(comps(V, v["vec"]), rhat):
            V.ensure("position of the object", a == b)
        return SV("real", ra), SV("real", dec)

    V.use(G + ":vec2ra_dec", sky)
    V.pre(dot(A, rhat) == 0, dot(D, rhat) == 0, dot(rhat, rhat) == 1)
    g = Obj("geometry", obj_id=V.str("obj"), mjd_tai=V.real("mjd"), rho=vec(rho), rho_hat=vec(rhat), rho_mag=SV("real", mag), r_ast=vec(r_ast), v_ast=vec(v_ast))
    r_sun, r_obs, v_sun, v_obs = (p.vec(x) for x in ("r_sun", "r_obs", "v_sun", "v_obs"))
    sub = lambda a, b: [x - y for x, y in zip(a, b)]
    a_s, a_o = sub(r_ast, r_sun), sub(r_ast, r_obs)
    na, no = sqrt(dot(a_s, a_s)), sqrt(dot(a_o, a_o))
    V.pre(na > 0, no > 0)
    cosph = dot(a_s, a_o) / (na * no)
    V.pre(cosph <= 1, cosph >= -1)
    V.I.assumed.add("Cauchy-Schwarz inequality for the phase angle")
    out = V.call(p, g)
    if not V.returns(out):
        return
    o = list(V.I.iterate(out.value))
    V.ensure("as many values as columns", len(o) == len(NAMES))
    if len(o) != len(NAMES):
        return
    o = dict(zip(NAMES, o))
    R = lambda k: to_real(o[k])
    V.ensure("ObjID", to_str_term(o["ObjID"]) == g.attrs["obj_id"].t)
    V.ensure("FieldID", to_str_term(o["FieldID"]) == p.val("FieldID").t)
    V.ensure("fieldMJD_TAI", R("fieldMJD_TAI") == g.attrs["mjd_tai"].t)
    V.ensure("fieldJD_TDB", R("fieldJD_TDB") == p.val("fieldJD_TDB").t)
    rel = sub(v_ast, v_obs)
    rr = dot(rhat, rel)
    V.ensure("range in km", R("Range_LTC_km") == mag * AU_KM)
    V.ensure("range rate in km/s", R("RangeRate_LTC_km_s") == rr * AU_KM / 86400)
    V.ensure("right ascension", R("RA_deg") == ra)
    V.ensure("declination", R("Dec_deg") == dec)
    d = 1 - rr / CAU  # dt_emission/dt_observation, to first order
    ap = [x * d - y for x, y in zip(v_ast, v_obs)]
    V.ensure("rate in right ascension", R("RARateCosDec_deg_day") == degs(dot(A, ap) / mag - rr / mag * dot(A, rhat)))  # A . rho_hat = 0
    V.ensure("rate in declination", R("DecRate_deg_day") == degs(dot(D, ap) / mag - rr / mag * dot(D, rhat)))  # D . rho_hat = 0
    for ax, i in zip("xyz", range(3)):
        V.ensure(f"object from the Sun, {ax} km", R(f"Obj_Sun_{ax}_LTC_km") == a_s[i] * AU_KM)
        V.ensure(f"object from the Sun, v{ax} km/s", R(f"Obj_Sun_v{ax}_LTC_km_s") == (v_ast[i] - v_sun[i]) * AU_KM / 86400)
        V.ensure(f"observer from the Sun, {ax} km", R(f"Obs_Sun_{ax}_km") == (r_obs[i] - r_sun[i]) * AU_KM)
        V.ensure(f"observer from the Sun, v{ax} km/s", R(f"Obs_Sun_v{ax}_km_s") == (v_obs[i] - v_sun[i]) * AU_KM / 86400)
    V.ensure("phase angle between the directions to the Sun and to the observer", R("phase_deg") == degs(arccos(cosph)))


# --------------------------------------------------------------- observer
def spice_stubs(V):
    """SPICE: functions of the epoch and the frame"""
    E = [z3.Function(f"earth_{x}", RS, RS) for x in ("x", "y", "z", "vx", "vy", "vz")]
    ROT = {}

    def state(I, a, k):
        V.ensure("state of the Earth about the barycentre, geometric, J2000", list(a[:1]) + list(a[2:]) == ["EARTH", "J2000", "NONE", "SSB"] and not k)
        return (L.Mat([SV("real", f(to_real(a[1]))) for f in E], (6,)), L.Opaque("light time"))

    def posn(I, a, k):
        V.ensure("position of the Earth about the barycentre, geometric, J2000", list(a[:1]) + list(a[2:]) == ["EARTH", "J2000", "NONE", "SSB"] and not k)
        return (L.Mat([SV("real", f(to_real(a[1]))) for f in E[:3]], (3,)), L.Opaque("light time"))

    def rot(frame, t):
        if frame not in ROT:
            ROT[frame] = [z3.Function(f"rot_{frame}_{i}{j}", RS, RS) for i in range(3) for j in range(3)]
        return [f(t) for f in ROT[frame]]

    def pxform(I, a, k):
        V.ensure("rotation to J2000", a[1] == "J2000" and isinstance(a[0], str) and not k)
        return L.Mat([SV("real", f) for f in rot(a[0], to_real(a[2]))], (3, 3))

    et62 = V.ctx.fresh("et_1962", "real")

    def str2et(I, a, k):
        if a[0] in ("1962-Jan-20",):
            return SV("real", et62)
        raise Unsupported("str2et")

    V.stub("spiceypy.spkezr", state)
    V.stub("spiceypy.spkpos", posn)
    V.stub("spiceypy.pxform", pxform)
    V.stub("spiceypy.str2et", str2et)
    apply = lambda frame, t, v: [dot(rot(frame, t)[3 * i:3 * i + 3], v) for i in range(3)]
    return E, apply, et62


@contract("C24", G + ":barycentricObservatoryRates", target="observatory", name="barycentricObservatoryRates")
def baryrates(V):
    E, apply, et62 = spice_stubs(V)
    et, R, h = V.real("et"), V.real("Rearth"), V.real("delta_et")
    V.pre(h.t > 0)
    o = vin(V, "site")
    ob = Obj("observatories", ObservatoryXYZ={"I11": tuple(SV("real", x) for x in o), "X05": tuple(V.real("other") for _ in "xyz")})
    dflt = V.pick("defaults", [False, True])
    out = V.call(et, "I11", ob) if dflt else V.call(et, "I11", ob, Rearth=R, delta_et=h)
    if not V.returns(out):
        return
    Rt, ht = (q(6378.137), z3.RealVal(10)) if dflt else (R.t, h.t)
    pos, vel = (comps(V, x) for x in out.value)
    frame = "ITRF93" if V.branch(et.t >= et62) else "IAU_EARTH"
    m0, mp, mm = (apply(frame, t, o) for t in (et.t, et.t + ht, et.t - ht))
    for i, x in enumerate("xyz"):
        V.ensure(f"{x}: the Earth's centre plus the rotated site", pos[i] == E[i](et.t) + m0[i] * Rt)
        V.ensure(f"v{x}: the Earth's velocity plus the central difference of the rotated site", vel[i] == E[i + 3](et.t) + (mp[i] - mm[i]) * Rt / (2 * ht))


@contract("C24", PA + ":Observatory.barycentricObservatory", target="observatory", name="Observatory.barycentricObservatory")
def baryobs(V):
    E, apply, et62 = spice_stubs(V)
    et = V.real("et")
    o = vin(V, "site")
    ob = Obj(V.get(PA + ":Observatory"))
    ob.attrs.update(ObservatoryXYZ={"I11": tuple(SV("real", x) for x in o), "X05": tuple(V.real("other") for _ in "xyz")}, observatoryPositionCache={})
    out = V.call(ob, et, "I11")
    if V.returns(out):
        pos, m0 = comps(V, out.value), apply("ITRF93", et.t, o)
        for i, x in enumerate("xyz"):
            V.ensure(f"{x}: the Earth's centre plus the rotated site", pos[i] == E[i](et.t) + m0[i] * q(6378.137))


@contract("C24", PA + ":Observatory.convert_to_geocentric", target="sites", name="Observatory.convert_to_geocentric")
def geocentric(V):
    have = V.pick("parameters", [("Longitude", "cos", "sin"), (), ("Longitude",), ("Longitude", "cos"), ("cos", "sin"), ("Longitude", "sin")])
    lon, c, s = V.real("Longitude"), V.real("cos"), V.real("sin")
    loc = {"Name": "site"}
    for k, v in (("Longitude", lon), ("cos", c), ("sin", s)):
        if k in have:
            loc[k] = v
    out = V.call(Obj(V.get(PA + ":Observatory")), loc)
    if not V.returns(out):
        return
    o = list(V.I.iterate(out.value))
    if len(have) < 3:
        V.ensure("no fixed position", o == [None] * 3)
        return
    V.ensure("a position", len(o) == 3 and all(x is not None for x in o))
    if any(x is None for x in o):
        return
    l = rad(lon.t)
    for n, a, b in zip("xyz", o, (c.t * cos(l), c.t * sin(l), s.t)):
        V.ensure(f"geocentric {n}, in Earth radii", to_real(a) == b)


@contract("C24", PA + ":mjd_tai_to_epoch", target="observatory", name="mjd_tai_to_epoch")
def epoch(V):
    mjd = V.real("mjd_tai")
    ET = z3.Function("tdb_seconds_of_tt_jd", RS, RS)

    def str2et(I, a, k):
        t = getattr(a[0], "text", None)
        t = [x for x in t if x != ""] if t is not None else None
        V.ensure("a Julian date in Terrestrial Time", t is not None and len(t) == 3 and t[0] == "JD " and t[2] == " TDT" and isinstance(t[1], tuple))
        if t is None or not isinstance(t[1], tuple):
            raise Unsupported("epoch string")
        V.ensure("to at least six decimals", t[1][1] in ("f", ".6f", ".7f", ".8f", ".9f", ".10f", ".12f", "F"))
        return SV("real", ET(to_real(t[1][0])))

    V.stub("spiceypy.str2et", str2et)
    V.stub("spiceypy.j2000", lambda I, a, k: SV("real", z3.RealVal(2451545)))
    out = V.call(mjd)
    if V.returns(out):
        jd = mjd.t + q(2400000.5) + q(32.184) / 86400
        V.ensure("Julian date in TDB of that TAI", to_real(out.value) == 2451545 + ET(jd) / 86400)


# -------------------------------------------------- pre-computed pointings
class Column:
    """a column of n values by row number"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def sym_iter(self, I):
        return Iter(self.n, lambda i: SV("real", self.fn(i)))

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_binop(self, I, op, a, b):
        f = lambda x, i: to_real(I.lib.binop(I, op, *[SV("real", y.fn(i)) if isinstance(y, Column) else y for y in (a, b)]))
        if not all(isinstance(y, (Column, SV, int, float)) for y in (a, b)):
            return NotImplemented
        return Column(self.n, lambda i: f(None, i))

    def sym_getattr(self, I, name):
        if name == "astype":
            return Prim(lambda I, a, k: self if a[0] in ("float", "float64", float) or isinstance(a[0], Lib) else (_ for _ in ()).throw(Unsupported("astype")), name)
        if name in ("to_numpy", "copy"):
            return Prim(lambda I, a, k: self, name)
        if name == "values":
            return self
        if name == "iloc":
            return _At(self)
        raise Unsupported("column." + name)


class _At:
    def __init__(self, c):
        self.c = c

    def sym_getitem(self, I, k):
        return SV("real", self.c.fn(to_int(k)))


class Block:
    """n rows of three values"""

    def __init__(self, V, n):
        self.V, self.n = V, n
        self.a = [V.ctx.fresh_array("block", "real") for _ in range(3)]
        self.scale = []

    def havoc(self, c, name):
        self.a = [c.fresh_array("block", "real") for _ in range(3)]
        return self

    def at(self, j, i):
        x = z3.Select(self.a[j], i)
        for op, s in self.scale:
            x = op(x, s)
        return x

    def sym_setitem(self, I, k, v):
        v = [to_real(x) for x in I.iterate(v)]
        if len(v) != 3 or self.scale:
            raise Unsupported("block row")
        self.a = [z3.Store(a, to_int(k), x) for a, x in zip(self.a, v)]

    def sym_getitem(self, I, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and isinstance(k[1], int):
            return Column(self.n, lambda i, j=k[1]: self.at(j, i))
        raise Unsupported("block index")

    def sym_binop(self, I, op, a, b):
        o = {"Div": lambda x, s: x / s, "Mult": lambda x, s: x * s}.get(type(op).__name__)
        if o is None or a is not self:
            return NotImplemented
        r = Block.__new__(Block)
        r.V, r.n, r.a, r.scale = self.V, self.n, list(self.a), self.scale + [(o, to_real(b))]
        return r


class Pointings:
    """the pointing table: columns by name, rows by number"""

    def __init__(self, V):
        self.V, self.n, self.made = V, V.ctx.fresh("n_pointings", "int"), {}
        V.pre(self.n >= 0)

    def get(self, k, i):
        if k in self.made:
            return SV("real", self.made[k].fn(i))
        return PointingRow(self.V, i).val(k)

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_getitem(self, I, k):
        if isinstance(k, str):
            return Column(self.n, lambda i: to_real(self.get(k, i)))
        raise Unsupported("pointings index")

    def sym_setitem(self, I, k, v):
        if not isinstance(v, Column):
            raise Unsupported("column")
        self.V.ensure(f"column {k} has a value per pointing", v.n == self.n)
        self.made[k] = v

    def sym_getattr(self, I, name):
        t = self
        if name == "apply":
            def apply(I, a, k):
                if k.get("axis", a[1] if len(a) > 1 else 0) not in (1, "columns"):
                    raise Unsupported("apply")
                return Column(t.n, lambda i: to_real(I.call(a[0], [Row(t, i)], {})))
            return Prim(apply, name)
        if name == "iterrows":
            return Prim(lambda I, a, k: Iter(t.n, lambda i: (SV("int", i), Row(t, i))), name)
        raise Unsupported("pointings." + name)


class Row:
    def __init__(self, t, i):
        self.t, self.i = t, i

    def sym_getitem(self, I, k):
        return self.t.get(k, self.i)

    def sym_getattr(self, I, name):
        if name == "get":
            return Prim(lambda I, a, k: self.t.get(a[0], self.i), name)
        return self.t.get(name, self.i)


def environment(V, orbits=None):
    """the set-up functions by name; the observatory object as constructed from the arguments"""
    args = Obj("args", pplogger=L.Logger() if hasattr(L, "Logger") else None, loglevel=V.pick("loglevel", [False, True]), outpath="/out", output_ephemeris_file=None)
    sim = Obj("simulation", ar_ang_fov=V.real("ang_fov"), ar_fov_buffer=V.real("buffer"), ar_picket=V.real("picket"), ar_obs_code="X05", ar_healpix_order=5, ar_n_sub_intervals=101)
    aux = Obj("auxiliary")
    cfg = Obj("sconfigs", simulation=sim, auxiliary=aux, input=Obj("input", eph_format="csv"), output=Obj("output", output_format="csv"))
    ref = V.real("jd_ref")
    ephem = Obj("ephem", jd_ref=ref)
    st = {"kernels": 0, "clear": 0}

    def furnish(I, v):
        V.ensure("kernels of these arguments", v["args"] is args and v["auxconfigs"] is aux)
        st["kernels"] += 1

    def mkeph(I, v):
        V.ensure("ephemeris of these arguments", v["args"] is args and v["auxconfigs"] is aux)
        return ephem, "GM of the Sun", "GM of the whole"

    V.use(SE + ":furnish_spiceypy", furnish)
    V.use(SE + ":create_assist_ephemeris", mkeph)
    V.stub("spiceypy.j2000", lambda I, a, k: SV("real", z3.RealVal(2451545)))

    def clear(I, a, k):
        st["clear"] += 1

    V.stub("spiceypy.kclear", clear)
    obsy = Obj("observatory of the arguments")

    def mkobs(I, a, k):
        V.ensure("observatory of these arguments", len(a) == 2 and a[0] is args and a[1] is aux and not k)
        return obsy

    for m in (SE, DR):
        V.patch(m, "Observatory", Prim(mkobs, "Observatory"))
    return args, cfg, ephem, ref.t, obsy, st


@contract("C24", SE + ":precompute_pointing_information", target="precompute", name="precompute_pointing_information")
def precompute(V):
    c = V.ctx
    args, cfg, ephem, ref, obsy, st = environment(V)
    P = Pointings(V)
    n = P.n
    VEC = [z3.Function(f"unit_vector_{x}", RS, RS, RS) for x in "xyz"]
    EP = z3.Function("epoch_of_tai", RS, RS)
    OR, OV, SR, SVV = ([z3.Function(f"{w}_{x}", RS, RS) for x in "xyz"] for w in ("obs_pos", "obs_vel", "sun_pos", "sun_vel"))

    class Vectors:
        def __init__(self, ra, dec):
            self.ra, self.dec = ra, dec

        def sym_getitem(self, I, k):
            if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and isinstance(k[1], int):
                return Column(n, lambda i: VEC[k[1]](self.ra.fn(i), self.dec.fn(i)))
            raise Unsupported("vectors index")

        def sym_getattr(self, I, name):
            if name == "T":
                return [self.sym_getitem(I, (slice(None), j)) for j in range(3)]
            raise Unsupported("vectors." + name)

    V.use(G + ":ra_dec2vec", lambda I, v: Vectors(v["ra"], v["dec"]))
    V.use(PA + ":mjd_tai_to_epoch", lambda I, v: SV("real", EP(to_real(v["mjd_tai"]))))

    def rates(I, v):
        V.ensure("the configured observatory", v["obsCode"] == "X05" and v["observatories"] is obsy)
        V.ensure("after the kernels are loaded and before they are unloaded", st["kernels"] >= 1 and st["clear"] == 0)
        t = to_real(v["et"])
        return vec([f(t) for f in OR]), vec([f(t) for f in OV])

    V.use(G + ":barycentricObservatoryRates", rates)

    def particle(I, a, k):
        V.ensure("the Sun", a[0] == "Sun")
        t = to_real(a[1])
        return Obj("particle", **{x: SV("real", f(t)) for x, f in zip("xyz", SR)}, **{"v" + x: SV("real", f(t)) for x, f in zip("xyz", SVV)})

    ephem.attrs["get_particle"] = Prim(particle, "get_particle")

    def empty(I, a, k):
        sh = a[0]
        if not (isinstance(sh, tuple) and len(sh) == 2 and sh[1] == 3):
            raise Unsupported("array shape")
        V.ensure("a row per pointing", to_int(sh[0]) == n)
        return Block(V, n)

    V.stub("numpy.empty", empty)
    V.stub("numpy.zeros", empty)
    j = c.fresh("pointing", "int")
    V.pre(j >= 0, j < n)
    jd = lambda i: EP(to_real(P.get("observationMidpointMJD_TAI", i)))
    et = lambda i: (jd(i) - 2451545) * 86400
    t = lambda i: jd(i) - ref

    def inv(which, spec):
        def f(env, k, I):
            b = [env.vars.get(w) for w in which]
            if any(not isinstance(x, Block) for x in b):
                raise Unsupported("blocks")
            return [(f"{w}: pointings so far", z3.Implies(j < k, z3.And([z3.Select(x.a[m], j) == fs[m](arg(j)) for m in range(3)]))) for (w, x, (fs, arg)) in zip(which, b, spec)]
        return f

    V.invariant(SE + ":precompute_pointing_information", 0, inv(("r_obs", "v_obs"), ((OR, et), (OV, et))))
    V.invariant(SE + ":precompute_pointing_information", 1, inv(("r_sun", "v_sun"), ((SR, t), (SVV, t))))
    out = V.call(P, args, cfg)
    if not V.returns(out):
        return
    V.ensure("the same table", out.value is P)
    g = lambda k: to_real(P.get(k, j))
    want = {"fieldJD_TDB": jd(j)}
    ra, dec = (PointingRow(V, j).val(x).t for x in ("fieldRA_deg", "fieldDec_deg"))
    for m, x in enumerate("xyz"):
        want[f"visit_vector_{x}"] = VEC[m](ra, dec)
        want[f"r_obs_{x}"] = OR[m](et(j)) / AU_KM
        want[f"v_obs_{x}"] = OV[m](et(j)) * 86400 / AU_KM
        want[f"r_sun_{x}"] = SR[m](t(j))
        want[f"v_sun_{x}"] = SVV[m](t(j))
    for k, v in want.items():
        V.ensure(f"column {k} is there", k in P.made)
        if k in P.made:
            V.ensure(f"column {k} of every pointing", g(k) == v)
    V.ensure("nothing else of the pointings changed", set(P.made) == set(want))


# ------------------------------------------------------- the ephemeris loop
@contract("C24", DR + ":create_ephemeris", target="ephemeris", name="create_ephemeris", max_time=240)
def create(V):
    c = V.ctx
    args, cfg, ephem, ref, obsy, st = environment(V)
    fname = V.pick("ephemeris file", [None, "eph"])
    args.attrs["output_ephemeris_file"] = fname
    P = Pointings(V)
    n = P.n
    sims, orbits = {}, L.Opaque("orbits")

    class Table:
        """the objects' orbits, and the ephemeris table read back"""

        def __init__(self, what):
            self.what, self.typed = what, False

        def sym_getitem(self, I, k):
            if k != "ObjID":
                raise Unsupported("column " + str(k))
            return Obj("ids", astype=Prim(lambda I, a, k_: ("as string", self, a[0]), "astype"), table=self)

        def sym_setitem(self, I, k, v):
            V.ensure("identifiers compared as strings", k == "ObjID" and isinstance(v, tuple) and v[1] is self and v[2] in ("string", str))
            self.typed = True

        def sym_getattr(self, I, name):
            if name == "set_index":
                return Prim(lambda I, a, k: ("indexed", self, a[0] if a else k.get("keys"), self.typed), name)
            if name == "join":
                def join(I, a, k):
                    V.ensure("orbits joined by identifier", isinstance(a[0], tuple) and a[0][0] == "indexed" and a[0][1] is orb and a[0][2] == "ObjID" and k == {"on": "ObjID"} and a[0][3] and self.typed)
                    return ("joined", self, a[0][1])
                return Prim(join, name)
            raise Unsupported(self.what + "." + name)

    orb, eph = Table("orbits"), Table("ephemeris")

    class Sims:
        def sym_getitem(self, I, k):
            return {"sim": ("sim", to_str_term(k)), "ex": ("ex", to_str_term(k))}

    simd = Sims()

    def gen(I, v):
        V.ensure("every orbit is integrated", v["orbits_df"] is orb and v["ephem"] is ephem and v["args"] is args and v["gm_sun"] == "GM of the Sun" and v["gm_total"] == "GM of the whole")
        return simd

    V.use(SE + ":generate_simulations", gen)
    # the candidates of a pointing and their interpolated vectors
    NC, KEY, POS = z3.Function("n_candidates", IS, IS), z3.Function("candidate", IS, IS, SS), z3.Function("place", IS, SS, IS)
    U = [z3.Function(f"interpolated_{x}", IS, SS, RS) for x in "xyz"]
    i0, s0 = c.fresh("pointing", "int"), c.fresh("object", "str")
    V.pre(NC(i0) >= 0)
    col = lambda k, i: to_real(PointingRow(V, i).val(k))
    cur = {}

    class Candidates:
        def __init__(self, i):
            self.i = i

        def sym_getattr(self, I, name):
            i = self.i

            def item(m):
                k = KEY(i, m)
                c.assume(z3.And(POS(i, k) == m))
                cur["key"] = k
                return SV("str", k), vec([u(i, k) for u in U])
            if name == "items":
                return Prim(lambda I, a, k: Iter(NC(i), item), name)
            raise Unsupported("candidates." + name)

    class Pix:
        def sym_getattr(self, I, name):
            if name == "get_designations":
                def f(I, a, k):
                    i = cur["i"]
                    a = dict(zip(("jd_tdb", "ra", "dec", "ang_fov"), a), **k)
                    got = {x: to_real(y) for x, y in a.items()}
                    V.ensure("candidates of this pointing", z3.And(got["jd_tdb"] == col("fieldJD_TDB", i), got["ra"] == col("fieldRA_deg", i), got["dec"] == col("fieldDec_deg", i)))
                    V.ensure("searched at least over the field of view", got["ang_fov"] >= cfg.attrs["simulation"].attrs["ar_ang_fov"].t)
                    return ("designations", i)
                return Prim(f, name)
            if name == "interpolate_unit_vectors":
                def f(I, a, k):
                    a = dict(zip(("desigs", "jd_tdb"), a), **k)
                    i = cur["i"]
                    V.ensure("vectors of these candidates at the time of the pointing", a["desigs"] == ("designations", i) and (to_real(a["jd_tdb"]) == col("fieldJD_TDB", i)))
                    return Candidates(i)
                return Prim(f, name)
            raise Unsupported("PixelDict." + name)

    def mkpix(I, a, k):
        b = dict(zip(("jd_tdb", "sim_dict", "ephem", "obsCode", "observatory", "picket_interval", "nside", "nested", "n_sub_intervals"), a), **k)
        s = cfg.attrs["simulation"].attrs
        V.ensure("cache over these objects and this observatory", b["sim_dict"] is simd and b["ephem"] is ephem and b["obsCode"] == "X05" and b["observatory"] is obsy and b.get("nested", True) is True)
        V.ensure("with the configured interval, map and sampling", z3.And(to_real(b["picket_interval"]) == s["ar_picket"].t, to_int(b["nside"]) == 32, to_int(b["n_sub_intervals"]) == 101))
        return Pix()

    V.patch(DR, "PixelDict", Prim(mkpix, "PixelDict"))
    # light time and geometry by their contracts
    RHO = [z3.Function(f"rho_{x}", IS, SS, RS) for x in "xyz"]
    MAG = z3.Function("rho_mag", IS, SS, RS)

    def ilt(I, v):
        i = cur["i"]
        V.ensure("the object's own simulation", v["sim"][0] == "sim" and v["ex"][0] == "ex" and v["sim"][1] == v["ex"][1])
        k = v["sim"][1]
        V.ensure("seen at the time of the pointing", to_real(v["t"]) == col("fieldJD_TDB", i) - ref)
        for x, r in zip("xyz", comps(V, v["r_obs"])):
            V.ensure(f"from the observatory, {x}", r == col(f"r_obs_{x}", i))
        V.ensure("with at least three iterations from a plausible light time", z3.And(to_int(v["iter"]) >= 3, to_real(v["lt0"]) >= 0, to_real(v["lt0"]) <= 1, to_real(v["speed_of_light"]) == CAU))
        c.assume(MAG(i, k) > 0)
        cur["located"] = (i, k)
        return vec([f(i, k) for f in RHO]), SV("real", MAG(i, k)), L.Opaque("lt"), ("r_ast", i, k), ("v_ast", i, k)

    V.use(G + ":integrate_light_time", ilt)

    def rates(I, v):
        i = cur["i"]
        g = v["ephem_geom_params"].attrs
        k = g["r_ast"][2]
        V.ensure("geometry of this pointing", isinstance(v["pointing"], Row) and v["pointing"].i == i)
        V.ensure("of this object", to_str_term(g["obj_id"]) == k)
        V.ensure("its state", g["r_ast"][0] == "r_ast" and g["v_ast"][0] == "v_ast" and g["v_ast"][2] is k)
        V.ensure("time of the visit", to_real(g["mjd_tai"]) == col("observationMidpointMJD_TAI", i))
        V.ensure("range", to_real(g["rho_mag"]) == MAG(i, k))
        for x, f, a, b in zip("xyz", RHO, comps(V, g["rho"]), comps(V, g["rho_hat"])):
            V.ensure(f"direction {x}", z3.And(a == f(i, k), b * MAG(i, k) == f(i, k)))
        return ("row", i, k)

    V.use(DR + ":calculate_rates_and_geometry", rates)

    class Sheet:
        """rows written so far, counted for one pointing and one object"""

        def __init__(self):
            self.header, self.cnt, self.rewound = None, z3.IntVal(0), False

        def havoc(self, c, name):
            self.cnt = c.fresh("rows", "int")
            return self

    sheet = Sheet()

    class Writer:
        def __init__(self):
            self.s = sheet

        def havoc(self, c, name):
            self.s.havoc(c, name)
            return self

        def sym_getattr(self, I, name):
            if name != "writerow":
                raise Unsupported("writer." + name)

            def f(I, a, k):
                r = a[0]
                if isinstance(r, tuple) and len(r) == 3 and r[0] == "row":
                    V.ensure("header first", sheet.header is not None)
                    sheet.cnt = sheet.cnt + z3.If(z3.And(r[1] == i0, r[2] == s0), 1, 0)
                else:
                    V.ensure("column names", list(r) == NAMES and sheet.header is None)
                    sheet.header = list(r)
            return Prim(f, name)

    buf = Obj("buffer")

    def seek(I, a, k):
        sheet.rewound = a[0] == 0

    buf.attrs["seek"] = Prim(seek, "seek")
    V.stub("io.StringIO", lambda I, a, k: buf)
    V.stub("csv.writer", lambda I, a, k: Writer() if a[0] is buf else (_ for _ in ()).throw(Unsupported("writer")))

    def read(I, a, k):
        V.ensure("all rows written are read back, identifiers as text", a[0] is buf and sheet.rewound and set(k) == {"dtype"} and isinstance(k["dtype"], dict) and set(k["dtype"]) == {"ObjID"})
        return eph

    V.stub("pandas.read_csv", read)
    wrote = []
    V.use(DR + ":write_out_ephemeris_file", lambda I, v: wrote.append((v["ephemeris_df"], v["ephemeris_csv_filename"], v["args"], v["sconfigs"])))
    V.stub("os.path.join", lambda I, a, k: "/".join(a))
    F_ = cfg.attrs["simulation"].attrs
    fov = F_["ar_ang_fov"].t + F_["ar_fov_buffer"].t

    # angles: the code's cosine is proved equal to the specified one, then named
    ANG = [z3.Function("angle_interpolated", IS, SS, RS), z3.Function("angle_light_time", IS, SS, RS)]

    def cosine(i, k):
        """cosine of the angle now asked for: first of the interpolated direction, then of the one with light time"""
        v = [col(f"visit_vector_{x}", i) for x in "xyz"]
        if cur.get("located", (None, None))[1] is k:
            return 1, dot([f(i, k) / MAG(i, k) for f in RHO], v)
        u = [f(i, k) for f in U]
        m = sqrt(dot(u, u))
        c.assume(m > 0)  # an object is never at the observer
        return 0, dot([x / m for x in u], v)

    def named(x):
        i, k = cur["i"], cur["key"]
        w, d = cosine(i, k)
        V.ensure(("interpolated direction" if w == 0 else "direction with light time") + " against the field centre", x == d)
        c.assume(z3.And(x == d, d >= -1, d <= 1))
        return w, d

    def clip(I, a, k):
        x = to_real(a[0])
        lo, hi = (list(a[1:]) + [k.get("a_min"), k.get("a_max")])[:2]
        V.ensure("clipped to the range of a cosine", z3.And(to_real(lo) == -1, to_real(hi) == 1))
        return SV("real", named(x)[1])

    def acos(I, a, k):
        w, d = named(to_real(a[0]))
        return SV("real", ANG[w](cur["i"], cur["key"]))

    V.stub("numpy.clip", clip)
    V.stub("numpy.arccos", acos)
    V.I.assumed.add("numpy.arccos: the angle of a cosine")
    H = z3.And(degs(ANG[0](i0, s0)) < fov, degs(ANG[1](i0, s0)) < fov)
    isc = z3.And(POS(i0, s0) >= 0, POS(i0, s0) < NC(i0), KEY(i0, POS(i0, s0)) == s0)

    def outer(env, k, I):
        return [("one row per visible candidate so far", sheet.cnt == z3.If(z3.And(i0 >= 0, i0 < k, isc, H), 1, 0))]

    def at(k):
        cur["i"] = k
        c.assume(NC(k) >= 0)

    outer.havoc = at

    def inner(env, mm, I):
        i = cur["i"]
        return [("one row per visible candidate so far", sheet.cnt == z3.If(z3.And(i0 >= 0, isc, H, z3.Or(i0 < i, z3.And(i0 == i, POS(i0, s0) < mm))), 1, 0))]

    V.invariant(DR + ":create_ephemeris", 0, outer)
    V.invariant(DR + ":create_ephemeris", 1, inner)
    out = V.call(orb, P, args, cfg)
    if not V.returns(out):
        return
    V.ensure("a row exactly for the candidates within the field of view plus buffer, once each", sheet.cnt == z3.If(z3.And(i0 >= 0, i0 < n, isc, H), 1, 0))
    V.ensure("joined to the orbits", out.value == ("joined", eph, orb))
    V.ensure("ephemeris file written when asked for", (len(wrote) == 0) if fname is None else (len(wrote) == 1 and wrote[0] == (eph, "/out/eph", args, cfg)))


@contract("C24", DR + ":write_out_ephemeris_file", target="ephemeris file", name="write_out_ephemeris_file")
def write_out(V):
    fmt = V.pick("eph_format", ["csv", "whitespace", "hdf5"])
    of = V.pick("output_format", ["csv", "hdf5", "sqlite3", "h5"])
    args = Obj("args", pplogger=L.Logger() if hasattr(L, "Logger") else None, loglevel=False)
    cfg = Obj("sconfigs", input=Obj("input", eph_format=fmt), output=Obj("output", output_format=of))
    df = L.Opaque("ephemeris")
    got = []
    O = "sorcha.modules.PPOutput"
    V.use(O + ":PPOutWriteCSV", lambda I, v: got.append(("csv", v["padain"] is df, v["outf"], v.get("separator", ","))))
    V.use(O + ":PPOutWriteHDF5", lambda I, v: got.append(("hdf5", True, v["outf"], None)))
    out = V.call(df, "/out/eph", args, cfg)
    if V.returns(out):
        want = {"csv": ("csv", True, "/out/eph.csv", ","), "whitespace": ("csv", True, "/out/eph.csv", " "), "hdf5": ("hdf5", True, "/out/eph.h5", None)}[fmt]
        V.ensure("written once, in the configured format", got == [want])


from contracts.glue import glue
glue("C24")
