"""stand-in simulations and observatory for the ephemeris code"""
from common import *

M = "sorcha.ephemeris.pixel_dict:"
G = "sorcha.ephemeris.simulation_geometry:"
AU_KM, CAU = 149597870.700, 173.14463267424034
REF = 2451545.0


def track(o, t):
    """position (au) of object o at t days after the reference epoch"""
    kind, a, b, w = o
    if kind == "fixed":
        return np.array(a, float)
    if kind == "line":
        return np.array(a, float) + np.array(b, float) * t
    x = w * t
    return np.array(a, float) * math.cos(x) + np.array(b, float) * math.sin(x)


def velocity(o, t):
    kind, a, b, w = o
    if kind == "fixed":
        return np.zeros(3)
    if kind == "line":
        return np.array(b, float)
    x = w * t
    return w * (np.array(b, float) * math.cos(x) - np.array(a, float) * math.sin(x))


class Sim:
    def __init__(self, o):
        self.o, self.now = o, None

    @property
    def particles(self):
        class P:
            pass
        p = P()
        p.xyz = tuple(track(self.o, self.now))
        p.vxyz = tuple(velocity(self.o, self.now))
        return [p]


class Ex:
    def __init__(self, sim):
        self.sim = sim

    def integrate_or_interpolate(self, t):
        self.sim.now = t


class Obsy:
    def barycentricObservatory(self, et, code, *a):
        need(code == "X05", f"observatory {code}")
        return earth(et / 86400.0) * AU_KM


def earth(t):
    x = 2 * math.pi * t / 365.25
    return np.array([math.cos(x), math.sin(x), 0.01 * math.sin(3 * x)])


class Ephem:
    jd_ref = REF


def seen(o, jd):
    """direction of the object from the observatory, light time iterated to convergence"""
    r, lt = earth(jd - REF), 0.01
    for _ in range(12):
        d = track(o, jd - REF - lt) - r
        lt = np.linalg.norm(d) / CAU
    return d / np.linalg.norm(d)


def rdir(rnd):
    v = np.array([rnd.gauss(0, 1) for _ in range(3)])
    return v / np.linalg.norm(v)


def gen_objects(rnd):
    objs = {}
    for j in range(rnd.choice([1, 1, 2, 4])):
        u = rdir(rnd)
        if rnd.random() < 0.15:
            u = np.array([rnd.choice([1e-3, 0.02]), 0.0, rnd.choice([1, -1])])
        R = rnd.choice([3.0, 40.0, 1000.0])
        kind = rnd.choice(["fixed", "line", "orbit"])
        v = np.cross(u, rdir(rnd))
        v = v / np.linalg.norm(v)
        objs[rnd.choice(["a", "Obj", "7"]) + str(j)] = (kind, list(map(float, u * R)), list(map(float, v * (R if kind == "orbit" else rnd.choice([1e-3, 1e-2])))),
                                                        0.0172 / R ** 1.5)
    return objs
