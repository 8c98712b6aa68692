"""C10 nights and linking window, concrete contracts."""
from common import *
from props.C09 import gen_nights, run_nights
from tracklets import *

M = "sorcha.modules.PPMiniDifi"


def gen_opp(rnd, k):
    n0 = rnd.choice([60000, 100, 60218])
    if rnd.random() < 0.05:  # years of nights, most of them with a tracklet
        m = rnd.choice([250, 700, 3650])
        return {"nights": [n0 + i for i in range(m) if rnd.random() < 0.95] or [n0], "trk_p": rnd.choice([0.6, 1.0]), "trk_seed": rnd.randrange(1000), "window": rnd.choice([5, 15]),
                "nlink": rnd.choice([2, 3]), "p": rnd.choice([1.0, 0.5, 0.004]), "seed": rnd.randrange(2 ** 32)}
    nights = sorted(rnd.sample(range(n0, n0 + rnd.choice([3, 10, 20, 60])), k=rnd.choice([1, 2, 3, 3])) if rnd.random() < 0.3 else
                    rnd.sample(range(n0, n0 + 40), k=rnd.choice([1, 2, 3, 5, 8, 15, 30])))
    return {"nights": nights, "trk": [rnd.random() < rnd.choice([0.3, 0.7, 1.0]) for _ in nights], "window": rnd.choice([1, 2, 3, 5, 14, 15, 15, 30]),
            "nlink": rnd.choice([1, 2, 3, 3, 4]), "p": rnd.choice([0.0, 1.0, 1.0, 0.95, 0.5, 0.1, rnd.random()]), "seed": rnd.randrange(2 ** 32)}


def run_opp(c):
    if "trk_p" in c:
        r = random.Random(c["trk_seed"])
        c = dict(c, trk=[r.random() < c["trk_p"] for _ in c["nights"]])
    if len(c["nights"]) == 0 or len(c["nights"]) != len(c["trk"]):
        raise Skip()
    want = opportunities(c["nights"], c["trk"], c["window"], c["nlink"])
    u = np.random.default_rng(c["seed"]).uniform(size=len(want))
    i, disc = must_return(call(fn(M + ":discoveryOpportunities"), np.array(c["nights"]), np.array(c["trk"], dtype=bool), c["window"], c["nlink"], c["p"],
                               np.random.default_rng(c["seed"])))
    need([int(x) for x in disc] == want, f"opportunities {list(map(int, disc))}, specified {want}")
    first = [k for k, x in enumerate(u) if x < c["p"]]
    w = first[0] if first else -1
    need(int(i) == w, f"first success {int(i)}, draws {u.tolist()} at efficiency {c['p']} give {w}")


DT = [("diaSourceId", "u8"), ("midPointTai", "f8"), ("ra", "f8"), ("decl", "f8")]


def gen_link(rnd, k):
    maxdt, minlen = rnd.choice([90.0, 60.0]), rnd.choice([0.5, 1.0])
    start = rnd.choice([16 / 24, 16 / 24, 0.0, 0.5, 23 / 24, 3.7 / 24, 16.25 / 24])
    m, r, d = gen_object(rnd, start, maxdt, minlen, nights=rnd.choice([1, 2, 3, 4, 6, 8]))
    o = list(range(len(m)))
    rnd.shuffle(o)
    return {"mjd": [m[i] for i in o], "ra": [r[i] for i in o], "dec": [d[i] for i in o], "start": start, "maxdt": maxdt, "minlen": minlen, "nmin": rnd.choice([1, 2, 2, 2, 3]),
            "window": rnd.choice([1, 3, 5, 15]), "nlink": rnd.choice([1, 2, 3]), "p": rnd.choice([1.0, 1.0, 1.0, 0.0, 0.5]), "seed": rnd.choice([0, 0, 17, 2 ** 31])}


def run_link(c):
    m = c["mjd"]
    if len(set(m)) != len(m):
        raise Skip("simultaneous detections")
    a = np.zeros(len(m), dtype=DT)
    a["diaSourceId"], a["midPointTai"], a["ra"], a["decl"] = range(100, 100 + len(m)), m, c["ra"], c["dec"]
    opp, u, trk, ns = link_object(m, c["ra"], c["dec"], c["maxdt"], c["minlen"], c["nmin"], c["window"], c["nlink"], c["start"])
    oid, date, chances = must_return(call(fn(M + ":linkObject"), a.copy(), c["seed"], c["maxdt"], c["minlen"], c["nmin"], c["window"], c["nlink"], c["p"], c["start"]))
    if c["p"] == 1.0 and opp:
        need(not np.isnan(date) and int(date) == opp[0], f"discovered on {date}, first opportunity {opp[0]} of {opp}")
    if c["p"] == 0.0 or not opp:
        need(np.isnan(date) and chances == 0, f"discovered on {date} with no opportunity (efficiency {c['p']}, {opp})")
        need(int(oid) == 0xFFFF_FFFF_FFFF_FFFF, "observation id of an undiscovered object")
    if not np.isnan(date):
        need(int(date) in opp, f"discovered on {date}, opportunities {opp}")
        need(int(chances) == len(opp), f"{chances} chances, {len(opp)} opportunities")
        inw = sorted((t, i) for i, t in enumerate(m) if date - c["window"] < math.floor(t - c["start"]) <= date)
        need(bool(inw) and int(oid) == 100 + inw[0][1], "triggering observation is not the first one in the window")


def gen_eff(rnd, k):
    if k >= 3:
        raise StopIteration
    return {"p": [0.5, 0.95, 0.05][k], "n": 1500, "seed": rnd.randrange(1000), "ra0": rnd.uniform(0, 300)}


def run_eff(c):
    """the fraction of single-opportunity objects linked is the efficiency (5 sigma)"""
    link = fn(M + ":linkObject")
    hits = 0
    for i in range(c["n"]):
        a = np.zeros(6, dtype=DT)
        a["diaSourceId"] = range(6)
        a["midPointTai"] = [60000.9, 60000.92, 60001.9, 60001.92, 60002.9, 60002.92]
        a["ra"] = c["ra0"] + i * 1e-3 + np.array([0, 0.01, 0.02, 0.03, 0.04, 0.05])
        a["decl"] = 5.0
        out = must_return(call(link, a, c["seed"], 90.0, 0.5, 2, 3, 3, c["p"], 16 / 24))
        hits += not np.isnan(out[1])
    f = hits / c["n"]
    s = math.sqrt(c["p"] * (1 - c["p"]) / c["n"])
    need(abs(f - c["p"]) < 5 * s, f"linked fraction {f} at efficiency {c['p']}")


TARGETS = {"opportunities": Target(gen_opp, run_opp, from_model=lambda m: None, weight=3), "link": Target(gen_link, run_link, from_model=lambda m: None, weight=3),
           "efficiency": Target(gen_eff, run_eff, from_model=lambda m: None, weight=0.1), "nights": Target(gen_nights, run_nights)}

from props.C11 import TARGETS as _linking

TARGETS["filter"] = _linking["filter"]

from focus import focus

TARGETS["run"] = focus(0.5, "LSST", lambda rnd: {"link": rnd.choice(["drop", "keep"]), "density": 0.9, "columns": "basic"})
