"""C17 random streams, concrete contracts."""
from common import *
import subprocess

M = "sorcha.utilities.sorchaModuleRNG:PerModuleRNG"
NAMES = ["sorcha.modules.PPDropObservations", "sorcha.modules.PPRandomizeMeasurements", "sorcha.modules.PPApplyFOVFilter",
         "sorcha.modules.PPDetectionEfficiency", "a", "b", "ab", "ba", "", "module1", "module2", "sorcha.modules.PPAddUncertainties",
         "PPDropObservations", "modules.PPDropObservations", "sorcha.modules.PPDropObservation", "sorcha.modules.ppdropobservations", "other.PPDropObservations"]


class Log:
    def info(self, *a):
        pass


def ref(base, name, n):
    """the stream a fresh collection hands out"""
    return fn(M)(base).getModuleRNG(name).random(n).tolist()


def gen_stream(rnd, k):
    base = rnd.choice([0, 1, 2 ** 31 - 1, 2 ** 32 - 1, rnd.randrange(2 ** 32), rnd.randrange(1000)])
    names = NAMES + [f"m{i}" for i in range(40)] if rnd.random() < 0.1 else NAMES
    ops = [[rnd.choice(names), rnd.choice([0, 1, 2, 5])] for _ in range(rnd.choice([1, 2, 5, 20]) if names is NAMES else 90)]
    return {"base_seed": base, "ops": ops, "logger": rnd.random() < 0.2}


def run_stream(c):
    if "ops" not in c:
        nm, ot = str(c["name"]), str(c["other"])
        c = dict(c, ops=[[nm, 2], [ot, 1], [nm, 2], [ot, 3], [nm, 1]])
    base = c["base_seed"]
    if not isinstance(base, int) or base < 0:
        raise Skip()
    P = must_return(call(fn(M), base, Log()) if c.get("logger") else call(fn(M), base))
    got, objs = {}, {}
    for nm, n in c["ops"]:
        g = must_return(call(P.getModuleRNG, nm))
        need(objs.setdefault(nm, g) is g, f"request for {nm!r} does not continue its stream")
        got.setdefault(nm, []).extend(g.random(n).tolist())
    for nm, v in got.items():
        want = ref(base, nm, len(v))
        need(v == want, f"stream of {nm!r} depends on other requests")
        for om, w in got.items():
            if om != nm and len(v) >= 2 and len(w) >= 2:
                need(v[:2] != w[:2], f"modules {nm!r} and {om!r} share one stream")
    nm, v = next(iter(got.items()))
    if len(v) >= 2:
        need(ref(base + 1, nm, 2) != v[:2], "stream does not depend on the base seed")


ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-: /"


def alike(rnd, s):
    """a name that differs from s in some small way"""
    i = rnd.randrange(len(s) + 1)
    ways = [lambda: s[:i] + rnd.choice(ALPHA) + s[i:], lambda: s[:i] + s[i + 1:], lambda: s[:i] + rnd.choice(ALPHA) + s[i + 1:], lambda: s.swapcase(), lambda: s.lower(), lambda: s.upper(), lambda: s[::-1], lambda: s + s,
            lambda: " " + s, lambda: s + " ", lambda: s + "\x00", lambda: s.replace("_", "."), lambda: "".join(sorted(s)), lambda: s[1:] + s[:1], lambda: s + "é", lambda: s.title()]
    for sep in "._-: ":
        if sep in s:
            a, b = s.rsplit(sep, 1)
            c, d = s.split(sep, 1)
            ways += [lambda x=x: x for x in (a, b, a + sep + "other", a + sep + "x", c, d, c + sep + "other", s.replace(sep, ""), sep.join(reversed(s.split(sep))))]
    return rnd.choice(ways)()


def gen_names(rnd, k):
    if k >= 400:
        raise StopIteration
    n = rnd.choice([1, 3, 8, 30, 70, 300])
    s = rnd.choice(NAMES) if rnd.random() < 0.3 else "".join(rnd.choice(ALPHA) for _ in range(n))
    if rnd.random() < 0.3:
        s = "_".join([s, "module", rnd.choice("abc")])
    names = [s]
    while len(names) < 12:
        t = alike(rnd, rnd.choice(names) if rnd.random() < 0.2 else s)
        if t not in names:
            names.append(t)
    return {"base_seed": rnd.randrange(2 ** 32), "names": names}


def run_names(c):
    """modules of different names never share a stream; names that are alike
    are the likely way for this to fail (a chance collision of the 31-bit
    seeds of a dozen names has probability below 1e-7, over a whole run 1e-5)"""
    P = must_return(call(fn(M), c["base_seed"]))
    seen = {}
    for nm in c["names"]:
        d = tuple(must_return(call(P.getModuleRNG, nm)).random(2).tolist())
        need(d not in seen, f"modules {seen.get(d)!r} and {nm!r} share one stream")
        seen[d] = nm


def gen_process(rnd, k):
    if k >= 3:
        raise StopIteration
    return {"base_seed": rnd.randrange(2 ** 32), "names": rnd.sample(NAMES[:4], 3), "hashseed": str(rnd.randrange(1, 1000))}


def run_process(c):
    """the same in another interpreter"""
    code = ("import sys, json; sys.path.insert(0, %r)\nfrom sorcha.utilities.sorchaModuleRNG import PerModuleRNG\n"
            "P = PerModuleRNG(%d)\nprint(json.dumps([P.getModuleRNG(n).random(3).tolist() for n in %r]))") % (REPO, c["base_seed"], list(reversed(c["names"])))
    env = dict(os.environ, PYTHONHASHSEED=c["hashseed"])
    p = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env=env, timeout=120)
    if p.returncode:
        raise MissingTarget(p.stderr[-300:])
    got = json.loads(p.stdout.strip().splitlines()[-1])
    for nm, v in zip(reversed(c["names"]), got):
        need(v == ref(c["base_seed"], nm, 3), f"stream of {nm!r} differs between two interpreters with the same seed")


def gen_run(rnd, k):
    return {"base_seed": rnd.choice([0, 1, 7, 2 ** 31, 2 ** 32 - 1, rnd.randrange(2 ** 32)]), "arguments": rnd.choice(["to the constructor", "read later", "again"]), "name": rnd.choice(NAMES)}


def run_run(c):
    """the streams of a run are those of the seed it is given"""
    if c["base_seed"] < 0:
        raise Skip()
    A = fn("sorcha.utilities.sorchaArguments:sorchaArguments")
    keys = ("paramsinput", "orbinfile", "configfile", "outpath", "outfilestem", "pointing_database", "stats", "visits_database", "surveyname")
    cmd = dict({k: "x" for k in keys}, loglevel=False, seed=c["base_seed"])
    if c["arguments"] == "to the constructor":
        a = must_return(call(A, cmd))
    else:
        a = A() if c["arguments"] == "read later" else A(dict(cmd, seed=c["base_seed"] + 1))
        must_return(call(a.read_from_dict, cmd))
    nm = str(c["name"])
    need(a._rngs.getModuleRNG(nm).random(3).tolist() == ref(c["base_seed"], nm, 3), f"the run's stream of {nm!r} is not that of its seed {c['base_seed']}")


TARGETS = {"stream": Target(gen_stream, run_stream, weight=3), "names": Target(gen_names, run_names, lambda c: c if "names" in c else {"base_seed": c["base_seed"], "names": [str(c["name"]), str(c["other"])]}, weight=2), "process": Target(gen_process, run_process, weight=1), "run": Target(gen_run, run_run, lambda c: c)}
