"""C17 Each module's random stream depends only on the base seed and its name.

Ghost state: the collection holds, for every name requested so far, the one
generator created for it.  Invariant: that generator was seeded with
S(base seed, name), S being what the real code computes on a fresh collection."""
from pyvc.contract import contract
from pyvc.lib import RNG
from contracts.common import *

M = "sorcha.utilities.sorchaModuleRNG:PerModuleRNG"


class GhostMap:
    """the mapping name -> generator in an arbitrary state of the collection"""

    def __init__(self, V, tag):
        self.V, self.fresh = V, False
        self.present = z3.Function(V.ctx.fresh_name("has_" + tag), z3.StringSort(), z3.BoolSort())
        self.log = []  # (name term, rng) stores
        self.made = []  # (name term, rng) generators read from the initial state
        self.seed = None
        self.others = []

    def _has(self, t):
        return z3.Or([self.present(t)] + [t == n for n, _ in self.log])

    def sym_contains(self, I, x):
        return SV("bool", self._has(z3.StringVal(x) if isinstance(x, str) else x.t))

    def sym_len(self, I):
        """how many modules have asked so far"""
        if self.fresh:
            return len(self.log)
        n = I.ctx.fresh("n_streams", "int")
        I.ctx.assume(n >= 0)
        return SV("int", n)

    def sym_getitem(self, I, k):
        t = z3.StringVal(k) if isinstance(k, str) else k.t
        for n, v in reversed(self.log):
            if I.ctx.branch(n == t):
                return v
        if not I.ctx.branch(self.present(t)):
            raise PyExc("KeyError")
        for n, v in self.made:
            if I.ctx.branch(n == t):
                return v
        r = RNG("stored")
        r.seed, r.stored = SV("int", self.seed(t)), True
        self.made.append((t, r))
        return r

    def sym_setitem(self, I, k, v):
        t = z3.StringVal(k) if isinstance(k, str) else k.t
        self.log.append((t, v))

    def sym_getattr(self, I, name):
        if name == "get":
            def get(I, a, k):
                d = a[1] if len(a) > 1 else None
                return self.sym_getitem(I, a[0]) if I.ctx.branch(self.sym_contains(I, a[0]).t) else d
            return Prim(get, "get")
        if name == "setdefault":
            def sd(I, a, k):
                if I.ctx.branch(self.sym_contains(I, a[0]).t):
                    return self.sym_getitem(I, a[0])
                self.sym_setitem(I, a[0], a[1])
                return a[1]
            return Prim(sd, "setdefault")
        if name == "keys":
            return Prim(lambda I, a, k: self, "keys")
        return NotImplemented


def rng_stub(V, made):
    def default_rng(I, a, k):
        r = RNG("new")
        s = a[0] if a else k.get("seed")
        r.seed = L.lift(s) if s is not None else None
        r.stored = False
        made.append(r)
        return r

    V.stub("numpy.random.default_rng", default_rng)


from pyvc import lib as L


@contract("C17", M + ".getModuleRNG", target="stream", nfi=True)
def get(V):
    base = V.int("base_seed")
    name, other = V.str("name"), V.str("other")
    logging = V.pick("logger", [False, True])
    made = []
    rng_stub(V, made)
    pl = L.Logger() if logging else None
    P = V.get(M)
    # what a fresh collection hands out for this name
    out0 = V.call_fn(P, base, pl)
    if not V.returns(out0, "constructor returns"):
        return
    V.ensure("base seed stored, nothing drawn", not made)
    for k, v in list(out0.value.attrs.items()):
        if isinstance(v, dict) and not v:
            out0.value.attrs[k] = GhostMap(V, "fresh")
            out0.value.attrs[k].fresh = True
            out0.value.attrs[k].present = lambda t: z3.BoolVal(False)
    f0 = V.call_fn(V.get(M + ".getModuleRNG"), out0.value, name)
    if not V.returns(f0, "fresh request returns"):
        return
    S0 = f0.value.seed
    V.ensure("stream seeded deterministically", S0 is not None)
    if S0 is None:
        return
    # any later state of a collection with the same base seed
    n0 = len(made)
    g = GhostMap(V, "rngs")
    Sf = z3.Function("S", z3.StringSort(), z3.IntSort())
    g.seed = Sf
    V.pre(Sf(name.t) == S0.t)
    o = V.call_fn(P, base, pl).value
    key = [k for k, v in o.attrs.items() if isinstance(v, dict) and not v]
    V.ensure("collection starts empty", len(key) >= 1)
    for k in key:
        o.attrs[k] = g
    had_other = g.present(other.t)
    f1 = V.call_fn(V.get(M + ".getModuleRNG"), o, name)
    if not V.returns(f1, "request returns"):
        return
    r1 = f1.value
    V.ensure("seed depends only on base seed and name", r1.seed is not None and r1.seed.t == S0.t)
    V.ensure("a stream already handed out is continued", z3.Implies(g.present(name.t), z3.BoolVal(bool(r1.stored))))
    V.ensure("other modules' streams are left alone", z3.Or([z3.BoolVal(True)]) if not g.log else z3.And([n == name.t for n, _ in g.log]))
    V.ensure("an existing stream is never replaced", z3.Implies(g.present(name.t), z3.BoolVal(not g.log)))
    # a second request continues the very same stream
    f2 = V.call_fn(V.get(M + ".getModuleRNG"), o, name)
    if V.returns(f2, "second request returns"):
        V.ensure("same generator again", f2.value is r1)
    # a request for another name does not disturb it
    f3 = V.call_fn(V.get(M + ".getModuleRNG"), o, other)
    if V.returns(f3, "request by another module returns"):
        V.ensure("another module has its own generator", z3.Implies(other.t != name.t, z3.BoolVal(f3.value is not r1)))
        f4 = V.call_fn(V.get(M + ".getModuleRNG"), o, name)
        V.ensure("and leaves this one's stream", f4.exc is None and f4.value is r1)
    V.ensure("no draw is made by handing out streams", all(not r.__dict__.get("log") for r in made))


@contract("C17", M + ".getModuleRNG", name="PerModuleRNG distinct names", target="names", nfi=False)
def distinct(V):
    """names that differ in any way have seeds of their own, up to a collision
    of the digest itself (idealised here: two different texts have different
    digests, and these stay different modulo 2**31)"""
    base = V.int("base_seed", lo=0)
    name, other = V.str("name"), V.str("other")
    V.pre(name.t != other.t)
    made, texts = [], []
    rng_stub(V, made)

    def digest(alg):
        g = z3.Function("hash_" + alg, z3.StringSort(), z3.IntSort())

        def f(I, a, k):
            if not a:
                raise Unsupported("incremental digest")
            t = L.to_str_term(a[0])
            for alg2, g2, u in texts:
                if alg2 == alg:
                    I.ctx.assume(z3.Implies(u != t, g(u) != g(t)))
            I.ctx.assume(z3.And(g(t) >= 0, g(t) < 2 ** 31))
            texts.append((alg, g, t))
            return Obj(alg, hexdigest=Prim(lambda I, a, k: L.HexVal(g(t)), "hexdigest"))

        return f

    for alg in ("md5", "sha1", "sha256", "sha512"):
        V.stub("hashlib." + alg, digest(alg))
    r = []
    for nm in (name, other):
        o = V.call_fn(V.get(M), base)
        if not V.returns(o, "constructor returns"):
            return
        for k, v in list(o.value.attrs.items()):
            if isinstance(v, dict) and not v:
                o.value.attrs[k] = g = GhostMap(V, "fresh")
                g.fresh, g.present = True, lambda t: z3.BoolVal(False)
        r.append(V.call_fn(V.get(M + ".getModuleRNG"), o.value, nm))
    if V.returns(r[0], "request returns") and V.returns(r[1], "request returns"):
        a, b = (x.value.seed for x in r)
        V.ensure("different names, different seeds", a is not None and b is not None and a.t != b.t)


@contract("C17", "sorcha.utilities.sorchaArguments:sorchaArguments", name="run seed", target="run")
def run_seed(V):
    """the streams of a run are those of the seed it is given"""
    base, name = V.int("base_seed", lo=0), V.str("name")
    how = V.pick("arguments", ["to the constructor", "read later"])
    made = []
    rng_stub(V, made)
    V.stub("os.urandom", lambda I, a, k: L.Opaque("entropy"))
    fresh = V.int("entropy", lo=0)
    V.stub("int.from_bytes", lambda I, a, k: fresh)
    keys = ("paramsinput", "orbinfile", "configfile", "outpath", "outfilestem", "pointing_database", "stats", "visits_database", "surveyname")
    cmd = dict({k: "x" for k in keys}, loglevel=False, seed=base)
    A = V.get("sorcha.utilities.sorchaArguments:sorchaArguments")
    if how == "to the constructor":
        out = V.call_fn(A, cmd)
    else:
        out = V.call_fn(A)
        if V.returns(out, "can be made empty"):
            a = out.value
            out = V.call_fn(V.I.getattr(a, "read_from_dict"), cmd)
            out.value = a
    if not V.returns(out, "the arguments are taken over"):
        return
    V.ensure("nothing drawn", not made)
    seeds = []
    for P in (out.value.attrs["_rngs"], V.call_fn(V.get(M), base).value):
        for k, v in list(P.attrs.items()):
            if isinstance(v, dict) and not v:
                P.attrs[k] = g = GhostMap(V, "fresh")
                g.fresh, g.present = True, lambda t: z3.BoolVal(False)
        f = V.call_fn(V.get(M + ".getModuleRNG"), P, name)
        if not V.returns(f, "request returns"):
            return
        seeds.append(f.value.seed)
    V.ensure("streams of the seed given", all(s is not None for s in seeds) and seeds[0].t == seeds[1].t)
