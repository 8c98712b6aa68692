"""C16 Existing outputs are never overwritten without permission.

Ghost state: the file system, a function path -> exists.  glob.glob is by its
documented contract the duplicate-free list of exactly the existing paths that
match; for an escaped literal prefix the matching paths are known exactly."""
from pyvc.contract import contract
from pyvc.lib import Iter
from contracts.common import *

M = "sorcha.utilities.sorchaCommandLineParser"
S = z3.StringSort()
esc = z3.Function("glob_escape", S, S)
join = z3.Function("path_join", S, S, S)
under = z3.Function("is_stem_dot_something", S, S, z3.BoolSort())  # p is <stem>.<anything without separator>
anymatch = z3.Function("glob_match", S, S, z3.BoolSort())
isfile = z3.Function("isfile", S, z3.BoolSort())
isdir = z3.Function("isdir", S, z3.BoolSort())


def T(v):
    if isinstance(v, SV) and v.sort == "str":
        return v.t
    if isinstance(v, str):
        return z3.StringVal(v)
    raise Unsupported("path expression")


def match(pat, p):
    """does the path p match the pattern"""
    if z3.is_app(pat) and pat.decl().kind() == z3.Z3_OP_SEQ_CONCAT and pat.num_args() == 2:
        a, b = pat.arg(0), pat.arg(1)
        if a.decl().eq(esc) and z3.is_string_value(b):
            b = b.as_string()
            if b == ".*":
                return under(a.arg(0), p)
            if not any(ch in b for ch in "*?[]/"):
                return p == z3.Concat(a.arg(0), z3.StringVal(b))
    return anymatch(pat, p)


class FS:
    """the file system: paths that exist, changed only through the calls below"""

    def __init__(self, V):
        self.V, self.c = V, V.ctx
        e0 = z3.Function("exists0", S, z3.BoolSort())
        self.e0 = e0
        self.state = lambda p: e0(p)
        self.globs = []
        self.changed = False
        for nm in ("glob.escape",):
            V.stub(nm, lambda I, a, k: SV("str", esc(T(a[0]))))
        V.stub("os.path.join", lambda I, a, k: SV("str", join(T(a[0]), T(a[1]))))
        V.stub("os.path.exists", lambda I, a, k: SV("bool", self.state(T(a[0]))))
        V.stub("os.path.isfile", lambda I, a, k: SV("bool", z3.And(self.state(T(a[0])), isfile(T(a[0])))))
        V.stub("os.path.isdir", lambda I, a, k: SV("bool", z3.And(self.state(T(a[0])), isdir(T(a[0])))))
        V.stub("glob.glob", lambda I, a, k: Globbed(self, T(a[0])))
        for nm in ("os.remove", "os.unlink"):
            V.stub(nm, self.remove)

    def remove(self, I, a, k):
        p = T(a[0])
        if not self.c.branch(self.state(p)):
            raise PyExc("FileNotFoundError")
        old = self.state
        self.state = lambda x: z3.And(old(x), x != p)
        self.changed = True


class Globbed:
    """the list glob.glob returned"""

    def __init__(self, fs, pat):
        c = fs.c
        self.fs, self.pat = fs, pat
        self.n = c.fresh("n_matches", "int")
        self.before = fs.state
        self.g = z3.Function(c.fresh_name("match"), z3.IntSort(), S)
        self.ix = z3.Function(c.fresh_name("match_index"), S, z3.IntSort())
        c.assume(self.n >= 0)
        c.assume(z3.Implies(self.n > 0, self.element(z3.IntVal(0))))
        fs.globs.append(self)

    def element(self, k):
        g = self.g(k)
        return z3.And(self.before(g), match(self.pat, g), self.ix(g) == k)

    def complete(self, p):
        """p matches and exists -> p is in the list"""
        i = self.ix(p)
        return z3.Implies(z3.And(self.before(p), match(self.pat, p)), z3.And(i >= 0, i < self.n, self.g(i) == p))

    def sym_truth(self, I):
        return I.ctx.branch(self.n > 0)

    def sym_len(self, I):
        return SV("int", self.n)

    def sym_getitem(self, I, k):
        kk = to_int(k)
        if not I.ctx.branch(z3.And(kk >= -self.n, kk < self.n)):
            raise PyExc("IndexError")
        i = z3.If(kk < 0, kk + self.n, kk)
        I.ctx.assume(self.element(i))
        return SV("str", self.g(i))

    def sym_iter(self, I):
        def item(k):
            I.ctx.assume(self.element(k))
            return SV("str", self.g(k))

        it = Iter(self.n, item)
        start = self.fs.state

        def at(k):
            """after k removals of a loop over the list: exactly the first k are gone"""
            return lambda p: z3.And(start(p), z3.Not(z3.And(self.before(p), match(self.pat, p), self.ix(p) < k)))

        def inv(env, k, I):
            p = I.ctx.fresh("any_path", "str")
            return [("exactly the first k matches are removed, nothing else touched",
                     z3.Implies(self.complete(p), self.fs.state(p) == at(k)(p)))]

        def havoc(k):
            self.fs.state = at(k)
            self.fs.changed = True

        inv.havoc = havoc
        it.inv = inv
        return it


def refused(out):
    return out.exc == "SystemExit"


@contract("C16", M + ":warn_or_remove_file", target="guard")
def guard(V):
    fs = FS(V)
    stem = V.str("stem")
    suffix = V.pick("suffix", [".*", ".csv"])
    force = V.bool("force")
    pat = SV("str", z3.Concat(esc(stem.t), z3.StringVal(suffix)))
    out = V.call(pat, force, L.Logger())
    hit = lambda p: match(pat.t, p)
    p = V.ctx.fresh("p", "str")
    facts = z3.And([g.complete(p) for g in fs.globs] or [z3.BoolVal(True)])
    if out.exc is None:
        V.ensure("without force, returns only when nothing collides", z3.Implies(z3.And(facts, z3.Not(force.t)), z3.Not(z3.And(fs.e0(p), hit(p)))))
        V.ensure("exactly the colliding files are gone", z3.Implies(facts, fs.state(p) == z3.And(fs.e0(p), z3.Not(hit(p)))))
    else:
        V.ensure("refuses by exiting", refused(out))
        V.ensure("never refuses with force", z3.Not(force.t))
        V.ensure("refuses only for an existing file", z3.Or([z3.And(g.n > 0, fs.e0(g.g(z3.IntVal(0))), hit(g.g(z3.IntVal(0)))) for g in fs.globs]))
        V.ensure("nothing touched on refusal", z3.Implies(facts, fs.state(p) == fs.e0(p)))


from pyvc import lib as L


@contract("C16", "sorcha.utilities.fileAccessUtils:FindFileOrExit", target="find")
def find_file(V):
    fs = FS(V)
    f = V.str("path")
    out = V.call(f, "-x")
    V.ensure("returns iff it exists", (fs.e0(f.t) if out.exc is None else z3.Not(fs.e0(f.t))))
    V.ensure("refuses by exiting", out.exc is None or refused(out))
    if out.exc is None:
        V.ensure("the name itself", out.value.t == f.t)
    V.ensure("touches nothing", not fs.changed)


@contract("C16", "sorcha.utilities.fileAccessUtils:FindDirectoryOrExit", target="find")
def find_dir(V):
    fs = FS(V)
    f = V.str("path")
    out = V.call(f, "-x")
    there = z3.And(fs.e0(f.t), isdir(f.t))
    V.ensure("returns iff it is a directory", (there if out.exc is None else z3.Not(there)))
    V.ensure("refuses by exiting", out.exc is None or refused(out))
    if out.exc is None:
        V.ensure("the name itself", out.value.t == f.t)
    V.ensure("touches nothing", not fs.changed)


@contract("C16", M + ":sorchaCommandLineParser", target="parser")
def parser(V):
    fs = FS(V)
    s = {k: V.str(k) for k in ("p", "ob", "c", "o", "pd", "s", "t")}
    opt = {}
    for k in ("cp", "er", "ew", "vd", "st", "ar"):
        opt[k] = V.pick(k, [False, True])
        opt[k] = V.str(k) if opt[k] else None
        if opt[k] is not None:
            V.pre(z3.Length(opt[k].t) > 0)
    force = V.bool("f")
    guarded = []

    def guard_contract(I, vals):
        """proved above"""
        pat, f = T(vals["filepath"]), vals["force_remove"]
        g = Globbed(fs, pat)
        guarded.append(g)
        before = fs.state
        if I.ctx.branch(g.n > 0):
            if I.ctx.branch(I.truth_term(f) if hasattr(I, "truth_term") else to_bool_term(f)):
                fs.state = lambda p: z3.And(before(p), z3.Not(match(pat, p)))
                fs.changed = True
            else:
                raise PyExc("SystemExit")
        return None

    V.use(M + ":warn_or_remove_file", guard_contract)
    args = Obj("args", l=V.pick("l", [True]), f=force, **s, **opt)
    out = V.call(args)
    p = V.ctx.fresh("p", "str")
    facts = z3.And([g.complete(p) for g in fs.globs] or [z3.BoolVal(True)])
    o = s["o"].t
    coll = [under(join(o, s["t"].t), p)]
    if opt["ew"] is not None:
        coll.append(under(join(o, opt["ew"].t), p))
    if opt["st"] is not None:
        coll.append(p == z3.Concat(join(o, opt["st"].t), z3.StringVal(".csv")))
    coll = z3.Or(coll)
    needed = [s[k].t for k in ("p", "ob", "c", "o", "pd")] + [opt[k].t for k in ("cp", "vd") if opt[k] is not None]
    present = z3.And([fs.e0(t) for t in needed])
    if out.exc is None:
        V.ensure("every input given exists", present)
        if opt["ar"] is not None:
            V.ensure("the auxiliary data directory exists", z3.And(fs.e0(opt["ar"].t), isdir(opt["ar"].t)))
        V.ensure("without force, starts only when no output collides", z3.Implies(z3.And(facts, z3.Not(force.t)), z3.Not(z3.And(fs.e0(p), coll))))
        V.ensure("exactly the colliding outputs are removed, nothing else is touched", z3.Implies(facts, fs.state(p) == z3.And(fs.e0(p), z3.Not(coll))))
    else:
        V.ensure("refuses by exiting", refused(out))
        V.ensure("without force nothing is touched", z3.Implies(z3.And(facts, z3.Not(force.t)), fs.state(p) == fs.e0(p)))
        V.ensure("with force only colliding files are touched", z3.Implies(facts, z3.Or(coll, fs.state(p) == fs.e0(p))))
        w = [z3.And(g.n > 0, fs.e0(g.g(z3.IntVal(0))), z3.substitute(coll, (p, g.g(z3.IntVal(0))))) for g in guarded]
        ar_missing = z3.Not(z3.And(fs.state(opt["ar"].t), isdir(opt["ar"].t))) if opt["ar"] is not None else z3.BoolVal(False)
        V.ensure("refuses only a missing input or an existing output", z3.Or([z3.Not(present), z3.And(z3.Not(force.t), z3.Or(w + [z3.BoolVal(False)])), ar_missing]))


@contract("C16", "sorcha.utilities.sorchaArguments:sorchaArguments", name="run arguments", target="arguments")
def arguments(V):
    """the run that follows reads and writes exactly the files that were
    checked: command line -> parser -> run arguments"""
    fs = FS(V)
    s = {k: V.str(k) for k in ("p", "ob", "c", "o", "pd", "s", "t")}
    opt = {}
    for k in ("cp", "er", "ew", "vd", "st", "ar"):
        opt[k] = V.str(k) if V.pick("has_" + k, [False, True]) else None
        if opt[k] is not None:
            V.pre(z3.Length(opt[k].t) > 0)
    V.use(M + ":warn_or_remove_file", lambda I, vals: None)
    V.stub("os.urandom", lambda I, a, k: L.Opaque("entropy"))
    seed = V.int("entropy", lo=0)
    V.stub("int.from_bytes", lambda I, a, k: seed)
    parsed = V.call_fn(V.get(M + ":sorchaCommandLineParser"), Obj("args", l=True, f=V.bool("f"), **s, **opt))
    if parsed.exc is not None:
        return
    out = V.call(parsed.value)
    if not V.returns(out, "the arguments are taken over"):
        return
    o = out.value.attrs
    for attr, v in {"paramsinput": s["p"], "orbinfile": s["ob"], "configfile": s["c"], "outpath": s["o"], "outfilestem": s["t"], "pointing_database": s["pd"], "surveyname": s["s"], "stats": opt["st"],
                    "output_ephemeris_file": opt["ew"], "input_ephemeris_file": opt["er"], "visits": opt["vd"], "ar_data_file_path": opt["ar"]}.items():
        w = o.get(attr)
        V.ensure(f"{attr} is the one given", w is None if v is None else isinstance(w, SV) and w.sort == "str" and w.t == v.t)
    if opt["cp"] is not None:
        w = o.get("complex_parameters")
        V.ensure("complex_parameters is the one given", isinstance(w, SV) and w.t == opt["cp"].t)


@contract("C16", "sorcha.utilities.sorchaArguments:sorchaArguments.validate_arguments", target="validate")
def validate(V):
    """the run stops iff a file it needs is not there"""
    fs = FS(V)
    must = {n: V.str(n) for n in ("paramsinput", "orbinfile", "pointing_database")}
    may = {n: (V.str(n) if V.pick("has_" + n, [False, True]) else None) for n in ("input_ephemeris_file", "configfile", "ar_data_file_path")}
    for n in ("input_ephemeris_file", "ar_data_file_path"):
        if may[n] is not None:
            V.pre(z3.Length(may[n].t) > 0)
    made = V.call_fn(V.get("sorcha.utilities.sorchaArguments:sorchaArguments"))
    if not V.returns(made, "can be made empty"):
        return
    made.value.attrs.update({**must, **may})
    out = V.call(made.value)
    is_file = lambda v: z3.And(fs.e0(v.t), isfile(v.t))
    there = [is_file(v) for v in must.values()] + [is_file(may[n]) for n in ("input_ephemeris_file", "configfile") if may[n] is not None]
    if may["ar_data_file_path"] is not None:
        there.append(z3.And(fs.e0(may["ar_data_file_path"].t), isdir(may["ar_data_file_path"].t)))
    there = z3.And(there)
    V.ensure("stops iff a needed file is missing", there if out.exc is None else z3.Not(there))
    V.ensure("with an error", out.exc in (None, "ValueError"))
    V.ensure("touches nothing", not fs.changed)


from contracts.glue import glue
glue("C16")
