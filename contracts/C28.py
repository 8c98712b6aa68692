"""C28 Plug-in light-curve and activity models are selected by unique name.

The subclasses present when a registry is built or brought up to date are an
arbitrary sequence of models 0..n-1; model i has the name N(i).  A registry maps
names to models and is in an arbitrary state: `reg` maps a registered name to its
model.  The columns of a table are an arbitrary set of names."""
from pyvc.contract import contract
from pyvc import lib as L
from contracts.common import *

STR, INT, BOOL = z3.StringSort(), z3.IntSort(), z3.BoolSort()
KINDS = {
    "activity": ("sorcha.activity.activity_registration", "AbstractCometaryActivity", "CA_METHODS", "register_activity_subclasses", "update_activity_subclasses",
                 "sorcha.activity.base_activity:AbstractCometaryActivity", "sorcha.activity.identity_activity:IdentityCometaryActivity"),
    "lightcurve": ("sorcha.lightcurves.lightcurve_registration", "AbstractLightCurve", "LC_METHODS", "register_lc_subclasses", "update_lc_subclasses",
                   "sorcha.lightcurves.base_lightcurve:AbstractLightCurve", "sorcha.lightcurves.identity_lightcurve:IdentityLightCurve"),
}


def sterm(x):
    return z3.StringVal(x) if isinstance(x, str) else x.t


class Model:
    """a model class; idx is its identity"""

    def __init__(self, idx, N, calls=None, result=None):
        self.idx, self.N, self.calls, self.result = idx, N, calls, result

    def sym_getattr(self, I, name):
        if name == "name_id":
            return Prim(lambda I, a, k: SV("str", self.N(self.idx)), "name_id")
        if name in ("__name__", "__qualname__", "__module__"):
            return L.Opaque(name)
        return NotImplemented

    def sym_truth(self, I):
        return True

    def sym_call(self, I, a, k):
        def compute(I, a2, k2):
            self.calls.append((self.idx, a2, k2))
            return self.result(a2)

        return Obj("model", compute=Prim(compute, "compute"))


class Registry:
    """a mapping from names to models in an arbitrary state"""

    def __init__(self, ctx, N, empty=False, calls=None, result=None):
        self.ctx, self.N, self.calls, self.result = ctx, N, calls, result
        self.havoc(ctx, "registry")
        if empty:
            self.base = lambda s: z3.BoolVal(False)

    def havoc(self, ctx, name):
        p = z3.Function(ctx.fresh_name("registered"), STR, BOOL)
        self.base = lambda s: p(s)
        self.val = z3.Function(ctx.fresh_name("reg"), STR, INT)
        self.log = []
        return self

    def present(self, s):
        return z3.Or([self.base(s)] + [s == n for n, _ in self.log])

    def reg(self, s):
        t = self.val(s)
        for n, i in self.log:
            t = z3.If(s == n, i, t)
        return t

    def sym_contains(self, I, x):
        return SV("bool", self.present(sterm(x)))

    def model(self, s):
        return Model(self.reg(s), self.N, self.calls, self.result)

    def sym_getitem(self, I, k):
        if not I.ctx.branch(self.present(sterm(k))):
            raise PyExc("KeyError")
        return self.model(sterm(k))

    def sym_setitem(self, I, k, v):
        if not isinstance(v, Model):
            raise Unsupported("something else than a model in the registry")
        self.log.append((sterm(k), v.idx))

    def sym_getattr(self, I, name):
        def get(I, a, k):
            if I.ctx.branch(self.present(sterm(a[0]))):
                return self.model(sterm(a[0]))
            return a[1] if len(a) > 1 else None

        def setdefault(I, a, k):
            if not I.ctx.branch(self.present(sterm(a[0]))):
                self.sym_setitem(I, a[0], a[1])
            return self.model(sterm(a[0]))

        if name in ("get", "setdefault"):
            return Prim({"get": get, "setdefault": setdefault}[name], name)
        if name == "keys":
            return Prim(lambda I, a, k: self, "keys")
        return NotImplemented

    def sym_iter(self, I):
        n = I.ctx.fresh("n_names", "int")
        I.ctx.assume(n >= 0)
        f = z3.Function(I.ctx.fresh_name("a_name"), INT, STR)
        return Iter(n, lambda k: SV("str", f(k)))


class Subclasses:
    def __init__(self, n, N):
        self.n, self.N = n, N

    def sym_getattr(self, I, name):
        if name == "__subclasses__":
            return Prim(lambda I, a, k: self, name)
        return NotImplemented

    def sym_iter(self, I):
        return Iter(self.n.t, lambda k: Model(k, self.N))


def build(kind):
    mod, base, table, reg, upd, _, _ = KINDS[kind]

    @contract("C28", f"{mod}:{reg}", target="register", name=f"{kind}.register")
    def register(V):
        c = V.ctx
        n = V.int("n_models", 0)
        N = z3.Function("name_of", INT, STR)
        V.patch(mod, base, Subclasses(n, N))
        i0, j0, s0 = V.int("i0", record=False).t, V.int("j0", record=False).t, V.str("s0").t
        st = {}

        def inv(env, k, I):
            for nm, v in list(env.vars.items()):
                if isinstance(v, dict) and not v:
                    env.vars[nm] = Registry(I.ctx, N, empty=True)
            R = [v for v in env.vars.values() if isinstance(v, Registry)]
            if len(R) != 1:
                raise Unsupported("which variable is the registry?")
            R = st["R"] = R[0]
            done = lambda i: z3.Implies(z3.And(i >= 0, i < k), z3.And(R.present(N(i)), R.reg(N(i)) == i))
            return [("every model so far under its name", done(i0)), ("and another one", done(j0)), ("nothing else", own(R, s0, k))]

        def own(R, s, k):
            return z3.Implies(R.present(s), z3.And(R.reg(s) >= 0, R.reg(s) < k, N(R.reg(s)) == s))

        def at(k):
            st["k"] = k
            c.assume(own(st["R"], N(k), k))

        inv.havoc = at
        V.invariant(f"{mod}:{reg}", 0, inv)
        out = V.call()
        if out.exc is not None:
            V.ensure("refused with an error", out.exc == "ValueError")
            w, k = st["R"].reg(N(st["k"])), st["k"]
            V.ensure("only when two models have the same name", z3.And(w >= 0, w < k, k < n.t, N(w) == N(k)))
            return
        R = out.value
        V.ensure("a registry", isinstance(R, Registry))
        if not isinstance(R, Registry):
            return
        V.ensure("two models of the same name are refused", z3.Implies(z3.And(i0 >= 0, i0 < n.t, j0 >= 0, j0 < n.t, i0 != j0), N(i0) != N(j0)))
        V.ensure("every model is selectable by its own name", z3.Implies(z3.And(i0 >= 0, i0 < n.t), z3.And(R.present(N(i0)), R.reg(N(i0)) == i0)))
        V.ensure("no other name is", z3.Implies(R.present(s0), z3.And(R.reg(s0) >= 0, R.reg(s0) < n.t, N(R.reg(s0)) == s0)))

    @contract("C28", f"{mod}:{upd}", target="update", name=f"{kind}.update")
    def update(V):
        c = V.ctx
        n = V.int("n_models", 0)
        N = z3.Function("name_of", INT, STR)
        V.patch(mod, base, Subclasses(n, N))
        R = Registry(c, N)
        p0, v0 = R.base, R.val
        V.patch(mod, table, R)
        i0, s0 = V.int("i0", record=False).t, V.str("s0").t

        def inv(env, k, I):
            own = z3.And(R.reg(s0) >= 0, R.reg(s0) < k, N(R.reg(s0)) == s0)
            return [("every model so far has its name taken", z3.Implies(z3.And(i0 >= 0, i0 < k), R.present(N(i0)))),
                    ("registered models stay", z3.Implies(p0(s0), z3.And(R.present(s0), R.reg(s0) == v0(s0)))),
                    ("new ones are models of that name", z3.Implies(z3.And(R.present(s0), z3.Not(p0(s0))), own))]

        V.invariant(f"{mod}:{upd}", 0, inv)
        out = V.call()
        if not V.returns(out):
            return
        V.ensure("registered models keep their names", z3.Implies(p0(s0), z3.And(R.present(s0), R.reg(s0) == v0(s0))))
        V.ensure("new models are selectable by their own name", z3.Implies(z3.And(i0 >= 0, i0 < n.t), R.present(N(i0))))
        V.ensure("and by no other", z3.Implies(z3.And(R.present(s0), z3.Not(p0(s0))), z3.And(R.reg(s0) >= 0, R.reg(s0) < n.t, N(R.reg(s0)) == s0)))

    b = KINDS[kind][5]

    @contract("C28", b + "._validate_column_names", target="columns", name=f"{kind}.columns")
    def columns(V):
        n = V.int("n_required", 0)
        A = V.arr("required", n.t, "str")
        has = z3.Function("has_column", STR, BOOL)

        class Columns:
            def sym_contains(self, I, x):
                return SV("bool", has(sterm(x)))

        df = Obj("DataFrame", columns=Columns())
        i0 = V.int("i0", record=False).t
        st = {}

        def inv(env, k, I):
            return [("all columns so far", z3.Implies(z3.And(i0 >= 0, i0 < k), has(z3.Select(A.arr, i0))))]

        inv.havoc = lambda k: st.__setitem__("k", k)
        V.invariant(b + "._validate_column_names", 0, inv)
        o = Obj(V.get(b))
        o.attrs["required_column_names"] = A
        out = V.call(o, df)
        if out.exc is not None:
            V.ensure("refused with an error", out.exc in ("ValueError", "SystemExit"))
            V.ensure("only when a required column is missing", z3.And(st["k"] >= 0, st["k"] < n.t, z3.Not(has(z3.Select(A.arr, st["k"])))) if "k" in st else False)
            return
        V.ensure("every required column is there", z3.Implies(z3.And(i0 >= 0, i0 < n.t), has(z3.Select(A.arr, i0))))


for k_ in KINDS:
    build(k_)


@contract("C28", "sorcha.lightcurves.identity_lightcurve:IdentityLightCurve", target="identity", name="lightcurve.identity")
def identity_lc(V):
    there = V.pick("time_column", [True, False])
    df = V.frame("df", {"ObjID": "str", **({"fieldMJD_TAI": "real"} if there else {})})
    inp = df.copy()
    m = V.call()
    if not V.returns(m, "can be made"):
        return
    out = V.call_fn(V.I.getattr(m.value, "compute"), df)
    if not there:
        V.ensure("a missing column is refused", out.exc == "ValueError")
        return
    if V.returns(out):
        r = V.row(inp)
        V.ensure("no change of magnitude, for every row", isinstance(out.value, L.Col) and out.value.view.space is inp.view.space)
        if isinstance(out.value, L.Col):
            V.ensure("zero", z3.And(out.value.fn(r).t == 0, out.value.view.keep(r) == inp.view.keep(r)))
        V.ensure("the table is left alone", set(df.cols) == set(inp.cols))
        V.ensure_columns_same(df, inp.cols, r)


@contract("C28", "sorcha.activity.identity_activity:IdentityCometaryActivity", target="identity", name="activity.identity")
def identity_ca(V):
    df = V.frame("df", {"ObjID": "str", "fieldMJD_TAI": "real"})
    inp = df.copy()
    m = V.call()
    if not V.returns(m, "can be made"):
        return
    out = V.call_fn(V.I.getattr(m.value, "compute"), df, ["r"], Opaque("rho"), Opaque("delta"), Opaque("alpha"))
    if V.returns(out, "accepts what Sorcha passes to an activity model"):
        V.ensure_filter(out.value, inp, lambda r: z3.BoolVal(True), reset=False, what="detections")


def chosen(V, result):
    N = z3.Function("name_of", INT, STR)
    calls = []
    R = Registry(V.ctx, N, calls=calls, result=result)
    name = V.str("choice")
    V.pre(name.t != z3.StringVal(""))
    return R, name, calls


@contract("C28", "sorcha.modules.PPCalculateSimpleCometaryMagnitude:PPCalculateSimpleCometaryMagnitude", target="select", name="activity.select")
def select_ca(V):
    res = Opaque("adjusted table")
    R, name, calls = chosen(V, lambda a: res)
    V.patch("sorcha.modules.PPCalculateSimpleCometaryMagnitude", "CA_METHODS", R)
    df = V.frame("df", {"ObjID": "str"})
    inp = df.copy()
    args = [["r"], Opaque("rho"), Opaque("delta"), Opaque("alpha")]
    none = V.pick("no_activity", [False, True])
    out = V.call(df, *args, activity_choice=None if none else name)
    if none:
        if V.returns(out):
            V.ensure("no model used", not calls)
            V.ensure_filter(out.value, inp, lambda r: z3.BoolVal(True), reset=False, what="detections")
        return
    V.ensure("a registered model is used", z3.Implies(R.present(name.t), z3.BoolVal(out.exc is None and len(calls) == 1 and out.value is res)))
    if calls:
        idx, a, k = calls[0]
        V.ensure("the model of that very name", z3.And(R.present(name.t), idx == R.reg(name.t)))
        V.ensure("applied to these detections", len(a) == 5 and a[0] is df and not k and all(x is y for x, y in zip(a[1:], args)))


@contract("C28", "sorcha.modules.PPCalculateApparentMagnitudeInFilter:PPCalculateApparentMagnitudeInFilter", target="select", name="lightcurve.select")
def select_lc(V):
    dm = z3.Function("lc_shift", INT, z3.RealSort())
    R, name, calls = chosen(V, lambda a: L.Col(a[0].view, lambda r: SV("real", dm(r)), "array"))
    V.patch("sorcha.modules.PPCalculateApparentMagnitudeInFilter", "LC_METHODS", R)
    df = V.frame("df", {"Range_LTC_km": "real", "Obj_Sun_LTC_km": "real", "phase_deg": "real", "H_filter": "real"})
    V.pre_rows(df, lambda r: z3.And(df.cols["Range_LTC_km"](r).t > 0, df.cols["Obj_Sun_LTC_km"](r).t > 0))
    inp = df.copy()
    out = V.call(df, "none", ["r"], lightcurve_choice=name)
    V.ensure("a registered model is used", z3.Implies(R.present(name.t), z3.BoolVal(out.exc is None and len(calls) == 1)))
    if calls and out.exc is None:
        V.ensure("the model of that very name", z3.And(R.present(name.t), calls[0][0] == R.reg(name.t)))
        r = V.row(inp)
        V.pre(inp.view.inside(r))
        V.ensure("its change of magnitude is reported", "Delta_m" in out.value.cols and z3.is_true(z3.simplify(out.value.cols["Delta_m"](r).t == dm(r))))


def section(cls, table, key):
    @contract("C28", "sorcha.utilities.sorchaConfigs:" + cls, target="config", name=cls)
    def validate(V):
        N = z3.Function("name_of", INT, STR)
        R = Registry(V.ctx, N)
        V.patch("sorcha.utilities.sorchaConfigs", table, R)
        name = V.str("choice")
        out = V.call(**{key: name})
        none = name.t == z3.StringVal("none")
        if out.exc is not None:
            V.ensure("refused with an error message", out.exc == "SystemExit")
            V.ensure("only a name that is not registered", z3.And(z3.Not(none), z3.Not(R.present(name.t))))
            return
        v = V.I.getattr(out.value, key)
        V.ensure("a name that is not registered is refused", z3.Or(none, R.present(name.t)))
        V.ensure("none means no model", z3.BoolVal(v is None) == none)
        if v is not None:
            V.ensure("the chosen name", v.t == name.t)
        out = V.call()
        V.ensure("no model by default", out.exc is None and V.I.getattr(out.value, key) is None)


section("lightcurveConfigs", "LC_METHODS", "lc_model")
section("activityConfigs", "CA_METHODS", "comet_activity")


@contract("C28", "sorcha_cmdline.run:execute", target="execute", name="run.order")
def execute(V):
    """add-on models are registered before the configuration that names them is checked"""
    seen = []
    survey = V.pick("survey", ["rubin_sim", "RUBIN_SIM", "DES", "des", "LSST", "lsst", "unknown"])
    lc, ca = V.pick("lc_model", [None, "model"]), V.pick("comet_activity", [None, "model"])
    cpp = V.pick("complex_parameters", [None, "file"])
    log = L.Logger()
    cmd = {"configfile": "config", "surveyname": survey, "input_ephemeris_file": None, "complex_physical_parameters": cpp, "visits_database": None, "seed": 1}
    sc = Obj("sorchaConfigs", input=Obj("input", ephemerides_type="ar"), lightcurve=Obj("lc", lc_model=lc), activity=Obj("ca", comet_activity=ca),
             fov=Obj("fov", camera_model="circle", visits_query=None))
    sa = Obj("sorchaArguments", validate_arguments=Prim(lambda I, a, k: seen.append("arguments"), "validate_arguments"))

    def note(x, r=None):
        return Prim(lambda I, a, k: (seen.append((x, a) if x.startswith("run") else x), r)[1], x)

    for nm, x in [("FindFileOrExit", note("outpath", "out")), ("sorchaGetLogger", note("logger", log)), ("sorchaCommandLineParser", note("parser", cmd)),
                  ("runLSSTSimulation", note("runLSST")), ("sorchaArguments", note("args", sa)), ("sorchaConfigs", note("configs", sc)),
                  ("update_activity_subclasses", note("activity")), ("update_lc_subclasses", note("lightcurve"))]:
        V.patch("sorcha.sorcha", nm, x)
    V.patch("sorcha.des", "runDESSimulation", note("runDES"))
    env = V.pick("SORCHA_SEED", [None, "7"])
    V.lib.extra_attr["os.environ"] = {} if env is None else {"SORCHA_SEED": env}
    out = V.call(Obj("args", o="out", t="stem"))
    if "configs" in seen:
        i = seen.index("configs")
        V.ensure("light-curve models registered before the configuration is checked", "lightcurve" in seen[:i])
        V.ensure("activity models registered before the configuration is checked", "activity" in seen[:i])
    runs = [x for x in seen if isinstance(x, tuple)]
    ok = survey not in ("LSST", "lsst", "unknown") and not ((lc or ca) and cpp is None)
    V.ensure("runs exactly when the models have their parameters", bool(runs) == ok)
    if not runs:
        V.ensure("refused with an error message", out.exc == "SystemExit")
        return
    V.ensure("one run of the survey", len(runs) == 1 and runs[0][0] == ("runDES" if survey in ("DES", "des") else "runLSST"))
    V.ensure("with the seed asked for", cmd["seed"] == (1 if env is None else 7))
    V.ensure("with the arguments and the configuration read", len(runs[0][1]) == 2 and runs[0][1][0] is sa and runs[0][1][1] is sc)


from contracts.glue import glue
glue("C28")
