"""Sidecar contracts on the real functions, and the runner that generates and
discharges their obligations from the current source."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from fractions import Fraction
import z3
from .values import *
from .values import num as znum
from .ctx import Ctx, explore
from .interp import Interp
from .lib import LibModel, RNG, view_equal, Logger
from . import smt, lib as L


class Contract:
    def __init__(self, prop, fn, body, name, target, opts):
        self.prop, self.fn, self.body, self.name, self.target, self.opts = prop, fn, body, name, target, opts


REGISTRY = []


def contract(prop, fn, target=None, name=None, **opts):
    def deco(body):
        nm = name or (fn.split(":")[1] if fn else body.__name__)
        REGISTRY.append(Contract(prop, fn, body, nm, target, opts))
        return body

    return deco


def also(prop, source, names, target=None):
    """the contracts of the given functions belong to this property as well"""
    importlib.import_module(f"contracts.{source}")
    done = set()
    for c in list(REGISTRY):
        if c.prop == source and c.name in names:
            done.add(c.name)
            REGISTRY.append(Contract(prop, c.fn, c.body, c.name, target or c.target, c.opts))
    assert done == set(names), set(names) - done


class Outcome:
    def __init__(self, value=None, exc=None, args=()):
        self.value = value
        self.exc = exc
        self.args = args

    def __repr__(self):
        return f"Outcome({self.value!r}, {self.exc})"


class V:
    """the verification context handed to a contract body"""

    def __init__(self, ctx, con):
        self.ctx = ctx
        self.con = con
        self.lib = LibModel()
        self.I = Interp(ctx, self.lib)
        self.called = False
        self.case_extra = {}
        self.rngs = None
        ctx.V = self
        ctx.V_used_contracts = self.I.called_contracts

    # ----------------------------------------------------------- inputs
    def _in(self, name, kind, data, key=None):
        self.ctx.inputs.append((key or name, kind, data))

    def real(self, name, lo=None, hi=None, key=None, record=True):
        t = self.ctx.fresh(name, "real")
        v = SV("real", t)
        if record:
            self._in(name, "real", t, key)
        if lo is not None:
            self.ctx.assume(t >= znum(lo))
        if hi is not None:
            self.ctx.assume(t <= znum(hi))
        return v

    def int(self, name, lo=None, hi=None, key=None, record=True):
        t = self.ctx.fresh(name, "int")
        if record:
            self._in(name, "int", t, key)
        if lo is not None:
            self.ctx.assume(t >= lo)
        if hi is not None:
            self.ctx.assume(t <= hi)
        return SV("int", t)

    def bool(self, name, key=None):
        t = self.ctx.fresh(name, "bool")
        self._in(name, "bool", t, key)
        return SV("bool", t)

    def str(self, name, key=None):
        t = self.ctx.fresh(name, "str")
        self._in(name, "str", t, key)
        return SV("str", t)

    def const(self, name, value):
        self._in(name, "const", value)
        return value

    def frame(self, name, cols, other=True, key=None):
        n = self.ctx.fresh("n_" + name, "int")
        self.ctx.assume(n >= 0)
        sp = RowSpace(name, n)
        view = View(sp)
        fns = {}
        raw = {}
        cols = dict(cols)
        if other:
            cols["OtherColumn"] = "real"
        for c, s in cols.items():
            f = z3.Function(self.ctx.fresh_name(f"{name}.{c}"), z3.IntSort(), SORTS[s])
            raw[c] = (f, s)
            fns[c] = (lambda r, f=f, s=s: SV(s, f(r)))
        self._in(name, "frame", (sp, raw), key)
        return Frame(view, fns, name)

    def domain(self, df, col, values):
        """the column takes only these values"""
        self.ctx.__dict__.setdefault("domains", {})[(df.view.space, col)] = list(values)
        f = df.cols[col]
        self.ctx.assume_rows(df.view.space, lambda r: z3.Or([f(r).t == L.lift(v).t for v in values]))

    def patch(self, module, name, value):
        """replace a module-level name (a registry, say) for this contract"""
        self.I.module(module).ns[name] = value

    def reset(self, df):
        """the same table with row labels 0..n-1"""
        v = df.view
        return Frame(View(v.space, v._keep, v.order, L.range_token(v.space, v._keep, v.order), True), df.cols, df.name)

    def arr(self, name, n, sort, key=None):
        a = Arr(n, self.ctx.fresh_array(name, sort), sort, name)
        self._in(name, "arr", (n, a.arr, sort), key)
        return a

    def pick(self, name, options):
        """one of the given concrete values (a fork per value)"""
        i = self.ctx.choose(len(options), name)
        self._in(name, "const", options[i])
        return options[i]

    def module_rngs(self):
        """PerModuleRNG by its contract (verified in C17): one generator per
        module name, the same object on every request"""
        store = {}
        self.rngs = store

        def get(I, a, k):
            nm = a[0] if a else k.get("module_name")
            if nm not in store:
                store[nm] = RNG(nm.split(".")[-1] if isinstance(nm, str) else "rng")
            return store[nm]

        o = Obj("PerModuleRNG")
        o.attrs["getModuleRNG"] = Prim(get, "getModuleRNG")
        return o

    # -------------------------------------------------------- conditions
    def pre(self, *ts):
        for t in ts:
            self.ctx.assume(t)

    def pre_rows(self, frame, fn):
        sp = frame.view.space
        self.ctx.assume_rows(sp, fn)

    def row(self, frame, name="r"):
        """an arbitrary row of the frame's base table"""
        sp = frame.view.space
        r = self.ctx.row(sp, name)
        self.ctx.assume(z3.And(r >= 0, r < sp.n))
        return r

    def ensure(self, name, t, kind="post"):
        self.ctx.oblige(name, t, kind)

    def ensure_some_row(self, name, frame, pred):
        """some row of the table satisfies pred: one of the rows met on this path"""
        sp = frame.view.space
        self.ensure(name, z3.Or([z3.And(frame.view.inside(w), pred(w)) for s, w in self.ctx.rows if s is sp] or [z3.BoolVal(False)]))

    def ensure_under(self, name, hyp, t):
        self.ctx.oblige(name, z3.Implies(hyp, t))

    def branch(self, t):
        return self.ctx.branch(t)

    def use(self, qual, fn):
        """callers of qual are checked against this contract, not the body.
        fn(I, vals) -> value, or NotImplemented to inline the body"""
        self.I.contracts[qual] = fn

    def invariant(self, qual, loop, fn, variant=None):
        f = fn
        if variant is not None:
            f.variant = variant
        self.I.invariants[(qual, loop)] = f

    def stub(self, name, fn):
        self.lib.extra[name] = fn

    # ------------------------------------------------------------- call
    def get(self, qual):
        return self.I.get(qual)

    def call(self, *args, **kwargs):
        return self.call_fn(self.I.get(self.con.fn), *args, **kwargs)

    def call_fn(self, f, *args, **kwargs):
        if isinstance(f, str):
            f = self.I.get(f)
        self.called = True
        if self.ctx.npre is None:
            self.ctx.npre = len(self.ctx.pc)
        try:
            if isinstance(f, Func):
                v = self.I.call_func(f, list(args), kwargs, force_inline=True)
            else:
                v = self.I.call(f, list(args), kwargs)
            out = Outcome(v)
        except PyExc as e:
            out = Outcome(None, e.cls, e.args_)
        self.ctx.outcome = out
        return out

    def returns(self, out, name="returns normally"):
        self.ensure(name, out.exc is None)
        return out.exc is None

    # ------------------------------------------------------ table helpers
    def ensure_filter(self, out, inp, keep, reset=True, same_cols=None, what="rows"):
        """out is exactly the rows of inp satisfying keep, unchanged, in order"""
        if out is inp and reset is None:
            return
        if not isinstance(out, Frame):
            self.ensure(f"{what}: result is a table", False)
            return
        self.ensure(f"{what}: rows come from the input", out.view.space is inp.view.space)
        if out.view.space is not inp.view.space:
            return
        r = self.row(inp)
        ok = z3.And(inp.view.keep(r))
        self.ensure(f"{what}: kept exactly when specified", z3.Implies(ok, out.view.keep(r) == keep(r)))
        self.ensure(f"{what}: no row invented", z3.Implies(z3.Not(ok), z3.Not(out.view.keep(r))))
        self.ensure(f"{what}: row order kept", out.view.order == inp.view.order)
        if reset:
            self.ensure(f"{what}: index reset", L.is_range(out.view))
        cols = same_cols if same_cols is not None else list(inp.cols)
        self.ensure(f"{what}: same columns", set(out.cols) == set(cols))
        for c in cols:
            if c in out.cols and c in inp.cols:
                self.ensure(f"{what}: column {c} unchanged",
                            z3.Implies(z3.And(ok, keep(r)), out.cols[c](r).t == inp.cols[c](r).t))

    def ensure_columns_same(self, out, cols, r, what="", skip=()):
        for c, f in cols.items():
            if c in skip:
                continue
            if c not in out.cols:
                self.ensure(f"{what}column {c} kept", False)
            else:
                self.ensure(f"{what}column {c} unchanged", out.cols[c](r).t == f(r).t)


# ----------------------------------------------------------- concretisation
def model_value(m, t):
    v = m.eval(t, model_completion=True)
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_string_value(v):
        return v.as_string()
    return None


def concretize(obl, max_rows=5, timeout=3000):
    """a concrete input from the counter-model, for replay on the real code"""
    terms, ax, used = smt.query(obl)
    small = []
    for name, kind, data in obl.ctx.inputs:
        if kind == "frame":
            small.append(data[0].n <= max_rows)
        elif kind == "arr":
            small.append(data[0] <= 12)
    m = None
    for extra in (small, []):
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*terms, *ax, *extra)
        # prefer values of a plausible size
        if extra:
            s.push()
            for name, kind, data in obl.ctx.inputs:
                if kind == "real":
                    s.add(data <= 1000000, data >= -1000000)
            if s.check() == z3.sat:
                m = s.model()
                break
            s.pop()
        if s.check() == z3.sat:
            m = s.model()
            break
    if m is None:
        m = obl.model
    if m is None:
        return None
    case = {}
    for name, kind, data in obl.ctx.inputs:
        if kind == "const":
            case[name] = data
        elif kind == "frame":
            sp, raw = data
            n = model_value(m, sp.n) or 0
            n = min(n, 200)
            case[name] = {c: [model_value(m, f(i)) for i in range(n)] for c, (f, s_) in raw.items()}
        elif kind == "arr":
            n, a, s_ = data
            nn = model_value(m, n) if not isinstance(n, int) else n
            case[name] = [model_value(m, z3.Select(a, i)) for i in range(min(nn or 0, 200))]
        else:
            case[name] = model_value(m, data)
    V_ = getattr(obl.ctx, "V", None)
    draws = {}
    if V_ is not None and V_.rngs:
        for nm, rng in V_.rngs.items():
            for kind, f, view in rng.__dict__.get("log", []):
                n = min(model_value(m, view.space.n) or 0, 200)
                vals = [model_value(m, f(i)) for i in range(n) if model_value(m, view.inside(z3.IntVal(i)))]
                draws.setdefault(nm, []).append([kind, vals])
    if draws:
        case["__draws__"] = draws
    return case


# ------------------------------------------------------------------- runner
def run_contract(con, tier="quick", timeout=8.0, bounded=None, want_cases=True, max_cases=6, tmo_total=300):
    t0 = time.time()
    stats = smt.Stats()
    res = {
        "contract": con.name, "fn": con.fn, "target": con.target, "obligations": 0, "discharged": 0, "refuted": [],
        "unknown": [], "unsupported": [], "by_backend": {}, "assumed": [], "inlined": [], "contracts_used": [],
        "cases": [], "paths": 0, "vacuous": None, "bounded": bounded,
    }
    info = {"assumed": set(), "inlined": set(), "used": set()}

    def body(ctx):
        v = V(ctx, con)
        try:
            con.body(v)
        finally:
            info["assumed"] |= v.I.assumed
            info["inlined"] |= v.I.inlined
            info["used"] |= v.I.called_contracts

    try:
        ex = explore(body, bounded=bounded, max_paths=con.opts.get("max_paths", 3000),
                     max_time=con.opts.get("max_time", 200.0), stop_on_unsupported=con.opts.get("strict", True))
    except Exception as e:  # engine error: out of reach, never a verdict
        res["unsupported"].append("engine: " + repr(e)[:300] + " " + traceback.format_exc()[-600:])
        res["time"] = time.time() - t0
        return res
    res["paths"] = ex.paths
    res["unsupported"] = sorted(set(ex.unsupported))
    # vacuity: some path must be able to finish with its assumptions consistent
    cover = None
    for ctx in (ex.completed[:12] or []):
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*ctx.pc)
        for space, fn in ctx.rowfacts:
            for sp, r in ctx.rows:
                if sp is space:
                    s.add(z3.Implies(z3.And(r >= 0, r < space.n), fn(r)))
        ax, _ = smt.axioms(list(s.assertions()))
        s.add(*ax)
        r = s.check()
        if r == z3.sat:
            cover = "sat"
            break
        cover = cover or str(r)
    res["vacuous"] = cover
    seen = {}
    for o in ex.obls:
        if time.time() - t0 > tmo_total:
            res["unknown"].append({"name": o.name, "why": "time budget"})
            res["obligations"] += 1
            continue
        res["obligations"] += 1
        st = smt.discharge(o, timeout, stats)
        if st == "proved":
            res["discharged"] += 1
            res["by_backend"][o.backend] = res["by_backend"].get(o.backend, 0) + 1
        elif st == "refuted":
            e = {"name": o.name, "kind": o.kind, "uf": sorted(o.used), "goal": str(z3.simplify(o.goal))[:600]}
            res["refuted"].append(e)
            if want_cases and seen.get(o.name, 0) < 3 and len(res["cases"]) < max_cases:
                seen[o.name] = seen.get(o.name, 0) + 1
                try:
                    c = concretize(o)
                except Exception as ex_:
                    c = None
                    e["concretize"] = repr(ex_)[:200]
                if c is not None:
                    res["cases"].append({"target": con.target, "case": c, "obligation": o.name})
                    e["model"] = c
        else:
            res["unknown"].append({"name": o.name, "why": "solver unknown"})
    # inputs that drive the real code down each path (used by the concrete contract search)
    if want_cases and con.target and con.opts.get("path_cases", True):
        pcs = []
        for ctx in ex.completed[: con.opts.get("max_path_cases", 24)]:
            try:
                from .ctx import Obligation

                o = Obligation("path", list(ctx.pc), z3.BoolVal(False), len(ctx.rowfacts), ctx)
                c = concretize(o, timeout=800)
                if c is not None:
                    pcs.append({"target": con.target, "case": c, "obligation": "path input"})
            except Exception:
                pass
        res["path_cases"] = pcs
    res["assumed"] = sorted(info["assumed"])
    res["inlined"] = sorted(info["inlined"])
    res["contracts_used"] = sorted(info["used"])
    res["solver_time"] = stats.time
    res["queries"] = stats.queries
    res["time"] = time.time() - t0
    return res


def load(prop):
    """contracts of one property (module contracts/<prop>.py)"""
    m = importlib.import_module(f"contracts.{prop}")
    return m, [c for c in REGISTRY if c.prop == prop]


def _worker(a):
    prop, idx, kw = a
    m, cons = load(prop)
    r = run_contract(cons[idx], **kw)
    return idx, json.loads(json.dumps(r, default=str))


def run_all(prop, procs=6, **kw):
    m, cons = load(prop)
    jobs = [(prop, i, kw) for i in range(len(cons))]
    out = [None] * len(cons)
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, max(1, len(jobs))), maxtasksperchild=1) as pool:
        rs = [(j, pool.apply_async(_worker, (j,))) for j in jobs]
        for j, r in rs:
            try:
                i, v = r.get(timeout=600)
                out[i] = v
            except Exception as e:
                out[j[1]] = {"contract": cons[j[1]].name, "fn": cons[j[1]].fn, "obligations": 0, "discharged": 0,
                             "refuted": [], "unknown": [], "unsupported": ["worker: " + repr(e)[:300]], "cases": [],
                             "by_backend": {}, "assumed": [], "inlined": [], "contracts_used": [], "paths": 0,
                             "time": 0, "vacuous": None, "target": cons[j[1]].target}
    return m, cons, out
