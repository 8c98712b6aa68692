"""Symbolic executor for the python of /repo/src (the extraction).

It parses the real source files on every run and executes their AST on the
values of values.py.  A branch on a symbolic condition is a decision: the
explorer re-runs the whole body once per feasible decision sequence.  Loops
with symbolic bounds use sidecar invariants (prove mode) or are unrolled
(bounded mode).  What is dropped: docstrings, type annotations, logging calls,
numba/jit and abstractmethod decorators.  Everything not modelled raises
Unsupported, which is never a verdict.
"""
import ast
import os
import z3
from .values import *

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")

IGNORED_DECORATORS = {"njit", "jit", "numba.njit", "numba.jit", "abstractmethod", "abc.abstractmethod"}


class ReturnExc(Exception):
    def __init__(self, v):
        self.v = v


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class Env:
    def __init__(self, func, module, parent=None):
        self.vars = {}
        self.func = func
        self.module = module
        self.parent = parent
        self.globals = set()
        self.nonlocals = set()
        self.loop_no = 0

    def frozen(self):
        """the present bindings (for what is evaluated later)"""
        e = Env(self.func, self.module, self.parent.frozen() if self.parent is not None else None)
        e.vars, e.globals, e.nonlocals, e.loop_no = dict(self.vars), self.globals, self.nonlocals, self.loop_no
        return e

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        raise KeyError(n)


class Uninit:
    def __init__(self, name):
        self.name = name


class Poison:
    def __init__(self, why):
        self.why = why


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return f"{b}.{node.attr}" if b else None
    if isinstance(node, ast.Call):
        return dotted(node.func)
    return None


_AST_CACHE = {}


def parse_file(path):
    if path not in _AST_CACHE:
        with open(path) as f:
            _AST_CACHE[path] = ast.parse(f.read())
    return _AST_CACHE[path]


def mod_path(name):
    p = os.path.join(REPO_SRC, *name.split("."))
    if os.path.isdir(p):
        q = os.path.join(p, "__init__.py")
        return q if os.path.exists(q) else None
    if os.path.exists(p + ".py"):
        return p + ".py"
    return None


# numbers of the source code that have several spellings
LIB_ALIASES = {"numpy": "np"}


def inplace(cur, new):
    """numpy's a op= b updates the array itself, which other names may share"""
    if isinstance(cur, Col) and isinstance(new, Col) and cur.kind == "array" and getattr(cur, "own", False) and new.kind == "array":
        cur.fn = new.fn
        return cur
    if isinstance(cur, Mat) and isinstance(new, Mat) and cur.shape == new.shape:
        if getattr(cur, "rowaxis", None) is None:
            if getattr(new, "rowaxis", None) is None:
                cur.data[:] = new.data
                return cur
        elif getattr(new, "rowaxis", None) == cur.rowaxis:
            for c, d in zip(cur.data, new.data):
                c.fn = d.fn
            return cur
    return new


class Interp:
    def __init__(self, ctx, lib):
        self.ctx = ctx
        self.lib = lib
        self.modules = {}
        self.contracts = {}  # qualname -> callable(interp, args, kwargs)
        self.invariants = {}  # (qualname, ordinal) -> inv(env, k, interp) -> list[(name, term)]
        self.depth = 0
        self.inlined = set()
        self.called_contracts = set()
        self.assumed = set()
        self.steps = 0
        self.comp_elt = None

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = mod_path(name)
        if path is None:
            raise Unsupported(f"no module {name}")
        if "." in name:  # packages first, as Python does
            self.module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, path)
        self.modules[name] = m
        tree = parse_file(path)
        env = Env(None, m)
        env.vars = m.ns
        m.ns["__name__"] = name
        m.ns["__file__"] = path
        for st in tree.body:
            try:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                self.stmt(st, env)
            except (Unsupported, PyExc) as e:
                for n in self.targets_of(st):
                    m.ns[n] = Poison(f"{name}: {e}")
        return m

    def targets_of(self, st):
        out = set()
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.add(n.name)
            elif isinstance(n, ast.alias):
                out.add((n.asname or n.name).split(".")[0])
        return out

    def get(self, qual):
        """value of 'module:name' or 'module:Class.method'"""
        mod, name = qual.split(":")
        m = self.module(mod)
        parts = name.split(".")
        if parts[0] not in m.ns:
            raise Unsupported(f"{qual} not found in the source")
        v = m.ns[parts[0]]
        for p in parts[1:]:
            v = v.lookup(p) if isinstance(v, Cls) else self.getattr(v, p)
            if v is None:
                raise Unsupported(f"{qual} not found in the source")
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    def do_import(self, name):
        if name.split(".")[0] == "sorcha":
            return self.module(name)
        return Lib(name)

    # --------------------------------------------------------- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("step limit")
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, env)

    def s_Pass(self, st, env):
        pass

    def s_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value, env)

    def s_Import(self, st, env):
        for a in st.names:
            if a.asname:
                env.vars[a.asname] = self.do_import(a.name)
            else:
                env.vars[a.name.split(".")[0]] = self.do_import(a.name.split(".")[0])

    def s_ImportFrom(self, st, env):
        base = st.module or ""
        if st.level:
            pkg = env.module.name.split(".")
            if not env.module.path.endswith("__init__.py"):
                pkg = pkg[:-1]
            pkg = pkg[: len(pkg) - (st.level - 1)]
            base = ".".join(pkg + ([base] if base else []))
        for a in st.names:
            n = a.asname or a.name
            if base.split(".")[0] == "sorcha":
                sub = base + "." + a.name
                if a.name == "*":
                    m = self.module(base)
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            env.vars[k] = v
                    continue
                m = self.module(base)
                if a.name in m.ns:
                    env.vars[n] = m.ns[a.name]
                elif mod_path(sub):
                    env.vars[n] = self.module(sub)
                else:
                    env.vars[n] = Poison(f"cannot import {sub}")
            else:
                env.vars[n] = Lib(base + "." + a.name)

    def s_FunctionDef(self, st, env):
        f = Func(st, env.module, closure=env if env.func is not None else None)
        f.defaults = [self.expr(d, env) for d in st.args.defaults]
        f.kw_defaults = [self.expr(d, env) if d is not None else None for d in st.args.kw_defaults]
        v = f
        for d in reversed(st.decorator_list):
            dn = dotted(d)
            if dn in IGNORED_DECORATORS:
                continue
            if dn == "staticmethod":
                f.static = True
            elif dn == "classmethod":
                f.classm = True
            elif dn == "property":
                f.prop = True
            else:
                v = self.call(self.expr(d, env), [v], {}, st)
        env.vars[st.name] = v

    def s_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            try:
                bases.append(self.expr(b, env))
            except Unsupported:
                bases.append("unknown")
        c = Cls(st.name, env.module, bases)
        cenv = Env(env.func, env.module, env.parent if env.func else None)
        cenv.parent = env
        for d in st.decorator_list:
            if dotted(d) in ("dataclass", "dataclasses.dataclass"):
                c.dataclass = True
        for s in st.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.fields.append((s.target.id, s.value))
                if s.value is not None:
                    try:
                        c.ns[s.target.id] = self.expr(s.value, cenv)
                    except Unsupported:
                        pass
                continue
            self.stmt(s, cenv)
        for k, v in cenv.vars.items():
            if isinstance(v, Func):
                v.cls = c
                v.closure = env if env.func is not None else None
            c.ns[k] = v
        env.vars[st.name] = c

    def s_Return(self, st, env):
        raise ReturnExc(self.expr(st.value, env) if st.value is not None else None)

    def s_Break(self, st, env):
        raise BreakExc()

    def s_Continue(self, st, env):
        raise ContinueExc()

    def s_Global(self, st, env):
        env.globals.update(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals.update(st.names)

    def s_Assert(self, st, env):
        c = self.expr(st.test, env)
        if not self.truth(c):
            raise PyExc("AssertionError")

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, env)
                k = self.expr(t.slice, env)
                if isinstance(o, (dict, list)) and not isinstance(k, SV):
                    if isinstance(o, dict) and k not in o:
                        raise PyExc("KeyError", (k,))
                    del o[k]
                elif isinstance(o, Frame):
                    o.cols.pop(k)
                else:
                    raise Unsupported("del subscript")
            else:
                raise Unsupported("del")

    def s_Assign(self, st, env):
        v = self.expr(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.expr(ast.Name(id=t.id, ctx=ast.Load()), env)
            rhs = self.expr(st.value, env)
            if isinstance(cur, list) and isinstance(st.op, ast.Add):
                cur.extend(self.iterate(rhs))
                return
            self.assign(t, inplace(cur, self.binop(st.op, cur, rhs)), env)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, inplace(cur, self.binop(st.op, cur, self.expr(st.value, env))))
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            k = self.index_expr(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(st.op, cur, self.expr(st.value, env)))
        else:
            raise Unsupported("augassign target")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals:
                env.module.ns[t.id] = v
                return
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None:
                    if t.id in e.vars:
                        e.vars[t.id] = v
                        return
                    e = e.parent
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    raise PyExc("ValueError")
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, env)
                self.assign(t.elts[k].value, list(items[k: len(items) - after]), env)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            if len(items) != len(t.elts):
                raise PyExc("ValueError", ("unpack",))
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, env)
            k = self.index_expr(t.slice, env)
            self.setitem(o, k, v)
        else:
            raise Unsupported("assign target")

    def s_If(self, st, env):
        # statements that do nothing but log are dropped by the extraction
        c = self.expr(st.test, env)
        if self.truth(c):
            self.block(st.body, env)
        else:
            self.block(st.orelse, env)

    def s_Raise(self, st, env):
        if st.exc is None:
            if getattr(env, "cur_exc", None) is not None:
                raise env.cur_exc
            raise Unsupported("bare raise")
        v = self.expr(st.exc, env)
        raise self.as_exc(v)

    def as_exc(self, v):
        if isinstance(v, Lib) and v.name in EXC_PARENTS:
            return PyExc(v.name)
        if isinstance(v, Obj) and isinstance(v.cls, str):
            return PyExc(v.cls, v.attrs.get("args", ()), v)
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            return PyExc(v.cls.name, v.attrs.get("args", ()), v)
        if isinstance(v, Cls):
            return PyExc(v.name)
        raise Unsupported("raise")

    def s_Try(self, st, env):
        pending = None
        try:
            try:
                self.block(st.body, env)
            except PyExc as e:
                for h in st.handlers:
                    names = []
                    if h.type is None:
                        names = ["BaseException"]
                    elif isinstance(h.type, ast.Tuple):
                        names = [dotted(x) for x in h.type.elts]
                    else:
                        names = [dotted(h.type)]
                    names = [n.split(".")[-1] if n else "?" for n in names]
                    if any(exc_isa(e.cls, n) for n in names):
                        if h.name:
                            env.vars[h.name] = e.obj or Obj(e.cls, args=e.args_)
                        prev = getattr(env, "cur_exc", None)
                        env.cur_exc = e
                        self.block(h.body, env)
                        env.cur_exc = prev
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        except (PyExc, ReturnExc, BreakExc, ContinueExc) as e:
            pending = e
        self.block(st.finalbody, env)
        if pending is not None:
            raise pending

    def s_With(self, st, env):
        exits = []
        for it in st.items:
            v = self.expr(it.context_expr, env)
            ent = self.lib.enter(self, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, env)
            exits.append(v)
        self.block(st.body, env)

    # --------------------------------------------------------------- loops
    def s_While(self, st, env):
        no = self.loop_id(st, env)
        it = 0
        while True:
            # concrete guard: just run it
            c = self.expr(st.test, env)
            cb = self.concrete_truth(c)
            if cb is None:
                return self.symbolic_while(st, env, no)
            if not cb:
                break
            it += 1
            if it > 2000:
                raise Unsupported("while: iteration limit")
            try:
                self.block(st.body, env)
            except BreakExc:
                return
            except ContinueExc:
                continue
        self.block(st.orelse, env)

    def loop_id(self, st, env):
        ids = getattr(env, "loop_ids", None)
        if ids is None:
            ids = {}
            if env.func is not None:
                k = 0
                for n in ast.walk(env.func.node):
                    if isinstance(n, (ast.For, ast.While)):
                        pass
                # source order
                loops = [n for n in ast.walk(env.func.node) if isinstance(n, (ast.For, ast.While))]
                loops.sort(key=lambda n: (n.lineno, n.col_offset))
                for k, n in enumerate(loops):
                    ids[id(n)] = k
            env.loop_ids = ids
        return ids.get(id(st), -1)

    def find_inv(self, env, no):
        q = env.func.qual if env.func is not None else None
        return self.invariants.get((q, no))

    def modified(self, body, env):
        """names assigned / containers mutated by the loop body"""
        names, muts = set(), set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name):
                        muts.add(b.id)
                    else:
                        raise Unsupported("loop mutates an unnamed object")
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    b = n.func.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name) and n.func.attr in (
                        "append", "extend", "add", "update", "pop", "remove", "insert", "clear",
                        "sort", "setdefault",
                    ):
                        muts.add(b.id)
        return names, muts

    def havoc_value(self, v, name):
        c = self.ctx
        if isinstance(v, bool):
            return SV("bool", c.fresh(name, "bool"))
        if isinstance(v, int):
            return SV("int", c.fresh(name, "int"))
        if isinstance(v, float):
            return SV("real", c.fresh(name, "real"))
        if isinstance(v, SV):
            return SV(v.sort, c.fresh(name, v.sort))
        if isinstance(v, Arr):
            v.arr = c.fresh_array(name, v.sort)
            return v
        if isinstance(v, (Opaque, Uninit)):
            return v
        if isinstance(v, (Func, Lib, Cls, Module, Bound)):
            return v
        if v is None:
            return None
        if type(v).__name__ == "NaNVal":
            raise Unsupported("loop modifies a NaN")
        if hasattr(v, "havoc"):
            return v.havoc(c, name)
        raise Unsupported(f"loop modifies {name} of type {type(v).__name__}")

    def havoc(self, names, muts, env, target_names=()):
        for n in sorted(names):
            if n in target_names:
                continue
            if n in env.vars:
                env.vars[n] = self.havoc_value(env.vars[n], n)
        for n in sorted(muts):
            if n in names:
                continue
            try:
                v = env.lookup(n)
            except KeyError:
                v = env.module.ns.get(n)
            if v is None or isinstance(v, (Lib, Module)):
                continue
            nv = self.havoc_value(v, n)
            if nv is not v:
                raise Unsupported(f"loop mutates {n}")

    def symbolic_while(self, st, env, no):
        ctx = self.ctx
        spec = self.find_inv(env, no)
        if ctx.bounded is not None or spec is None:
            if ctx.bounded is None:
                raise Unsupported(f"loop without invariant in {env.func.qual if env.func else '?'}")
            for _ in range(ctx.bounded + 1):
                if not self.truth(self.expr(st.test, env)):
                    self.block(st.orelse, env)
                    return
                try:
                    self.block(st.body, env)
                except BreakExc:
                    return
                except ContinueExc:
                    pass
            raise PathEnd("bound")
        names, muts = self.modified(st.body, env)
        inv = spec
        for nm, t in inv(env, None, self):
            ctx.oblige(f"loop{no}.init.{nm}", t)
        self.havoc(names, muts, env)
        for nm, t in inv(env, None, self):
            ctx.assume(t)
        c = self.expr(st.test, env)
        if self.truth(c):
            var0 = inv.variant(env, self) if hasattr(inv, "variant") else None
            try:
                self.block(st.body, env)
            except BreakExc:
                return
            except ContinueExc:
                pass
            for nm, t in inv(env, None, self):
                ctx.oblige(f"loop{no}.preserved.{nm}", t)
            if var0 is not None:
                var1 = inv.variant(env, self)
                ctx.oblige(f"loop{no}.decreases", z3.And(var0 >= 0, var1 < var0))
            raise PathEnd("loop body verified")
        self.block(st.orelse, env)

    def s_For(self, st, env):
        no = self.loop_id(st, env)
        itv = self.expr(st.iter, env)
        conc = self.try_iterate(itv, labels=True)
        if conc is not None:
            if has_splat(conc):
                b = st.body[0]
                # only collecting the labels is understood
                if not (len(st.body) == 1 and isinstance(st.target, ast.Name) and isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute)
                        and b.value.func.attr == "append" and len(b.value.args) == 1 and isinstance(b.value.args[0], ast.Name) and b.value.args[0].id == st.target.id):
                    raise Unsupported("loop over labels")
            for x in conc:
                self.assign(st.target, x, env)
                try:
                    self.block(st.body, env)
                except BreakExc:
                    return
                except ContinueExc:
                    continue
            self.block(st.orelse, env)
            return
        it = self.lib.as_iter(self, itv)
        if it is None:
            raise Unsupported(f"iteration over {type(itv).__name__}")
        ctx = self.ctx
        spec = self.find_inv(env, no) or getattr(it, "inv", None)
        if ctx.bounded is not None:
            for k in range(ctx.bounded + 1):
                if not ctx.branch(it.n > k):
                    self.block(st.orelse, env)
                    return
                self.assign(st.target, it.item(z3.IntVal(k)), env)
                try:
                    self.block(st.body, env)
                except BreakExc:
                    return
                except ContinueExc:
                    pass
            raise PathEnd("bound")
        if spec is None:
            raise Unsupported(f"loop {no} without invariant in {env.func.qual if env.func else '?'}")
        if getattr(spec, "wants_iter", False):
            spec.it, spec.st = it, st
        names, muts = self.modified(st.body, env)
        tnames = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        for nm, t in spec(env, z3.IntVal(0), self):
            ctx.oblige(f"loop{no}.init.{nm}", t)
        go = ctx.choose(2, f"loop{no}")
        handles = getattr(spec, "handles", set())
        self.havoc(names - handles, muts - handles, env, tnames)
        if go == 0:
            k = ctx.fresh(f"k{no}_", "int")
            ctx.assume(z3.And(k >= 0, k < it.n))
            if hasattr(spec, "havoc"):
                spec.havoc(k)
            for nm, t in spec(env, k, self):
                ctx.assume(t)
            self.assign(st.target, it.item(k), env)
            try:
                self.block(st.body, env)
            except BreakExc:
                return
            except ContinueExc:
                pass
            for nm, t in spec(env, k + 1, self):
                ctx.oblige(f"loop{no}.preserved.{nm}", t)
            raise PathEnd("loop body verified")
        n = z3.If(it.n < 0, z3.IntVal(0), it.n)
        if hasattr(spec, "havoc"):
            spec.havoc(n)
        for nm, t in spec(env, n, self):
            ctx.assume(t)
        for t in tnames:
            env.vars[t] = Uninit(t)
        self.block(st.orelse, env)

    # --------------------------------------------------------- expressions
    def expr(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return R(v)
        if isinstance(v, complex):
            from .lib import CVal

            return CVal(R(v.real), R(v.imag))
        if v is Ellipsis:
            return v
        return v

    def e_Name(self, e, env):
        try:
            v = env.lookup(e.id)
        except KeyError:
            if e.id in env.module.ns:
                v = env.module.ns[e.id]
            else:
                v = self.lib.builtin(e.id)
                if v is None:
                    raise PyExc("NameError", (e.id,))
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        if isinstance(v, Uninit):
            raise Unsupported(f"loop variable {v.name} used after a symbolic loop")
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.expr(e.value, env), e.attr)

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_Set(self, e, env):
        vs = self.elts(e.elts, env)
        if any(isinstance(v, SV) for v in vs):
            raise Unsupported("symbolic set")
        return set(vs)

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.expr(x.value, env)))
            else:
                out.append(self.expr(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.expr(v, env))
            else:
                kk = self.expr(k, env)
                if isinstance(kk, SV):
                    c = const_value(kk)
                    if c is None:
                        return self.symbolic_dict(e, env)
                    kk = c
                d[kk] = self.expr(v, env)
        return d

    def symbolic_dict(self, e, env):
        from .lib import SymDict

        if any(k is None for k in e.keys):
            raise Unsupported("symbolic dict key")
        d = SymDict()
        for k, v in zip(e.keys, e.values):
            d.sym_setitem(self, self.expr(k, env), self.expr(v, env))
        return d

    def e_JoinedStr(self, e, env):
        parts = []
        if any(isinstance(v, ast.FormattedValue) and v.format_spec is not None for v in e.values):
            o, text = Opaque("fstring"), []
            for v in e.values:
                if isinstance(v, ast.Constant):
                    text.append(v.value)
                    continue
                try:
                    x = self.expr(v.value, env)
                except Unsupported:
                    return o
                sp = v.format_spec.values if v.format_spec is not None else []
                if not all(isinstance(y, ast.Constant) for y in sp):
                    return o
                text.append((x, "".join(y.value for y in sp)))
            o.text = text
            return o
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.expr(v.value, env)
                except Unsupported:
                    return Opaque("fstring")
                if v.format_spec is not None or isinstance(x, (int,)) and v.conversion != -1:
                    return Opaque("fstring")
                parts.append(x)
        if all(isinstance(p, (str, int, bool)) for p in parts):
            return "".join(str(p) for p in parts)
        if all(isinstance(p, str) or (isinstance(p, SV) and p.sort == "str") for p in parts):
            return SV("str", z3.Concat(*[to_str_term(p) for p in parts]) if len(parts) > 1 else to_str_term(parts[0]))
        return Opaque("fstring")

    def e_Lambda(self, e, env):
        f = Func(e, env.module, closure=env, name="<lambda>")
        f.defaults = [self.expr(d, env) for d in e.args.defaults]
        f.kw_defaults = [self.expr(d, env) if d is not None else None for d in e.args.kw_defaults]
        return f

    def e_IfExp(self, e, env):
        c = self.expr(e.test, env)
        return self.expr(e.body, env) if self.truth(c) else self.expr(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.expr(e.value, env)
        self.assign(e.target, v, env)
        return v

    def pure(self, e):
        for n in ast.walk(e):
            if not isinstance(
                n,
                (ast.Name, ast.Constant, ast.Compare, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.Attribute,
                 ast.Load, ast.operator, ast.cmpop, ast.unaryop, ast.boolop),
            ):
                return False
            if isinstance(n, (ast.Div, ast.Mod, ast.FloorDiv)):
                return False
            if isinstance(n, ast.BoolOp) and False:
                return False
        return True

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = self.expr(e.values[0], env)
        for nxt in e.values[1:]:
            if isinstance(v, SV) and v.sort == "bool" and self.concrete_truth(v) is None and self.pure(nxt):
                try:
                    w = self.expr(nxt, env)
                except (PyExc, Unsupported):
                    w = None
                if isinstance(w, bool) or (isinstance(w, SV) and w.sort == "bool"):
                    wt = to_bool_term(w)
                    v = SV("bool", z3.And(v.t, wt) if is_and else z3.Or(v.t, wt))
                    continue
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, SV) or v.sort != "bool" else False
            if not is_and and t:
                return v if not isinstance(v, SV) or v.sort != "bool" else True
            v = self.expr(nxt, env)
        return v

    def e_UnaryOp(self, e, env):
        v = self.expr(e.operand, env)
        return self.unop(e.op, v)

    def unop(self, op, v):
        if isinstance(op, ast.Not):
            if isinstance(v, SV) and v.sort == "bool":
                return SV("bool", z3.Not(v.t))
            return not self.truth(v)
        return self.lib.unop(self, op, v)

    def e_BinOp(self, e, env):
        a = self.expr(e.left, env)
        b = self.expr(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def e_Compare(self, e, env):
        a = self.expr(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            b = self.expr(r, env)
            c = self.compare(op, a, b)
            if res is None:
                res = c
            else:
                res = self.lib.logical(self, "and", res, c)
            a = b
        return res

    def compare(self, op, a, b):
        return self.lib.compare(self, op, a, b)

    def e_Subscript(self, e, env):
        o = self.expr(e.value, env)
        k = self.index_expr(e.slice, env)
        return self.getitem(o, k)

    def index_expr(self, s, env):
        if isinstance(s, ast.Slice):
            f = lambda x: self.expr(x, env) if x is not None else None
            return slice(f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index_expr(x, env) for x in s.elts)
        return self.expr(s, env)

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def comp(self, gens, env, emit):
        if not gens:
            emit(env)
            return
        g = gens[0]
        itv = self.expr(g.iter, env)
        items = self.try_iterate(itv, labels=True)
        if items is None:
            raise Unsupported("comprehension over a symbolic iterable")
        if has_splat(items):
            # only [x for ... for x in labels] is understood
            if g.ifs or gens[1:] or not isinstance(g.target, ast.Name) or self.comp_elt is None or not (isinstance(self.comp_elt, ast.Name) and self.comp_elt.id == g.target.id):
                raise Unsupported("comprehension over labels")
        for x in items:
            self.assign(g.target, x, env)
            ok = True
            for c in g.ifs:
                if not self.truth(self.expr(c, env)):
                    ok = False
                    break
            if ok:
                self.comp(gens[1:], env, emit)

    def e_ListComp(self, e, env):
        sub = Env(env.func, env.module, env)
        out = []
        # [f(x) for x in symbolic] is a symbolic list
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            itv = self.expr(g.iter, sub)
            items = self.try_iterate(itv)
            if items is None:
                it = self.lib.as_iter(self, itv)
                if it is None:
                    raise Unsupported("comprehension over a symbolic iterable")

                env = env.frozen()

                def item(k):
                    s2 = Env(env.func, env.module, env)
                    self.assign(g.target, it.item(k), s2)
                    return self.expr(e.elt, s2)

                return Iter(it.n, item)
            for x in items:
                self.assign(g.target, x, sub)
                out.append(self.expr(e.elt, sub))
            return out
        # [f(x) for x in symbolic if p(x)]: the elements at the increasing positions that hold
        if len(e.generators) == 1:
            g = e.generators[0]
            itv = self.expr(g.iter, sub)
            it = None if self.try_iterate(itv) is not None else self.lib.as_iter(self, itv)
            if it is not None:
                env = env.frozen()

                def at(k):
                    s2 = Env(env.func, env.module, env)
                    self.assign(g.target, it.item(k), s2)
                    return s2

                def holds(k):
                    s2 = at(k)
                    return SV("bool", z3.And([to_bool_term(self.expr(c, s2)) for c in g.ifs]))

                pos = self.lib.filter_positions(self, it.n, holds)
                res = Iter(pos.n, lambda q: self.expr(e.elt, at(pos.arr[q])))
                res.nz, res.pos, res.base = pos.nz, pos, it
                return res
        old, self.comp_elt = self.comp_elt, e.elt
        try:
            self.comp(e.generators, sub, lambda en: out.append(self.expr(e.elt, en)))
        finally:
            self.comp_elt = old
        return out

    def e_GeneratorExp(self, e, env):
        v = self.e_ListComp(e, env)
        if isinstance(v, Iter):
            v.gen = True
        return v

    def e_SetComp(self, e, env):
        v = self.e_ListComp(e, env)
        if not isinstance(v, list) or any(isinstance(x, SV) for x in v):
            raise Unsupported("symbolic set")
        return set(v)

    def e_DictComp(self, e, env):
        sub = Env(env.func, env.module, env)
        out = {}

        def emit(en):
            k = self.expr(e.key, en)
            if isinstance(k, SV):
                raise Unsupported("symbolic dict key")
            out[k] = self.expr(e.value, en)

        old, self.comp_elt = self.comp_elt, None
        try:
            self.comp(e.generators, sub, emit)
        finally:
            self.comp_elt = old
        return out

    # -------------------------------------------------------------- access
    def getattr(self, o, name):
        return self.lib.getattr(self, o, name)

    def setattr(self, o, name, v):
        return self.lib.setattr(self, o, name, v)

    def getitem(self, o, k):
        return self.lib.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.lib.setitem(self, o, k, v)

    def try_iterate(self, v, labels=False):
        return self.lib.try_iterate(self, v, labels)

    def iterate(self, v):
        r = self.try_iterate(v)
        if r is None:
            raise Unsupported(f"iteration over {type(v).__name__}")
        return r

    def concrete_truth(self, v):
        if isinstance(v, SV):
            if v.sort == "bool":
                return const_value(v)
            c = const_value(v)
            return None if c is None else bool(c)
        if isinstance(v, (Opaque, Col, Frame, Arr, Mat)):
            return None
        return self.truth(v)

    def truth(self, v):
        if isinstance(v, SV):
            if v.sort == "bool":
                return self.ctx.branch(v.t)
            if v.sort in ("int", "real"):
                return self.ctx.branch(v.t != 0)
            if v.sort == "str":
                return self.ctx.branch(v.t != z3.StringVal(""))
        if isinstance(v, Opaque):
            return self.ctx.choose(2, "opaque") == 0
        if has_splat(v):
            raise Unsupported("truth of labels")
        if has_seg(v):
            return self.ctx.branch(seg_bounds(v)[1] > 0)
        if isinstance(v, Iter) and not getattr(v, "gen", False) and not hasattr(v, "sym_truth"):
            return self.ctx.branch(v.n > 0)
        if v is None or isinstance(v, (bool, int, str, list, tuple, dict, set)):
            return bool(v)
        if isinstance(v, Mat):
            if len(v.data) == 1:
                return self.truth(v.data[0])
            raise PyExc("ValueError", ("truth value of an array",))
        if isinstance(v, (Frame, Col)):
            raise PyExc("ValueError", ("truth value of a table",))
        if isinstance(v, Arr):
            raise Unsupported("truth of array")
        if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.cls.lookup("__bool__"):
            return self.truth(self.call(Bound(v.cls.lookup("__bool__"), v), [], {}))
        if isinstance(v, (Obj, Func, Bound, Lib, Cls, Prim, Module)):
            return True
        t = getattr(v, "sym_truth", None)
        if t is not None:
            return t(self)
        raise Unsupported(f"truth of {type(v).__name__}")

    # --------------------------------------------------------------- calls
    def e_Call(self, e, env):
        # dropped by the extraction: logging
        f = self.expr(e.func, env)
        if isinstance(f, Prim) and f.name == "log":
            return None
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.iterate(self.expr(a.value, env)))
            else:
                args.append(self.expr(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.expr(k.value, env)
                if not isinstance(d, dict):
                    raise Unsupported("** of a non-dict")
                kwargs.update(d)
            else:
                kwargs[k.arg] = self.expr(k.value, env)
        if isinstance(f, Lib) and f.name == "super" and not args:
            return self.make_super(env)
        return self.call(f, args, kwargs, e)

    def make_super(self, env):
        e = env
        while e is not None and (e.func is None or e.func.cls is None):
            e = e.parent
        if e is None:
            raise Unsupported("super()")
        first = e.func.node.args.args[0].arg
        o = Obj("super")
        o.attrs = {"__super__": (e.vars[first], e.func.cls)}
        return o

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.fn, Func):
                return self.call_func(f.fn, [f.self_] + list(args), kwargs)
            return f.fn(self, f.self_, args, kwargs)
        if isinstance(f, Prim):
            return f.f(self, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Lib):
            return self.lib.call(self, f.name, args, kwargs)
        if isinstance(f, Opaque):
            return Opaque(f.name + "()")
        if isinstance(f, Obj) and isinstance(f.cls, Cls):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call_func(m, [f] + list(args), kwargs)
        c = getattr(f, "sym_call", None)
        if c is not None:
            return c(self, args, kwargs)
        raise Unsupported(f"call of {type(f).__name__}")

    def instantiate(self, c, args, kwargs):
        o = Obj(c)
        init = c.lookup("__init__")
        is_dc = c.dataclass or any(isinstance(b, Cls) and b.dataclass for b in c.bases)
        if init is None and is_dc:
            fs = c.all_fields()
            names = [f[0] for f in fs]
            vals = dict(zip(names, args))
            for k, v in kwargs.items():
                if k not in names or k in vals:
                    raise PyExc("TypeError", (k,))
                vals[k] = v
            for n, d in fs:
                if n not in vals:
                    if d is None:
                        raise PyExc("TypeError", (n,))
                    vals[n] = self.expr(d, Env(None, c.module))
                o.attrs[n] = vals[n]
            post = c.lookup("__post_init__")
            if post is not None:
                self.call_func(post, [o], {})
            return o
        if any(isinstance(b, Lib) and exc_isa(b.name, "Exception") for b in c.bases) and init is None:
            o.attrs["args"] = tuple(args)
            return o
        if init is not None:
            self.call_func(init, [o] + list(args), kwargs)
        elif args or kwargs:
            raise Unsupported(f"constructor of {c.name}")
        return o

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc("TypeError", (f"{f.name}: too many arguments",))
            vals[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in kwo:
                if k in vals:
                    raise PyExc("TypeError", (f"{f.name}: multiple values for {k}",))
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc("TypeError", (f"{f.name}: unexpected keyword {k}",))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        ds = f.defaults or []
        for n, d in zip(names[len(names) - len(ds):], ds):
            vals.setdefault(n, d)
        for n, d, dn in zip(kwo, f.kw_defaults or [], a.kw_defaults):
            if dn is not None:
                vals.setdefault(n, d)
        for n in names + kwo:
            if n not in vals:
                raise PyExc("TypeError", (f"{f.name}: missing {n}",))
        # in signature order
        return {n: vals[n] for n in names + [x for x in (a.vararg and [a.vararg.arg] or [])] + kwo + [x for x in (a.kwarg and [a.kwarg.arg] or [])]}

    def call_func(self, f, args, kwargs, force_inline=False):
        if not force_inline and f.qual in self.contracts:
            self.called_contracts.add(f.qual)
            vals = self.bind(f, args, kwargs)
            r = self.contracts[f.qual](self, vals)
            if r is not NotImplemented:
                return r
        if self.depth > 60:
            raise Unsupported("recursion limit")
        env = Env(f, f.module, f.closure)
        env.vars.update(self.bind(f, args, kwargs))
        self.inlined.add(f.qual)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body, env)
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)):
                    raise Unsupported("generator")
            self.block(f.node.body, env)
            return None
        except ReturnExc as r:
            return r.v
        finally:
            self.depth -= 1
