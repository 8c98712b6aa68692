"""Path contexts: decisions, path condition, obligations; the explorer."""
import time
import z3
from .values import *


class Obligation:
    def __init__(self, name, hyps, goal, facts, ctx, kind="post"):
        self.name = name
        self.hyps = hyps
        self.goal = goal
        self.nfacts = facts
        self.ctx = ctx
        self.kind = kind
        self.path = None
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None


class Ctx:
    def __init__(self, prefix, bounded=None, prune_timeout=1500):
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.alts = []
        self.pc = []
        self.obls = []
        self.counter = {}
        self.rows = []  # (space, term)
        self.rowfacts = []  # (space, fn)
        self.solver = z3.Solver()
        self.solver.set("timeout", prune_timeout)
        self.bounded = bounded
        self.inputs = []  # declared symbolic inputs (for replay)
        self.check_defs = False
        self.notes = set()
        self.npre = None
        self.forks = 0

    # ---------------------------------------------------------- constants
    def fresh_name(self, name):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return name if k == 0 else f"{name}!{k}"

    def fresh(self, name, sort):
        n = self.fresh_name(name)
        return z3.Const(n, SORTS[sort])

    def fresh_array(self, name, sort):
        return z3.Array(self.fresh_name(name), z3.IntSort(), SORTS[sort])

    def fresh_fn(self, name, sort):
        return z3.Function(self.fresh_name(name), z3.IntSort(), SORTS[sort])

    # --------------------------------------------------------- conditions
    def assume(self, t):
        if isinstance(t, SV):
            t = t.t
        if isinstance(t, bool):
            if not t:
                raise PathEnd("assume false")
            return
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathEnd("assume false")
        self.pc.append(t)
        self.solver.add(t)

    def assume_rows(self, space, fn):
        """fn(row) holds for every row 0 <= row < n of the space"""
        self.rowfacts.append((space, fn))

    def row(self, space, name="r"):
        """an arbitrary row of the space (a fresh constant)"""
        t = self.fresh(name, "int")
        self.rows.append((space, t))
        return t

    def feasible(self, t):
        r = self.solver.check(t)
        return r != z3.unsat

    def branch(self, t):
        if isinstance(t, SV):
            t = t.t
        if isinstance(t, bool):
            return t
        s = z3.simplify(t)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            ft = self.feasible(s)
            ff = self.feasible(z3.Not(s))
            if not ft and not ff:
                raise PathEnd("infeasible")
            if ft and ff:
                d = True
                self.alts.append(self.trail + [False])
                self.forks += 1
            else:
                d = ft
        self.pos += 1
        self.trail.append(d)
        c = s if d else z3.Not(s)
        self.pc.append(c)
        self.solver.add(c)
        return d

    def choose(self, n, what=""):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(1, n):
                self.alts.append(self.trail + [k])
        self.pos += 1
        self.trail.append(d)
        return d

    # -------------------------------------------------------- obligations
    def oblige(self, name, t, kind="post"):
        if isinstance(t, SV):
            t = t.t
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        self.obls.append(Obligation(name, list(self.pc), t, len(self.rowfacts), self, kind))

    def define(self, name, t):
        """definedness obligation (divisor nonzero, ...)"""
        if self.check_defs:
            s = z3.simplify(t)
            if not z3.is_true(s):
                self.oblige("defined." + name, t, kind="def")


class Exploration:
    def __init__(self):
        self.obls = []
        self.paths = 0
        self.ended = 0
        self.unsupported = []
        self.pre_sat = None
        self.first = None
        self.completed = []  # (ctx, outcome)


def explore(body, bounded=None, max_paths=3000, max_time=240.0, stop_on_unsupported=True):
    """run body(ctx) for every feasible decision sequence"""
    ex = Exploration()
    stack = [[]]
    t0 = time.time()
    while stack:
        prefix = stack.pop()
        if ex.paths >= max_paths or time.time() - t0 > max_time:
            ex.unsupported.append(f"path limit ({ex.paths} paths, {time.time()-t0:.0f}s)")
            break
        ctx = Ctx(prefix, bounded)
        ex.paths += 1
        try:
            body(ctx)
            ex.completed.append(ctx)
        except PathEnd as e:
            ex.ended += 1
            if str(e) == "bound":
                ex.hit_bound = True
        except Unsupported as e:
            ex.unsupported.append(str(e))
        except PyExc as e:
            ex.unsupported.append(f"exception outside the call: {e}")
        except RecursionError:
            ex.unsupported.append("recursion")
        for o in ctx.obls:
            o.path = list(ctx.trail)
            ex.obls.append(o)
        stack.extend(ctx.alts)
        if ex.unsupported and stop_on_unsupported:
            break
    ex.time = time.time() - t0
    return ex
