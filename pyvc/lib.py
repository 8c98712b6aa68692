"""Assumed contracts of python builtins, numpy, pandas (the subset used).

Everything here is trusted: it is the list of assumed contracts on
dependencies.  Each modelled name adds itself to interp.assumed when used.
"""
import ast
import re
import z3
from fractions import Fraction
from .values import *
from .values import num as znum
from . import smt
from .smt import uf, PI

NP = "numpy"


def is_num(v):
    return isinstance(v, (int, bool, float, Fraction)) or (isinstance(v, SV) and v.sort in ("int", "real", "bool"))


def is_scalar(v):
    return isinstance(v, (int, bool, float, str, Fraction, SV))


def is_plain(v):
    return isinstance(v, (int, bool, str)) or v is None


def is_intlike(v):
    return (isinstance(v, (int, bool))) or (isinstance(v, SV) and v.sort in ("int", "bool"))


def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, SV) and v.sort == "bool")


def is_str(v):
    return isinstance(v, str) or (isinstance(v, SV) and v.sort == "str")


import numpy as _np

NUMBER_ATTRS = set(dir(_np.float64)) | set(dir(float)) | set(dir(int)) | set(dir(_np.int64))


def _all_known(c):
    """the class and all its bases are code of the project"""
    return all(_all_known(b) if isinstance(b, Cls) else getattr(b, "name", b) in ("object", "ABC", "abc.ABC") for b in c.bases)


class Accessor:
    def __init__(self, kind, obj):
        self.kind = kind
        self.obj = obj


class RNG:
    """a numpy Generator: every draw is a fresh, independent row vector"""

    def __init__(self, name):
        self.name = name
        self.draws = 0


class Logger:
    pass


class GroupBy:
    def __init__(self, frame, by, col=None, sort=True):
        self.frame, self.by, self.col, self.sort = frame, by, col, sort


# ---------------------------------------------------------------- scalars
def s_arith(I, op, a, b):
    """scalar arithmetic on numbers"""
    if is_intlike(a) and is_intlike(b):
        x, y = to_int(a), to_int(b)
        if isinstance(op, ast.Add):
            return SV("int", x + y)
        if isinstance(op, ast.Sub):
            return SV("int", x - y)
        if isinstance(op, ast.Mult):
            return SV("int", x * y)
        if isinstance(op, ast.Div):
            I.ctx.define("division", y != 0)
            return SV("real", z3.ToReal(x) / z3.ToReal(y))
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            I.ctx.define("division", y != 0)
            # python floor division; z3 div is euclidean
            if z3.is_int_value(z3.simplify(y)) and z3.simplify(y).as_long() > 0:
                q, m = x / y, x % y
            else:
                q = z3.If(y > 0, x / y, (-x) / (-y))
                m = x - q * y
            return SV("int", q if isinstance(op, ast.FloorDiv) else m)
        if isinstance(op, ast.Pow):
            return s_pow(I, a, b)
    else:
        x, y = to_real(a), to_real(b)
        if isinstance(op, ast.Add):
            return SV("real", x + y)
        if isinstance(op, ast.Sub):
            return SV("real", x - y)
        if isinstance(op, ast.Mult):
            return SV("real", x * y)
        if isinstance(op, ast.Div):
            I.ctx.define("division", y != 0)
            return SV("real", x / y)
        if isinstance(op, ast.Mod):
            return real_mod(I, a, b)
        if isinstance(op, ast.FloorDiv):
            I.ctx.define("division", y != 0)
            return SV("real", z3.ToReal(z3.ToInt(x / y)))
        if isinstance(op, ast.Pow):
            return s_pow(I, a, b)
    raise Unsupported(f"operator {type(op).__name__}")


def real_mod(I, a, b):
    if is_intlike(a) and is_intlike(b):
        return s_arith(I, ast.Mod(), a, b)
    x, y = to_real(a), to_real(b)
    I.ctx.define("modulo", y != 0)
    return SV("real", x - y * z3.ToReal(z3.ToInt(x / y)))


def s_pow(I, a, b):
    cb = const_value(b) if isinstance(b, SV) else b
    if cb is not None and isinstance(cb, (int, Fraction)):
        cb = Fraction(cb)
        if cb.denominator == 1 and abs(cb) <= 6:
            n = int(cb)
            intres = is_intlike(a) and is_intlike(b) and n >= 0
            base = to_int(a) if intres else to_real(a)
            if n == 0:
                return SV("int" if intres else "real", z3.IntVal(1) if intres else znum(1))
            t = base
            for _ in range(abs(n) - 1):
                t = t * base
            if n < 0:
                I.ctx.define("division", t != 0)
                t = znum(1) / t
            return SV("int" if intres else "real", t)
        if cb == Fraction(1, 2):
            return s_fun(I, "sqrt", a)
        ka = const_value(a) if isinstance(a, SV) else a
        if isinstance(ka, (int, Fraction)) and ka != 0 and cb.denominator == 1 and abs(cb) <= 40:
            v = Fraction(ka) ** int(cb)
            return SV("int", z3.IntVal(int(v))) if is_intlike(a) and is_intlike(b) and cb >= 0 else R(v)
    ca = const_value(a) if isinstance(a, SV) else a
    if ca is not None and Fraction(ca) == 10:
        return SV("real", uf("pow10")(to_real(b)))
    return SV("real", uf("powr", 2)(to_real(a), to_real(b)))


def s_fun(I, name, *args):
    I.assumed.add(f"numpy.{name}: {smt.AXIOM_DOC.get(name, 'uninterpreted')}")
    ts = [z3.simplify(to_real(a)) for a in args]
    if name == "sqrt":
        I.ctx.define("sqrt", ts[0] >= 0)
        c = const_value(SV("real", ts[0]))
        if c is not None and c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return R(Fraction(n, d))
    if name in ("log10", "log"):
        I.ctx.define(name, ts[0] > 0)
    if name in ("arcsin", "arccos"):
        I.ctx.define(name, z3.And(ts[0] >= -1, ts[0] <= 1))
    c = const_value(SV("real", ts[0])) if len(ts) == 1 else None
    if c is not None and c == 0:
        if name in ("sin", "arcsin", "arctan", "tan", "sinh", "tanh"):
            return R(0)
        if name in ("cos", "exp", "pow10", "cosh"):
            return R(1)
    if c is not None and c == 1 and name in ("log", "log10"):
        return R(0)
    return SV("real", uf(name, len(ts))(*ts))


def s_cmp(I, op, a, b):
    if isinstance(op, (ast.Eq, ast.NotEq)):
        neg = isinstance(op, ast.NotEq)
        if a is None or b is None:
            r = (a is None) and (b is None)
            return r != neg
        if is_num(a) and is_num(b):
            if is_bool(a) and is_bool(b):
                t = to_bool_term(a) == to_bool_term(b)
            elif is_intlike(a) and is_intlike(b):
                t = to_int(a) == to_int(b)
            else:
                t = to_real(a) == to_real(b)
            return SV("bool", z3.Not(t) if neg else t)
        if is_str(a) and is_str(b):
            t = to_str_term(a) == to_str_term(b)
            return SV("bool", z3.Not(t) if neg else t)
        if is_scalar(a) and is_scalar(b):
            return neg
        raise Unsupported("comparison")
    if is_str(a) and is_str(b):
        x, y = to_str_term(a), to_str_term(b)
        if isinstance(op, ast.Lt):
            return SV("bool", x < y)
        if isinstance(op, ast.LtE):
            return SV("bool", x <= y)
        if isinstance(op, ast.Gt):
            return SV("bool", y < x)
        if isinstance(op, ast.GtE):
            return SV("bool", y <= x)
    if a is None or b is None or is_str(a) or is_str(b):
        raise PyExc("TypeError", ("comparison",))
    if is_intlike(a) and is_intlike(b):
        x, y = to_int(a), to_int(b)
    else:
        x, y = to_real(a), to_real(b)
    if isinstance(op, ast.Lt):
        return SV("bool", x < y)
    if isinstance(op, ast.LtE):
        return SV("bool", x <= y)
    if isinstance(op, ast.Gt):
        return SV("bool", x > y)
    if isinstance(op, ast.GtE):
        return SV("bool", x >= y)
    raise Unsupported(f"comparison {type(op).__name__}")


def ite(c, a, b):
    """scalar if-then-else of SVs"""
    a, b = lift(a), lift(b)
    ct = to_bool_term(c)
    if z3.is_true(z3.simplify(ct)):
        return a
    if z3.is_false(z3.simplify(ct)):
        return b
    if a.sort == b.sort:
        return SV(a.sort, z3.If(ct, a.t, b.t))
    if a.sort in ("int", "real", "bool") and b.sort in ("int", "real", "bool"):
        return SV("real", z3.If(ct, to_real(a), to_real(b)))
    raise Unsupported("if-then-else of mixed types")


# ---------------------------------------------------------------- columns
def view_equal(I, v, w):
    """do two views denote the same rows in the same order"""
    if v is w:
        return True
    if v.space is not w.space or v.order != w.order:
        return False
    if v._keep is w._keep:
        return True
    p = z3.Int("probe!")
    return z3.eq(z3.simplify(v._keep(p)), z3.simplify(w._keep(p)))


def align(I, cols):
    """the common view of columns taking part in one elementwise operation"""
    v0 = None
    kind = "array"
    for c in cols:
        if c.kind == "series":
            kind = "series"
    for c in cols:
        if v0 is None:
            v0 = c.view
            continue
        if not view_equal(I, v0, c.view):
            raise Unsupported("columns of different row sets")
    series = [c for c in cols if c.kind == "series"]
    for s in series[1:]:
        if s.view.index != series[0].view.index:
            raise Unsupported("misaligned indexes")
    if series:
        v0 = series[0].view
    return v0, kind


def elementwise(I, f, *ops):
    """broadcast a scalar function over scalars / columns / small matrices"""
    if any(isinstance(o, Mat) for o in ops):
        return mat_elementwise(I, f, *ops)
    if any(isinstance(o, Arr) for o in ops):
        return arr_elementwise(I, f, *ops)
    cols = [o for o in ops if isinstance(o, Col)]
    if not cols:
        return f(*ops)
    view, kind = align(I, cols)
    names = {c.name for c in cols}
    ops = [ColFn(o.fn) if isinstance(o, Col) else o for o in ops]  # arrays are mutable

    def fn(r):
        return lift(f(*[o.fn(r) if isinstance(o, ColFn) else o for o in ops]))

    # record definedness obligations at an arbitrary row, once
    if I.ctx.check_defs:
        rr = I.ctx.row(view.space)
        n0 = len(I.ctx.pc)
        save = list(I.ctx.pc)
        I.ctx.pc.append(view.inside(rr))
        try:
            fn(rr)
        finally:
            I.ctx.pc[:] = save
    out = Col(view, fn_nodefs(I, fn), kind, names.pop() if len(names) == 1 else None)
    out.own = True  # a fresh array
    return out


class ColFn:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn


def fn_nodefs(I, fn):
    cache = {}

    def g(r):
        k = r.get_id()
        if k in cache:
            return cache[k][1]
        s = I.ctx.check_defs
        I.ctx.check_defs = False
        try:
            v = fn(r)
            cache[k] = (r, v)
            return v
        finally:
            I.ctx.check_defs = s

    return g


def mat_elementwise(I, f, *ops):
    shape = ()
    for o in ops:
        if isinstance(o, Mat):
            shape = bshape(shape, o.shape)
        elif isinstance(o, (list, tuple)):
            raise Unsupported("list operand")
    n = 1
    for s in shape:
        n *= s
    ras = {getattr(o, "rowaxis", None) for o in ops if isinstance(o, Mat)} - {None}
    ra = None
    if ras:
        if len(ras) > 1:
            raise Unsupported("row matrices of different orientation")
        ra = ras.pop()
        for o in ops:
            if ra == 0 and isinstance(o, Col):
                raise Unsupported("rows against a matrix row")
            if ra == 1 and isinstance(o, Mat) and getattr(o, "rowaxis", None) is None:
                raise Unsupported("vector against matrix columns")
            if isinstance(o, Mat) and len(o.shape) != 1:
                raise Unsupported("row matrix rank")
    elif any(isinstance(o, Mat) for o in ops) and any(isinstance(o, Col) for o in ops):
        raise Unsupported("column against a small matrix")
    out = []
    for k in range(n):
        idx = unravel(k, shape)
        out.append(elementwise(I, f, *[mat_get(o, idx, shape) if isinstance(o, Mat) else o for o in ops]))
    m = Mat(out, shape)
    if ra is not None:
        m.rowaxis = ra
    return m


def bshape(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y):
            raise PyExc("ValueError", ("broadcast",))
        out.append(max(x, y) if 0 not in (x, y) else 0)
    return tuple(out)


def unravel(k, shape):
    idx = []
    for s in reversed(shape):
        idx.append(k % s)
        k //= s
    return tuple(reversed(idx))


def ravel(idx, shape):
    k = 0
    for i, s in zip(idx, shape):
        k = k * s + i
    return k


def mat_get(m, idx, shape):
    idx = idx[len(shape) - len(m.shape):]
    idx = tuple(0 if s == 1 else i for i, s in zip(idx, m.shape))
    return m.data[ravel(idx, m.shape)]


def arr_elementwise(I, f, *ops):
    arrs = [o for o in ops if isinstance(o, Arr)]
    n = arrs[0].n
    ops = [arr_snapshot(o) if isinstance(o, Arr) else o for o in ops]
    for a in arrs[1:]:
        if not z3.eq(z3.simplify(a.n), z3.simplify(n)) and I.ctx.solver.check(a.n != n) != z3.unsat:
            raise Unsupported("arrays of different symbolic lengths")
    return Iter2(n, lambda k: lift(f(*[o.get(k) if isinstance(o, Arr) else o for o in ops])))


def arr_snapshot(o):
    """the present contents (arrays and slices of them are mutable)"""
    if isinstance(o, Iter2):
        src = getattr(o, "src", None)
        if src is None:
            return o
        b, off = arr_snapshot(src[0]), src[1]
        return Iter2(o.n, lambda j: b.get(off + j))
    return Arr(o.n, o.arr, o.sort, o.name)


def arr_materialize(o):
    o = arr_snapshot(o)
    return Arr(o.n, o.arr, o.sort, o.name)


def arr_nonzero(I, x):
    """library contract of nonzero(): the increasing list of exactly the positions that hold"""
    c = I.ctx
    x = arr_snapshot(x)

    def P(t):
        v = x.get(t)
        return v.t if v.sort == "bool" else v.t != 0

    cnt = c.fresh("n_nonzero", "int")
    D = z3.Array(c.fresh_name("nonzero"), z3.IntSort(), z3.IntSort())
    rank = z3.Function(c.fresh_name("rank"), z3.IntSort(), z3.IntSort())
    j, t = z3.Ints("j! t!")
    c.assume(z3.And(cnt >= 0, cnt <= x.n))
    c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cnt), z3.And(D[j] >= 0, D[j] < x.n, P(D[j]), rank(D[j]) == j)), patterns=[D[j]]))
    c.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < x.n, P(t)), z3.And(rank(t) >= 0, rank(t) < cnt, D[rank(t)] == t)), patterns=[rank(t)]))
    k = z3.Int("k!")
    c.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < cnt), D[j] < D[k]), patterns=[z3.MultiPattern(D[j], D[k])]))
    c.assume(z3.ForAll([j, t], z3.Implies(z3.And(j >= 0, j + 1 < cnt, D[j] < t, t < D[j + 1]), z3.Not(P(t))), patterns=[z3.MultiPattern(D[j], rank(t))]))
    out = Arr(cnt, D, "int", "nonzero")
    out.nz = (P, rank, x.n)
    c.__dict__.setdefault("nonzeros", []).append(out)
    return out


def arr_all(I, item, n):
    """truth of: item(i) for all 0 <= i < n.  A failing index is a fresh
    witness; the universal direction is a quantified fact."""
    c = I.ctx
    b = c.fresh("all", "bool")
    w = c.fresh("witness", "int")
    i = z3.Int(c.fresh_name("i"))
    c.assume(z3.Implies(z3.Not(b), z3.And(w >= 0, w < n, z3.Not(item(w)))))
    c.assume(z3.ForAll([i], z3.Implies(z3.And(b, i >= 0, i < n), item(i))))
    return b


class Iter2(Arr):
    """immutable elementwise array"""

    def __init__(self, n, item):
        self.n = n
        self.item = item
        p = z3.Int("probe!")
        self.sort = item(p).sort
        self.name = None

    @property
    def arr(self):
        k = z3.Int("lam!k")
        return z3.Lambda([k], self.item(k).t)

    @arr.setter
    def arr(self, v):
        raise Unsupported("store into a derived array")

    def get(self, i):
        return self.item(i)


def round_half_even(t):
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    return z3.If(d < znum_half, f, z3.If(d > znum_half, f + 1, z3.If(f % 2 == 0, f, f + 1)))


class CVal:
    """complex numbers (or arrays of them): real and imaginary parts"""

    def __init__(self, re, im):
        self.re, self.im = re, im

    def sym_getattr(self, I, name):
        if name in ("real", "imag"):
            return self.re if name == "real" else self.im
        if name in ("conj", "conjugate"):
            return Prim(lambda I, a, k: I.lib.f_np_conj(I, self), name)
        raise Unsupported("complex ." + name)

    def sym_unop(self, I, op):
        if isinstance(op, (ast.USub, ast.UAdd)):
            return CVal(I.lib.unop(I, op, self.re), I.lib.unop(I, op, self.im))
        raise Unsupported("complex operator")

    def sym_binop(self, I, op, a, b):
        def bop(o, x, y):
            # the zero parts of 1j and of real operands
            zx, zy = (is_num(t) and const_value(lift(t)) == 0 for t in (x, y))
            if isinstance(o, ast.Mult) and (zx or zy):
                return 0
            if zy and not isinstance(o, ast.Mult):
                return x
            if zx:
                return y if isinstance(o, ast.Add) else I.lib.unop(I, ast.USub(), y)
            return I.lib.binop(I, o, x, y)

        a, b = (t if isinstance(t, CVal) else CVal(t, 0) for t in (a, b))
        if isinstance(op, (ast.Add, ast.Sub)):
            return CVal(bop(op, a.re, b.re), bop(op, a.im, b.im))
        if isinstance(op, ast.Mult):
            m = ast.Mult()
            return CVal(bop(ast.Sub(), bop(m, a.re, b.re), bop(m, a.im, b.im)), bop(ast.Add(), bop(m, a.re, b.im), bop(m, a.im, b.re)))
        if isinstance(op, ast.Div) and is_num(b.im) and const_value(lift(b.im)) == 0:
            return CVal(I.lib.binop(I, op, a.re, b.re), I.lib.binop(I, op, a.im, b.re))
        raise Unsupported("complex operator")


class IterSet:
    """the set of the values of a symbolic iteration of integers"""

    def __init__(self, I, it):
        c = I.ctx
        self.it = it
        self.n = c.fresh("n_distinct", "int")
        self.u = z3.Function(c.fresh_name("distinct"), z3.IntSort(), z3.IntSort())
        self.w = z3.Function(c.fresh_name("position_of_distinct"), z3.IntSort(), z3.IntSort())
        self.p = z3.Function(c.fresh_name("place_of_value"), z3.IntSort(), z3.IntSort())
        c.assume(z3.And(self.n >= 0, self.n <= z3.If(it.n > 0, it.n, 0)))

    def sym_iter(self, I):
        def item(p):
            w = self.w(p)
            v = self.it.item(w)
            if not (isinstance(v, SV) and v.sort == "int"):
                raise Unsupported("set of non-integers")
            I.ctx.assume(z3.Implies(z3.And(p >= 0, p < self.n), z3.And(w >= 0, w < self.it.n, self.u(p) == v.t, self.p(v.t) == p)))
            return SV("int", self.u(p))

        return Iter(self.n, item)

    def place(self, I, j):
        """where the value of the j-th item is enumerated"""
        v = self.it.item(j).t
        I.ctx.assume(z3.Implies(z3.And(j >= 0, j < self.it.n), z3.And(self.p(v) >= 0, self.p(v) < self.n, self.u(self.p(v)) == v)))
        return self.p(v)

    def sym_len(self, I):
        return SV("int", self.n)


# --------------------------------------------------------------- the table
def nth_row(I, view, k):
    """the row at position k of a view"""
    n = view_len(I, view).t
    if not I.ctx.branch(n > (k if k >= 0 else -k - 1)):
        raise PyExc("IndexError")
    memo = I.ctx.__dict__.setdefault("nth", [])
    for v, kk, w in memo:
        if kk == k and same_rows(v, view):
            return w
    w = I.ctx.row(view.space, "nth")
    I.ctx.assume(view.inside(w))
    if view.order == "orig":
        if k == 0:
            I.ctx.assume_rows(view.space, lambda r: z3.Implies(view._keep(r), w <= r))
        if k == -1:
            I.ctx.assume_rows(view.space, lambda r: z3.Implies(view._keep(r), w >= r))
        for v, kk, w2 in memo:
            if same_rows(v, view) and (kk >= 0) == (k >= 0):
                I.ctx.assume((w < w2) if k < kk else (w2 < w))
    memo.append((view, k, w))
    return w


def frame_fresh_view(v, keep=None, order=None, index=None, unique=None):
    return View(
        v.space,
        keep=keep if keep is not None else v._keep,
        order=order if order is not None else v.order,
        index=index if index is not None else v.index,
        unique=v.unique if unique is None else unique,
    )


_vid = [0]


def fresh_tok(kind):
    _vid[0] += 1
    return (kind, _vid[0])


_alive = []


def range_token(space, keep, order):
    """labels 0..n-1 of exactly these rows in this order"""
    t = z3.simplify(keep(z3.Int("probe!")))
    _alive.append(t)
    return ("range", id(space), t.get_id(), order)


def is_range(v):
    return isinstance(v.index, tuple) and v.index == range_token(v.space, v._keep, v.order)


class PosVal:
    """increasing positions of the rows of a view satisfying a mask (np.where(mask)[0])"""

    def __init__(self, view, mask):
        self.view, self.mask = view, mask

    def masked(self):
        k0, m = self.view._keep, self.mask
        return View(self.view.space, keep=lambda r: z3.And(k0(r), m(r)), order=self.view.order, index=self.view.index,
                    unique=self.view.unique)

    def sym_len(self, I):
        return view_len(I, self.masked())

    def sym_getitem(self, I, k):
        """positions of the rows picked from these"""
        if isinstance(k, Col) and k.fn(z3.Int("probe!")).sort == "bool":
            if not view_equal(I, self.masked(), k.view):
                raise Unsupported("mask of other rows")
            return PosVal(self.view, lambda r, m=self.mask, f=k.fn: z3.And(m(r), to_bool_term(f(r))))
        if isinstance(k, PosVal) and view_equal(I, self.masked(), k.view):
            return PosVal(self.view, lambda r, m=self.mask, f=k.mask: z3.And(m(r), f(r)))
        raise Unsupported("index into positions")

    def sym_getattr(self, I, name):
        if name == "size":
            return self.sym_len(I)
        if name == "shape":
            return (self.sym_len(I),)
        if name == "copy":
            return Prim(lambda I, a, k: self, name)
        raise Unsupported("positions ." + name)


def view_len(I, v):
    """len(view) as an SV tagged with the view"""
    key = ("len", id(v))
    cache = I.ctx.__dict__.setdefault("lens", {})
    for w, sv in cache.values():
        if view_equal(I, v, w):
            return SV("int", sv.t, tag=("len", v))
    p = z3.Int("probe!")
    if z3.is_true(z3.simplify(v._keep(p))):
        sv = SV("int", v.space.n, tag=("len", v))
    else:
        L = I.ctx.fresh("len_" + v.space.name, "int")
        I.ctx.assume(L >= 0)
        I.ctx.assume(L <= v.space.n)
        I.ctx.assume_rows(v.space, lambda r: z3.Implies(v._keep(r), L > 0))
        w = I.ctx.row(v.space, "wit")
        I.ctx.assume(z3.Implies(L > 0, v.inside(w)))
        sv = SV("int", L, tag=("len", v))
    cache[key] = (v, sv)
    return sv


def col_any(I, c, neg=False):
    """any(c) (or all(c) when neg: not any(not c))"""
    P = (lambda r: z3.Not(to_bool_term(c.fn(r)))) if neg else (lambda r: to_bool_term(c.fn(r)))
    b = I.ctx.fresh("any", "bool")
    w = I.ctx.row(c.view.space, "wit")
    v = c.view
    I.ctx.assume(z3.Implies(b, z3.And(v.inside(w), P(w))))
    I.ctx.assume_rows(v.space, lambda r: z3.Implies(z3.And(z3.Not(b), v._keep(r)), z3.Not(P(r))))
    return SV("bool", z3.Not(b) if neg else b)


def col_extreme(I, c, which):
    v = c.view
    p = c.fn(z3.Int("probe!"))
    m = I.ctx.fresh(which, "int" if p.sort == "int" else "real")
    w = I.ctx.row(v.space, "wit")
    L = view_len(I, v).t
    cv = (lambda r: to_int(c.fn(r))) if p.sort == "int" else (lambda r: to_real(c.fn(r)))
    I.ctx.assume(z3.Implies(L > 0, z3.And(v.inside(w), cv(w) == m)))
    if which == "max":
        I.ctx.assume_rows(v.space, lambda r: z3.Implies(v._keep(r), cv(r) <= m))
    else:
        I.ctx.assume_rows(v.space, lambda r: z3.Implies(v._keep(r), cv(r) >= m))
    return SV("int" if p.sort == "int" else "real", m)


znum_half = num(Fraction(1, 2))


class LibModel:
    """dispatch of the assumed library"""

    def __init__(self):
        self.extra = {}  # name -> f(I, args, kwargs), per-contract stubs
        self.extra_attr = {}

    # ------------------------------------------------------------- names
    BUILTINS = {
        "len", "range", "enumerate", "zip", "min", "max", "abs", "sum", "float", "int", "str", "bool", "isinstance",
        "sorted", "any", "all", "round", "list", "tuple", "dict", "set", "print", "type", "hasattr", "getattr",
        "super", "object", "reversed", "map", "filter", "repr", "callable", "iter", "next", "open", "issubclass",
        "setattr", "id", "frozenset", "divmod", "pow", "vars",
    }

    def builtin(self, n):
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        if n in self.BUILTINS or n in EXC_PARENTS or n in self.extra:
            return Lib(n)
        return None

    def enter(self, I, v):
        if hasattr(v, "sym_enter"):
            return v.sym_enter(I)
        if isinstance(v, Opaque):
            return Opaque("with")
        raise Unsupported("with")

    # --------------------------------------------------------- operators
    def unop(self, I, op, v):
        h = getattr(v, "sym_unop", None)
        if h is not None:
            return h(I, op)

        def f(x):
            if isinstance(op, ast.USub):
                if isinstance(x, int) and not isinstance(x, bool):
                    return -x
                if is_intlike(x):
                    return SV("int", -to_int(x))
                return SV("real", -to_real(x))
            if isinstance(op, ast.UAdd):
                return x
            if isinstance(op, ast.Invert):
                if is_bool(x) and not isinstance(x, bool):
                    return SV("bool", z3.Not(x.t))
                if isinstance(x, bool):
                    return SV("bool", z3.BoolVal(not x))
                if isinstance(x, int):
                    return ~x
            raise Unsupported("unary operator")

        if isinstance(v, Opaque):
            return v
        return elementwise(I, f, v)

    def logical(self, I, which, a, b):
        f = lambda x, y: SV(
            "bool",
            z3.And(to_bool_term(x), to_bool_term(y)) if which == "and" else z3.Or(to_bool_term(x), to_bool_term(y)),
        )
        if isinstance(a, bool) and isinstance(b, bool):
            return (a and b) if which == "and" else (a or b)
        return elementwise(I, f, a, b)

    def binop(self, I, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op")
        for x in (a, b):
            h = getattr(x, "sym_binop", None)
            if h is not None:
                return h(I, op, a, b)
        if (isinstance(a, Lib) or isinstance(b, Lib)) and (unit_of(a) is not None or unit_of(b) is not None):
            return (unit_of(b) if isinstance(b, Lib) else unit_of(a)).sym_binop(I, op, unit_of(a) or a, unit_of(b) or b)
        if isinstance(op, ast.MatMult):
            return self.matmul(I, a, b)
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if isinstance(a, set) and isinstance(b, set):
                return a & b if isinstance(op, ast.BitAnd) else (a | b if isinstance(op, ast.BitOr) else a ^ b)
            if isinstance(op, ast.BitXor):
                return elementwise(I, lambda x, y: SV("bool", z3.Xor(to_bool_term(x), to_bool_term(y))), a, b)
            return self.logical(I, "and" if isinstance(op, ast.BitAnd) else "or", a, b)
        if is_plain(a) and is_plain(b) or isinstance(a, (list, tuple, dict, set)) or isinstance(b, (list, tuple, dict, set)):
            if isinstance(a, (Mat, Col, Arr)) or isinstance(b, (Mat, Col, Arr)):
                a = self.to_mat(I, a) if isinstance(a, (list, tuple)) else a
                b = self.to_mat(I, b) if isinstance(b, (list, tuple)) else b
            else:
                return self.py_binop(I, op, a, b)
        if is_str(a) and is_str(b) and isinstance(op, ast.Add):
            return SV("str", z3.Concat(to_str_term(a), to_str_term(b)))
        if (is_str(a) or is_str(b)) and not isinstance(a, Col) and not isinstance(b, Col):
            if isinstance(op, ast.Mod):
                o = Opaque("str%")
                args = list(b) if isinstance(b, tuple) else [b]
                if isinstance(a, str) and re.sub(r"%[^%a-zA-Z]*[a-zA-Z]+?", "", a).count("%") == 0:
                    lits = re.split(r"%[-+ #0]*[0-9.]*l?[a-zA-Z]", a)
                    specs = re.findall(r"%([-+ #0]*[0-9.]*)l?([a-zA-Z])", a)
                    if len(specs) == len(args):
                        o.text = [lits[0]] + [y for sp, v, l in zip(specs, args, lits[1:]) for y in ((v, sp[0] + sp[1]), l)]
                return o
            raise PyExc("TypeError", ("str operand",))
        if a is None or b is None:
            raise PyExc("TypeError", ("None operand",))
        if not all(isinstance(x, (Col, Mat, Arr)) or is_num(x) for x in (a, b)):
            raise Unsupported(f"operator {type(op).__name__} on {type(a).__name__},{type(b).__name__}")

        def f(x, y):
            if is_str(x) and is_str(y) and isinstance(op, ast.Add):
                return SV("str", z3.Concat(to_str_term(x), to_str_term(y)))
            if isinstance(op, ast.Div) and is_scalar(a) and is_scalar(b):
                pass
            return s_arith(I, op, x, y)

        return elementwise(I, f, a, b)

    def py_binop(self, I, op, a, b):
        import operator as o

        table = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv, ast.Mod: o.mod,
                 ast.LShift: o.lshift, ast.RShift: o.rshift}
        if isinstance(op, ast.Div) and is_plain(a) and is_plain(b) and a is not None and b is not None and not isinstance(a, str):
            if b == 0:
                raise PyExc("ZeroDivisionError")
            return R(Fraction(a, b))
        if isinstance(op, ast.Pow) and isinstance(a, int) and isinstance(b, int):
            return a ** b if b >= 0 else R(Fraction(a) ** b)
        if isinstance(op, ast.Mult) and isinstance(a, list) and isinstance(b, SV):
            c = const_value(b)
            if c is None:
                if len(a) == 1 and not isinstance(a[0], Seg):
                    x = a[0]
                    return [Seg(to_int(b), lambda k: x)]
                raise Unsupported("list * symbolic")
            b = int(c)
        if type(op) in table:
            try:
                return table[type(op)](a, b)
            except TypeError:
                raise PyExc("TypeError")
            except ZeroDivisionError:
                raise PyExc("ZeroDivisionError")
        raise Unsupported(f"operator {type(op).__name__}")

    def compare(self, I, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if isinstance(a, Lib) and isinstance(b, Lib):
                return (a.name == b.name) != neg
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return SV("bool", I.ctx.fresh("opq", "bool"))
            if isinstance(a, SV) and isinstance(b, bool) and a.sort == "bool":
                t = a.t if b else z3.Not(a.t)
                return SV("bool", z3.Not(t) if neg else t)
            if is_plain(a) and is_plain(b) and a is not None and b is not None:
                return (a == b and type(a) is type(b)) != neg
            return (a is b) != neg
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            r = self.contains(I, b, a)
            if isinstance(r, bool):
                return r != neg
            return SV("bool", z3.Not(r.t)) if neg else r
        for x in (a, b):
            h = getattr(x, "sym_compare", None)
            if h is not None:
                return h(I, op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("cmp")
        if isinstance(a, Splat) or isinstance(b, Splat) or has_splat(a) or has_splat(b):
            raise Unsupported("comparison of labels")
        if has_seg(a) or has_seg(b):
            raise Unsupported("comparison of lists of symbolic length")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(op, (ast.Eq, ast.NotEq)):
                if len(a) != len(b) or type(a) is not type(b):
                    return isinstance(op, ast.NotEq)
                t = z3.BoolVal(True)
                for x, y in zip(a, b):
                    c = self.compare(I, ast.Eq(), x, y)
                    t = z3.And(t, to_bool_term(c))
                t = z3.simplify(t)
                v = SV("bool", z3.Not(t) if isinstance(op, ast.NotEq) else t)
                c = const_value(v)
                return c if c is not None else v
            raise Unsupported("list comparison")
        if is_plain(a) and is_plain(b):
            import operator as o

            table = {ast.Eq: o.eq, ast.NotEq: o.ne, ast.Lt: o.lt, ast.LtE: o.le, ast.Gt: o.gt, ast.GtE: o.ge}
            try:
                return table[type(op)](a, b)
            except TypeError:
                raise PyExc("TypeError")
        if isinstance(a, (set, dict)) and isinstance(b, (set, dict)):
            if isinstance(op, ast.Eq):
                return a == b
            if isinstance(op, ast.NotEq):
                return a != b
            if isinstance(op, ast.LtE):
                return a <= b
        if isinstance(a, Lib) and isinstance(b, Lib) and isinstance(op, (ast.Eq, ast.NotEq)):
            return (a.name == b.name) == isinstance(op, ast.Eq)
        if isinstance(a, (list, tuple)) and isinstance(b, (Mat, Col, Arr)):
            a = self.to_mat(I, a)
        if isinstance(b, (list, tuple)) and isinstance(a, (Mat, Col, Arr)):
            b = self.to_mat(I, b)
        ok = lambda x: isinstance(x, (Col, Mat, Arr)) or is_scalar(x) or x is None
        if isinstance(op, (ast.Eq, ast.NotEq)) and not (ok(a) and ok(b)):
            if isinstance(a, (Obj, Lib, Cls, Func, list, tuple, dict, type(None))) or isinstance(
                b, (Obj, Lib, Cls, Func, list, tuple, dict, type(None))
            ):
                return (a is b) == isinstance(op, ast.Eq)
        if not (ok(a) and ok(b)):
            raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")
        return elementwise(I, lambda x, y: s_cmp(I, op, x, y), a, b)

    def contains(self, I, cont, x):
        if isinstance(cont, Opaque):
            return SV("bool", I.ctx.fresh("opq", "bool"))
        h = getattr(cont, "sym_contains", None)
        if h is not None:
            return h(I, x)
        if type(cont) is Iter:
            cont = getattr(cont, "segs", None) or [Seg(cont.n, cont.item)]
        if has_splat(cont):
            raise Unsupported("in labels")
        if has_seg(cont):
            t = z3.BoolVal(False)
            for i in cont:
                if isinstance(i, Seg):
                    j = I.ctx.fresh("seg_j", "int")
                    e = i.item(j)
                    if isinstance(e, SV) and e.sort == "int" and is_num(x):
                        lo = z3.simplify(z3.substitute(e.t, (j, z3.IntVal(0))))
                        if z3.eq(z3.simplify(e.t - j - lo), z3.IntVal(0)):  # consecutive integers
                            if not isinstance(x, int) and not (isinstance(x, SV) and x.sort == "int"):
                                raise Unsupported("membership of a non-integer in a range")
                            t = z3.Or(t, z3.And(lo <= to_int(x), to_int(x) < lo + i.n))
                            continue
                    t = z3.Or(t, z3.Exists([j], z3.And(j >= 0, j < i.n, to_bool_term(s_cmp(I, ast.Eq(), e, x)))))
                else:
                    t = z3.Or(t, to_bool_term(s_cmp(I, ast.Eq(), x, i)))
            return SV("bool", t)
        if isinstance(cont, (list, tuple, set, dict, frozenset)):
            items = list(cont)
            if isinstance(x, SV) or any(isinstance(i, SV) for i in items):
                t = z3.BoolVal(False)
                for i in items:
                    if is_scalar(i) and is_scalar(x):
                        c = s_cmp(I, ast.Eq(), x, i)
                        t = z3.Or(t, to_bool_term(c))
                return SV("bool", z3.simplify(t))
            if isinstance(x, (Frame, Col, Mat, Arr)):
                raise Unsupported("containment")
            try:
                return x in cont
            except TypeError:
                return any(x is i for i in items)
        if isinstance(cont, ColumnsVal):
            if isinstance(x, str):
                return x in cont.names
            raise Unsupported("symbolic column name")
        if is_str(cont) and is_str(x):
            if isinstance(cont, str) and isinstance(x, str):
                return x in cont
            return SV("bool", z3.Contains(to_str_term(cont), to_str_term(x)))
        if isinstance(cont, Frame) and isinstance(x, str):
            return x in cont.cols
        if isinstance(cont, Mat):
            return self.contains(I, list(cont.data), x)
        raise Unsupported(f"in {type(cont).__name__}")

    # -------------------------------------------------------- iteration
    def try_iterate(self, I, v, labels=False):
        if not labels and has_splat(v):
            raise Unsupported("iteration over labels")
        if has_seg(v):
            return None
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            try:
                return sorted(v)
            except TypeError:
                return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, (range, str)):
            return list(v)
        if isinstance(v, Mat):
            if len(v.shape) == 1:
                return list(v.data)
            step = len(v.data) // v.shape[0] if v.shape[0] else 0
            return [Mat(v.data[i * step:(i + 1) * step], v.shape[1:]) for i in range(v.shape[0])]
        if isinstance(v, ColumnsVal):
            return list(v.names)
        if isinstance(v, IndexVal):
            return [Splat(v.view)]
        h = getattr(v, "sym_iterate", None)
        if h is not None:
            return h(I)
        return None

    def filter_positions(self, I, n, holds):
        return arr_nonzero(I, Iter2(n, holds))

    def as_iter(self, I, v):
        if isinstance(v, Iter):
            return v
        if isinstance(v, Arr):
            return Iter(v.n, lambda k: v.get(k))
        if has_seg(v):
            return Iter(seg_bounds(v)[1], lambda k: self.seg_get(I, list(v), k))
        h = getattr(v, "sym_iter", None)
        if h is not None:
            return h(I)
        return None

    def seg_get(self, I, v, k):
        """element k (a term within the bounds) of a list with runs of symbolic length"""
        parts, n = seg_bounds(v)
        for p, x in parts[:-1]:
            if I.ctx.branch(k < p + (x.n if isinstance(x, Seg) else 1)):
                return x.item(k - p) if isinstance(x, Seg) else x
        p, x = parts[-1]
        return x.item(k - p) if isinstance(x, Seg) else x

    # ----------------------------------------------------------- indexing
    def getitem(self, I, o, k):
        if has_splat(o):
            raise Unsupported("some of the labels")
        if has_seg(o):
            if isinstance(k, slice) or isinstance(k, str):
                raise Unsupported("slice of a list of symbolic length")
            t, n = to_int(k), seg_bounds(o)[1]
            if not I.ctx.branch(z3.And(t < n, t >= -n)):
                raise PyExc("IndexError")
            return self.seg_get(I, o, t if I.ctx.branch(t >= 0) else t + n)
        h = getattr(o, "sym_getitem", None)
        if h is not None:
            return h(I, k)
        if type(o) is Iter and not getattr(o, "gen", False) and isinstance(k, slice) and k.stop is None and k.step is None and (k.start is None or isinstance(k.start, int) and k.start >= 0):
            m = k.start or 0
            r = Iter(z3.If(o.n > m, o.n - m, z3.IntVal(0)), lambda j: o.item(j + m))
            r.tail = (o, m)
            return r
        if type(o) is Iter and not getattr(o, "gen", False) and is_intlike(k) and not isinstance(k, bool):
            t = to_int(k)
            if not I.ctx.branch(z3.And(t < o.n, t >= -o.n)):
                raise PyExc("IndexError")
            return o.item(t if I.ctx.branch(t >= 0) else t + o.n)
        if isinstance(o, Opaque):
            return Opaque(o.name + "[]")
        if isinstance(o, Frame):
            if isinstance(k, str):
                if k not in o.cols:
                    raise PyExc("KeyError", (k,))
                return Col(o.view, o.cols[k], "series", k)
            if isinstance(k, list) and all(isinstance(x, str) for x in k):
                for x in k:
                    if x not in o.cols:
                        raise PyExc("KeyError", (x,))
                return Frame(o.view, {x: o.cols[x] for x in k}, o.name)
            if isinstance(k, ColumnsVal):
                return Frame(o.view, {x: o.cols[x] for x in k.names}, o.name)
            if isinstance(k, NameMask):  # df.loc[:, mask]
                raise Unsupported("frame[mask of columns]")
            if isinstance(k, Col):
                return self.mask_frame(I, o, k)
            raise Unsupported(f"frame[{type(k).__name__}]")
        if isinstance(o, Accessor):
            return self.accessor_get(I, o, k)
        if isinstance(o, Col):
            if isinstance(k, Col):
                v = self.mask_view(I, o.view, k)
                return Col(v, o.fn, o.kind, o.name)
            if isinstance(k, PosVal) and o.kind == "array":
                if not view_equal(I, k.view, o.view):
                    raise Unsupported("positions of other rows")
                return Col(k.masked(), o.fn, o.kind, o.name)
            if isinstance(k, slice) and k == slice(None) and o.kind == "array":
                return o
            if isinstance(k, tuple) and len(k) == 2 and k[1] is None and isinstance(k[0], slice):
                raise Unsupported("newaxis")
            raise Unsupported("column indexing")
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, slice):
                ks = [self.cint(x) for x in (k.start, k.stop, k.step)]
                return o[slice(*ks)]
            if isinstance(k, SV):
                c = const_value(k)
                if c is None:
                    n = len(o)
                    for i in range(n):
                        if I.ctx.branch(to_int(k) == i):
                            return o[i]
                    for i in range(1, n + 1):
                        if I.ctx.branch(to_int(k) == -i):
                            return o[-i]
                    raise PyExc("IndexError")
                k = c
            try:
                return o[int(k)] if not isinstance(k, str) else o[k]
            except IndexError:
                raise PyExc("IndexError")
            except TypeError:
                raise PyExc("TypeError")
        if isinstance(o, dict):
            if isinstance(k, SV):
                c = const_value(k)
                if c is not None:
                    k = c
                else:
                    for kk in list(o):
                        if is_scalar(kk) and I.ctx.branch(to_bool_term(s_cmp(I, ast.Eq(), k, kk))):
                            return o[kk]
                    raise PyExc("KeyError", (k,))
            if isinstance(k, Fraction) and k.denominator == 1:
                k = int(k)
            if k not in o:
                if hasattr(o, "default_factory") and o.default_factory is not None:
                    o[k] = I.call(o.default_factory, [], {})
                    return o[k]
                raise PyExc("KeyError", (k,))
            return o[k]
        if isinstance(o, Mat):
            return self.mat_index(I, o, k)
        if isinstance(o, Arr):
            if isinstance(k, (int, SV)) and not isinstance(k, bool):
                i = to_int(k)
                if isinstance(k, int) and k < 0:
                    i = o.n + k
                elif isinstance(k, SV):
                    I.ctx.oblige("index in bounds", z3.And(i >= 0, i < o.n), kind="safety") if I.ctx.check_defs else None
                return o.get(i)
            if isinstance(k, slice) and k.step is None:
                lo = to_int(k.start) if k.start is not None else z3.IntVal(0)
                hi = to_int(k.stop) if k.stop is not None else o.n
                def norm(t):
                    t = z3.If(t < 0, t + o.n, t)
                    return z3.If(t < 0, z3.IntVal(0), z3.If(t > o.n, o.n, t))
                lo, hi = z3.simplify(norm(lo)), z3.simplify(norm(hi))
                v = Iter2(z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda j, g=o.get: g(lo + j))
                v.src = (o, lo)
                return v
            if isinstance(k, tuple) and len(k) == 1:
                return self.getitem(I, o, k[0])
            if isinstance(k, Arr) and k.sort in ("int", "bool"):
                if k.sort == "bool":
                    k = arr_nonzero(I, k)
                b, kk = arr_snapshot(o), arr_snapshot(k)
                return arr_materialize(Iter2(k.n, lambda j: b.get(kk.get(j).t)))
            raise Unsupported("array indexing")
        if isinstance(o, Obj) and isinstance(o.cls, Cls) and o.cls.lookup("__getitem__"):
            return I.call(Bound(o.cls.lookup("__getitem__"), o), [k], {})
        if isinstance(o, IndexVal):
            raise Unsupported("index indexing")
        if isinstance(o, (Lib, Prim)):
            raise Unsupported(f"subscript of {o}")
        if o is None:
            raise PyExc("TypeError", ("None[]",))
        raise Unsupported(f"subscript of {type(o).__name__}")

    def cint(self, x):
        if x is None or isinstance(x, int):
            return x
        c = const_value(x) if isinstance(x, SV) else None
        if c is None:
            raise Unsupported("symbolic slice")
        return int(c)

    def mat_index(self, I, m, k):
        ks = k if isinstance(k, tuple) else (k,)
        # Mat of Cols with the row axis first/last is handled through m.rowaxis
        rowaxis = getattr(m, "rowaxis", None)
        if rowaxis == 0 and len(ks) == 2 and isinstance(ks[0], slice) and ks[0] == slice(None) and is_intlike(ks[1]):
            return m.data[self.cint(ks[1])]
        if rowaxis is not None and rowaxis != 1:
            raise Unsupported("row matrix indexing")
        if rowaxis == 1:
            # shape (k, rows): first index selects a column vector
            if len(ks) == 1 and is_intlike(ks[0]):
                return m.data[self.cint(ks[0])]
            if len(ks) == 2 and is_intlike(ks[0]) and isinstance(ks[1], slice) and ks[1] == slice(None):
                return m.data[self.cint(ks[0])]
            if len(ks) == 2 and is_intlike(ks[0]) and isinstance(ks[1], (Col, PosVal)):
                return self.getitem(I, m.data[self.cint(ks[0])], ks[1])
            if len(ks) == 2 and isinstance(ks[0], slice) and ks[0] == slice(None) and isinstance(ks[1], (Col, PosVal)):
                out = Mat([self.getitem(I, x, ks[1]) for x in m.data], m.shape)
                out.rowaxis = 1
                return out
            raise Unsupported("row matrix indexing")
        if len(ks) > len(m.shape):
            raise PyExc("IndexError")
        sel = []
        drop = []
        for d, s in enumerate(m.shape):
            kk = ks[d] if d < len(ks) else slice(None)
            if isinstance(kk, slice):
                kk = slice(*[self.cint(x) for x in (kk.start, kk.stop, kk.step)])
                sel.append(list(range(*kk.indices(s))))
                drop.append(False)
            elif isinstance(kk, (int, SV)) and not isinstance(kk, bool):
                i = self.cint(kk) if not isinstance(kk, SV) or const_value(kk) is not None else None
                if i is None:
                    raise Unsupported("symbolic matrix index")
                if i < -s or i >= s:
                    raise PyExc("IndexError")
                sel.append([i % s])
                drop.append(True)
            elif isinstance(kk, list) and all(isinstance(x, int) for x in kk):
                sel.append([i % s for i in kk])
                drop.append(False)
            elif isinstance(kk, Mat) and len(kk.shape) == 1 and all(isinstance(x, int) and not isinstance(x, bool) for x in kk.data):
                if any(not -s <= i < s for i in kk.data):
                    raise PyExc("IndexError")
                sel.append([i % s for i in kk.data])
                drop.append(False)
            else:
                raise Unsupported("matrix index")
        import itertools

        data = [m.data[ravel(ix, m.shape)] for ix in itertools.product(*sel)]
        shape = tuple(len(x) for x, d in zip(sel, drop) if not d)
        if not shape:
            return data[0]
        return Mat(data, shape)

    def mask_view(self, I, view, mask):
        p = mask.fn(z3.Int("probe!"))
        if p.sort != "bool":
            raise Unsupported("non-boolean mask")
        if not view_equal(I, view, mask.view):
            raise Unsupported("mask of different rows")
        if mask.kind == "series" and mask.view.index != view.index:
            raise Unsupported("mask with a different index")
        f, k0 = mask.fn, view._keep
        return View(view.space, keep=lambda r: z3.And(k0(r), to_bool_term(f(r))), order=view.order, index=view.index,
                    unique=view.unique)

    def mask_frame(self, I, o, k):
        return Frame(self.mask_view(I, o.view, k), o.cols, o.name)

    def accessor_get(self, I, a, k):
        o = a.obj
        if a.kind == "loc" and isinstance(o, Frame):
            if isinstance(k, tuple) and len(k) == 2:
                rows, cols = k
                if isinstance(cols, NameMask):
                    cols = cols.chosen()
                f = o if (isinstance(rows, slice) and rows == slice(None)) else self.getitem(I, o, rows)
                return self.getitem(I, f, cols)
            if isinstance(k, Col):
                return self.mask_frame(I, o, k)
        if a.kind == "iloc" and isinstance(o, (Frame, Col)) and isinstance(k, (PosVal, Col)):
            if isinstance(k, Col):
                if k.kind == "series":
                    raise Unsupported("iloc[series]")
                if k.fn(z3.Int("probe!")).sort != "bool":
                    raise Unsupported("iloc[integers]")
                k = PosVal(k.view, lambda r, f=k.fn: to_bool_term(f(r)))
            if not view_equal(I, k.view, o.view):
                raise Unsupported("positions of other rows")
            mv = k.masked()
            v = View(mv.space, mv._keep, o.view.order, o.view.index, o.view.unique)
            return Frame(v, o.cols, o.name) if isinstance(o, Frame) else Col(v, o.fn, o.kind, o.name)
        if a.kind == "loc" and isinstance(o, Col) and isinstance(k, Col):
            return self.getitem(I, o, k)
        if a.kind == "iloc" and isinstance(o, (Frame, Col)) and isinstance(k, int) and not isinstance(k, bool):
            w = nth_row(I, o.view, k)
            if isinstance(o, Col):
                return o.fn(w)
            return {c: f(w) for c, f in o.cols.items()}
        raise Unsupported(f".{a.kind}[]")

    def setitem(self, I, o, k, v):
        h = getattr(o, "sym_setitem", None)
        if h is not None:
            return h(I, k, v)
        if isinstance(o, Opaque):
            return
        if isinstance(o, Frame):
            if isinstance(k, str):
                o.cols[k] = self.column_for(I, o, v)
                return
            if isinstance(k, list):
                vals = I.iterate(v)
                for kk, vv in zip(k, vals):
                    self.setitem(I, o, kk, vv)
                return
            raise Unsupported("frame item assignment")
        if isinstance(o, Accessor) and o.kind == "loc" and isinstance(o.obj, Frame):
            fr = o.obj
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str):
                rows, col = k
                if isinstance(rows, slice) and rows == slice(None):
                    fr.cols[col] = self.column_for(I, fr, v)
                    return
                if isinstance(rows, Col):
                    self.mask_view(I, fr.view, rows)
                    if isinstance(v, Col):
                        # assignment aligned on labels (series) of a subset of the same rows
                        if v.view.space is not fr.view.space or v.kind != "series" or v.view.index != fr.view.index:
                            raise Unsupported("masked column assignment")
                        nf = v.fn
                    else:
                        nf = lambda r: lift(v)
                    if col not in fr.cols:
                        raise Unsupported("masked assignment creates NaN")
                    of = fr.cols[col]
                    m = rows.fn
                    fr.cols[col] = lambda r: ite(m(r), nf(r), of(r))
                    return
            raise Unsupported(".loc assignment")
        if isinstance(o, list):
            if has_seg(o):
                raise Unsupported("store into a list of symbolic length")
            c = self.cint(k) if not isinstance(k, slice) else None
            if c is None:
                raise Unsupported("list slice assignment")
            try:
                o[c] = v
            except IndexError:
                raise PyExc("IndexError")
            return
        if isinstance(o, dict):
            if isinstance(k, SV):
                c = const_value(k)
                if c is None:
                    raise Unsupported("symbolic dict key")
                k = c
            o[k] = v
            return
        if isinstance(o, Arr):
            if isinstance(o, Iter2):
                raise Unsupported("store into a derived array")
            if isinstance(k, (slice, Arr)):
                return self.arr_store(I, o, k, v)
            i = to_int(k)
            t = {"int": to_int, "real": to_real, "bool": to_bool_term}[o.sort](v)
            if I.ctx.check_defs:
                I.ctx.oblige("store in bounds", z3.And(i >= 0, i < o.n), kind="safety")
            o.arr = z3.Store(o.arr, i, t)
            return
        if isinstance(o, Col) and o.kind == "array" and getattr(o, "own", False):
            if isinstance(k, slice) and k == slice(None):
                m = lambda r: z3.BoolVal(True)
            elif isinstance(k, Col):
                self.mask_view(I, o.view, k)
                m = lambda r, f=k.fn: to_bool_term(f(r))
            elif isinstance(k, PosVal) and view_equal(I, k.view, o.view):
                m = k.mask
            else:
                raise Unsupported("item assignment on an array")
            if isinstance(v, Col):
                if v.view.space is not o.view.space or v.kind != "array":
                    raise Unsupported("array values of other rows")
                nf = v.fn
                if not view_equal(I, v.view, View(o.view.space, keep=lambda r, k0=o.view._keep: z3.And(k0(r), m(r)), order=o.view.order, index=o.view.index, unique=o.view.unique)):
                    raise Unsupported("array values of other rows")
            elif is_scalar(v):
                nf = lambda r: lift(v)
            else:
                raise Unsupported("item assignment on an array")
            of = o.fn
            o.fn = lambda r: ite(SV("bool", m(r)), nf(r), of(r))
            return
        if isinstance(o, Mat) and getattr(o, "rowaxis", None) is not None:
            ks = k if isinstance(k, tuple) else (k,)
            if o.rowaxis == 0 and len(ks) == 2 and isinstance(ks[0], slice) and ks[0] == slice(None):
                ks = (ks[1], ks[0])
            elif o.rowaxis == 0:
                raise Unsupported("item assignment on a table")
            if not is_intlike(ks[0]) or len(ks) > 2 or (len(ks) == 2 and not (isinstance(ks[1], slice) and ks[1] == slice(None))):
                raise Unsupported("item assignment on a table")
            old = o.data[self.cint(ks[0])]
            if isinstance(v, Col):
                align(I, [Col(old.view, old.fn, "array"), Col(v.view, v.fn, "array")])
                nf = v.fn
            elif is_scalar(v):
                nf = lambda r: lift(v)
            else:
                raise Unsupported("item assignment on a table")
            old.fn = nf
            return
        if isinstance(o, Mat):
            ks = k if isinstance(k, tuple) else (k,)
            ks = tuple(self.cint(x) if not isinstance(x, slice) else x for x in ks)
            if len(ks) == len(o.shape) and not any(isinstance(x, slice) for x in ks):
                o.data[ravel(tuple(x % s for x, s in zip(ks, o.shape)), o.shape)] = v
                return
            # row / block assignment
            import itertools

            ks = ks + (slice(None),) * (len(o.shape) - len(ks))
            sel = [[x % s] if not isinstance(x, slice) else list(range(*x.indices(s))) for x, s in zip(ks, o.shape)]
            dims = tuple(len(x) for x, kk in zip(sel, ks) if isinstance(kk, slice))
            mv = self.to_mat(I, v) if isinstance(v, (list, tuple)) else v
            for n, ix in enumerate(itertools.product(*sel)):
                o.data[ravel(ix, o.shape)] = mat_get(mv, unravel(n, dims), dims) if isinstance(mv, Mat) else mv
            return
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def column_for(self, I, fr, v):
        if isinstance(v, Col):
            if not view_equal(I, fr.view, v.view):
                if (v.kind == "series" and v.view.space is fr.view.space and v.view.index == fr.view.index
                        and v.view.unique):
                    # label alignment: needs every row of the frame to be present in v
                    rr = I.ctx.row(fr.view.space, "al")
                    I.ctx.oblige("aligned column has a value for every row",
                                 z3.Implies(fr.view.inside(rr), v.view.keep(rr)), kind="def")
                    return v.fn
                raise Unsupported("column of other rows")
            if v.kind == "series" and v.view.index != fr.view.index:
                raise Unsupported("misaligned column assignment")
            return v.fn
        if is_scalar(v) or v is None:
            if v is None:
                raise Unsupported("None column")
            x = lift(v)
            return lambda r: x
        raise Unsupported(f"column from {type(v).__name__}")

    # ---------------------------------------------------------- attributes
    def getattr(self, I, o, name):
        h = getattr(o, "sym_getattr", None)
        if h is not None:
            r = h(I, name)
            if r is not NotImplemented:
                return r
        if isinstance(o, Iter) and name in ("append", "extend", "copy") and type(o) is Iter:
            return self.iter_method(o, name)
        if isinstance(o, Module):
            if name in o.ns:
                v = o.ns[name]
                if isinstance(v, Poison_):
                    raise Unsupported(v.why)
                return v
            from .interp import mod_path
            if mod_path(o.name + "." + name):
                return I.module(o.name + "." + name)
            if name.startswith("__"):
                raise Unsupported(f"module attribute {name}")
            raise PyExc("AttributeError", (name,))
        if isinstance(o, Lib):
            return self.lib_attr(I, o, name)
        if isinstance(o, Obj):
            if "__super__" in o.attrs:
                slf, c = o.attrs["__super__"]
                for b in c.bases:
                    if isinstance(b, Cls):
                        m = b.lookup(name)
                        if m is not None:
                            return Bound(m, slf)
                return Prim(lambda I, a, k: None)
            if name in o.attrs:
                v = o.attrs[name]
                return v
            if o.lazy is not None:
                v = o.lazy(name)
                if v is not NotImplemented:
                    o.attrs[name] = v
                    return v
            if isinstance(o.cls, Cls):
                m = o.cls.lookup(name)
                if m is not None:
                    if isinstance(m, Func):
                        if m.prop:
                            return I.call_func(m, [o], {})
                        if m.static:
                            return m
                        return Bound(m, o)
                    return m
            if name == "__dict__":
                return o.attrs
            if name == "__class__":
                return o.cls
            if not isinstance(o.cls, Cls) or name.startswith("__") or not _all_known(o.cls):
                raise Unsupported(f"attribute {name} of {o.cls if isinstance(o.cls, str) else o.cls.name if isinstance(o.cls, Cls) else o.cls}")
            raise PyExc("AttributeError", (name,))
        if isinstance(o, Cls):
            m = o.lookup(name)
            if m is not None:
                return m
            if name == "__name__":
                return o.name
            if name.startswith("__") or not _all_known(o):
                raise Unsupported(f"class attribute {name}")
            raise PyExc("AttributeError", (name,))
        if isinstance(o, Opaque):
            return Opaque(o.name + "." + name)
        if isinstance(o, Logger):
            return Prim(lambda I, a, k: None, "log")
        if o is None:
            raise PyExc("AttributeError", (name,))
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            fa = o.__dict__.get("fattrs", {})
            if name in fa:
                return fa[name]
            if name.startswith("__"):
                raise Unsupported(f"function attribute {name}")
            raise PyExc("AttributeError", (name,))
        fn = getattr(self, "m_" + type(o).__name__ + "_" + name, None)
        if fn is not None:
            return Bound(lambda I, s, a, k: fn(I, s, *a, **k), o)
        at = getattr(self, "a_" + type(o).__name__ + "_" + name, None)
        if at is not None:
            return at(I, o)
        if isinstance(o, Iter2):
            fn = getattr(self, "m_Arr_" + name, None)
            if fn is not None:
                return Bound(lambda I, s, a, k: fn(I, s, *a, **k), o)
            at = getattr(self, "a_Arr_" + name, None)
            if at is not None:
                return at(I, o)
        if isinstance(o, (list, dict, set, tuple, str)):
            return self.py_method(I, o, name)
        if is_num(o):
            if name in ("values", "real"):
                return o
            if name == "item":
                return Prim(lambda I, a, k: o)
            if name == "ndim":
                return 0
            if name == "shape":
                return ()
            if name in NUMBER_ATTRS:  # numpy's scalars have more methods
                raise Unsupported(f"attribute {name} of a number")
            raise PyExc("AttributeError", (name,))
        if isinstance(o, Frame) and name in o.cols:
            return Col(o.view, o.cols[name], "series", name)
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def iter_method(self, o, name):
        """a list of symbolic length grows at its end"""
        def f(I, a, k):
            if name == "copy":
                r = Iter(o.n, o.item)
                r.segs = list(getattr(o, "segs", None) or [Seg(o.n, o.item)])
                return r
            o.n = Seg(o.n, None).n
            n0, i0 = o.n, o.item
            if name == "append":
                o.item = lambda j: i0(j) if I.ctx.branch(j < n0) else a[0]
                o.n = n0 + 1
                o.segs = (getattr(o, "segs", None) or [Seg(n0, i0)]) + [a[0]]
                return None
            it = self.as_iter(I, a[0])
            if it is None:
                xs = I.iterate(a[0])
                rest = lambda j: self.seg_get(I, list(xs), j)
                m = z3.IntVal(len(xs))
                if not xs:
                    return None
            else:
                m, rest = Seg(it.n, None).n, it.item
            o.item = lambda j: i0(j) if I.ctx.branch(j < n0) else rest(j - n0)
            o.n = n0 + m
            o.segs = getattr(o, "segs", None) or [Seg(n0, i0)]
            o.segs = o.segs + [Seg(m, rest)]
            return None

        return Prim(f, name)

    def py_method(self, I, o, name):
        if not hasattr(o, name) and not (isinstance(o, dict) and name in ("setdefault",)):
            raise PyExc("AttributeError", (name,))

        def f(I, a, k):
            if isinstance(o, list):
                if (has_seg(o) or has_splat(o)) and name not in ("append", "extend", "copy", "clear"):
                    raise Unsupported(f"list.{name} with symbolic length")
                if name in ("append", "extend", "insert", "copy", "reverse", "clear", "pop"):
                    if name == "extend":
                        if has_seg(a[0]):
                            return o.extend(list(a[0]))
                        if I.try_iterate(a[0]) is None:
                            it = self.as_iter(I, a[0])
                            if it is not None:
                                return o.append(Seg(it.n, it.item))
                        return o.extend(I.iterate(a[0]))
                    a2 = [self.cint(x) if isinstance(x, SV) and name == "pop" else x for x in a]
                    if name == "pop" and not o:
                        raise PyExc("IndexError")
                    return getattr(o, name)(*a2)
                if name in ("index", "count", "remove"):
                    for i, x in enumerate(o):
                        if I.truth(I.compare(ast.Eq(), x, a[0])):
                            if name == "index":
                                return i
                            if name == "remove":
                                del o[i]
                                return None
                    if name == "count":
                        raise Unsupported("count")
                    raise PyExc("ValueError")
                if name == "sort" and all(is_plain(x) for x in o) and not k:
                    return o.sort()
            if isinstance(o, dict):
                if name in ("keys", "values", "items"):
                    return list(getattr(o, name)())
                if name == "get":
                    key = a[0]
                    if isinstance(key, SV):
                        c = const_value(key)
                        if c is None:
                            try:
                                return self.getitem(I, o, key)
                            except PyExc as e:
                                if e.cls == "KeyError":
                                    return a[1] if len(a) > 1 else k.get("default")
                                raise
                        key = c
                    return o.get(key, a[1] if len(a) > 1 else None)
                if name in ("update", "pop", "setdefault", "copy", "clear"):
                    if any(isinstance(x, SV) for x in a[:1]):
                        raise Unsupported("symbolic key")
                    if name == "pop" and a[0] not in o and len(a) == 1:
                        raise PyExc("KeyError")
                    return getattr(o, name)(*a, **k)
            if isinstance(o, set):
                if name in ("add", "update", "union", "intersection", "difference", "discard", "issubset", "copy", "issuperset", "remove"):
                    if any(isinstance(x, SV) for x in a):
                        raise Unsupported("symbolic set")
                    return getattr(o, name)(*[set(I.iterate(x)) if name not in ("add", "discard", "remove") else x for x in a])
            if isinstance(o, tuple) and name in ("index", "count"):
                return getattr(o, name)(*a)
            if isinstance(o, str):
                if name == "join":
                    it = I.iterate(a[0])
                    if all(isinstance(x, str) for x in it):
                        return o.join(it)
                    return Opaque("join")
                if name == "format":
                    if all(isinstance(x, (str, int)) for x in a) and all(isinstance(x, (str, int)) for x in k.values()):
                        return o.format(*a, **k)
                    return Opaque("format")
                if all(isinstance(x, (str, int, type(None), tuple)) for x in a):
                    return getattr(o, name)(*a, **k)
                if name in ("startswith", "endswith") and isinstance(a[0], SV):
                    x = to_str_term(a[0])
                    s = z3.StringVal(o)
                    return SV("bool", z3.PrefixOf(x, s) if name == "startswith" else z3.SuffixOf(x, s))
            raise Unsupported(f"{type(o).__name__}.{name}")

        return Prim(f, name)

    def setattr(self, I, o, name, v):
        h = getattr(o, "sym_setattr", None)
        if h is not None:
            return h(I, name, v)
        if isinstance(o, Obj):
            o.attrs[name] = v
        elif isinstance(o, Func):
            o.__dict__.setdefault("fattrs", {})[name] = v
        elif isinstance(o, Opaque):
            pass
        elif isinstance(o, (Lib,)):
            pass
        elif isinstance(o, Cls):
            o.ns[name] = v
        elif isinstance(o, Module):
            o.ns[name] = v
        elif isinstance(o, Frame) and name == "columns" and isinstance(v, (list, ColumnsVal)):
            names = v if isinstance(v, list) else v.names
            if len(names) != len(o.cols):
                raise PyExc("ValueError")
            o.cols = dict(zip(names, o.cols.values()))
        else:
            raise Unsupported(f"setattr on {type(o).__name__}")

    # scalar strings
    def m_SV_strip(self, I, o):
        I.assumed.add("configuration strings carry no surrounding white space (configparser strips them)")
        return o

    def m_SV_lower(self, I, o):
        raise Unsupported("str.lower")

    def m_SV_split(self, I, o, *a):
        raise Unsupported("str.split")

    def m_SV_startswith(self, I, o, x):
        return SV("bool", z3.PrefixOf(to_str_term(x), o.t))

    def m_SV_endswith(self, I, o, x):
        return SV("bool", z3.SuffixOf(to_str_term(x), o.t))

    def m_SV_encode(self, I, o, *a, **k):
        return o

    def m_SV_item(self, I, o):
        return o

    def m_SV_astype(self, I, o, t):
        return self.call(I, t.name if isinstance(t, Lib) else t, [o], {})

    def a_SV_values(self, I, o):
        return o

    # ------------------------------------------------------------- frames
    def a_Frame_columns(self, I, o):
        return ColumnsVal(o)

    def a_Frame_index(self, I, o):
        return IndexVal(o.view)

    def a_Frame_loc(self, I, o):
        return Accessor("loc", o)

    def a_Frame_iloc(self, I, o):
        return Accessor("iloc", o)

    def a_Col_iloc(self, I, o):
        return Accessor("iloc", o)

    def a_Frame_shape(self, I, o):
        return (view_len(I, o.view), len(o.cols))

    def a_Frame_empty(self, I, o):
        L = view_len(I, o.view)
        return SV("bool", L.t == 0)

    def m_Frame_copy(self, I, o, deep=True):
        return o.copy()

    def m_Frame_reset_index(self, I, o, level=None, drop=False, inplace=False):
        if not drop:
            raise Unsupported("reset_index(drop=False)")
        v = View(o.view.space, keep=o.view._keep, order=o.view.order, index=range_token(o.view.space, o.view._keep, o.view.order), unique=True)
        if inplace:
            o.view = v
            return None
        return Frame(v, o.cols, o.name)

    def m_Frame_drop(self, I, o, labels=None, axis=0, index=None, columns=None, inplace=False, errors="raise"):
        f = o.copy()
        if columns is None and axis in (1, "columns") and labels is not None:
            columns, labels = labels, None
        if index is None:
            index = labels
        if columns is not None:
            cl = columns.names if isinstance(columns, ColumnsVal) else ([columns] if isinstance(columns, str) else list(columns))
            for c in cl:
                if c not in f.cols:
                    if errors == "ignore":
                        continue
                    raise PyExc("KeyError", (c,))
                f.cols.pop(c)
        if index is not None:
            if isinstance(index, PosVal):
                if not view_equal(I, index.view, f.view) or not is_range(f.view):
                    raise Unsupported("positions used as labels")
                mv = index.masked()
                index = IndexVal(View(mv.space, mv._keep, mv.order, f.view.index))
            views = self.label_views(I, index)
            for v in views:
                if v.space is not f.view.space or v.index != f.view.index or not f.view.unique:
                    raise Unsupported("drop of foreign labels")
            k0 = f.view._keep
            vs = [v._keep for v in views]
            f.view = View(f.view.space, keep=lambda r: z3.And(k0(r), *[z3.Not(g(r)) for g in vs]), order=f.view.order,
                          index=f.view.index, unique=f.view.unique)
        if inplace:
            o.view, o.cols = f.view, f.cols
            return None
        return f

    def label_views(self, I, index):
        if isinstance(index, IndexVal):
            return [index.view]
        if isinstance(index, Col) and getattr(index, "labels", False):
            return [index.view]
        if isinstance(index, (list, tuple)) and all(isinstance(x, Splat) for x in index):
            return [x.view for x in index]
        raise Unsupported("drop labels")

    def m_Frame_rename(self, I, o, mapper=None, columns=None, inplace=False, axis=None):
        if columns is None and axis in (1, "columns"):
            columns = mapper
        if isinstance(columns, (Func, Bound, Prim)):
            columns = {k: I.call(columns, [k], {}) for k in o.cols}
            if not all(isinstance(x, str) for x in columns.values()):
                raise Unsupported("rename")
        if not isinstance(columns, dict):
            raise Unsupported("rename")
        cols = {columns.get(k, k): v for k, v in o.cols.items()}
        if len(cols) != len(o.cols):
            raise Unsupported("rename collides")
        if inplace:
            o.cols = cols
            return None
        return Frame(o.view, cols, o.name)

    def m_Frame_insert(self, I, o, loc, column, value):
        o.cols[column] = self.column_for(I, o, value)

    def m_Frame_assign(self, I, o, **kw):
        f = o.copy()
        for k, v in kw.items():
            if isinstance(v, Func):
                v = I.call(v, [f], {})
            f.cols[k] = self.column_for(I, f, v)
        return f

    def m_Frame_pop(self, I, o, k):
        c = self.getitem(I, o, k)
        o.cols.pop(k)
        return c

    def m_Frame_apply(self, I, o, f, axis=0, **k):
        if axis not in (1, "columns"):
            raise Unsupported("apply along columns")
        view = o.view
        fr = Frame(o.view, o.cols, o.name)
        # run once at an arbitrary row of the table: failures are failures of the call
        rr = I.ctx.row(view.space, "ap")
        save = list(I.ctx.pc)
        I.ctx.pc.append(view.inside(rr))
        try:
            v0 = I.call(f, [RowObj(fr, rr)], {})
        finally:
            I.ctx.pc[:] = save
        if not is_scalar(v0):
            raise Unsupported("apply result")

        def fn(r):
            n = len(I.ctx.obls)
            try:
                return lift(I.call(f, [RowObj(fr, r)], {}))
            finally:
                del I.ctx.obls[n:]

        return Col(view, fn_nodefs(I, fn), "series")

    def m_Frame_dropna(self, I, o, axis=0, how="any", subset=None, inplace=False, ignore_index=False, **k):
        if k or axis not in (0, "index") or how != "any":
            raise Unsupported("dropna options")
        subset = list(o.cols) if subset is None else [subset] if isinstance(subset, str) else list(subset)
        for c in subset:
            if c not in o.cols:
                raise PyExc("KeyError", (c,))
        I.assumed.add("no NaN in symbolic columns other than those a merge leaves or the contract declares")
        nulls = []
        for c in subset:
            f = o.cols[c]
            if isinstance(f, NullFn) and not any(f.null is g for g in nulls):
                nulls.append(f.null)
        k0, v = o.view._keep, o.view
        keep = (lambda r: z3.And(k0(r), *[z3.Not(g(r)) for g in nulls])) if nulls else k0
        cols = {c: (f.raw if isinstance(f, NullFn) and any(f.null is g for g in nulls) else f) for c, f in o.cols.items()}
        nv = View(v.space, keep, v.order, range_token(v.space, keep, v.order) if ignore_index else v.index, True if ignore_index else v.unique)
        f = Frame(nv, cols, o.name)
        if inplace:
            o.view, o.cols = f.view, f.cols
            return None
        return f

    def m_Frame_isnull(self, I, o):
        I.assumed.add("no NaN in symbolic columns other than those a merge leaves or the contract declares")
        cols = {c: (lambda r, f=f: SV("bool", f.null(r) if isinstance(f, NullFn) else z3.BoolVal(False))) for c, f in o.cols.items()}
        return Frame(o.view, cols, o.name)

    m_Frame_isna = m_Frame_isnull

    def m_Frame_any(self, I, o, axis=0, **k):
        if axis in (1, "columns") and not k:
            return Col(o.view, lambda r: SV("bool", z3.Or([to_bool_term(f(r)) for f in o.cols.values()])), "series")
        if axis not in (0, "index") or k:
            raise Unsupported("any over columns")
        return AnyCols([Col(o.view, f, "series", c) for c, f in o.cols.items()])

    def m_Frame_all(self, I, o, axis=0, **k):
        if axis not in (1, "columns") or k:
            raise Unsupported("all over rows")
        return Col(o.view, lambda r: SV("bool", z3.And([to_bool_term(f(r)) for f in o.cols.values()])), "series")

    def m_Frame_keys(self, I, o):
        return ColumnsVal(o)

    def m_Frame_query(self, I, o, q):
        raise Unsupported("query")

    def m_Frame_sort_values(self, I, o, by=None, ascending=True, inplace=False, ignore_index=False, kind=None, axis=0):
        by = [by] if isinstance(by, str) else by
        for b in by:
            if b not in o.cols:
                raise PyExc("KeyError", (b,))
        order = ("sort", tuple(by), bool(ascending) if not isinstance(ascending, list) else tuple(ascending), o.view.order)
        v = View(o.view.space, keep=o.view._keep, order=order,
                 index=range_token(o.view.space, o.view._keep, order) if ignore_index else o.view.index, unique=o.view.unique)
        if inplace:
            o.view = v
            return None
        return Frame(v, o.cols, o.name)

    def m_Frame_get(self, I, o, k, default=None):
        return self.getitem(I, o, k) if k in o.cols else default

    def m_Frame_head(self, I, o, n=5):
        raise Unsupported("head")

    def m_Frame_to_numpy(self, I, o):
        raise Unsupported("frame to_numpy")

    # --------------------------------------------------------------- columns
    def a_Col_values(self, I, o):
        return Col(o.view, o.fn, "array", None)

    def a_Col_index(self, I, o):
        return IndexVal(o.view)

    def a_Col_loc(self, I, o):
        return Accessor("loc", o)

    def a_Col_shape(self, I, o):
        return (view_len(I, o.view),)

    def a_Col_size(self, I, o):
        return view_len(I, o.view)

    def a_Col_empty(self, I, o):
        return SV("bool", view_len(I, o.view).t == 0)

    def a_Col_dtype(self, I, o):
        return Opaque("dtype")

    def a_Col_ndim(self, I, o):
        return 1

    def a_Col_T(self, I, o):
        return o

    def a_Col_name(self, I, o):
        return o.name

    def m_Col_to_numpy(self, I, o, *a, **k):
        return Col(o.view, o.fn, "array", None)

    def m_Col_tolist(self, I, o):
        if getattr(o, "labels", False):
            return [Splat(o.view)]
        return Col(o.view, o.fn, "array", None)

    m_Col_to_list = m_Col_tolist

    def m_Col_copy(self, I, o, deep=True):
        return Col(o.view, o.fn, o.kind, o.name)

    def m_Col_astype(self, I, o, t=None, **k):
        t = k.get("dtype", t)
        n = t.name if isinstance(t, Lib) else t
        if n == "category":  # the same values, stored once each
            return o
        p = o.fn(z3.Int("probe!"))
        if n in ("float", "float64", "numpy.float64") and p.sort in ("int", "real"):
            return Col(o.view, lambda r: SV("real", to_real(o.fn(r))), o.kind, o.name)
        if n in ("str",) and p.sort == "str":
            return o
        if n in ("int", "int64", "numpy.int64") and p.sort in ("int", "bool"):
            return Col(o.view, lambda r: SV("int", to_int(o.fn(r))), o.kind, o.name)
        if n in ("bool",) and p.sort == "bool":
            return o
        raise Unsupported(f"astype {n}")

    def m_Col_any(self, I, o, *a, **k):
        return col_any(I, o)

    def m_Col_all(self, I, o, *a, **k):
        return col_any(I, o, neg=True)

    def m_Col_max(self, I, o, *a, **k):
        return col_extreme(I, o, "max")

    def m_Col_min(self, I, o, *a, **k):
        return col_extreme(I, o, "min")

    def m_Col_isna(self, I, o):
        if isinstance(o.fn, NullFn):
            return Col(o.view, lambda r: SV("bool", o.fn.null(r)), o.kind, o.name)
        I.assumed.add("no NaN in symbolic columns (floats are reals); NaN inputs are covered only by the concrete contract search")
        return Col(o.view, lambda r: SV("bool", z3.BoolVal(False)), o.kind, o.name)

    m_Col_isnull = m_Col_isna

    def m_Col_notna(self, I, o):
        if isinstance(o.fn, NullFn):
            return Col(o.view, lambda r: SV("bool", z3.Not(o.fn.null(r))), o.kind, o.name)
        return Col(o.view, lambda r: SV("bool", z3.BoolVal(True)), o.kind, o.name)

    def m_Col_isin(self, I, o, vals):
        if isinstance(vals, UniqueVal):
            vals = vals.col
        if isinstance(vals, Col) and not isinstance(vals.fn, NullFn) and not isinstance(o.fn, NullFn):
            return value_in(I, o, vals)
        vals = I.iterate(vals)
        if any(isinstance(x, Splat) for x in vals):
            raise Unsupported("isin")
        return elementwise(I, lambda x: SV("bool", z3.Or(*[to_bool_term(s_cmp(I, ast.Eq(), x, y)) for y in vals]) if vals else z3.BoolVal(False)), o)

    def m_Col_abs(self, I, o):
        return self.call(I, "numpy.abs", [o], {})

    def m_Col_between(self, I, o, lo, hi, inclusive="both"):
        a = self.compare(I, ast.GtE() if inclusive in ("both", "left") else ast.Gt(), o, lo)
        b = self.compare(I, ast.LtE() if inclusive in ("both", "right") else ast.Lt(), o, hi)
        return self.logical(I, "and", a, b)

    def _cmpm(opcls):
        def m(self, I, o, other):
            return self.compare(I, opcls(), o, other)
        return m

    m_Col_gt, m_Col_ge, m_Col_lt, m_Col_le, m_Col_eq, m_Col_ne = (
        _cmpm(ast.Gt), _cmpm(ast.GtE), _cmpm(ast.Lt), _cmpm(ast.LtE), _cmpm(ast.Eq), _cmpm(ast.NotEq))

    def _arm(opcls):
        def m(self, I, o, other):
            return self.binop(I, opcls(), o, other)
        return m

    m_Col_add, m_Col_sub, m_Col_mul, m_Col_div, m_Col_pow = (
        _arm(ast.Add), _arm(ast.Sub), _arm(ast.Mult), _arm(ast.Div), _arm(ast.Pow))
    m_Col_truediv = m_Col_div

    def m_Col_where(self, I, o, cond, other=None):
        if other is None:
            raise Unsupported("where without other")
        return elementwise(I, lambda c, a, b: ite(c, a, b), cond, o, other)

    def m_Col_mask(self, I, o, cond, other=None):
        if other is None:
            raise Unsupported("mask without other")
        return elementwise(I, lambda c, a, b: ite(c, b, a), cond, o, other)

    def m_Col_round(self, I, o, decimals=0, *a):
        d = decimals.t if isinstance(decimals, SV) and decimals.sort == "int" else z3.IntVal(decimals) if isinstance(decimals, int) and not isinstance(decimals, bool) else None
        if d is None or a:
            raise Unsupported("round")
        I.assumed.add("rounding to a number of decimals is one fixed function")
        return elementwise(I, lambda x: SV("real", ROUND(to_real(x), d)), o)

    def f_np_round(self, I, x, decimals=0):
        if isinstance(x, Col):
            return self.m_Col_round(I, x, decimals)
        if decimals == 0 and isinstance(x, SV) and x.sort in ("int", "real"):
            return SV("real", to_real(self.b_round(I, x)))
        if decimals == 0 and isinstance(x, Arr):
            return elementwise(I, lambda a: SV("real", z3.ToReal(round_half_even(to_real(a)))), x)
        raise Unsupported("round")

    def f_np_rint(self, I, x):
        return self.f_np_round(I, x)

    f_np_around = f_np_round

    def m_Col_unique(self, I, o):
        return UniqueVal(o)

    def m_Col_reset_index(self, I, o, drop=False, **k):
        if not drop:
            raise Unsupported("series reset_index(drop=False)")
        v = View(o.view.space, keep=o.view._keep, order=o.view.order, index=range_token(o.view.space, o.view._keep, o.view.order), unique=True)
        return Col(v, o.fn, "series", o.name)

    def m_Col_map(self, I, o, f, **k):
        if isinstance(f, dict):
            raise Unsupported("map dict")
        return elementwise(I, lambda x: I.call(f, [x], {}), o)

    m_Col_apply = m_Col_map

    # ----------------------------------------------------------------- index
    def a_IndexVal_values(self, I, o):
        c = Col(o.view, lambda r: SV("int", r), "array", None)
        c.labels = True
        return c

    def m_IndexVal_tolist(self, I, o):
        return [Splat(o.view)]

    m_IndexVal_to_list = m_IndexVal_tolist

    def m_IndexVal_to_numpy(self, I, o):
        return self.a_IndexVal_values(I, o)

    def m_IndexVal_union(self, I, o, other):
        raise Unsupported("index union")

    def a_IndexVal_size(self, I, o):
        return view_len(I, o.view)

    def a_IndexVal_empty(self, I, o):
        return SV("bool", view_len(I, o.view).t == 0)

    def a_ColumnsVal_values(self, I, o):
        return list(o.names)

    def m_ColumnsVal_tolist(self, I, o):
        return list(o.names)

    # ------------------------------------------------------------------ Arr
    def arr_store(self, I, o, k, v):
        c = I.ctx
        conv = {"int": to_int, "real": to_real, "bool": to_bool_term}[o.sort]
        old, n = o.arr, o.n
        val = arr_snapshot(v) if isinstance(v, Arr) else None
        t = z3.Int("lam!k")
        if isinstance(k, slice):
            view = self.getitem(I, o, k)
            lo, m = view.src[1], view.n
            if val is not None and not z3.eq(z3.simplify(val.n), z3.simplify(m)) and c.solver.check(val.n != m) != z3.unsat:
                raise Unsupported("slice store of another length")
            item = (lambda x: conv(val.get(x - lo))) if val is not None else (lambda x: conv(v))
            o.arr = z3.Lambda([t], z3.If(z3.And(t >= lo, t < lo + m), item(t), z3.Select(old, t)))
        elif k.sort == "bool":
            mk = arr_snapshot(k)
            if val is None:
                o.arr = z3.Lambda([t], z3.If(z3.And(t >= 0, t < n, mk.get(t).t), conv(v), z3.Select(old, t)))
            else:
                rank = z3.Function(c.fresh_name("rank"), z3.IntSort(), z3.IntSort())
                I.assumed.add("a masked assignment gets as many values as the mask holds")
                o.arr = z3.Lambda([t], z3.If(z3.And(t >= 0, t < n, mk.get(t).t), conv(val.get(rank(t))), z3.Select(old, t)))
                q = z3.Int("t!")
                c.assume(z3.ForAll([q], z3.And(rank(q) >= 0, rank(q) < val.n), patterns=[rank(q)]))
        else:
            # scatter to distinct positions
            ix = arr_snapshot(k)
            new = z3.Array(c.fresh_name("scattered"), z3.IntSort(), SORTS[o.sort])
            inv = z3.Function(c.fresh_name("slot"), z3.IntSort(), z3.IntSort())
            j, x = z3.Ints("j! t!")
            vj = (lambda y: to_int(val.get(y)) if o.sort == "int" else conv(val.get(y))) if val is not None else (lambda y: conv(v))
            I.assumed.add("scatter assignments address distinct positions")
            hit = z3.And(inv(x) >= 0, inv(x) < ix.n, ix.get(inv(x)).t == x)
            c.assume(z3.ForAll([x], z3.Select(new, x) == z3.If(hit, vj(inv(x)), z3.Select(old, x)), patterns=[z3.Select(new, x)]))
            c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ix.n), inv(ix.get(j).t) == j), patterns=[inv(ix.get(j).t)]))
            o.arr = new
            o.scatter = (ix, inv)

    def m_Arr_min(self, I, o, low=True):
        c = I.ctx
        if not c.branch(o.n > 0):
            raise PyExc("ValueError", ("zero-size array",))
        x = arr_snapshot(o)
        v = c.fresh("min" if low else "max", o.sort)
        w = c.fresh("at", "int")
        c.assume(z3.And(w >= 0, w < o.n, x.get(w).t == v))
        j = z3.Int("j!")
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < o.n), x.get(j).t >= v if low else x.get(j).t <= v)))
        return SV(o.sort, v)

    def m_Arr_max(self, I, o):
        return self.m_Arr_min(I, o, False)

    def m_Arr_cumsum(self, I, o):
        """prefix sums: PS(t) = the sum of o[0..t], by name only"""
        c = I.ctx
        src = arr_snapshot(o)
        a = c.fresh_array("prefix_sum", "real" if o.sort == "real" else "int")
        c.__dict__.setdefault("cumsums", []).append((src, a))
        return Arr(o.n, a, "real" if o.sort == "real" else "int")

    def m_Arr_nonzero(self, I, o):
        return (arr_nonzero(I, o),)

    def f_functools_partial(self, I, f, *a, **k):
        return Prim(lambda I, b, kw: I.call(f, list(a) + list(b), {**k, **kw}), "partial")

    def f_np_cumsum(self, I, x):
        if isinstance(x, Arr):
            return self.m_Arr_cumsum(I, x)
        raise Unsupported("np.cumsum")

    def f_np_count_nonzero(self, I, x):
        if isinstance(x, Arr):
            n = I.ctx.fresh("count", "int")
            I.ctx.assume(z3.And(n >= 0, n <= x.n))
            return SV("int", n)
        raise Unsupported("count_nonzero")

    def f_np_random_rand(self, I, n):
        a = Arr(to_int(n), I.ctx.fresh_array("rand", "real"), "real")
        j = z3.Int("j!")
        I.ctx.assume(z3.ForAll([j], z3.And(z3.Select(a.arr, j) > 0, z3.Select(a.arr, j) < 1), patterns=[z3.Select(a.arr, j)]))
        I.assumed.add("a uniform draw is not exactly zero (probability zero)")
        return a

    def a_Arr_size(self, I, o):
        return SV("int", o.n)

    def a_Arr_shape(self, I, o):
        return (SV("int", o.n),)

    def a_Arr_values(self, I, o):
        return o

    def m_Arr_astype(self, I, o, dtype=None, **k):
        d = dtype
        n = d.name if isinstance(d, Lib) else (d if isinstance(d, str) else "")
        if "int" in n or n.lstrip("<>=") in ("i4", "i8", "u4", "u8"):
            return elementwise(I, lambda x: self.b_int(I, x), o)
        if "float" in n or n.lstrip("<>=") in ("f4", "f8"):
            return elementwise(I, lambda x: SV("real", to_real(x)), o)
        raise Unsupported("astype")

    def m_Arr_tobytes(self, I, o):
        return Obj("bytes", src=arr_snapshot(o))

    def m_Arr_to_numpy(self, I, o, dtype=None):
        return o

    def m_Arr_copy(self, I, o):
        return arr_materialize(o)

    # ------------------------------------------------------------------ Mat
    def a_Mat_T(self, I, o):
        ra = getattr(o, "rowaxis", None)
        if ra is not None:
            m = Mat(list(o.data), o.shape)
            m.rowaxis = 1 - ra
            return m
        if any(isinstance(x, Col) for x in o.data) and len(o.shape) == 1:
            raise Unsupported("T")
        if len(o.shape) == 1:
            return o
        a, b = o.shape
        return Mat([o.data[i * b + j] for j in range(b) for i in range(a)], (b, a))

    def a_Mat_shape(self, I, o):
        ra = getattr(o, "rowaxis", None)
        if ra is not None:
            n = view_len(I, o.data[0].view)
            return (o.shape[0], n) if ra == 1 else (n, o.shape[0])
        return o.shape

    def a_Mat_ndim(self, I, o):
        return len(o.shape) + (1 if getattr(o, "rowaxis", None) is not None else 0)

    def a_Mat_size(self, I, o):
        return len(o.data)

    def m_Mat_copy(self, I, o):
        m = Mat(list(o.data), o.shape)
        if hasattr(o, "rowaxis"):
            m.data = [Col(c.view, c.fn, c.kind) for c in m.data]
            m.rowaxis = o.rowaxis
        return m

    def m_Mat_tolist(self, I, o):
        return [self.m_Mat_tolist(I, x) if isinstance(x, Mat) else x for x in self.try_iterate(I, o)]

    def m_Mat_flatten(self, I, o):
        return Mat(list(o.data), (len(o.data),))

    def m_Mat_dot(self, I, a, b):
        return self.matmul(I, a, b)

    def m_Mat_transpose(self, I, o):
        return self.a_Mat_T(I, o)

    def m_Mat_sum(self, I, o, axis=None):
        return self.call(I, "numpy.sum", [o], {"axis": axis})

    def m_Mat_any(self, I, o):
        return self.call(I, "any", [list(o.data)], {})

    def m_Mat_all(self, I, o):
        return self.call(I, "all", [list(o.data)], {})

    def m_Mat_min(self, I, o):
        return self.call(I, "min", [list(o.data)], {})

    def m_Mat_max(self, I, o):
        return self.call(I, "max", [list(o.data)], {})

    def m_Mat_reshape(self, I, o, *s):
        if len(s) == 1 and isinstance(s[0], tuple):
            s = s[0]
        s = [self.cint(x) for x in s]
        if -1 in s:
            n = 1
            for x in s:
                if x != -1:
                    n *= x
            s[s.index(-1)] = len(o.data) // n
        return Mat(list(o.data), tuple(s))

    def to_mat(self, I, v):
        """np.array of nested lists"""
        if isinstance(v, Mat):
            m = Mat(list(v.data), v.shape)
            if hasattr(v, "rowaxis"):
                m.data = [Col(c.view, c.fn, c.kind) for c in m.data]
                m.rowaxis = v.rowaxis
            return m
        if isinstance(v, (list, tuple)):
            items = [self.to_mat(I, x) if isinstance(x, (list, tuple)) else x for x in v]
            if items and all(isinstance(x, Col) for x in items):
                m = Mat(items, (len(items),))
                align(I, [Col(x.view, x.fn, "array") for x in items])
                m.data = [Col(x.view, x.fn, "array") for x in items]
                m.rowaxis = 1
                return m
            if items and all(isinstance(x, Mat) for x in items):
                sh = items[0].shape
                if any(x.shape != sh for x in items):
                    raise PyExc("ValueError", ("inhomogeneous",))
                return Mat([y for x in items for y in x.data], (len(items),) + sh)
            if any(isinstance(x, (Col, Mat)) for x in items):
                raise Unsupported("mixed array")
            return Mat(items, (len(items),))
        raise Unsupported("array()")

    def matmul(self, I, a, b):
        a = self.to_mat(I, a) if isinstance(a, (list, tuple)) else a
        b = self.to_mat(I, b) if isinstance(b, (list, tuple)) else b
        if not (isinstance(a, Mat) and isinstance(b, Mat)):
            raise Unsupported("matmul")
        if getattr(a, "rowaxis", None) is not None or getattr(b, "rowaxis", None) is not None:
            raise Unsupported("matmul of row matrices")
        A = a.shape if len(a.shape) == 2 else (1, a.shape[0])
        B = b.shape if len(b.shape) == 2 else (b.shape[0], 1)
        if A[1] != B[0]:
            raise PyExc("ValueError", ("matmul shapes",))
        out = []
        for i in range(A[0]):
            for j in range(B[1]):
                s = None
                for k in range(A[1]):
                    p = self.binop(I, ast.Mult(), a.data[i * A[1] + k], b.data[k * B[1] + j])
                    s = p if s is None else self.binop(I, ast.Add(), s, p)
                out.append(s)
        if len(a.shape) == 1 and len(b.shape) == 1:
            return out[0]
        if len(a.shape) == 1:
            return Mat(out, (B[1],))
        if len(b.shape) == 1:
            return Mat(out, (A[0],))
        return Mat(out, (A[0], B[1]))

    # ------------------------------------------------------------- library
    CONSTS = {
        "numpy.pi": PI, "math.pi": PI, "numpy.inf": None,
    }
    DTYPES = {"numpy.float64", "numpy.float32", "numpy.int64", "numpy.int32", "numpy.str_", "numpy.bool_", "numpy.integer", "numpy.floating"}

    def lib_attr(self, I, o, name):
        full = o.name + "." + name
        if full in self.extra_attr:
            return self.extra_attr[full]
        if full in ("numpy.pi", "math.pi"):
            return SV("real", PI)
        if full in ("numpy.newaxis",):
            return None
        if full in ("numpy.nan", "math.nan"):
            return NAN
        if full in ("numpy.inf", "math.inf"):
            return Inf(1)
        return Lib(full)

    def call(self, I, name, args, kwargs):
        if name in self.extra:
            return self.extra[name](I, args, kwargs)
        if name.startswith("logging."):
            if name == "logging.getLogger":
                return Logger()
            if name.split(".")[-1] in ("info", "error", "warning", "debug", "exception", "critical"):
                return None
        if name in ("print", "warnings.warn", "gc.collect"):
            return None
        if name in ("sys.exit", "exit", "quit"):
            raise PyExc("SystemExit", tuple(args))
        if name.startswith("math."):
            name2 = "numpy." + {"atan2": "arctan2", "asin": "arcsin", "acos": "arccos", "atan": "arctan",
                                "fabs": "abs", "radians": "deg2rad", "degrees": "rad2deg", "pow": "power"}.get(name[5:], name[5:])
            name = name2
        if name.startswith("numpy.linalg."):
            fn = getattr(self, "f_np_linalg_" + name.split(".")[-1], None)
        elif name.startswith("numpy."):
            fn = getattr(self, "f_np_" + name[6:].replace(".", "_"), None)
        elif "." in name:
            fn = getattr(self, "f_" + name.replace(".", "_"), None)
        else:
            fn = getattr(self, "b_" + name, None)
        if fn is None:
            if name in EXC_PARENTS:
                return Obj(name, args=tuple(args))
            raise Unsupported(f"call of {name}")
        if "." in name:
            I.assumed.add(f"{name}: assumed contract")
        return fn(I, *args, **kwargs)

    def f_collections_namedtuple(self, I, name, fields, **k):
        if k:
            raise Unsupported("namedtuple options")
        return NamedTupleType(name, fields.replace(",", " ").split() if isinstance(fields, str) else list(fields))

    # ---- numpy elementwise
    def _fun(n):
        def f(self, I, x, *a, **k):
            if isinstance(x, (list, tuple)):
                x = self.to_mat(I, x)
            if isinstance(x, CVal):
                if n != "exp":
                    raise Unsupported(f"complex {n}")
                c, s = (elementwise(I, lambda v, m=m: s_fun(I, m, v), x.im) for m in ("cos", "sin"))
                if is_num(x.re) and const_value(lift(x.re)) == 0:
                    return CVal(c, s)
                e = elementwise(I, lambda v: s_fun(I, "exp", v), x.re)
                return CVal(self.binop(I, ast.Mult(), e, c), self.binop(I, ast.Mult(), e, s))
            return elementwise(I, lambda v: s_fun(I, n, v), x)
        return f

    for _n in ("exp", "log", "log10", "sqrt", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinh", "cosh", "tanh",
               "arctanh", "arccosh", "cbrt"):
        locals()["f_np_" + _n] = _fun(_n)

    def f_np_arctan2(self, I, y, x):
        return elementwise(I, lambda a, b: s_fun(I, "arctan2", a, b), y, x)

    def f_np_hypot(self, I, x, y):
        return elementwise(I, lambda a, b: s_fun(I, "sqrt", s_arith(I, ast.Add(), s_pow(I, a, 2), s_pow(I, b, 2))), x, y)

    def f_np_interp(self, I, x, xp, fp, left=None, right=None, period=None):
        if left is not None or right is not None or period is not None:
            raise Unsupported("interp options")
        xs = [const_value(lift(v)) for v in (xp.data if isinstance(xp, Mat) else xp)]
        ys = [const_value(lift(v)) for v in (fp.data if isinstance(fp, Mat) else fp)]
        if any(v is None for v in xs + ys):
            raise Unsupported("interp of a symbolic table")
        if len(xs) != len(ys) or any(b <= a for a, b in zip(xs, xs[1:])):
            raise Unsupported("interp table not increasing")

        def f(v):
            t = to_real(v)
            out = znum(ys[-1])
            for i in range(len(xs) - 2, -1, -1):
                y = znum(ys[i]) if ys[i] == ys[i + 1] else znum(ys[i]) + znum(Fraction(ys[i + 1] - ys[i]) / Fraction(xs[i + 1] - xs[i])) * (t - znum(xs[i]))
                out = z3.If(t < znum(xs[i + 1]), y, out)
            return SV("real", z3.If(t <= znum(xs[0]), znum(ys[0]), out))
        return elementwise(I, f, x)

    def f_np_square(self, I, x):
        return elementwise(I, lambda a: s_pow(I, a, 2), x)

    def f_np_power(self, I, x, y):
        return elementwise(I, lambda a, b: s_pow(I, a, b), x, y)

    f_np_float_power = f_np_power

    def f_np_deg2rad(self, I, x):
        if isinstance(x, (list, tuple)):
            x = self.to_mat(I, x)
        return elementwise(I, lambda a: SV("real", to_real(a) * PI / 180), x)

    f_np_radians = f_np_deg2rad

    def f_np_rad2deg(self, I, x):
        return elementwise(I, lambda a: SV("real", to_real(a) * 180 / PI), x)

    f_np_degrees = f_np_rad2deg

    def f_np_mod(self, I, x, y):
        return elementwise(I, lambda a, b: real_mod(I, a, b), x, y)

    f_np_remainder = f_np_mod

    def f_np_fmod(self, I, x, y):
        raise Unsupported("fmod")

    def f_np_abs(self, I, x):
        def f(a):
            if isinstance(a, int):
                return abs(a)
            if is_intlike(a):
                t = to_int(a)
                return SV("int", z3.If(t >= 0, t, -t))
            t = to_real(a)
            return SV("real", z3.If(t >= 0, t, -t))
        return elementwise(I, f, x)

    f_np_absolute = f_np_abs
    f_np_fabs = f_np_abs

    def f_np_sign(self, I, x):
        return elementwise(I, lambda a: SV("real", z3.If(to_real(a) > 0, znum(1), z3.If(to_real(a) < 0, znum(-1), znum(0)))), x)

    def f_np_floor(self, I, x):
        return elementwise(I, lambda a: SV("real", z3.ToReal(z3.ToInt(to_real(a)))), x)

    def f_np_ceil(self, I, x):
        return elementwise(I, lambda a: SV("real", -z3.ToReal(z3.ToInt(-to_real(a)))), x)

    def f_np_clip(self, I, x, lo=None, hi=None, **k):
        lo, hi = k.get("a_min", lo), k.get("a_max", hi)
        def f(a):
            t = to_real(a)
            if lo is not None:
                t = z3.If(t < to_real(lo), to_real(lo), t)
            if hi is not None:
                t = z3.If(t > to_real(hi), to_real(hi), t)
            return SV("real", t)
        return elementwise(I, f, x)

    def f_np_minimum(self, I, a, b):
        return elementwise(I, lambda x, y: ite(s_cmp(I, ast.LtE(), x, y), x, y), a, b)

    def f_np_maximum(self, I, a, b):
        return elementwise(I, lambda x, y: ite(s_cmp(I, ast.GtE(), x, y), x, y), a, b)

    def f_np_where(self, I, c, a=None, b=None):
        if a is None:
            if isinstance(c, Col):
                return (PosVal(c.view, lambda r, f=c.fn: to_bool_term(f(r))),)
            if isinstance(c, Arr):
                return (arr_nonzero(I, c),)
            raise Unsupported("np.where(cond)")
        return elementwise(I, lambda p, x, y: ite(p, x, y), c, a, b)

    def f_np_nonzero(self, I, c):
        return self.f_np_where(I, c)

    def f_np_flatnonzero(self, I, c):
        return self.f_np_where(I, c)[0]

    def f_np_logical_and(self, I, a, b):
        return self.logical(I, "and", a, b)

    def f_np_logical_or(self, I, a, b):
        return self.logical(I, "or", a, b)

    def f_np_logical_not(self, I, a):
        return self.unop(I, ast.Invert(), a)

    def _cmp(opc):
        def f(self, I, a, b):
            return self.compare(I, opc(), a, b)
        return f

    f_np_greater, f_np_greater_equal, f_np_less, f_np_less_equal, f_np_equal, f_np_not_equal = (
        _cmp(ast.Gt), _cmp(ast.GtE), _cmp(ast.Lt), _cmp(ast.LtE), _cmp(ast.Eq), _cmp(ast.NotEq))

    def _ar(opc):
        def f(self, I, a, b):
            return self.binop(I, opc(), a, b)
        return f

    f_np_add, f_np_subtract, f_np_multiply, f_np_divide, f_np_true_divide = (
        _ar(ast.Add), _ar(ast.Sub), _ar(ast.Mult), _ar(ast.Div), _ar(ast.Div))

    def f_np_isclose(self, I, a, b, rtol=None, atol=None, equal_nan=False):
        rt = to_real(rtol) if rtol is not None else znum(Fraction(1, 100000))
        at = to_real(atol) if atol is not None else znum(Fraction(1, 100000000))
        def f(x, y):
            x, y = to_real(x), to_real(y)
            ab = lambda t: z3.If(t >= 0, t, -t)
            return SV("bool", ab(x - y) <= at + rt * ab(y))
        return elementwise(I, f, a, b)

    def f_np_isnan(self, I, x):
        I.assumed.add("no NaN in symbolic values (floats are reals)")
        return elementwise(I, lambda a: SV("bool", z3.BoolVal(False)), x)

    def f_np_isfinite(self, I, x):
        return elementwise(I, lambda a: SV("bool", z3.BoolVal(True)), x)

    def f_np_array(self, I, x, dtype=None, copy=True):
        if isinstance(x, (Col,)):
            return Col(x.view, x.fn, "array")
        if isinstance(x, Arr):
            return Arr(x.n, x.arr, x.sort) if not isinstance(x, Iter2) else x
        if isinstance(x, Iter):
            return Iter2(x.n, lambda k: lift(x.item(k)))
        if is_scalar(x):
            return x
        return self.to_mat(I, x)

    f_np_asarray = f_np_array
    f_np_atleast_1d = f_np_array

    def _shape(self, s):
        if isinstance(s, (int, SV)):
            s = (s,)
        return [x if isinstance(x, int) else (int(const_value(x)) if const_value(x) is not None else x) for x in s]

    def f_np_full(self, I, s, v, dtype=None):
        s = self._shape(s)
        if all(isinstance(x, int) for x in s):
            n = 1
            for x in s:
                n *= x
            if n > 400:
                raise Unsupported("large concrete array")
            return Mat([v] * n, tuple(s))
        if len(s) == 1:
            sv = lift(v)
            if isinstance(s[0], SV) and s[0].tag and s[0].tag[0] == "len":
                return Col(s[0].tag[1], lambda r: sv, "array")
            return Arr(to_int(s[0]), z3.K(z3.IntSort(), sv.t), sv.sort)
        if len(s) == 2 and isinstance(s[0], SV) and s[0].tag and s[0].tag[0] == "len" and isinstance(s[1], int):
            sv = lift(v)
            m = Mat([Col(s[0].tag[1], lambda r: sv, "array") for _ in range(s[1])], (s[1],))
            m.rowaxis = 0
            return m
        if len(s) == 2 and isinstance(s[1], SV) and s[1].tag and s[1].tag[0] == "len" and isinstance(s[0], int):
            sv = lift(v)
            m = Mat([Col(s[1].tag[1], lambda r: sv, "array") for _ in range(s[0])], (s[0],))
            m.rowaxis = 1
            return m
        if any(isinstance(x, SV) for x in s):
            return Opaque("array")
        raise Unsupported("shape")

    @staticmethod
    def _dt(dtype):
        """int / bool / real of a dtype argument"""
        n = dtype.name if isinstance(dtype, Lib) else (dtype if isinstance(dtype, str) else "")
        return "bool" if "bool" in n or n == "?" else ("int" if "int" in n or n.lstrip("<>=") in ("i4", "i8", "u4", "u8") else "real")

    def f_np_zeros(self, I, s, dtype=None):
        v = {"int": 0, "bool": False, "real": R(0)}[self._dt(dtype)]
        return self.f_np_full(I, s, v)

    def f_np_ones(self, I, s, dtype=None):
        v = {"int": 1, "bool": True, "real": R(1)}[self._dt(dtype)]
        return self.f_np_full(I, s, v)

    f_np_empty = f_np_zeros

    def f_np_eye(self, I, n):
        return Mat([R(1) if i == j else R(0) for i in range(n) for j in range(n)], (n, n))

    f_np_identity = f_np_eye

    def f_np_arange(self, I, *a):
        if all(isinstance(x, int) for x in a):
            return Mat(list(range(*a)), (len(range(*a)),))
        if len(a) == 1:
            return Iter2(to_int(a[0]), lambda k: SV("int", k))
        raise Unsupported("arange")

    def f_np_repeat(self, I, x, n):
        if isinstance(x, Arr) and isinstance(n, int) and n > 0:
            return Iter2(x.n * n, lambda k: x.get(k / n))
        raise Unsupported("np.repeat")

    def f_np_dot(self, I, a, b):
        if is_num(a) or is_num(b):
            return self.binop(I, ast.Mult(), a, b)
        return self.matmul(I, a, b)

    f_np_matmul = f_np_dot

    def f_np_cross(self, I, a, b, axis=-1):
        a, b = self.to_mat(I, a), self.to_mat(I, b)
        if a.shape != (3,) or b.shape != (3,):
            raise Unsupported("cross")
        ra = getattr(a, "rowaxis", None)
        if ra is not None or getattr(b, "rowaxis", None) is not None:
            if getattr(b, "rowaxis", None) != ra or (axis + 2) % 2 == ra:
                raise Unsupported("cross of rows")
        elif axis not in (0, -1):
            raise Unsupported("cross")
        m = lambda i, j: self.binop(I, ast.Mult(), a.data[i], b.data[j])
        s = lambda x, y: self.binop(I, ast.Sub(), x, y)
        out = Mat([s(m(1, 2), m(2, 1)), s(m(2, 0), m(0, 2)), s(m(0, 1), m(1, 0))], (3,))
        if ra is not None:
            out.rowaxis = ra
        return out

    def f_np_roll(self, I, x, shift, axis=None):
        x = self.to_mat(I, x)
        ra = getattr(x, "rowaxis", None)
        if len(x.shape) != 1 or not isinstance(shift, int) or (ra is None and axis not in (None, 0, -1)) or (ra is not None and (axis is None or (axis + 2) % 2 == ra)):
            raise Unsupported("np.roll")
        n = x.shape[0]
        out = Mat([x.data[(i - shift) % n] for i in range(n)], x.shape)
        if ra is not None:
            out.data = [Col(c.view, c.fn, c.kind) for c in out.data]
            out.rowaxis = ra
        return out

    def f_np_real(self, I, x):
        return x.re if isinstance(x, CVal) else x

    def f_np_imag(self, I, x):
        return x.im if isinstance(x, CVal) else elementwise(I, lambda a: R(0), x)

    def f_np_conj(self, I, x):
        return CVal(x.re, self.unop(I, ast.USub(), x.im)) if isinstance(x, CVal) else x

    def f_np_sum(self, I, x, axis=None, **k):
        if isinstance(x, (list, tuple)):
            x = self.to_mat(I, x)
        if isinstance(x, Mat):
            ra = getattr(x, "rowaxis", None)
            if ra is not None:
                ax = axis if axis is None or axis >= 0 else axis + 2
                if ax is None or ax == ra:
                    raise Unsupported("sum over rows")
                s = x.data[0]
                for y in x.data[1:]:
                    s = self.binop(I, ast.Add(), s, y)
                return s
            if axis is None or len(x.shape) == 1:
                s = 0
                for y in x.data:
                    s = self.binop(I, ast.Add(), s, y)
                return s
            rows = self.try_iterate(I, x if axis in (0, -2) else self.a_Mat_T(I, x))
            s = rows[0]
            for y in rows[1:]:
                s = self.binop(I, ast.Add(), s, y)
            return s
        raise Unsupported("sum")

    def f_np_any(self, I, x, axis=None):
        if isinstance(x, Col):
            return col_any(I, x)
        if isinstance(x, Mat):
            return self.b_any(I, list(x.data))
        if is_scalar(x):
            return x
        if isinstance(x, Arr):
            return SV("bool", z3.Not(arr_all(I, lambda i: z3.Not(to_bool_term(x.get(i))), x.n)))
        return self.b_any(I, x)

    def f_np_all(self, I, x, axis=None):
        if isinstance(x, Col):
            return col_any(I, x, neg=True)
        if isinstance(x, Mat):
            return self.b_all(I, list(x.data))
        if is_scalar(x):
            return x
        if isinstance(x, Arr):
            return SV("bool", arr_all(I, lambda i: to_bool_term(x.get(i)), x.n))
        return self.b_all(I, x)

    def f_np_max(self, I, x, axis=None):
        if isinstance(x, Col):
            return col_extreme(I, x, "max")
        return self.b_max(I, list(self.try_iterate(I, x)))

    f_np_amax = f_np_max

    def f_np_min(self, I, x, axis=None):
        if isinstance(x, Col):
            return col_extreme(I, x, "min")
        return self.b_min(I, list(self.try_iterate(I, x)))

    f_np_amin = f_np_min

    def f_np_linalg_norm(self, I, x, ord=None, axis=None):
        if isinstance(x, (list, tuple)):
            x = self.to_mat(I, x)
        if not isinstance(x, Mat):
            raise Unsupported("norm")
        ra = getattr(x, "rowaxis", None)
        if ra is not None:
            ax = axis if axis is None or axis >= 0 else axis + 2
            if ax is None or ax == ra:
                raise Unsupported("norm over rows")
        elif len(x.shape) != 1:
            raise Unsupported("matrix norm")
        s = None
        for y in x.data:
            q = self.binop(I, ast.Pow(), y, 2)
            s = q if s is None else self.binop(I, ast.Add(), s, q)
        return elementwise(I, lambda a: s_fun(I, "sqrt", a), s)

    def f_np_concatenate(self, I, xs, axis=0):
        parts = [self.to_mat(I, x) if not isinstance(x, Mat) else x for x in I.iterate(xs)] if isinstance(xs, (list, tuple)) else None
        if not parts or axis != 0 or any(len(p.shape) != 1 for p in parts):
            raise Unsupported("numpy.concatenate of these arrays")
        items = [y for p in parts for y in I.iterate(p)]
        return Mat(items, (len(items),))

    def f_np_vstack(self, I, xs):
        return self.to_mat(I, list(xs))

    def f_np_column_stack(self, I, xs):
        return self.a_Mat_T(I, self.to_mat(I, list(xs)))

    def f_np_stack(self, I, xs, axis=0):
        m = self.to_mat(I, list(xs))
        if axis == 0:
            return m
        return self.a_Mat_T(I, m)

    def f_np_transpose(self, I, x):
        return self.a_Mat_T(I, self.to_mat(I, x))

    def f_np_ones_like(self, I, x, **k):
        return elementwise(I, lambda a: R(1), x)

    def f_np_zeros_like(self, I, x, **k):
        return elementwise(I, lambda a: R(0), x)

    def f_np_ndim(self, I, x):
        return 1 if isinstance(x, (Col, Arr)) else (len(x.shape) if isinstance(x, Mat) else 0)

    def f_np_unique(self, I, x, **k):
        if isinstance(x, Col) and not k:
            return UniqueVal(x)
        raise Unsupported("np.unique")

    def f_np_float64(self, I, x):
        return SV("real", to_real(x))

    def f_np_int64(self, I, x):
        return self.b_int(I, x)

    # ---- pandas
    def f_pandas_isna(self, I, x):
        if x is None:
            return True
        if isinstance(x, Col):
            return self.m_Col_isna(I, x)
        return False

    f_pandas_isnull = f_pandas_isna

    def f_pandas_Series(self, I, data=None, index=None, **k):
        if isinstance(data, Col) and isinstance(index, IndexVal) and view_equal(I, data.view, index.view):
            return Col(index.view, data.fn, "series", k.get("name"))
        if isinstance(data, UniqueVal) and index is None and isinstance(data.col.fn, NullFn):
            return Opaque("distinct values")
        raise Unsupported("pd.Series")

    def f_fnmatch_filter(self, I, names, pat):
        import fnmatch
        names = I.iterate(names)
        if not isinstance(pat, str) or not all(isinstance(x, str) for x in names):
            raise Unsupported("fnmatch of symbolic names")
        return fnmatch.filter(names, pat)

    def f_copy_deepcopy(self, I, x):
        if isinstance(x, (list, dict, Frame)):
            import copy
            return x.copy()
        raise Unsupported("deepcopy")

    # ---- builtins
    def b_len(self, I, x):
        if isinstance(x, (list, tuple, dict, set, str)):
            if isinstance(x, (list, tuple)) and any(isinstance(y, Splat) for y in x):
                raise Unsupported("len of labels")
            if has_seg(x):
                return SV("int", seg_bounds(x)[1])
            return len(x)
        if isinstance(x, (Frame, IndexVal)):
            return view_len(I, x.view)
        if isinstance(x, Col):
            return view_len(I, x.view)
        if isinstance(x, ColumnsVal):
            return len(x.names)
        if isinstance(x, Arr):
            return SV("int", x.n)
        if isinstance(x, Iter):
            return SV("int", x.n)
        if isinstance(x, Mat):
            ra = getattr(x, "rowaxis", None)
            if ra == 0:
                return view_len(I, x.data[0].view)
            return x.shape[0]
        if isinstance(x, SV) and x.sort == "str":
            return SV("int", z3.Length(x.t))
        if isinstance(x, Opaque):
            n = I.ctx.fresh("len", "int")
            I.ctx.assume(n >= 0)
            return SV("int", n)
        h = getattr(x, "sym_len", None)
        if h is not None:
            return h(I)
        if isinstance(x, Obj) and isinstance(x.cls, Cls) and x.cls.lookup("__len__"):
            return I.call(Bound(x.cls.lookup("__len__"), x), [], {})
        if is_num(x) or x is None:
            raise PyExc("TypeError", ("len",))
        raise Unsupported(f"len of {type(x).__name__}")

    def b_range(self, I, *a):
        a = [const_value(x) if isinstance(x, SV) and const_value(x) is not None else x for x in a]
        if all(isinstance(x, int) for x in a):
            return list(range(*a))
        if len(a) == 1:
            lo, hi, st = z3.IntVal(0), to_int(a[0]), 1
        elif len(a) == 2:
            lo, hi, st = to_int(a[0]), to_int(a[1]), 1
        else:
            lo, hi, st = to_int(a[0]), to_int(a[1]), a[2]
        if st == 1:
            n = z3.simplify(hi - lo)
            return Iter(n, lambda k: SV("int", lo + k))
        if st == -1:
            n = z3.simplify(lo - hi)
            return Iter(n, lambda k: SV("int", lo - k))
        if isinstance(st, int) and st > 0:
            return Iter(z3.If(hi > lo, (hi - lo + (st - 1)) / st, z3.IntVal(0)), lambda k: SV("int", lo + st * k))
        raise Unsupported("range step")

    def b_enumerate(self, I, x, start=0):
        it = I.try_iterate(x)
        if it is not None:
            return [(i + start, y) for i, y in enumerate(it)]
        s = self.as_iter(I, x)
        if s is None:
            raise Unsupported("enumerate")
        r = Iter(s.n, lambda k: (SV("int", k + start), s.item(k)))
        for nm in ("nz", "tail"):
            if hasattr(s, nm):
                setattr(r, nm, getattr(s, nm))
        return r

    def b_zip(self, I, *xs, strict=False):
        its = [I.try_iterate(x) for x in xs]
        if all(i is not None for i in its):
            return [tuple(t) for t in zip(*its)]
        ss = [self.as_iter(I, x) if i is None else None for x, i in zip(xs, its)]
        if any(s is None for s in ss):
            raise Unsupported("zip")
        n = ss[0].n
        for s in ss[1:]:
            if not z3.eq(z3.simplify(n), z3.simplify(s.n)):
                n = z3.If(n < s.n, n, s.n)
        return Iter(n, lambda k: tuple(s.item(k) for s in ss))

    def b_reversed(self, I, x):
        it = I.try_iterate(x)
        if it is not None:
            return list(reversed(it))
        s = self.as_iter(I, x)
        if s is None:
            raise Unsupported("reversed")
        return Iter(s.n, lambda k: s.item(s.n - 1 - k))

    def _minmax(self, I, args, op, key=None):
        if len(args) == 1:
            if isinstance(args[0], Col):
                return col_extreme(I, args[0], "max" if op is ast.GtE else "min")
            args = I.iterate(args[0])
        if not args:
            raise PyExc("ValueError")
        if key is not None:
            raise Unsupported("min/max key")
        r = args[0]
        for x in args[1:]:
            if is_plain(r) and is_plain(x):
                r = (max if op is ast.GtE else min)(r, x)
            else:
                r = ite(s_cmp(I, op(), r, x), r, x)
        return r

    def b_min(self, I, *a, key=None):
        return self._minmax(I, list(a), ast.LtE, key)

    def b_max(self, I, *a, key=None):
        return self._minmax(I, list(a), ast.GtE, key)

    def b_abs(self, I, x):
        return self.f_np_abs(I, x)

    def b_pow(self, I, a, b):
        return self.binop(I, ast.Pow(), a, b)

    def b_sum(self, I, x, start=0):
        it = I.iterate(x)
        s = start
        for y in it:
            s = self.binop(I, ast.Add(), s, y)
        return s

    def b_float(self, I, x=0):
        if hasattr(x, "sym_float"):
            return x.sym_float(I)
        if isinstance(x, Mat) and len(x.data) == 1:
            x = x.data[0]
        if is_num(x):
            return SV("real", to_real(x))
        if isinstance(x, str):
            try:
                return R(Fraction(x))
            except (ValueError, ZeroDivisionError):
                try:
                    float(x)
                except ValueError:
                    raise PyExc("ValueError")
                raise Unsupported("float literal")
        if isinstance(x, SV) and x.sort == "str":
            ok = STR_IS_FLOAT(x.t)
            if not I.ctx.branch(ok):
                raise PyExc("ValueError")
            return SV("real", STR_TO_FLOAT(x.t))
        if x is None:
            raise PyExc("TypeError")
        if isinstance(x, Opaque):
            return Opaque("float")
        if isinstance(x, (list, tuple, dict)):
            raise PyExc("TypeError")
        raise Unsupported("float()")

    def b_int(self, I, x=0, base=10):
        if isinstance(x, HexVal):
            if base != 16:
                raise Unsupported("int of a digest in another base")
            return SV("int", x.t)
        if base != 10:
            raise Unsupported("int base")
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, SV):
            if x.sort in ("int", "bool"):
                return SV("int", to_int(x))
            if x.sort == "real":
                c = const_value(x)
                if c is not None:
                    return int(c)
                return SV("int", z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))
            ok = STR_IS_INT(x.t)
            I.ctx.assume(z3.Implies(ok, z3.And(STR_IS_FLOAT(x.t), STR_TO_FLOAT(x.t) == z3.ToReal(STR_TO_INT(x.t)))))
            if not I.ctx.branch(ok):
                raise PyExc("ValueError")
            return SV("int", STR_TO_INT(x.t))
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise PyExc("ValueError")
        if x is None:
            raise PyExc("TypeError")
        if isinstance(x, Opaque):
            return Opaque("int")
        if isinstance(x, (list, tuple, dict)):
            raise PyExc("TypeError")
        raise Unsupported("int()")

    def b_str(self, I, x=""):
        if isinstance(x, (str, int)) or x is None:
            return str(x)
        if isinstance(x, SV) and x.sort == "str":
            return x
        if isinstance(x, SV) and x.sort == "bool":
            return SV("str", z3.If(x.t, z3.StringVal("True"), z3.StringVal("False")))
        return Opaque("str")

    b_repr = b_str

    def b_bool(self, I, x=False):
        return I.truth(x)

    def b_list(self, I, x=()):
        h = getattr(x, "sym_list", None)
        if h is not None:
            return h(I)
        it = I.try_iterate(x)
        if it is None:
            if isinstance(x, (Arr, Iter, Col)):
                return x
            raise Unsupported("list()")
        return list(it)

    def b_tuple(self, I, x=()):
        return tuple(I.iterate(x))

    def b_dict(self, I, *a, **k):
        d = {}
        if a:
            if isinstance(a[0], dict):
                d.update(a[0])
            else:
                for kv in I.iterate(a[0]):
                    kk, v = I.iterate(kv)
                    if isinstance(kk, SV):
                        raise Unsupported("symbolic key")
                    d[kk] = v
        d.update(k)
        return d

    def b_set(self, I, x=()):
        h = getattr(x, "sym_set", None)
        if h is not None:
            return h(I)
        if isinstance(x, Iter):
            return IterSet(I, x)
        it = I.iterate(x)
        if any(isinstance(y, (SV, Splat)) for y in it):
            raise Unsupported("symbolic set")
        return set(it)

    b_frozenset = b_set

    def b_sorted(self, I, x, key=None, reverse=False):
        h = getattr(x, "sym_sorted", None)
        if h is not None:
            return h(I, key, reverse)
        it = I.iterate(x)
        if key is None and all(is_plain(y) for y in it):
            return sorted(it, reverse=bool(reverse))
        raise Unsupported("sorted")

    def b_any(self, I, x):
        if isinstance(x, Col):
            return col_any(I, x)
        it = I.iterate(x)
        t = z3.BoolVal(False)
        for y in it:
            t = z3.Or(t, to_bool_term(y) if is_bool(y) else z3.BoolVal(I.truth(y)))
        t = z3.simplify(t)
        c = const_value(SV("bool", t))
        return c if c is not None else SV("bool", t)

    def b_all(self, I, x):
        if isinstance(x, Col):
            return col_any(I, x, neg=True)
        it = I.iterate(x)
        t = z3.BoolVal(True)
        for y in it:
            t = z3.And(t, to_bool_term(y) if is_bool(y) else z3.BoolVal(I.truth(y)))
        t = z3.simplify(t)
        c = const_value(SV("bool", t))
        return c if c is not None else SV("bool", t)

    def b_round(self, I, x, n=None):
        """round to the nearest integer, ties to the even one"""
        if isinstance(x, (int, bool)) and n in (None, 0):
            return x
        if n is not None or not isinstance(x, SV):
            raise Unsupported("round")
        if x.sort == "int":
            return x
        k = I.ctx.fresh("round", "int")
        I.ctx.assume(z3.And(z3.ToReal(k) - x.t <= znum_half, x.t - z3.ToReal(k) <= znum_half))
        I.ctx.assume(z3.Implies(z3.Or(z3.ToReal(k) - x.t == znum_half, x.t - z3.ToReal(k) == znum_half), k % 2 == 0))
        return SV("int", k)

    def type_name(self, x):
        if isinstance(x, bool):
            return "bool"
        if isinstance(x, int):
            return "int"
        if isinstance(x, str):
            return "str"
        if isinstance(x, SV):
            return {"real": "float", "int": "int", "bool": "bool", "str": "str"}[x.sort]
        if x is None:
            return "NoneType"
        if isinstance(x, Frame):
            return "pandas.DataFrame"
        if isinstance(x, Col):
            return "pandas.Series" if x.kind == "series" else "numpy.ndarray"
        if isinstance(x, (Arr, Mat)):
            return "numpy.ndarray"
        for t in (list, tuple, dict, set):
            if isinstance(x, t):
                return t.__name__
        return getattr(x, "sym_type", None)

    def b_type(self, I, x):
        n = self.type_name(x)
        if n is None:
            if isinstance(x, Obj):
                return x.cls if isinstance(x.cls, Cls) else Lib(str(x.cls))
            raise Unsupported("type()")
        return Lib(n)

    def b_isinstance(self, I, x, t):
        ts = list(t) if isinstance(t, tuple) else [t]
        n = self.type_name(x)
        for y in ts:
            if isinstance(y, Lib):
                yn = y.name
                if n is None:
                    if isinstance(x, Obj):
                        if isinstance(x.cls, str) and exc_isa(x.cls, yn):
                            return True
                        continue
                    raise Unsupported("isinstance")
                if n == yn or (n == "bool" and yn == "int") or (yn in ("numpy.floating", "numpy.float64", "numbers.Number") and n == "float") \
                        or (yn in ("numbers.Number", "numpy.integer") and n == "int") or yn == "object":
                    return True
            elif isinstance(y, Cls) and isinstance(x, Obj) and isinstance(x.cls, Cls):
                c = [x.cls]
                while c:
                    z = c.pop()
                    if z is y:
                        return True
                    c += [b for b in z.bases if isinstance(b, Cls)]
        return False

    def b_issubclass(self, I, a, b):
        raise Unsupported("issubclass")

    def b_hasattr(self, I, o, n):
        try:
            self.getattr(I, o, n)
            return True
        except PyExc:
            return False

    def b_getattr(self, I, o, n, *d):
        try:
            return self.getattr(I, o, n)
        except PyExc as e:
            if e.cls == "AttributeError" and d:
                return d[0]
            raise

    def b_setattr(self, I, o, n, v):
        self.setattr(I, o, n, v)

    def b_callable(self, I, x):
        return isinstance(x, (Func, Bound, Prim, Cls, Lib))

    def b_map(self, I, f, *xs):
        its = [I.iterate(x) for x in xs]
        return [I.call(f, list(t), {}) for t in zip(*its)]

    def b_divmod(self, I, a, b):
        return (self.binop(I, ast.FloorDiv(), a, b), self.binop(I, ast.Mod(), a, b))

    # RNG
    def m_RNG_random(self, I, o, size=None):
        return self.draw(I, o, "uniform", size, lambda t: z3.And(t >= 0, t < 1))

    def m_RNG_uniform(self, I, o, low=0, high=1, size=None):
        u = self.draw(I, o, "uniform", size, lambda t: z3.And(t >= 0, t < 1))
        return elementwise(I, lambda x: SV("real", to_real(low) + (to_real(high) - to_real(low)) * to_real(x)), u)

    def m_RNG_normal(self, I, o, loc=0, scale=1, size=None):
        z = self.draw(I, o, "normal", size, None)
        if is_plain(loc) and loc == 0 and is_plain(scale) and scale == 1:
            return z
        return elementwise(I, lambda m, s, x: SV("real", to_real(m) + to_real(s) * to_real(x)), loc, scale, z)

    def m_RNG_standard_normal(self, I, o, size=None):
        return self.draw(I, o, "normal", size, None)

    def m_RNG_multivariate_normal(self, I, o, mean, cov, size=None):
        if not (isinstance(mean, Mat) and isinstance(cov, Mat) and len(mean.shape) == 1):
            raise Unsupported("multivariate_normal")
        d = mean.shape[0]
        for i in range(d):
            for j in range(d):
                c = cov.data[i * d + j]
                c = const_value(c) if isinstance(c, SV) else c
                if c is None or c != (1 if i == j else 0):
                    raise Unsupported("multivariate_normal covariance")
        for x in mean.data:
            c = const_value(x) if isinstance(x, SV) else x
            if c is None or c != 0:
                raise Unsupported("multivariate_normal mean")
        cols = [self.draw(I, o, f"mvn{i}", size, None, count=(i == 0)) for i in range(d)]
        m = Mat(cols, (d,))
        m.rowaxis = 0
        return m

    def draw(self, I, o, kind, size, dom, count=True):
        n = o.draws
        if count:
            o.draws += 1
        nm = f"{kind}_{o.name}_{n}"
        if size is None:
            t = I.ctx.fresh(nm, "real")
            if dom:
                I.ctx.assume(dom(t))
            return SV("real", t)
        if isinstance(size, tuple) and len(size) == 1:
            size = size[0]
        tag = size.tag if isinstance(size, SV) else None
        if not tag or tag[0] != "len":
            if isinstance(size, SV) or isinstance(size, int):
                raise Unsupported("draw of a size not tied to a table")
            raise Unsupported("draw size")
        view = tag[1]
        f = z3.Function(I.ctx.fresh_name(nm), z3.IntSort(), z3.RealSort())
        if dom:
            I.ctx.assume_rows(view.space, lambda r: dom(f(r)))
        o.__dict__.setdefault("log", []).append((kind, f, view))
        return Col(view, lambda r: SV("real", f(r)), "array")


STR_IS_FLOAT = z3.Function("str_is_float", z3.StringSort(), z3.BoolSort())
ROUND = z3.Function("round_decimals", z3.RealSort(), z3.IntSort(), z3.RealSort())
STR_TO_FLOAT = z3.Function("str_to_float", z3.StringSort(), z3.RealSort())
STR_IS_INT = z3.Function("str_is_int", z3.StringSort(), z3.BoolSort())
STR_TO_INT = z3.Function("str_to_int", z3.StringSort(), z3.IntSort())


DEG = {"deg": 1, "arcmin": Fraction(1, 60), "arcsec": Fraction(1, 3600), "mas": Fraction(1, 3600000)}
TIME = {"day": 1, "d": 1, "hour": Fraction(1, 24), "hr": Fraction(1, 24), "h": Fraction(1, 24), "min": Fraction(1, 1440),
        "s": Fraction(1, 86400), "second": Fraction(1, 86400)}


LENGTH = {"km": 1, "m": Fraction(1, 1000), "au": Fraction("149597870.7"), "AU": Fraction("149597870.7")}
num_term = znum
SIMPLE = {}
for _tab, _b in ((DEG, "deg"), (TIME, "day"), (LENGTH, "km")):
    for _k, _v in _tab.items():
        SIMPLE[_k] = (num_term(_v), {_b: 1})
SIMPLE["rad"] = SIMPLE["radian"] = (180 / PI, {"deg": 1})
SIMPLE["mag"] = (num_term(1), {"mag": 1})
SIMPLE["dimensionless_unscaled"] = (num_term(1), {})


class Unit:
    """a product of powers of base units (deg, day, km, mag) with a factor"""

    def __init__(self, factor, dims):
        self.factor, self.dims = factor, {k: v for k, v in dims.items() if v}

    def sym_binop(self, I, op, a, b):
        ua, ub = unit_of(a), unit_of(b)
        if ua is not None and ub is not None and isinstance(op, (ast.Mult, ast.Div)):
            return unit_mul(ua, ub, 1 if isinstance(op, ast.Mult) else -1)
        if ua is not None and isinstance(op, ast.Pow) and isinstance(b, int):
            r = Unit(num_term(1), {})
            for _ in range(abs(b)):
                r = unit_mul(r, ua, 1 if b > 0 else -1)
            return r
        if isinstance(b, Unit) and not isinstance(a, Quantity) and isinstance(op, (ast.Mult, ast.Div)):
            return Quantity(a, b if isinstance(op, ast.Mult) else unit_mul(Unit(num_term(1), {}), b, -1))
        if isinstance(a, Unit) and not isinstance(b, Quantity) and isinstance(op, ast.Mult):
            return Quantity(b, a)
        if isinstance(a, Quantity):
            return a.sym_binop(I, op, a, b)
        raise Unsupported("unit arithmetic")

    def sym_call(self, I, a, k):
        raise Unsupported("call of a unit")


def unit_mul(a, b, s):
    d = dict(a.dims)
    for k, v in b.dims.items():
        d[k] = d.get(k, 0) + s * v
    return Unit(z3.simplify(a.factor * b.factor if s > 0 else a.factor / b.factor), d)


def unit_of(u):
    if isinstance(u, Unit):
        return u
    n = None
    if isinstance(u, Lib) and u.name.startswith("astropy.units."):
        n = u.name.split(".")[-1]
    elif isinstance(u, str):
        n = u
    if n in SIMPLE:
        return Unit(*SIMPLE[n])
    return None


class Quantity:
    """astropy quantity: a number with a unit"""

    def __init__(self, value, unit):
        self.value, self.unit = value, unit

    def sym_getattr(self, I, name):
        if name == "value":
            return self.value
        if name == "unit":
            return self.unit
        if name == "to":
            return Prim(lambda I, a, k: self.to(I, a[0]), "to")
        if name == "to_value":
            return Prim(lambda I, a, k: self.to(I, a[0]).value, "to_value")
        raise Unsupported(f"Quantity.{name}")

    def to(self, I, u):
        u2 = unit_of(u)
        if u2 is None or u2.dims != self.unit.dims:
            raise Unsupported("incompatible units")
        f = z3.simplify(self.unit.factor / u2.factor)
        if z3.is_true(z3.simplify(f == 1)):
            return Quantity(self.value, u2)
        return Quantity(I.lib.binop(I, ast.Mult(), self.value, SV("real", f)), u2)

    def sym_binop(self, I, op, a, b):
        qa, qb = isinstance(a, Quantity), isinstance(b, Quantity)
        ua, ub = unit_of(a), unit_of(b)
        if isinstance(op, (ast.Mult, ast.Div)):
            s = 1 if isinstance(op, ast.Mult) else -1
            one = Unit(num_term(1), {})
            A = (a.value, a.unit) if qa else ((None, ua) if ua is not None else (a, one))
            B = (b.value, b.unit) if qb else ((None, ub) if ub is not None else (b, one))
            u = unit_mul(A[1], B[1], s)
            if A[0] is None:
                v = B[0] if s > 0 else I.lib.binop(I, op, 1, B[0])
            elif B[0] is None:
                v = A[0]
            else:
                v = I.lib.binop(I, op, A[0], B[0])
            q_ = Quantity(v, u)
            return q_
        if qa and qb and isinstance(op, (ast.Add, ast.Sub)):
            return Quantity(I.lib.binop(I, op, a.value, b.to(I, a.unit).value), a.unit)
        raise Unsupported("unit arithmetic")


class PhaseModel:
    """sbpy.photometry model (assumed): reduced magnitude = H + law(parameters, phase)"""

    def __init__(self, kind, H, params):
        self.kind, self.H, self.params = kind, H, params

    def sym_call(self, I, a, k):
        al = a[0]
        al = al.to(I, "deg").value if isinstance(al, Quantity) else I.lib.binop(I, ast.Mult(), al, SV("real", 180 / PI))
        H = self.H.to(I, "mag").value if isinstance(self.H, Quantity) else self.H
        ps = [p.to(I, Unit(num_term(1), {"mag": 1, "deg": -1})).value if isinstance(p, Quantity) else p for p in self.params]
        if self.kind == "linear":
            v = I.lib.binop(I, ast.Add(), H, I.lib.binop(I, ast.Mult(), ps[0], al))
        else:
            f = uf("phase_" + self.kind, len(ps) + 1)
            v = elementwise(I, lambda h, al_, *q: SV("real", to_real(h) + f(*[to_real(x) for x in q], to_real(al_))), H, al, *ps)
        return Quantity(v, Unit(*SIMPLE["mag"]))


def phase_model(kind, *names):
    def make(lib, I, **k):
        miss = [n for n in names if n not in k]
        if miss or "H" not in k:
            raise Unsupported(f"{kind} without {miss}")
        I.assumed.add(f"sbpy.photometry.{kind}: reduced magnitude is H plus a function of the parameters and the phase angle")
        return PhaseModel(kind, k["H"], [k[n] for n in names])

    return make


LibModel.f_sbpy_photometry_HG = lambda self, I, **k: phase_model("HG", "G")(self, I, **k)
LibModel.f_sbpy_photometry_HG1G2 = lambda self, I, **k: phase_model("HG1G2", "G1", "G2")(self, I, **k)
LibModel.f_sbpy_photometry_HG12_Pen16 = lambda self, I, **k: phase_model("HG12_Pen16", "G12")(self, I, **k)
LibModel.f_sbpy_photometry_HG12 = lambda self, I, **k: phase_model("HG12", "G12")(self, I, **k)
LibModel.f_sbpy_photometry_LinearPhaseFunc = lambda self, I, **k: phase_model("linear", "S")(self, I, **k)


class RowObj:
    """one row handed to a function by DataFrame.apply(axis=1)"""

    def __init__(self, frame, r):
        self.frame, self.r = frame, r

    def sym_getitem(self, I, k):
        if isinstance(k, SV) and const_value(k) is not None:
            k = const_value(k)
        if isinstance(k, str):
            if k not in self.frame.cols:
                raise PyExc("KeyError", (k,))
            return self.frame.cols[k](self.r)
        if not is_str(k):
            raise Unsupported("row key")
        kt = to_str_term(k)
        want = None
        out, hits = None, []
        for c, f in self.frame.cols.items():
            v = f(self.r)
            if v.sort not in ("real", "int"):
                continue
            hits.append(kt == z3.StringVal(c))
            out = SV("real", to_real(v)) if out is None else ite(kt == z3.StringVal(c), v, out)
        I.ctx.oblige("row has the key", z3.Implies(self.frame.view.inside(self.r), z3.Or(hits)), kind="def")
        return out

    def sym_getattr(self, I, name):
        if name in self.frame.cols:
            return self.frame.cols[name](self.r)
        return NotImplemented


class NaNVal:
    """the not-a-number constant; it can be passed around, not computed with"""

    def __repr__(self):
        return "nan"


NAN = NaNVal()


class HexVal:
    """hex digest of a string: an uninterpreted non-negative integer"""

    def __init__(self, t):
        self.t = t


def _hash(alg):
    def f(self, I, x=None, **k):
        if isinstance(x, Col) or x is None:
            raise Unsupported("hash of this")
        g = z3.Function("hash_" + alg, z3.StringSort(), z3.IntSort())
        t = g(to_str_term(x))
        I.ctx.assume(t >= 0)
        I.assumed.add(f"hashlib.{alg}: a function of its argument")
        return Obj(alg, hexdigest=Prim(lambda I, a, k: HexVal(t), "hexdigest"))

    return f


for _alg in ("md5", "sha1", "sha256", "sha512", "blake2b"):
    setattr(LibModel, "f_hashlib_" + _alg, _hash(_alg))


class NameMask:
    """one truth value per column name"""

    def __init__(self, names, flags):
        self.names, self.flags = list(names), list(flags)

    def sym_unop(self, I, op):
        if not isinstance(op, ast.Invert):
            raise Unsupported("mask operator")
        return NameMask(self.names, [not f for f in self.flags])

    def sym_getattr(self, I, name):
        if name in ("values",):
            return self
        if name in ("any", "all"):
            return Prim(lambda I, a, k: (any if name == "any" else all)(self.flags), name)
        return NotImplemented

    def chosen(self):
        return [n for n, f in zip(self.names, self.flags) if f]


class ColumnsVal:
    def __init__(self, frame):
        self.frame = frame
        self.names = list(frame.cols)

    def sym_getattr(self, I, name):
        if name == "isin":
            return Prim(lambda I, a, k: NameMask(self.names, [n in list(I.iterate(a[0])) for n in self.names]), name)
        return NotImplemented


class NameList(list):
    """the column names of a keyed table"""

    def sym_getattr(self, I, name):
        if name == "isin":
            return Prim(lambda I, a, k: NameMask(self, [n in list(I.iterate(a[0])) for n in self]), name)
        if name == "tolist":
            return Prim(lambda I, a, k: list(self), name)
        return NotImplemented


class NullFn:
    """a column with missing values: null(row), and its value where present"""

    def __init__(self, raw, null):
        self.raw, self.null = raw, null

    def __call__(self, r):
        raise Unsupported("computation on a column with missing values")


class NamedTupleType:
    def __init__(self, name, fields):
        self.name, self.fields = name, tuple(fields)

    def sym_call(self, I, a, k):
        vals = dict(zip(self.fields, a))
        if len(a) > len(self.fields) or set(k) & set(vals):
            raise PyExc("TypeError")
        vals.update(k)
        if set(vals) != set(self.fields):
            raise PyExc("TypeError")
        return NamedTupleVal(self, vals)


class NamedTupleVal:
    def __init__(self, typ, vals):
        self.typ, self.vals = typ, vals

    def sym_getattr(self, I, name):
        if name in self.vals:
            return self.vals[name]
        if name.startswith("_") or name in ("count", "index"):
            raise Unsupported(f"namedtuple attribute {name}")
        raise PyExc("AttributeError", (name,))

    def sym_iterate(self, I):
        return [self.vals[f] for f in self.typ.fields]

    def sym_getitem(self, I, k):
        return I.getitem(tuple(self.sym_iterate(I)), k)

    def sym_len(self, I):
        return len(self.vals)


class SymDict:
    """a dict with keys that are symbolic numbers or strings: lookups split on equality with each key"""

    def __init__(self):
        self.items = []

    def find(self, I, k):
        for i in range(len(self.items) - 1, -1, -1):
            t = I.lib.compare(I, ast.Eq(), self.items[i][0], k)
            if t is True or (isinstance(t, SV) and I.ctx.branch(t.t)):
                return i
        return None

    def sym_contains(self, I, k):
        return self.find(I, k) is not None

    def sym_getitem(self, I, k):
        i = self.find(I, k)
        if i is None:
            raise PyExc("KeyError", (k,))
        return self.items[i][1]

    def sym_setitem(self, I, k, v):
        i = self.find(I, k)
        if i is None:
            self.items.append((k, v))
        else:
            self.items[i] = (self.items[i][0], v)

    def sym_len(self, I):
        return len(self.items)

    def sym_getattr(self, I, name):
        if name == "get":
            def get(I, a, k):
                i = self.find(I, a[0])
                return (a[1] if len(a) > 1 else k.get("default")) if i is None else self.items[i][1]
            return Prim(get, name)
        if name in ("keys", "values", "items"):
            return Prim(lambda I, a, k: [x if name == "items" else x[0] if name == "keys" else x[1] for x in self.items], name)
        raise Unsupported("dict." + name)


class Inf:
    """plus or minus infinity in sums and comparisons with real numbers"""

    def __init__(self, sign):
        self.sign = sign

    def sym_unop(self, I, op):
        if isinstance(op, ast.USub):
            return Inf(-self.sign)
        if isinstance(op, ast.UAdd):
            return self
        raise Unsupported("inf")

    def sym_binop(self, I, op, a, b):
        other = b if a is self else a
        if isinstance(other, Inf) or not (is_num(other) or isinstance(other, (Col, Arr))) or not isinstance(op, (ast.Add, ast.Sub)):
            raise Unsupported("inf")
        if isinstance(op, ast.Sub) and b is self:
            return self.spread(I, other, Inf(-self.sign))
        return self.spread(I, other, self)

    def spread(self, I, other, v):
        if not is_num(other):
            raise Unsupported("columns of infinity")
        return v

    def sym_compare(self, I, op, a, b):
        o, left = (b, True) if a is self else (a, False)
        if isinstance(o, Inf):
            x, y = a.sign, b.sign
        elif is_num(o) or isinstance(o, (Col, Arr)):
            x, y = (self.sign, 0) if left else (0, self.sign)
        else:
            raise Unsupported("inf")
        t = {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y, "Eq": x == y, "NotEq": x != y}.get(type(op).__name__)
        if t is None:
            raise Unsupported("inf")
        return t if is_num(o) or isinstance(o, Inf) else elementwise(I, lambda _: SV("bool", z3.BoolVal(t)), o)


class AnyCols:
    """df.isnull() reduced over rows: one truth value per column"""

    def __init__(self, cols):
        self.cols = cols

    def sym_getattr(self, I, name):
        if name in ("values", "to_numpy"):
            return self if name == "values" else Prim(lambda I, a, k: self, name)
        if name == "any":
            def f(I, a, k):
                out = None
                for c in self.cols:
                    b = col_any(I, c)
                    if b is True or (isinstance(b, SV) and I.ctx.branch(b.t)):
                        return True
                return False
            return Prim(f, name)
        return NotImplemented


def value_in(I, o, src):
    """o.isin(values of src): a row's value is among them iff some row of src has it"""
    ctx, sp = I.ctx, src.view.space
    srt = o.fn(z3.IntVal(0)).t.sort()
    if not isinstance(src.fn(z3.IntVal(0)), SV) or src.fn(z3.IntVal(0)).t.sort() != srt:
        raise Unsupported("isin of another type")
    among = z3.Function(ctx.fresh_name("among"), srt, z3.BoolSort())
    wit = z3.Function(ctx.fresh_name("a_row_with"), srt, z3.IntSort())
    ctx.assume_rows(sp, lambda r: z3.Implies(src.view.keep(r), among(src.fn(r).t)))
    done = {}

    def f(r):
        k = o.fn(r).t
        if k.get_id() not in done:
            done[k.get_id()] = k
            w = wit(k)
            ctx.rows.append((sp, w))
            ctx.assume(z3.Implies(among(k), z3.And(src.view.inside(w), src.fn(w).t == k)))
        return SV("bool", among(k))

    return Col(o.view, f, "series" if o.kind == "series" else o.kind)


class UniqueVal:
    """np.unique / Series.unique of a column"""

    def __init__(self, col):
        self.col = col

    def sym_iterate(self, I):
        """distinct values of a column whose value domain is declared; every
        subset and every order of first appearance is explored"""
        c = self.col
        dom = I.ctx.__dict__.get("domains", {}).get((c.view.space, c.name))
        if dom is None or len(dom) > 4:
            return None
        left, out = list(dom), []
        while left:
            k = I.ctx.choose(len(left) + 1, "unique")
            if k == len(left):
                break
            d = left.pop(k)
            w = I.ctx.row(c.view.space, "w")
            I.ctx.assume(z3.And(c.view.inside(w), c.fn(w).t == lift(d).t))
            out.append(d)
        I.ctx.assume_rows(c.view.space, lambda r: z3.Implies(c.view._keep(r), z3.Or([c.fn(r).t == lift(d).t for d in out])))
        return out

    def sym_getattr(self, I, name):
        if name == "tolist":
            return Prim(lambda I, a, k: I.iterate(self), "tolist")
        if name in ("size",):
            return self.sym_len(I)
        return NotImplemented

    def sym_len(self, I):
        # number of distinct values: only 0 / 1 / more is known
        c = self.col
        n = I.ctx.fresh("nuniq", "int")
        L = view_len(I, c.view).t
        I.ctx.assume(z3.And(n >= 0, n <= L, z3.Implies(L > 0, n >= 1)))
        a = I.ctx.row(c.view.space, "ua")
        b = I.ctx.row(c.view.space, "ub")
        I.ctx.assume(z3.Implies(L > 0, c.view.inside(a)))
        I.ctx.assume(z3.Implies(n > 1, z3.And(c.view.inside(a), c.view.inside(b), c.fn(a).t != c.fn(b).t)))
        I.ctx.assume_rows(c.view.space, lambda r: z3.Implies(z3.And(n <= 1, c.view._keep(r)), c.fn(r).t == c.fn(a).t))
        return SV("int", n)

    def sym_contains(self, I, x):
        return col_any(I, elementwise(I, lambda y: s_cmp(I, ast.Eq(), y, x), self.col))


from .interp import Poison as Poison_  # noqa: E402


class Keyed:
    """a table with at most one row per key: has(key) and one value per column
    as a function of the key.  masks restrict the keys."""

    def __init__(self, key, has, cols, n=None, keep=None):
        self.key, self.has, self.cols, self.n = key, has, dict(cols), n

    def column(self, name):
        return KeyedCol(self, (lambda k: k) if name == self.key else self.cols[name], name)

    def names(self):
        return [self.key] + list(self.cols)

    def sym_getitem(self, I, k):
        if isinstance(k, str):
            if k not in self.names():
                raise PyExc("KeyError", (k,))
            return self.column(k)
        if isinstance(k, list) and all(isinstance(x, str) for x in k) and self.key in k:
            for x in k:
                if x not in self.names():
                    raise PyExc("KeyError", (x,))
            return Keyed(self.key, self.has, {x: self.cols[x] for x in k if x != self.key}, self.n)
        if isinstance(k, KeyedCol):
            return Keyed(self.key, lambda x: z3.And(self.has(x), k.owner_has(x), k.fn(x).t), self.cols)
        raise Unsupported("keyed table index")

    def sym_setitem(self, I, k, v):
        if isinstance(k, str) and isinstance(v, KeyedCol):
            if k == self.key:
                if not v.same_key:
                    raise Unsupported("key column replaced")
                return
            self.cols[k] = v.fn
            return
        raise Unsupported("store into a keyed table")

    def sym_len(self, I):
        if self.n is None:
            raise Unsupported("length of a keyed table")
        return SV("int", self.n)

    def sym_getattr(self, I, name):
        if name == "copy":
            return Prim(lambda I, a, k: Keyed(self.key, self.has, self.cols, self.n), name)
        if name == "columns":
            return NameList(self.names())
        if name == "loc":
            return KeyedLoc(self)
        if name == "drop":
            def f(I, a, k):
                k = dict(zip(("labels", "axis"), a), **k)
                c = k.pop("columns", None)
                if c is None and k.get("axis") in (1, "columns"):
                    c = k.get("labels")
                if c is None or set(k) - {"labels", "axis", "errors"}:
                    raise Unsupported("drop")
                c = [c] if isinstance(c, str) else list(I.iterate(c))
                if self.key in c:
                    raise Unsupported("drop of the key")
                for x in c:
                    if x not in self.cols and k.get("errors") != "ignore":
                        raise PyExc("KeyError", (x,))
                return Keyed(self.key, self.has, {x: f for x, f in self.cols.items() if x not in c}, self.n)
            return Prim(f, name)
        if name in self.names():
            return self.column(name)
        return NotImplemented


class KeyedLoc:
    def __init__(self, t):
        self.t = t

    def sym_getitem(self, I, k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[0] == slice(None):
            c = k[1].chosen() if isinstance(k[1], NameMask) else k[1]
            return self.t.sym_getitem(I, c)
        raise Unsupported("keyed table .loc")


class KeyedCol:
    def __init__(self, table, fn, name=None, same_key=False):
        self.table, self.fn, self.name = table, fn, name
        self.same_key = same_key or name == table.key

    def owner_has(self, x):
        return self.table.has(x)

    def map(self, f, same_key=False):
        return KeyedCol(self.table, f, None, same_key)

    def sym_getitem(self, I, k):
        if isinstance(k, KeyedCol):
            return KeyedCol(Keyed(self.table.key, lambda x: z3.And(self.table.has(x), k.fn(x).t), self.table.cols), self.fn, self.name, self.same_key)
        raise Unsupported("keyed column index")

    def sym_getattr(self, I, name):
        if name in ("str", "values"):
            return self
        if name in ("decode", "encode") and self.same_key:
            return Prim(lambda I, a, k: self, name)
        if name in ("to_numpy", "tolist", "copy"):
            return Prim(lambda I, a, k: self, name)
        return NotImplemented

    def sym_unop(self, I, op):
        return self.map(lambda x: I.unop(op, self.fn(x)))

    def sym_invert(self, I):
        return self.map(lambda x: SV("bool", z3.Not(self.fn(x).t)))


def _f_pandas_DataFrame(self, I, data=None, index=None, columns=None, **k):
    if isinstance(data, dict) and data and index is None and columns is None:
        vals = list(data.values())
        if all(isinstance(v, Col) for v in vals) and all(same_rows(v.view, vals[0].view) for v in vals):
            return Frame(vals[0].view, {c: v.fn for c, v in data.items()}, "frame")
        if all(isinstance(v, KeyedCol) for v in vals):
            t = vals[0].table
            key = [c for c, v in data.items() if v.same_key]
            if len(key) >= 1 and all(v.table is t for v in vals):
                return Keyed(key[0], t.has, {c: v.fn for c, v in data.items() if c != key[0]}, t.n)
    if isinstance(data, Col) and data.name and not k and index is None and columns is None:
        return Frame(data.view, {data.name: data.fn}, "frame")
    if isinstance(data, Frame) and not k and index is None and columns is None:
        return Frame(data.view, dict(data.cols), "frame")
    if data is None and isinstance(index, IndexVal) and columns is None and not k:
        return Frame(index.view, {}, "frame")
    raise Unsupported("pandas.DataFrame of this content")


def _merge(self, I, left, right, how="inner", on=None, left_on=None, right_on=None, suffixes=None, sort=False, copy=None, validate=None, **k):
    if k or sort:
        raise Unsupported("merge options")
    if isinstance(left, Frame) and isinstance(right, Keyed):
        lo, ro = (on, on) if on is not None else (left_on, right_on)
        if isinstance(lo, list) and len(lo) == 1:
            lo = lo[0]
        if isinstance(ro, list) and len(ro) == 1:
            ro = ro[0]
        if on is None and left_on is None:
            common = [c for c in right.names() if c in left.cols]
            if len(common) != 1:
                raise Unsupported("merge on several columns")
            lo = ro = common[0]
        if ro != right.key or lo not in left.cols:
            raise Unsupported("merge on another column") if lo in left.cols else PyExc("KeyError", (lo,))
        key = left.cols[lo]
        cols = dict(left.cols)
        miss = lambda r: z3.Not(right.has(key(r).t))
        for c, f in right.cols.items():
            if c in cols:
                raise Unsupported("overlapping columns in a merge")
            cols[c] = lambda r, f=f: f(key(r).t)
            if how == "left":
                cols[c] = NullFn(cols[c], miss)
        if lo != ro and how == "left":
            raise Unsupported("left merge on differently named columns")
        if lo != ro:
            cols[ro] = lambda r: SV(key(r).sort, key(r).t)
        if how == "inner":
            keep = lambda r: z3.And(left.view._keep(r), right.has(key(r).t))
        elif how == "left":
            keep = left.view._keep
        else:
            raise Unsupported("merge " + str(how))
        v = View(left.view.space, keep, left.view.order, range_token(left.view.space, keep, left.view.order), True)
        return Frame(v, cols, left.name)
    h = getattr(left, "sym_merge", None)
    if h is not None:
        return h(I, right, how, on, left_on, right_on, suffixes)
    raise Unsupported("merge of these tables")


LibModel.f_pandas_DataFrame = _f_pandas_DataFrame
LibModel.f_pandas_merge = _merge
LibModel.m_Frame_merge = lambda self, I, o, right, **k: _merge(self, I, o, right, **k)


LibModel.a_Arr_dtype = lambda self, I, o: Lib({"int": "numpy.int64", "real": "numpy.float64", "bool": "numpy.bool_", "str": "numpy.str_"}[o.sort])
