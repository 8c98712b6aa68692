"""Symbolic values of the verifier.

Floats are mathematical reals, ints are mathematical integers.  A python float
is always an SV('real', term); ints/bools/strings/None and containers may be
plain python values.
"""
import itertools
from fractions import Fraction
import z3


class Unsupported(Exception):
    """The construct is outside the verifier's reach (never a verdict)."""


class PathEnd(Exception):
    """This symbolic path is finished (infeasible, or ended by a loop rule)."""


class PyExc(Exception):
    """A python exception raised by the code under verification."""

    def __init__(self, cls, args=(), obj=None):
        self.cls = cls
        self.args_ = args
        self.obj = obj
        super().__init__(cls)

    def __repr__(self):
        return f"PyExc({self.cls})"


EXC_PARENTS = {
    "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception",
    "ValueError": "Exception",
    "TypeError": "Exception",
    "KeyError": "LookupError",
    "IndexError": "LookupError",
    "LookupError": "Exception",
    "AttributeError": "Exception",
    "NotImplementedError": "RuntimeError",
    "RuntimeError": "Exception",
    "AssertionError": "Exception",
    "FileNotFoundError": "OSError",
    "OSError": "Exception",
    "IOError": "Exception",
    "UnboundLocalError": "NameError",
    "NameError": "Exception",
    "StopIteration": "Exception",
    "Exception": "BaseException",
    "SystemExit": "BaseException",
    "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError",
}


def exc_isa(cls, parent):
    while cls is not None:
        if cls == parent:
            return True
        cls = EXC_PARENTS.get(cls, "Exception" if cls not in ("Exception", "BaseException") else
                              ("BaseException" if cls == "Exception" else None))
    return False


class SV:
    """Scalar symbolic value. sort in int, real, bool, str."""

    __slots__ = ("sort", "t", "tag")

    def __init__(self, sort, t, tag=None):
        self.sort = sort
        self.t = t
        self.tag = tag  # e.g. ('len', view)

    def __repr__(self):
        return f"SV<{self.sort}:{self.t}>"

    # contracts written in python use these operators
    def __eq__(self, o):
        raise TypeError("SV == used in engine code")

    __hash__ = None


def num(x):
    """exact rational z3 value of a python number"""
    if isinstance(x, bool):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        return z3.RealVal(Fraction(repr(x)))
    raise TypeError(x)


def R(x):
    return SV("real", num(x))


def const_value(sv):
    """python value (int/Fraction/bool/str) of a constant SV, else None"""
    if not isinstance(sv, SV):
        return None
    t = z3.simplify(sv.t)
    if sv.sort == "int" and z3.is_int_value(t):
        return t.as_long()
    if sv.sort == "real" and z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if sv.sort == "bool":
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
    if sv.sort == "str" and z3.is_string_value(t):
        return t.as_string()
    return None


def to_real(v):
    """z3 real term of a numeric value"""
    if isinstance(v, SV):
        if v.sort == "real":
            return v.t
        if v.sort == "int":
            return z3.ToReal(v.t)
        if v.sort == "bool":
            return z3.If(v.t, z3.RealVal(1), z3.RealVal(0))
        raise Unsupported(f"number expected, got {v.sort}")
    if isinstance(v, (bool, int)):
        return num(v)
    if isinstance(v, (float, Fraction)):
        return num(v)
    if isinstance(v, z3.ExprRef):
        return z3.ToReal(v) if v.sort() == z3.IntSort() else v
    raise Unsupported(f"number expected, got {type(v).__name__}")


def to_int(v):
    if isinstance(v, SV):
        if v.sort == "int":
            return v.t
        if v.sort == "bool":
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if v.sort == "real":
            c = const_value(v)
            if c is not None and c.denominator == 1:
                return z3.IntVal(int(c))
        raise Unsupported("int expected")
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.ArithRef):
        return v
    raise Unsupported(f"int expected, got {type(v).__name__}")


def to_bool_term(v):
    if isinstance(v, SV) and v.sort == "bool":
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, z3.BoolRef):
        return v
    raise Unsupported(f"bool expected, got {v!r}")


def to_str_term(v):
    if isinstance(v, SV) and v.sort == "str":
        return v.t
    if isinstance(v, str):
        return z3.StringVal(v)
    raise Unsupported(f"str expected, got {type(v).__name__}")


def lift(v):
    """python scalar -> SV"""
    if isinstance(v, SV):
        return v
    if isinstance(v, bool):
        return SV("bool", z3.BoolVal(v))
    if isinstance(v, int):
        return SV("int", z3.IntVal(v))
    if isinstance(v, (float, Fraction)):
        return R(v)
    if isinstance(v, str):
        return SV("str", z3.StringVal(v))
    raise Unsupported(f"scalar expected, got {type(v).__name__}")


def wrap(t):
    """z3 term -> SV"""
    s = t.sort()
    if s == z3.IntSort():
        return SV("int", t)
    if s == z3.RealSort():
        return SV("real", t)
    if s == z3.BoolSort():
        return SV("bool", t)
    if s == z3.StringSort():
        return SV("str", t)
    raise Unsupported(f"sort {s}")


SORTS = {
    "int": z3.IntSort(),
    "real": z3.RealSort(),
    "bool": z3.BoolSort(),
    "str": z3.StringSort(),
}


class Opaque:
    """A value about which nothing is assumed (branches on it go both ways)."""

    def __init__(self, name="?"):
        self.name = name

    def __repr__(self):
        return f"Opaque({self.name})"


class Lib:
    """A name of an external (assumed) library: numpy.sqrt, pandas, ..."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Lib({self.name})"


class Func:
    def __init__(self, node, module, closure=None, name=None, cls=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.name = name or getattr(node, "name", "<lambda>")
        self.cls = cls
        self.defaults = None
        self.kw_defaults = None
        self.static = False
        self.classm = False
        self.prop = False

    @property
    def qual(self):
        base = self.module.name if self.module else "?"
        return f"{base}:{(self.cls.name + '.') if self.cls else ''}{self.name}"

    def __repr__(self):
        return f"Func({self.qual})"


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class Prim:
    """A python callable implementing an assumed contract."""

    def __init__(self, f, name=""):
        self.f = f
        self.name = name


class Cls:
    def __init__(self, name, module, bases):
        self.name = name
        self.module = module
        self.bases = bases
        self.ns = {}
        self.dataclass = False
        self.fields = []  # (name, default-node or None)

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def all_fields(self):
        out = []
        for b in self.bases:
            if isinstance(b, Cls):
                out += b.all_fields()
        names = [f[0] for f in self.fields]
        return [f for f in out if f[0] not in names] + self.fields

    def __repr__(self):
        return f"Cls({self.name})"


class Obj:
    def __init__(self, cls=None, **attrs):
        self.cls = cls
        self.attrs = dict(attrs)
        self.lazy = None  # name -> thunk

    def __repr__(self):
        return f"Obj({self.cls.name if isinstance(self.cls, Cls) else self.cls})"


class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.ns = {}

    def __repr__(self):
        return f"Module({self.name})"


# --------------------------------------------------------------- tables
_space_ids = itertools.count()


class RowSpace:
    def __init__(self, name, n):
        self.name = name
        self.n = n  # z3 Int, >= 0


class View:
    """A selection of the rows of a RowSpace: which rows, in what order, with
    what index labels."""

    def __init__(self, space, keep=None, order="orig", index="orig", unique=True, parent=None):
        self.space = space
        self._keep = keep or (lambda r: z3.BoolVal(True))
        self.order = order
        self.index = index
        self.unique = unique
        self.parent = parent  # the index lineage used for label alignment

    def inside(self, r):
        """row r of the base space is present in the view"""
        return z3.And(r >= 0, r < self.space.n, self._keep(r))

    def keep(self, r):
        return self._keep(r)


def same_rows(a, b):
    return a is b or (a.space is b.space and a._keep is b._keep and a.order == b.order)


class Col:
    """A column/array: one scalar per row of a view."""

    def __init__(self, view, fn, kind="series", name=None, sort=None):
        self.view = view
        self.fn = fn  # z3 row -> SV
        self.kind = kind
        self.name = name

    def at(self, r):
        return self.fn(r)


class Frame:
    def __init__(self, view, cols, name=None):
        self.view = view
        self.cols = dict(cols)  # name -> fn(row)->SV
        self.name = name

    def copy(self):
        return Frame(self.view, self.cols, self.name)


class IndexVal:
    def __init__(self, view):
        self.view = view


class Splat:
    """An element of a python list standing for all labels of an index"""

    def __init__(self, view):
        self.view = view


def has_splat(v):
    return isinstance(v, (list, tuple)) and any(isinstance(x, Splat) for x in v)


class Seg:
    """stands for n consecutive elements item(0..n-1) of a python list"""

    def __init__(self, n, item):
        n = z3.simplify(n)
        self.n = n if z3.is_int_value(n) and n.as_long() >= 0 else z3.If(n > 0, n, z3.IntVal(0))
        self.item = item


def has_seg(v):
    return isinstance(v, list) and any(isinstance(x, Seg) for x in v)


def seg_bounds(v):
    """[(first position, element or Seg)] and the length"""
    p, out = z3.IntVal(0), []
    for x in v:
        out.append((p, x))
        p = p + (x.n if isinstance(x, Seg) else 1)
    return out, z3.simplify(p)


class Arr:
    """1-d array of symbolic length with a z3 array of contents (mutable)."""

    def __init__(self, n, arr, sort, name=None):
        self.n = n  # z3 Int
        self.arr = arr  # python fn idx->term is not enough for stores: z3 array
        self.sort = sort
        self.name = name

    def get(self, i):
        return SV(self.sort, z3.Select(self.arr, i))


class Mat:
    """Small dense array of concrete shape holding scalars or Cols"""

    def __init__(self, data, shape):
        self.data = data  # flat list
        self.shape = tuple(shape)


class Iter:
    """symbolic iterable: length n (z3), item(i)"""

    def __init__(self, n, item):
        self.n = n
        self.item = item
