"""C27: combining run outputs neither loses nor duplicates results.

Files, directories and databases are ghost objects of symbolic number and
length.  The loops of the real code are proved with an invariant on the number
of times one arbitrary row of one arbitrary file has been handled.
"""
import ast
import re
import z3
from pyvc.contract import contract
from pyvc.values import *
from pyvc.lib import Iter, Lib, Prim, Unsupported, to_bool_term
from pyvc import lib as L

DB = "sorcha.utilities.createResultsSQLDatabase"
LG = "sorcha.utilities.check_output_logs"
CMD = "sorcha_cmdline.outputs"
DONE = "Sorcha process is completed. "
IS, BS = z3.IntSort(), z3.BoolSort()


class Name:
    """a file name / path: number i of a listing"""

    def __init__(self, W, kind, *key):
        self.W, self.kind, self.key = W, kind, key

    def sym_havoc(self, I, name):
        return L.Uninit(name)

    def sym_getattr(self, I, name):
        if name == "endswith" and self.kind == "name":

            def f(I, a, k):
                if a != ["sorcha.log"] and tuple(a) != ("sorcha.log",):
                    raise Unsupported("kind of file")
                return SV("bool", self.W.islog(*self.key))

            return Prim(f, name)
        raise Unsupported("name ." + name)

    def sym_getitem(self, I, k):
        if self.kind == "name" and isinstance(k, slice) and k.start == -10 and k.stop is None and k.step is None:
            return Ending(self)
        raise Unsupported("part of a name")

    def sym_binop(self, I, op, a, b):
        if isinstance(op, ast.Add):
            return Text(a, b)
        raise Unsupported("name operator")


class Ending:
    def __init__(self, name):
        self.name = name

    def sym_compare(self, I, op, a, b):
        o = b if a is self else a
        if o != "sorcha.log" or not isinstance(op, (ast.Eq, ast.NotEq)):
            raise Unsupported("ending of a name")
        t = self.name.W.islog(*self.name.key)
        return SV("bool", t if isinstance(op, ast.Eq) else z3.Not(t))


class Text:
    """a message made of pieces"""

    def __init__(self, *parts):
        self.parts = []
        for p in parts:
            self.parts += p.parts if isinstance(p, Text) else [p]

    def sym_binop(self, I, op, a, b):
        if isinstance(op, ast.Add):
            return Text(a, b)
        raise Unsupported("text operator")


# ------------------------------------------------------------------- log files
class Bag:
    """a list of paths of which only the number of times one arbitrary path occurs is known"""

    def __init__(self, W, count):
        self.W, self.count = W, count

    def add(self, x):
        W = self.W
        if not (isinstance(x, Name) and x.kind == "path"):
            raise Unsupported("path")
        W.V.ensure("only log files are listed", W.islog(*x.key))
        self.count = self.count + z3.If(z3.And(x.key[0] == W.i0, x.key[1] == W.k0), 1, 0)

    def sym_getattr(self, I, name):
        if name == "append":
            return Prim(lambda I, a, k: self.add(a[0]), name)
        if name == "sort":
            return Prim(lambda I, a, k: None, name)
        if name == "extend":
            return Prim(lambda I, a, k: self.extend(I, a[0]), name)
        raise Unsupported("list ." + name)

    def extend(self, I, x):
        self.count = self.count + occurrences(self.W, I, x)

    def sym_binop(self, I, op, a, b):
        if not isinstance(op, ast.Add):
            raise Unsupported("list operator")
        return Bag(self.W, occurrences(self.W, I, a) + occurrences(self.W, I, b))

    def sym_sorted(self, I, key, reverse):
        return Bag(self.W, self.count)

    def sym_list(self, I):
        return Bag(self.W, self.count)


def occurrences(W, I, x):
    """how often the arbitrary path is in x"""
    if isinstance(x, Bag):
        return x.count
    if isinstance(x, list) and not has_seg(x):
        b = Bag(W, z3.IntVal(0))
        for y in x:
            b.add(y)
        return b.count
    if isinstance(x, Iter) and hasattr(x, "nz"):
        # the paths of the log files of one directory
        y = x.item(z3.Int("q!"))
        if not (isinstance(y, Name) and y.kind == "path"):
            raise Unsupported("path")
        W.V.ctx.oblige("post: only log files are listed", z3.Implies(x.nz[0](W.q.t), W.islog(y.key[0], W.q.t)))
        return z3.If(z3.And(y.key[0] == W.i0, x.nz[0](W.k0)), 1, 0)
    raise Unsupported("list of paths")


@contract("C27", LG + ":find_all_log_files", target="logs", name="find_all_log_files")
def find_logs(V):
    class W:
        pass

    W.V = V
    c = V.ctx
    W.n, W.i0, W.k0 = (c.fresh(x, "int") for x in ("n_directories", "dir", "file"))
    cnt = z3.Function("n_files", IS, IS)
    W.islog = z3.Function("ends_with_sorcha_log", IS, IS, BS)
    W.q = SV("int", c.fresh("any_file", "int"))
    i = z3.Int("i")
    V.pre(z3.And(W.n >= 0, W.i0 >= 0, W.i0 < W.n, W.k0 >= 0, W.k0 < cnt(W.i0)))
    c.assume(z3.ForAll([i], cnt(i) >= 0, patterns=[cnt(i)]))

    def walk(I, a, k):
        if list(a) != ["TOP"] or k:
            raise Unsupported("os.walk options")
        return Iter(W.n, lambda i: (Name(W, "dir", i), L.Opaque("dirs"), Iter(cnt(i), lambda j: Name(W, "name", i, j))))

    def join(I, a, k):
        if len(a) == 2 and isinstance(a[0], Name) and isinstance(a[1], Name) and a[0].kind == "dir" and a[1].kind == "name":
            V.ensure("the directory of the file", a[0].key[0] == a[1].key[0])
            return Name(W, "path", *a[1].key)
        raise Unsupported("path")

    V.stub("os.walk", walk)
    V.stub("os.path.join", join)
    st = {}

    def lst(env):
        x = env.vars.get("log_files")
        if x is None:
            raise Unsupported("list of the loop")
        return occurrences(W, V.I, x)

    def mk():
        def inv(env, k, I):
            st["env"] = env
            if inv.it.n is W.n:
                return [("the files so far", lst(env) == z3.If(z3.And(W.i0 < k, W.islog(W.i0, W.k0)), 1, 0))]
            # within one directory: the log files up to the k-th
            d = env.vars.get("dirpath")
            if not isinstance(d, Name):
                raise Unsupported("directory of the loop")
            i = d.key[0]
            it = inv.it
            if hasattr(it, "nz"):
                upto = z3.And(it.nz[0](W.k0), it.nz[1](W.k0) < k)
            else:
                upto = z3.And(W.islog(i, W.k0), W.k0 < k)
            return [("the files so far", lst(env) == z3.If(z3.Or(z3.And(W.i0 < i, W.islog(W.i0, W.k0)), z3.And(W.i0 == i, upto)), 1, 0))]

        def havoc(k):
            st["env"].vars["log_files"] = Bag(W, c.fresh("occurrences", "int"))

        inv.havoc, inv.handles, inv.wants_iter = havoc, {"log_files"}, True
        return inv

    V.invariant(LG + ":find_all_log_files", 0, mk())
    V.invariant(LG + ":find_all_log_files", 1, mk())
    out = V.call("TOP")
    if V.returns(out):
        V.ensure("every log file is listed exactly once", occurrences(W, V.I, out.value) == z3.If(W.islog(W.i0, W.k0), 1, 0))


class Line:
    """the last line of a log file"""

    def __init__(self, W, j, tail=None):
        self.W, self.j, self.tail = W, j, tail

    def sym_havoc(self, I, name):
        return L.Uninit(name)

    def done(self, x):
        if x != DONE:
            raise Unsupported("completion message")
        return SV("bool", self.W.done(self.j))

    def sym_getattr(self, I, name):
        if name == "endswith":
            return Prim(lambda I, a, k: self.done(a[0]), name)
        raise Unsupported("line ." + name)

    def sym_getitem(self, I, k):
        if self.tail is None and isinstance(k, slice) and k.stop is None and k.step is None and isinstance(k.start, int) and k.start < 0:
            if -k.start != len(DONE):
                raise Unsupported("part of the line")
            return Line(self.W, self.j, -k.start)
        raise Unsupported("part of the line")

    def sym_compare(self, I, op, a, b):
        o = b if a is self else a
        if self.tail is None or not isinstance(op, (ast.Eq, ast.NotEq)) or not isinstance(o, str):
            raise Unsupported("comparison of lines")
        t = self.done(o).t
        return SV("bool", t if isinstance(op, ast.Eq) else z3.Not(t))

    def sym_binop(self, I, op, a, b):
        if isinstance(op, ast.Add):
            return Text(a, b)
        raise Unsupported("line operator")


@contract("C27", LG + ":check_all_logs", target="logs", name="check_all_logs")
def check_logs(V):
    class W:
        pass

    c = V.ctx
    n = c.fresh("n_logs", "int")
    V.pre(n >= 0)
    nl = z3.Function("n_lines", IS, IS)
    W.done = z3.Function("ends_with_completion_message", IS, BS)
    j = z3.Int("j")
    c.assume(z3.ForAll([j], nl(j) >= 0, patterns=[nl(j)]))
    good = lambda j: z3.And(nl(j) > 0, W.done(j))

    class Lines:
        def __init__(self, j):
            self.j = j

        def sym_havoc(self, I, name):
            return L.Uninit(name)

        def sym_truth(self, I):
            return I.truth(SV("bool", nl(self.j) > 0))

        def sym_len(self, I):
            return SV("int", nl(self.j))

        def sym_getitem(self, I, k):
            if k != -1:
                raise Unsupported("line")
            if not I.ctx.branch(nl(self.j) > 0):
                raise PyExc("IndexError", ("list index out of range",))
            return Line(W, self.j)

    class Text_:
        def __init__(self, j):
            self.j = j

        def sym_havoc(self, I, name):
            return L.Uninit(name)

        def sym_getattr(self, I, name):
            if name == "splitlines":
                def f(I, a, k):
                    if a or k:
                        raise Unsupported("splitlines")
                    return Lines(self.j)
                return Prim(f, name)
            raise Unsupported("text ." + name)

    class File:
        def __init__(self, j):
            self.j = j

        def sym_havoc(self, I, name):
            return L.Uninit(name)

        def sym_enter(self, I):
            return self

        def sym_getattr(self, I, name):
            if name == "read":
                return Prim(lambda I, a, k: Text_(self.j), name)
            if name == "close":
                return Prim(lambda I, a, k: None, name)
            raise Unsupported("file ." + name)

    def op(I, a, k):
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        if not (isinstance(a[0], Name) and a[0].kind == "log"):
            raise Unsupported("file")
        V.ensure("logs are only read", mode in ("r", "rt"))
        return File(a[0].key[0])

    V.stub("open", op)

    def ok_good(y, j):
        return to_bool_term(y) == good(j) if isinstance(y, (bool, SV)) else z3.BoolVal(False)

    def ok_line(y, j):
        if isinstance(y, Line) and y.tail is None:
            return z3.And(y.j == j, nl(j) > 0, z3.Not(W.done(j)))
        if isinstance(y, str):
            return z3.Or(z3.And(z3.BoolVal(y == " "), good(j)), z3.And(z3.BoolVal(y == ""), nl(j) == 0))
        raise Unsupported("line")

    lists = {"good_log": ok_good, "last_lines": ok_line}
    seg_of = {}

    def grown(nm, x, k):
        if not isinstance(x, list):
            raise Unsupported("list of the loop")
        ok = lists[nm]
        head = x[:1] if x and x[0] is seg_of.get(nm) else []
        n0 = head[0].n if head else z3.IntVal(0)
        if any(isinstance(y, Seg) for y in x[len(head):]):
            raise Unsupported("list of the loop")
        return z3.And([k == n0 + len(x) - len(head)] + [ok(y, n0 + i) for i, y in enumerate(x[len(head):])])

    def inv(env, k, I):
        inv.env = env
        return [(nm, grown(nm, env.vars.get(nm), k)) for nm in lists]

    def havoc(k):
        items = {"good_log": lambda j: SV("bool", good(j)), "last_lines": lambda j: Saved(W, j)}
        for nm in lists:
            seg_of[nm] = Seg(k, items[nm])
            inv.env.vars[nm] = [seg_of[nm]]

    inv.havoc, inv.handles = havoc, set(lists)
    V.invariant(LG + ":check_all_logs", 0, inv)
    out = V.call(Iter(n, lambda j: Name(W, "log", j)))
    if V.returns(out):
        o = out.value
        if not (isinstance(o, tuple) and len(o) == 2):
            raise Unsupported("result")
        for nm, x in zip(lists, o):
            V.ensure({"good_log": "complete exactly with the completion message", "last_lines": "the last lines of the others"}[nm], grown(nm, x, n))


class Saved:
    def __init__(self, W, j):
        self.W, self.j = W, j


# -------------------------------------------------------------------- reports
@contract("C27", LG + ":check_output_logs", target="logs", name="check_output_logs")
def report(V):
    class W:
        pass

    c = V.ctx
    n = c.fresh("n_logs", "int")
    V.pre(n >= 0)
    good = z3.Function("run_successful", IS, BS)
    j0 = c.fresh("run", "int")
    V.pre(z3.Implies(n > 0, z3.And(j0 >= 0, j0 < n)))
    output = V.pick("output", [False, "report.csv"])
    W.islog = None
    files = Iter(n, lambda j: Name(W, "log", j))
    goods = Iter(n, lambda j: SV("bool", good(j)))
    lines = Iter(n, lambda j: Name(W, "line", j))
    V.use(LG + ":find_all_log_files", lambda I, v: (V.ensure("the given directory", v["filepath"] == "TOP"), files)[1])

    def chk(I, v):
        V.ensure("the logs found", v["log_files"] is files)
        return (goods, lines)

    V.use(LG + ":check_all_logs", chk)
    saved, printed = [], []
    W.shown = z3.IntVal(0)
    nfail = c.fresh("n_failed", "int")
    pos = z3.Function("failed_run", IS, IS)
    place = z3.Function("place", IS, IS)
    q = z3.Int("q")
    c.assume(z3.And(nfail >= 0, nfail <= n))
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nfail), z3.And(pos(q) >= 0, pos(q) < n, z3.Not(good(pos(q))), place(pos(q)) == q)), patterns=[pos(q)]))
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n, z3.Not(good(q))), z3.And(place(q) >= 0, place(q) < nfail, pos(place(q)) == q)), patterns=[place(q)]))
    c.assume(z3.And(place(j0) == place(j0), pos(z3.IntVal(0)) == pos(z3.IntVal(0))))

    class Flag:
        def __init__(self, neg=False):
            self.neg = neg

        def sym_unop(self, I, op):
            if not isinstance(op, ast.Invert):
                raise Unsupported("flag")
            return Flag(not self.neg)

        def sym_compare(self, I, op, a, b):
            o = b if a is self else a
            if not isinstance(o, bool) or not isinstance(op, (ast.Eq, ast.NotEq)):
                raise Unsupported("flag")
            return Flag(self.neg ^ ((o is True) != isinstance(op, ast.Eq)))

        def sym_getattr(self, I, name):
            if name in ("all", "any"):
                def f(I, a, k):
                    allgood = nfail == 0
                    allbad = nfail == n
                    x = (allbad if self.neg else allgood) if name == "all" else z3.Not(allgood if self.neg else allbad)
                    return SV("bool", x)
                return Prim(f, name)
            raise Unsupported("flag ." + name)

    class Table:
        def __init__(self, failed):
            self.failed = failed

        def sym_len(self, I):
            return SV("int", nfail if self.failed else n)

        def sym_getitem(self, I, k):
            if self.failed is False:
                if k == "run_successful":
                    return Flag()
                if isinstance(k, Flag):
                    if not k.neg:
                        raise Unsupported("successful runs")
                    return Table(True)
            raise Unsupported("table")

        def sym_getattr(self, I, name):
            if name == "to_csv":
                def f(I, a, k):
                    if not a and "path_or_buf" not in k:
                        raise Unsupported("to_csv")
                    saved.append((a[0] if a else k["path_or_buf"], self.failed, k.get("mode", "w")))
                return Prim(f, name)
            if name == "iterrows" and self.failed:
                return Prim(lambda I, a, k: Iter(nfail, lambda p: (SV("int", pos(p)), Row(pos(p)))), name)
            if name == "empty":
                return SV("bool", (nfail if self.failed else n) == 0)
            if name == "run_successful" and not self.failed:
                return Flag()
            raise Unsupported("table ." + name)

    class Row:
        def __init__(self, j):
            self.j = j

        def sym_havoc(self, I, name):
            return L.Uninit(name)

        def sym_getitem(self, I, k):
            if k in ("log_filename", "log_lastline"):
                return Name(W, "log" if k == "log_filename" else "line", self.j)
            raise Unsupported("row")

    def frame(I, a, k):
        d = a[0] if a else k.get("data")
        if not isinstance(d, dict):
            raise Unsupported("table")
        want = {"log_filename": files, "run_successful": goods, "log_lastline": lines}
        if set(d) != set(want):
            raise Unsupported("columns")
        for nm in want:
            if not isinstance(d[nm], Iter):
                raise Unsupported("column " + nm)
            V.ensure("the report has the " + nm, d[nm] is want[nm])
        return Table(False)

    V.stub("pandas.DataFrame", frame)
    V.stub("os.path.join", lambda I, a, k: a[0] if len(a) == 1 else _uns())

    def pr(I, a, k):
        for x in a:
            for p in x.parts if isinstance(x, Text) else [x]:
                if isinstance(p, Name) and p.kind == "log":
                    W.shown = W.shown + z3.If(p.key[0] == j0, 1, 0)
                    V.ensure("only incomplete runs are listed", z3.Not(good(p.key[0])))

    V.stub("print", pr)

    def inv(env, k, I):
        return [("the runs listed so far", W.shown == z3.If(z3.And(n > 0, z3.Not(good(j0)), place(j0) < k), 1, 0))]

    def havoc(k):
        W.shown = c.fresh("shown", "int")

    inv.havoc = havoc
    V.invariant(LG + ":check_output_logs", 0, inv)
    out = V.call("TOP", *([output] if V.pick("output given", [True, False]) or output else []))
    if out.exc is not None:
        V.ensure("refused only without any log", z3.And(z3.BoolVal(out.exc == "SystemExit"), n == 0))
        V.ensure("and nothing is saved", not saved)
        return
    V.ensure("without any log the check stops", n > 0)
    bad = nfail > 0
    if output:
        V.ensure("one report", len(saved) <= 1)
        V.ensure("the report of an incomplete run is saved", z3.Implies(bad, z3.BoolVal(len(saved) == 1)))
        for s in saved:
            V.ensure("where asked, all of it", s == ("report.csv", False, "w"))
            V.ensure("only with incomplete runs", bad)
    else:
        V.ensure("nothing is saved", not saved)
        V.ensure("exactly the incomplete runs are listed", W.shown == z3.If(good(j0), 0, 1))


def _uns():
    raise Unsupported("path")


@contract("C27", CMD + ":cmd_outputs_check_logs", target="cmd_logs", name="sorcha outputs check-logs")
def cmd_check(V):
    outpath = V.pick("outpath", [False, "/d/out", "/d/out.csv"])
    force = V.pick("force", [False, True])
    exists = V.pick("exists", [False, True])
    args = Obj("args", filepath="/top", outpath=outpath, force=force)
    final = outpath and (outpath if outpath.endswith(".csv") else outpath + ".csv")
    state = {"exists": exists}
    removed, called, dirs = [], [], []

    def ex(I, a, k):
        if a[0] != final:
            raise Unsupported("existence of another file")
        return state["exists"]

    def rm(I, a, k):
        removed.append(a[0])
        state["exists"] = False

    import posixpath

    V.stub("os.path.abspath", lambda I, a, k: posixpath.normpath(a[0]))
    V.stub("os.path.dirname", lambda I, a, k: posixpath.dirname(a[0]))
    V.stub("os.path.exists", ex)
    V.stub("os.path.isfile", ex)
    V.stub("os.remove", rm)
    V.stub("os.unlink", rm)
    V.use("sorcha.utilities.fileAccessUtils:FindDirectoryOrExit", lambda I, v: (dirs.append(v["arg_fn"]), v["arg_fn"])[1])
    V.use(LG + ":check_output_logs", lambda I, v: called.append((v["filepath"], v.get("output", False))))
    out = V.call(args)
    if not V.returns(out):
        return
    keep = bool(outpath) and exists and not force
    V.ensure("an existing report is only overwritten on request", (not called and not removed) if keep else removed in ([], [final]))
    if not keep:
        V.ensure("the logs are checked", called == [("/top", final)])
        V.ensure("only an existing report is removed", not removed or (exists and force))


# ------------------------------------------------------------ results database
class Names:
    """the column names of result file t, in the file's own order"""

    def __init__(self, W, t):
        self.W, self.t = W, t

    def sym_havoc(self, I, name):
        return L.Uninit(name)

    def sym_iterate(self, I):
        if not z3.is_true(z3.simplify(self.t == self.W.first)):
            return None
        return list(self.W.cols)

    def sym_len(self, I):
        if self.sym_iterate(I) is None:
            return SV("int", self.W.ncols(self.t))
        return len(self.W.cols)

    def sym_getitem(self, I, k):
        it = self.sym_iterate(I)
        if it is None:
            raise Unsupported("column of a file")
        return it[k]

    def sym_set(self, I):
        return NameSet(self.W, self.t)

    def sym_sorted(self, I, key, reverse):
        if key is not None:
            raise Unsupported("sorted")
        return NameSet(self.W, self.t)

    def sym_compare(self, I, op, a, b):
        if isinstance(a, Names) and isinstance(b, Names) and isinstance(op, (ast.Eq, ast.NotEq)):
            t = z3.And(self.W.same(a.t, b.t), self.W.order(a.t) == self.W.order(b.t))
            return SV("bool", t if isinstance(op, ast.Eq) else z3.Not(t))
        raise Unsupported("comparison of columns")


class NameSet:
    def __init__(self, W, t):
        self.W, self.t = W, t

    def sym_havoc(self, I, name):
        return L.Uninit(name)

    def sym_compare(self, I, op, a, b):
        if isinstance(a, NameSet) and isinstance(b, NameSet) and isinstance(op, (ast.Eq, ast.NotEq)):
            t = self.W.same(a.t, b.t)
            return SV("bool", t if isinstance(op, ast.Eq) else z3.Not(t))
        raise Unsupported("comparison of columns")


def unquote(c):
    c = c.strip()
    if c[:1] == "[" and c[-1:] == "]" or c[:1] == c[-1:] == '"' or c[:1] == c[-1:] == "`":
        return c[1:-1]
    if re.fullmatch(r"[A-Za-z_]\w*", c):
        return c
    raise Unsupported("SQL: name " + c)


def split_cols(s):
    return [unquote(x) for x in s.split(",")]


@contract("C27", DB + ":create_results_table", target="database", name="create_results_table")
def results_table(V):
    class W:
        pass

    c = V.ctx
    W.cols = V.pick("columns", [["ObjID"], ["ObjID", "RA(deg)"], ["ObjID", "RA(deg)", "mag"]])
    table = V.pick("table", [None, "t2"])
    n = c.fresh("n_found", "int")
    isout = z3.Function("is_the_output_itself", IS, BS)
    nrows = z3.Function("n_rows", IS, IS)
    W.ncols = z3.Function("n_columns", IS, IS)
    colset = z3.Function("columns", IS, IS)
    W.same = lambda a, b: colset(a) == colset(b)
    W.order = z3.Function("order", IS, IS)
    t0, r0 = c.fresh("file", "int"), c.fresh("row", "int")
    t, u = z3.Ints("t u")
    V.pre(z3.And(n >= 0, z3.Implies(n > 0, z3.And(t0 >= 0, t0 < n, r0 >= 0, r0 < nrows(t0)))))
    c.assume(z3.ForAll([t], nrows(t) >= 0, patterns=[nrows(t)]))
    c.assume(z3.ForAll([t], W.ncols(t) >= 1, patterns=[W.ncols(t)]))
    W.first = None
    W.count = z3.IntVal(0)
    W.table = V.pick("table exists already", [False, True])  # False / True (old rows) / list of columns

    class F:
        """a path found"""

        def __init__(self, t):
            self.t = t

        def sym_havoc(self, I, name):
            return L.Uninit(name)

        def sym_binop(self, I, op, a, b):
            if isinstance(op, ast.Add):
                return Text(a, b)
            raise Unsupported("path operator")

    class Real:
        def __init__(self, t):
            self.t = t

        def sym_compare(self, I, op, a, b):
            if not isinstance(op, (ast.Eq, ast.NotEq)) or not (isinstance(a, Real) and isinstance(b, Real)) or (a.t is None) == (b.t is None):
                raise Unsupported("comparison of paths")
            x = isout(a.t if a.t is not None else b.t)
            return SV("bool", x if isinstance(op, ast.Eq) else z3.Not(x))

    def real(I, a, k):
        if isinstance(a[0], F):
            return Real(a[0].t)
        if a[0] == "/d/out.db":
            return Real(None)
        raise Unsupported("path")

    V.stub("os.path.realpath", real)

    def samefile(I, a, k):
        f = [x for x in a if isinstance(x, F)]
        if len(f) == 1 and "/d/out.db" in [x for x in a if isinstance(x, str)]:
            return SV("bool", isout(f[0].t))
        raise Unsupported("paths")

    V.stub("os.path.samefile", samefile)
    V.stub("os.path.join", lambda I, a, k: "/".join(a) if all(isinstance(x, str) for x in a) else _uns())

    def glob(I, a, k):
        if len(a) != 1 or a[0] != "/res/**/stem*.db" or k.get("recursive") is not True or set(k) > {"recursive"}:
            raise Unsupported("files looked for")
        return Iter(n, lambda t: F(t))

    V.stub("glob.glob", glob)

    def gcn(I, v):
        f = v["filename"]
        if not isinstance(f, F) or v.get("table_name", "sorcha_results") != "sorcha_results":
            raise Unsupported("columns of another table")
        if W.first is None:
            W.first = z3.simplify(f.t)
        return Names(W, z3.simplify(f.t))

    V.use(DB + ":get_column_names", gcn)
    name = table or "sorcha_results"

    class RowOf:
        def __init__(self, t, r, right):
            self.t, self.r, self.right = t, r, right

        def sym_havoc(self, I, name):
            return L.Uninit(name)

    class Rows(Iter):
        def __init__(self, t, right):
            self.t, self.right = t, right
            Iter.__init__(self, nrows(t), lambda r: RowOf(t, r, right))

        def sym_havoc(self, I, name):
            return L.Uninit(name)

    class Source:
        """a connection or cursor of result file t"""

        def __init__(self, t):
            self.t, self.q = t, None

        def sym_havoc(self, I, name):
            return L.Uninit(name)

        def sym_enter(self, I):
            return self

        def sym_iter(self, I):
            if self.q is None:
                raise Unsupported("no query")
            return self.q

        def sym_getattr(self, I, name_):
            if name_ == "cursor":
                return Prim(lambda I, a, k: Source(self.t), name_)
            if name_ == "close":
                return Prim(lambda I, a, k: None, name_)
            if name_ == "fetchall":
                def f(I, a, k):
                    if self.q is None:
                        raise Unsupported("no query")
                    return self.q
                return Prim(f, name_)
            if name_ == "execute":
                def f(I, a, k):
                    m = re.fullmatch(r"\s*select\s+(.*?)\s+from\s+(\S+)\s*;?\s*", a[0], re.I | re.S) if isinstance(a[0], str) and len(a) == 1 else None
                    if m is None or unquote(m.group(2)) != "sorcha_results":
                        raise Unsupported("SQL: " + str(a[0])[:60])
                    # the columns of every file are known to be those of the first
                    V.ensure("files with other columns are refused", W.same(self.t, W.first) if W.first is not None else False)
                    if m.group(1).strip() == "*":
                        right = W.order(self.t) == W.order(W.first)
                    else:
                        right = z3.BoolVal(split_cols(m.group(1)) == list(W.cols))
                    self.q = Rows(self.t, right)
                    return self
                return Prim(f, name_)
            raise Unsupported("database ." + name_)

    V.stub("sqlite3.connect", lambda I, a, k: Source(a[0].t) if isinstance(a[0], F) else _uns())

    class Out:
        def sym_getattr(self, I, nm):
            if nm == "cursor":
                return Prim(lambda I, a, k: Out(), nm)
            if nm in ("close", "commit"):
                return Prim(lambda I, a, k: None, nm)
            if nm == "execute":
                return Prim(self.execute, nm)
            if nm == "executemany":
                def f(I, a, k):
                    self.values(I, a[0])
                    x = a[1]
                    if not isinstance(x, Rows):
                        if isinstance(x, Source) and x.q is not None:
                            x = x.q
                        else:
                            raise Unsupported("rows")
                    V.ensure("values in their columns", x.right)
                    W.count = W.count + z3.If(x.t == t0, 1, 0)
                return Prim(f, nm)
            raise Unsupported("database ." + nm)

        def sym_enter(self, I):
            return self

        def values(self, I, s):
            m = re.fullmatch(r"\s*insert\s+into\s+(\S+?)\s*(\([^?]*\))?\s*values\s*\(([\s?,]*)\)\s*;?\s*", s, re.I) if isinstance(s, str) else None
            if m is None or unquote(m.group(1)) != name:
                raise Unsupported("SQL: " + str(s)[:60])
            V.ensure("the table is made first, anew", isinstance(W.table, list))
            if m.group(2) is not None and split_cols(m.group(2)[1:-1]) != list(W.cols):
                raise Unsupported("columns inserted")
            V.ensure("a place for every column", m.group(3).count("?") == len(W.cols) and [x.strip() for x in m.group(3).split(",")] == ["?"] * len(W.cols))

        def execute(self, I, a, k):
            s = a[0]
            if not isinstance(s, str):
                raise Unsupported("SQL")
            m = re.fullmatch(r"\s*drop\s+table\s+(if\s+exists\s+)?(\S+)\s*;?\s*", s, re.I)
            if m:
                if unquote(m.group(2)) != name:
                    raise Unsupported("SQL: " + s[:60])
                V.ensure("an absent table is not dropped", bool(m.group(1)) or W.table is not False)
                V.ensure("rows are not dropped", not isinstance(W.table, list))
                W.table = False
                return self
            m = re.fullmatch(r"\s*create\s+table\s+(if\s+not\s+exists\s+)?(\S+?)\s*\((.*)\)\s*;?\s*", s, re.I | re.S)
            if m:
                if unquote(m.group(2)) != name:
                    raise Unsupported("SQL: " + s[:60])
                if m.group(1):
                    V.ensure("old rows are not kept", W.table is False)
                V.ensure("a table of that name is dropped first", W.table is False)
                W.table = split_cols(m.group(3))
                V.ensure("the columns of the files", W.table == list(W.cols))
                return self
            self.values(I, s)
            r = a[1] if len(a) > 1 else None
            if not isinstance(r, RowOf):
                raise Unsupported("row")
            V.ensure("values in their columns", r.right)
            W.count = W.count + z3.If(z3.And(r.t == t0, r.r == r0), 1, 0)
            return self

    def mk(level):
        def inv(env, k, I):
            it, st = inv.it, inv.st
            if isinstance(it, Rows):
                # the rows of one file
                if z3.is_int_value(k) and k.as_long() == 0:
                    inv.base = W.count
                inv.what = "rows"
                return [("the rows so far", W.count == inv.base + z3.If(z3.And(it.t == t0, r0 < k), 1, 0))]
            q = z3.Int("q!")
            first = 0
            if hasattr(it, "tail"):
                it, first = it.tail
            x = it.item(q)
            if isinstance(x, tuple) and x and isinstance(x[-1], F):
                x = x[-1]
            if not isinstance(x, F):
                raise Unsupported("loop")
            q0, inlist = (it.nz[1](t0), it.nz[0](t0)) if hasattr(it, "nz") else (t0, z3.BoolVal(True))
            if any(isinstance(y, ast.Attribute) and y.attr in ("execute", "executemany") for b in st.body for y in ast.walk(b)):
                inv.what = "files"
                if W.table is not inv.__dict__.setdefault("table", W.table):
                    raise Unsupported("the table changes in the loop")
                return [("the files so far", W.count == z3.If(z3.And(n > 0, inlist, q0 >= first, q0 < k + first), 1, 0))]
            inv.what = "check"
            if W.first is None:
                raise Unsupported("columns of the first file")
            return [("columns checked so far", z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < k + first, q < it.n), W.same(x.t, W.first)), patterns=[z3.simplify(x.t)] if not z3.is_var(x.t) and x.t.get_id() != q.get_id() else []))]

        def havoc(k):
            if inv.what != "check":
                W.count = c.fresh("inserted", "int")

        inv.wants_iter, inv.havoc = True, havoc
        return inv

    for no in range(4):
        V.invariant(DB + ":create_results_table", no, mk(no))
    out = V.call(Out(), "/d/out.db", "/res", "stem", *([table] if table else []))
    mine = z3.And(n > 0, z3.Not(isout(t0)))
    if out.exc is not None:
        others = z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n, z3.Not(isout(t))), W.same(t, t0)), patterns=[colset(t)])
        V.ensure("stops only without result files or with different ones", z3.And(z3.BoolVal(out.exc == "SystemExit"), z3.Not(z3.And(mine, others))))
        return
    V.ensure("every row of every result file once, none of the database itself", W.count == z3.If(mine, 1, 0))
    V.ensure("a new table", isinstance(W.table, list))


@contract("C27", DB + ":get_column_names", target="database", name="get_column_names")
def columns(V):
    cols = V.pick("columns", [["a"], ["a", "b(deg)"], ["c", "a", "b"]])
    table = V.pick("table", [None, "t2"])

    class Cur:
        q = None

        def sym_getattr(self, I, nm):
            if nm == "cursor":
                return Prim(lambda I, a, k: Cur(), nm)
            if nm == "close":
                return Prim(lambda I, a, k: None, nm)
            if nm in ("fetchall", "fetchone"):
                return Prim(lambda I, a, k: L.Opaque("rows"), nm)
            if nm == "description":
                if self.q is None:
                    return None
                return tuple((x,) + (None,) * 6 for x in cols)
            if nm == "execute":

                def f(I, a, k):
                    m = re.fullmatch(r"\s*select\s+\*\s+from\s+(\S+)(\s+limit\s+\d+)?\s*;?\s*", a[0], re.I) if isinstance(a[0], str) else None
                    if m is None:
                        raise Unsupported("SQL")
                    V.ensure("the table asked for", unquote(m.group(1)) == (table or "sorcha_results"))
                    self.q = True
                    return self

                return Prim(f, nm)
            raise Unsupported("database ." + nm)

    V.stub("sqlite3.connect", lambda I, a, k: (V.ensure("the given file", a[0] == "/f.db"), Cur())[1])
    out = V.call("/f.db", *([table] if table else []))
    if V.returns(out):
        V.ensure("the columns in their order", list(out.value) == cols)


@contract("C27", DB + ":create_inputs_table", target="database", name="create_inputs_table")
def inputs_table(V):
    class W:
        pass

    c = V.ctx
    kind = V.pick("kind", ["orbits", "params"])
    n, t0 = c.fresh("n_found", "int"), c.fresh("file", "int")
    V.pre(z3.And(n >= 0, z3.Implies(n > 0, z3.And(t0 >= 0, t0 < n))))
    hasindex = z3.Function("has_INDEX", IS, BS)
    W.count, W.dropped = z3.IntVal(0), V.pick("table exists already", [False, True])
    old = W.dropped

    class F:
        def __init__(self, t):
            self.t = t

        def sym_havoc(self, I, name):
            return L.Uninit(name)

    def glob(I, a, k):
        if len(a) != 1 or a[0] != "/in/" + kind + "*":
            raise Unsupported("files looked for")
        return Iter(n, lambda t: F(t))

    V.stub("glob.glob", glob)
    V.stub("os.path.join", lambda I, a, k: "/".join(a) if all(isinstance(x, str) for x in a) else _uns())
    state = {"old": old}

    class Columns:
        def __init__(self, t):
            self.t = t

        def sym_contains(self, I, x):
            if x != "INDEX":
                raise Unsupported("column")
            return SV("bool", hasindex(self.t))

        def sym_getattr(self, I, nm):
            if nm in ("values", "tolist"):
                return self if nm == "values" else Prim(lambda I, a, k: self, nm)
            raise Unsupported("columns ." + nm)

    class Df:
        def __init__(self, t, renamed=False):
            self.t, self.renamed = t, renamed

        def sym_havoc(self, I, name):
            return L.Uninit(name)

        def sym_getattr(self, I, nm):
            if nm == "columns":
                if self.renamed:
                    raise Unsupported("columns")
                return Columns(self.t)
            if nm == "rename":
                def f(I, a, k):
                    m = k.get("columns")
                    if a or set(k) - {"columns", "inplace"} or not isinstance(m, dict) or set(m) != {"INDEX"} or str(m["INDEX"]).lower() in ("index", "objid"):
                        raise Unsupported("rename")
                    if k.get("inplace"):
                        self.renamed = True
                        return None
                    return Df(self.t, True)
                return Prim(f, nm)
            if nm == "to_sql":
                def f(I, a, k):
                    k = dict(k)
                    b = list(a)
                    nm_ = b.pop(0) if b else k.pop("name")
                    con = b.pop(0) if b else k.pop("con")
                    if b or con is not cnx:
                        raise Unsupported("to_sql")
                    V.ensure("the table of this kind", nm_ == kind)
                    V.ensure("added to what is there", k.pop("if_exists", "fail") == "append")
                    if k.pop("index", True) is not False:
                        V.ensure("no second index column", z3.BoolVal(True) if self.renamed else z3.Not(hasindex(self.t)))
                    if k:
                        raise Unsupported("to_sql options")
                    V.ensure("old rows are dropped first", not state["old"])
                    W.count = W.count + z3.If(self.t == t0, 1, 0)
                return Prim(f, nm)
            raise Unsupported("table ." + nm)

    def read(I, a, k):
        k = dict(k)
        if len(a) != 1 or not isinstance(a[0], F):
            raise Unsupported("read_csv")
        V.ensure("columns separated by blanks", k.pop("sep", k.pop("delimiter", None)) in ("\\s+", " +", "[ \t]+") or k.pop("delim_whitespace", False) is True)
        d = k.pop("dtype", None)
        V.ensure("object identifiers are text", d is not None and (isinstance(d, Lib) and d.name in ("str", "object") or isinstance(d, dict) and isinstance(d.get("ObjID"), Lib) and d["ObjID"].name in ("str", "object") or d in ("str", "object") or isinstance(d, dict) and d.get("ObjID") in ("str", "object")))
        if k:
            raise Unsupported("read_csv options")
        return Df(a[0].t)

    V.stub("pandas.read_csv", read)

    class Cnx:
        def sym_enter(self, I):
            return self

        def sym_getattr(self, I, nm):
            if nm == "cursor":
                return Prim(lambda I, a, k: Cnx(), nm)
            if nm in ("close", "commit"):
                return Prim(lambda I, a, k: None, nm)
            if nm == "execute":
                def f(I, a, k):
                    m = re.fullmatch(r"\s*drop\s+table\s+(if\s+exists\s+)?(\S+)\s*;?\s*", a[0], re.I) if isinstance(a[0], str) else None
                    if m is None:
                        raise Unsupported("SQL")
                    V.ensure("only this table is dropped", unquote(m.group(2)) == kind)
                    V.ensure("an absent table is not dropped", bool(m.group(1)) or state["old"])
                    if z3.is_int_value(W.count) and W.count.as_long() == 0:
                        state["old"] = False
                        return self
                    V.ensure("rows are not dropped", False)
                return Prim(f, nm)
            raise Unsupported("database ." + nm)

    cnx = Cnx()

    def inv(env, k, I):
        x = inv.it.item(z3.Int("q!"))
        if not isinstance(x, F) or hasattr(inv.it, "nz"):
            raise Unsupported("loop")
        return [("the files so far", W.count == z3.If(z3.And(n > 0, t0 < k), 1, 0))]

    def havoc(k):
        W.count = c.fresh("stored", "int")

    inv.wants_iter, inv.havoc = True, havoc
    V.invariant(DB + ":create_inputs_table", 0, inv)
    out = V.call(cnx, "/in", kind)
    if out.exc is not None:
        V.ensure("stops only without files", z3.And(z3.BoolVal(out.exc == "SystemExit"), n == 0))
        return
    V.ensure("every file is stored completely once", z3.And(n > 0, W.count == 1))
    V.ensure("old rows are gone", not state["old"])


@contract("C27", DB + ":create_results_database", target="database", name="create_results_database")
def whole(V):
    stem = V.pick("stem", [None, "", "run"])
    cx = V.pick("complex", [False, True])
    cnx = L.Opaque("connection")
    calls = []
    V.stub("sqlite3.connect", lambda I, a, k: (V.ensure("the output file", a[0] == "/d/out.db"), cnx)[1])

    def res(I, v):
        V.ensure("the results of the output", v["cnx_out"] is cnx and v["filename"] == "/d/out.db" and v["output_path"] == "/res" and v["output_stem"] == (stem or "") and v.get("table_name", "sorcha_results") == "sorcha_results")
        calls.append("results")

    def inp(I, v):
        V.ensure("the inputs of the output", v["cnx_out"] is cnx and v["input_path"] == "/in")
        calls.append(v["table_type"])

    V.use(DB + ":create_results_table", res)
    V.use(DB + ":create_inputs_table", inp)
    out = V.call(Obj("args", output="/d/out.db", stem=stem, results="/res", inputs="/in", complex=cx))
    if V.returns(out):
        V.ensure("every table once", sorted(calls) == sorted(["results", "params", "orbits"] + (["complex"] if cx else [])))


@contract("C27", CMD + ":cmd_outputs_create_sqlite", target="database", name="sorcha outputs create-sqlite")
def cmd_create(V):
    args = Obj("args", output="/d/out.db", stem="s", results="/res", inputs="/in", complex=V.pick("complex", [False, True]))
    dirs, calls = [], []
    V.stub("os.path.abspath", lambda I, a, k: a[0])
    V.use("sorcha.utilities.fileAccessUtils:FindDirectoryOrExit", lambda I, v: (dirs.append(v["arg_fn"]), v["arg_fn"])[1])
    V.use(DB + ":create_results_database", lambda I, v: calls.append(v["args"]))
    out = V.call(args)
    if V.returns(out):
        V.ensure("built once from the given directories", len(calls) == 1 and calls[0] is args and args.attrs["output"] == "/d/out.db" and args.attrs["inputs"] == "/in" and args.attrs["results"] == "/res")
        V.ensure("which exist", set(dirs) >= {"/in", "/res"})
