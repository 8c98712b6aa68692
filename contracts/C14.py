"""C14 Unphysical or malformed orbit files are rejected, valid ones are not."""
from pyvc.contract import contract
from contracts.common import *

O = "sorcha.readers.OrbitAuxReader:OrbitAuxReader"
ELEMENTS = {
    "KEP": ["a", "e", "inc", "node", "argPeri", "ma", "epochMJD_TDB"],
    "COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"],
    "CART": ["x", "y", "z", "xdot", "ydot", "zdot", "epochMJD_TDB"],
}
KNOWN = [p + k for k in ELEMENTS for p in ("", "B")]


def family(f):
    return f[1:] if f.startswith("B") else f


def physical(fam, g):
    if fam == "KEP":
        return z3.And(g("e") >= 0, g("e") < 1, g("a") >= 0)
    if fam == "COM":
        return z3.And(g("q") >= 0, g("e") >= 0)
    return z3.BoolVal(True)


def _each(fam):
    contract("C14", O + "._process_and_validate_input_table", name=f"OrbitAuxReader._process_and_validate_input_table[{fam}]", target="orbits")(lambda V: validate(V, fam))


def validate(V, fam):
    how = V.pick("layout", ["exact", "reversed", "extra", "less", "other", "noformat"])
    el = list(ELEMENTS[fam])
    cols = {"ObjID": "str", "FORMAT": "str", **{c: "real" for c in el}}
    if how == "reversed":
        cols = dict(reversed(list(cols.items())))
    elif how == "extra":
        cols["H"] = "real"
    elif how == "less":
        del cols[V.pick("gone", el)]
    elif how == "other":
        g = V.pick("gone", el)
        cols = {("H" if c == g else c): s for c, s in cols.items()}
    elif how == "noformat":
        del cols["FORMAT"]
        if V.pick("instead", [False, True]):
            cols["format"] = "str"
    df = V.frame("df", cols, other=False)
    if "FORMAT" in cols:
        V.domain(df, "FORMAT", [fam, "B" + fam, "COM" if fam != "COM" else "KEP", "XYZ"])
    # numpy's any() over a column is only used for a warning
    o = Obj(V.get(O))
    o.attrs.update(filename="FILE", sep="csv", header_row=0, obj_id_table=None, _cache_table=False, _table=None)
    inp = df.copy()
    out = V.call(o, df)
    n = L_len(V, inp)
    right = how in ("exact", "reversed")
    if out.exc is not None:
        V.ensure("refused with a message", out.exc == "SystemExit")
        V.ensure("an empty block is never refused", n > 0)
        if right:
            first = V.row(inp)

            def fine(r):
                g = lambda c: inp.cols[c](r).t
                return z3.And(z3.Or(g("FORMAT") == z3.StringVal(fam), g("FORMAT") == z3.StringVal("B" + fam)), physical(fam, g))

            V.pre(inp.view.inside(first))
            f0 = inp.cols["FORMAT"](first).t
            V.ensure_some_row("refused only when some row is wrong", inp, lambda r: z3.Not(z3.And(fine(r), inp.cols["FORMAT"](r).t == f0)))
        return
    r, s = V.row(inp), V.row(inp)
    V.pre(z3.And(inp.view.inside(r), inp.view.inside(s)))
    g = lambda c: inp.cols[c](r).t
    V.ensure("accepted only with the columns of one format", right)
    if right:
        V.ensure("accepted only with a known format of these columns", z3.Or(g("FORMAT") == z3.StringVal(fam), g("FORMAT") == z3.StringVal("B" + fam)))
        V.ensure("accepted only with a single format", g("FORMAT") == inp.cols["FORMAT"](s).t)
        V.ensure("accepted only with physical elements in every row", physical(fam, g))
    V.ensure_filter(out.value, inp, lambda r: z3.BoolVal(True), reset=False, what="accepted rows")


def L_len(V, f):
    from pyvc.lib import view_len

    return view_len(V.I, f.view).t


for _f in ELEMENTS:
    _each(_f)


from contracts.glue import glue
glue("C14")
