"""C16 outputs and overwriting, concrete contracts on a scratch directory."""
from common import *

M = "sorcha.utilities.sorchaCommandLineParser"
STEMS = ["out", "out.v1", "run[1]", "a*b", "what?", "o", "SSPPOutput", "out-1", "results.csv", "[ab]x", "sub/out", "out put"]
EXT = [".csv", ".h5", ".db", ".txt", ".sqlite3", ".csv.bak", ".", ""]


def listing(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p).read()
    return out


def gen_parser(rnd, k):
    stem, st, ew = (rnd.choice(STEMS) for _ in range(3))
    outdir = rnd.choice(["res", "res[0]", "r*", "re.s", "res/x"])
    pool = []
    for s in {stem, st, ew} | set(rnd.sample(STEMS, 3)):
        for e in EXT:
            pool.append(f"{outdir}/{s}{e}")
    pool += [f"{outdir}/{stem}-2026-01-01-p12-sorcha.log", f"{outdir}/{stem}-2026-01-01-p12-sorcha.err", f"{outdir}/{stem}2.csv", f"{outdir}/x{stem}.csv",
             f"{outdir}/keep.csv", f"{stem}.csv", f"{outdir}/{st}.h5", "run1.csv", f"{outdir}/run1.csv", f"{outdir}/ax.csv", f"{outdir}/aXb.csv", "res/run1.csv", "res0/out.csv"]
    files = [f for f in pool if rnd.random() < rnd.choice([0.05, 0.4])]
    empty = sorted(set(files)) if k % 4 == 0 else sorted(f for f in set(files) if rnd.random() < 0.2)
    return {"empty": empty, "stem": stem, "st": rnd.choice([None, st]), "ew": rnd.choice([None, ew]), "outdir": outdir, "files": sorted(set(files)), "force": rnd.random() < 0.5,
            "missing": rnd.choice([None] * 6 + ["p", "ob", "c", "o", "pd", "cp", "vd", "ar"]), "cp": rnd.random() < 0.5, "vd": rnd.random() < 0.5, "ar": rnd.random() < 0.5,
            "abs": rnd.random() < 0.5}


class Args:
    pass


def run_parser(c):
    if "outdir" not in c:
        raise Skip()
    with scratch() as d:
        for nm in ("p.csv", "ob.csv", "c.ini", "pd.db", "cp.csv", "vd.db"):
            open(nm, "w").write(nm)
        os.makedirs("ar/sub")
        od = c["outdir"]
        os.makedirs(od)
        for f in c["files"]:
            os.makedirs(os.path.dirname(f) or ".", exist_ok=True)
            if not os.path.isdir(f):
                open(f, "w").write("" if f in c.get("empty", ()) else "content of " + f)
        a = Args()
        b = d if c["abs"] else "."
        j = lambda x: os.path.join(b, x)
        a.p, a.ob, a.c, a.pd, a.o = j("p.csv"), j("ob.csv"), j("c.ini"), j("pd.db"), j(od)
        a.er, a.ew, a.s, a.t, a.l, a.f, a.st = None, c["ew"], "rubin_sim", c["stem"], True, c["force"], c["st"]
        a.cp = j("cp.csv") if c["cp"] else None
        a.vd = j("vd.db") if c["vd"] else None
        a.ar = j("ar") if c["ar"] else None
        miss = c["missing"]
        if miss:
            if getattr(a, miss) is None and miss in ("cp", "vd", "ar"):
                pass
            setattr(a, miss, j("nowhere/" + miss))
        before = listing(d)

        def stem_file(p, stem):
            pre = os.path.normpath(os.path.join(od, stem)) + "."
            return p.startswith(pre) and "/" not in p[len(pre):]

        coll = set()
        for p in before:
            if stem_file(p, c["stem"]) or (c["ew"] and stem_file(p, c["ew"])) or (c["st"] is not None and p == os.path.normpath(os.path.join(od, c["st"] + ".csv"))):
                coll.add(p)
        out = call(fn(M + ":sorchaCommandLineParser"), a)
        after = listing(d)
        if miss:
            must_exit(out, f"missing {miss}")
            if not c["force"]:
                need(after == before, "files changed although the run was refused")
        elif coll and not c["force"]:
            must_exit(out, f"existing outputs {sorted(coll)}")
            need(after == before, f"files changed by a refused run: {sorted(set(before) - set(after))}")
        else:
            must_return(out)
            want = {p: v for p, v in before.items() if p not in coll}
            need(after == want, f"left over / touched: {sorted(set(after) ^ set(want))}")
            r = out.value
            for k, v in (("paramsinput", a.p), ("orbinfile", a.ob), ("configfile", a.c), ("outpath", a.o), ("pointing_database", a.pd), ("input_ephemeris_file", a.er),
                         ("output_ephemeris_file", a.ew), ("surveyname", a.s), ("outfilestem", a.t), ("loglevel", a.l), ("stats", a.st), ("ar_data_path", a.ar), ("visits_database", a.vd)):
                need(r.get(k) == v, f"{k} = {r.get(k)!r}, given {v!r}")
            need(r.get("complex_physical_parameters") == (a.cp or None), "complex physical parameters")


def gen_guard(rnd, k):
    stem = rnd.choice(STEMS)
    fs = [f"{s}{e}" for s in rnd.sample(STEMS, 4) + [stem] for e in EXT if rnd.random() < 0.4]
    return {"stem": stem, "suffix": rnd.choice([".*", ".csv"]), "files": sorted(set(fs)), "force": rnd.random() < 0.6, "empty": rnd.random() < 0.3}


def guard_model(c):
    return {"stem": "out", "suffix": c["suffix"], "files": ["out.csv", "out.h5", "other.csv"], "force": bool(c.get("force"))}


class Log:
    def __getattr__(self, n):
        return lambda *a, **k: None


def run_guard(c):
    import glob

    with scratch() as d:
        for f in c["files"]:
            os.makedirs(os.path.dirname(f) or ".", exist_ok=True)
            if not os.path.isdir(f):
                open(f, "w").write("" if c.get("empty") else f)
        before = listing(d)
        pre = c["stem"] + "."
        coll = {p for p in before if (p == c["stem"] + ".csv" if c["suffix"] == ".csv" else p.startswith(pre) and "/" not in p[len(pre):])}
        out = call(fn(M + ":warn_or_remove_file"), glob.escape(c["stem"]) + c["suffix"], c["force"], Log())
        after = listing(d)
        if coll and not c["force"]:
            must_exit(out, f"existing {sorted(coll)}")
            need(after == before, "refused but files changed")
        else:
            must_return(out)
            need(set(after) == set(before) - coll, f"files {sorted(set(after) ^ (set(before) - coll))}")


def gen_find(rnd, k):
    return {"path": rnd.choice(["f.txt", "d", "nope", "d/g.txt", "link", "dangling", ""])}


def run_find(c):
    with scratch():
        open("f.txt", "w").close()
        os.makedirs("d")
        open("d/g.txt", "w").close()
        os.symlink("f.txt", "link")
        os.symlink("gone", "dangling")
        p = c["path"]
        for name, ok in (("FindFileOrExit", os.path.exists(p)), ("FindDirectoryOrExit", os.path.isdir(p))):
            out = call(fn("sorcha.utilities.fileAccessUtils:" + name), p, "-x, --xx")
            if ok:
                need(must_return(out) == p, "returns the name")
            else:
                must_exit(out, f"{name} {p!r}")


NEEDED = ("paramsinput", "orbinfile", "pointing_database", "input_ephemeris_file", "configfile", "ar_data_file_path")


def gen_validate(rnd, k):
    c = {}
    for n in NEEDED:
        opts = ["file", "file", "file", "missing", "dir"]
        if n in ("input_ephemeris_file", "configfile", "ar_data_file_path"):
            opts += [None, None]
        if n == "ar_data_file_path":
            opts += ["dir"] * 4
        c[n] = rnd.choice(opts)
    if k % 2:  # one thing wrong at most
        bad = rnd.choice(NEEDED + (None, None))
        for n in NEEDED:
            if n != bad:
                c[n] = "dir" if n == "ar_data_file_path" else "file"
    return c


def model_validate(c):
    return {n: ("dir" if n == "ar_data_file_path" else "file") if c.get("has_" + n, True) else None for n in NEEDED}


def run_validate(c):
    A = fn("sorcha.utilities.sorchaArguments:sorchaArguments")
    with scratch() as d:
        a = A()
        ok = True
        for n in NEEDED:
            kind = c.get(n)
            if kind == "file":
                open(n, "w").write(n)
            elif kind == "dir":
                os.makedirs(n)
            setattr(a, n, None if kind is None else os.path.join(d, n))
            ok = ok and (kind is None or kind == ("dir" if n == "ar_data_file_path" else "file"))
        before = listing(d)
        out = call(a.validate_arguments)
        need((out.exc is None) == ok, f"validate_arguments: {out.exc!r}, files {c}")
        need(out.exc in (None, "ValueError"), f"refused with {out.exc!r}")
        need(listing(d) == before, "validation changed files")


def gen_arguments(rnd, k):
    return {o: rnd.random() < 0.5 for o in ("cp", "er", "ew", "vd", "st", "ar")}


def model_arguments(c):
    return {o: bool(c.get("has_" + o)) for o in ("cp", "er", "ew", "vd", "st", "ar")}


def run_arguments(c):
    with scratch() as d:
        a = Args()
        for o in ("p", "ob", "c", "pd", "cp", "vd", "er"):
            open(o + ".dat", "w").write(o)
            setattr(a, o, o + ".dat")
        for o in ("o", "ar"):
            os.makedirs(o + "dir")
            setattr(a, o, o + "dir")
        a.s, a.t, a.l, a.f, a.st, a.ew = "rubin_sim", "stem", True, False, "statsstem", "ephstem"
        for o, on in c.items():
            if not on:
                setattr(a, o, None)
        r = must_return(call(fn(M + ":sorchaCommandLineParser"), a))
        A = must_return(call(fn("sorcha.utilities.sorchaArguments:sorchaArguments"), r))
        for attr, v in (("paramsinput", a.p), ("orbinfile", a.ob), ("configfile", a.c), ("outpath", a.o), ("pointing_database", a.pd), ("input_ephemeris_file", a.er), ("loglevel", a.l),
                        ("output_ephemeris_file", a.ew), ("surveyname", a.s), ("outfilestem", a.t), ("stats", a.st), ("ar_data_file_path", a.ar), ("visits", a.vd)):
            need(getattr(A, attr) == v, f"the run uses {attr} = {getattr(A, attr)!r}, given {v!r}")
        need((A.complex_parameters or None) == a.cp, f"complex parameters {A.complex_parameters!r}, given {a.cp!r}")
        must_return(call(A.validate_arguments))


TARGETS = {"parser": Target(gen_parser, run_parser, weight=3), "guard": Target(gen_guard, run_guard, guard_model), "find": Target(gen_find, run_find),
           "validate": Target(gen_validate, run_validate, model_validate), "arguments": Target(gen_arguments, run_arguments, model_arguments)}
