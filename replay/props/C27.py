"""C27 combining outputs, concrete contracts: real log files, directories and sqlite
databases in a scratch directory, against what was put into them."""
import contextlib
import csv
import io
import os
import sqlite3
from collections import Counter
from types import SimpleNamespace
from common import *

DB, LG, CMD = "sorcha.utilities.createResultsSQLDatabase", "sorcha.utilities.check_output_logs", "sorcha_cmdline.outputs"
DONE = "Sorcha process is completed. "
DIRS = ["", "a", "a/b", "run 1", "b.d", "a/c/d", ".hidden"]


# ------------------------------------------------------------------------ logs
def gen_log(rnd, want=None):
    pre = rnd.choice(["2026-01-02 03:04:05,678 sorcha.sorcha INFO     : ", "INFO: ", ""])
    body = [pre + rnd.choice(["Reading files...", "Sorcha process is beginning.", "x", DONE, ""]) for _ in range(rnd.choice([0, 1, 3, 40]))]
    k = want or rnd.choice(["done", "done", "done", "empty", "cut", "later", "short", "other", "newline"])
    if k == "empty":
        return "", False, ""
    if k == "newline":
        return "\n", False, ""
    last = {"done": pre + DONE, "cut": pre + DONE[: rnd.choice([5, 20, 26])], "later": pre + "Traceback", "short": "x", "other": pre + "Sorcha process is beginning. "}[k]
    if k == "later":
        body.append(pre + DONE)
    return "\n".join(body + [last]) + rnd.choice(["\n", "\n", ""]), k == "done", last


def gen_logs(rnd, k):
    files, n = [], rnd.choice([0, 1, 1, 2, 4, 9])
    alldone = rnd.random() < 0.3
    for i in range(n):
        txt, ok, last = gen_log(rnd, "done" if alldone else None)
        files.append([rnd.choice(DIRS), rnd.choice(["%d-sorcha.log", "%dsorcha.log", "out%d.sorcha.log", "2026-p%d_sorcha.log"]) % i, txt, ok, last])
    if n and rnd.random() < 0.3:
        # the same name in another directory
        d = [x for x in DIRS if x != files[0][0]]
        files.append([rnd.choice(d), files[0][1]] + list(gen_log(rnd)))
    if k % 12 == 5:
        # a large campaign: more runs than any page, window or batch
        for i in range(rnd.choice([600, 1100])):
            txt, ok, last = gen_log(rnd, rnd.choice(["done", "done", "short", "empty"]))
            files.append(["many", "%04d-sorcha.log" % i, last + "\n" if last else "", ok, last])
    other = [[rnd.choice(DIRS), x, gen_log(rnd)[0]] for x in rnd.sample(["sorcha.log.txt", "sorcha.err", "sorcha.logs", "sorcha_log", "1-sorcha.log.gz", "log"], rnd.choice([0, 0, 2]))]
    return {"files": files, "other": other, "out": rnd.choice([None, None, "rep.csv", "rep", "a.b.csv"]), "exists": rnd.random() < 0.5, "force": rnd.random() < 0.5}


def lay(case, top):
    paths = {}
    for d, nm, txt, ok, last in case["files"]:
        os.makedirs(os.path.join(top, d), exist_ok=True)
        p = os.path.normpath(os.path.join(top, d, nm))
        with open(p, "w") as f:
            f.write(txt)
        paths[p] = (ok, last)
    for d, nm, txt in case["other"]:
        os.makedirs(os.path.join(top, d), exist_ok=True)
        with open(os.path.join(top, d, nm), "w") as f:
            f.write(txt)
    return paths


def loud(f, *a):
    buf = io.StringIO()

    def g():
        with contextlib.redirect_stdout(buf):
            return f(*a)

    out = call(g)
    return out, buf.getvalue()


def run_logs(case):
    with scratch() as d:
        top, rep = os.path.join(d, "top"), os.path.join(d, "rep")
        os.makedirs(top), os.makedirs(rep)
        paths = lay(case, top)
        found = must_return(call(fn(LG + ":find_all_log_files"), top))
        need(Counter(os.path.normpath(x) for x in found) == Counter(list(paths)), f"log files {found}")
        if paths:
            order = sorted(paths)
            good, last = must_return(call(fn(LG + ":check_all_logs"), list(order)))
            need(len(good) == len(last) == len(order), "one verdict for each log")
            for p, g, ln in zip(order, good, last):
                need(bool(g) == paths[p][0], f"{os.path.basename(p)}: complete {g}")
                need(g or ln == paths[p][1], f"last line {ln!r}")
        bad = {p: x[1] for p, x in paths.items() if not x[0]}
        arg, final = False, None
        if case["out"]:
            arg = os.path.join(rep, case["out"])
            final = arg if arg.endswith(".csv") else arg + ".csv"
            if case["exists"]:
                with open(final, "w") as f:
                    f.write("an older report\n")
        out, txt = loud(fn(CMD + ":cmd_outputs_check_logs"), SimpleNamespace(filepath=top, outpath=arg, force=case["force"]))
        left = {}
        for x in os.listdir(rep):
            with open(os.path.join(rep, x)) as f:
                left[x] = f.read()
        old = bool(final) and case["exists"]
        if old and not case["force"]:
            must_return(out)
            need(left == {os.path.basename(final): "an older report\n"}, "an existing report was changed")
            return
        if not paths:
            must_exit(out, "no log files")
            return
        must_return(out)
        if not final:
            need(not left, "a file appeared")
            for p in paths:
                need((p + "\n" in txt) == (p in bad), f"{p} shown")
            return
        if not bad:
            need(not left, "a report without incomplete runs")
            return
        need(list(left) == [os.path.basename(final)], f"report {list(left)}")
        rows = list(csv.DictReader(io.StringIO(left[os.path.basename(final)], newline="")))
        need(Counter(os.path.normpath(r["log_filename"]) for r in rows) == Counter(list(paths)), "runs in the report")
        for r in rows:
            ok, last = paths[os.path.normpath(r["log_filename"])]
            need(r["run_successful"] == str(ok), "verdict in the report")
            need(ok or r["log_lastline"].strip() == last.strip(), "last line in the report")


# --------------------------------------------------------------------- results
COLS = ["ObjID", "fieldMJD_TAI", "RA_deg", "Range_LTC_km", "optFilter", "Obj_Sun_x_LTC_km", "Angle(deg)", "trailedSourceMag"]
IDS = ["obj1", "007", "1e5", "2015 BP519", "S00", "C/2014 UN271", "é", "O'Neil", "-1", ""]


def gen_db(rnd, k):
    cols = rnd.sample(COLS, rnd.choice([1, 2, 4, 8]))
    if "ObjID" not in cols:
        cols[0] = "ObjID"
    files = []
    serial = 0
    for i in range(rnd.choice([0, 1, 1, 2, 3, 5])):
        rows = []
        for _ in range(rnd.choice([0, 1, 2, 7])):
            serial += 1
            rows.append({c: (rnd.choice(IDS) if c == "ObjID" else rnd.choice(["g", "r"]) if c == "optFilter" else rnd.choice([serial + 0.125, rnd.uniform(-1e9, 1e9), None, serial, 0.1 + 0.2])) for c in cols})
        if rows and rnd.random() < 0.3:
            rows.append(dict(rows[0]))
        mycols = list(cols)
        if rnd.random() < 0.5:
            rnd.shuffle(mycols)
        nm = rnd.choice(["run%d.db", "run_%d.chunk.db", "zrun%d.db", "run%d.db", "run_all.db", "results.db", "run.db", "zrun.db"])
        files.append([rnd.choice(DIRS[:-1]), nm % i if "%" in nm else nm, mycols, rows])
        if any(f[:2] == files[-1][:2] for f in files[:-1]):
            files.pop()
    odd = rnd.random() < 0.15 and len(files) > 1
    if odd:
        f = files[-1]
        if rnd.random() < 0.5:
            f[2] = f[2] + ["extra"]
            for r in f[3]:
                r["extra"] = 1.0
        else:
            c = [x for x in f[2] if x != "ObjID"]
            if c:
                f[2] = [x for x in f[2] if x != c[0]]
            else:
                f[2] = ["other"]
                for r in f[3]:
                    r["other"] = 2.0
    ins = {}
    big = rnd.choice(["orbits", "params", "complex"]) if k % 10 == 7 else None
    for t in ("orbits", "params", "complex"):
        l = []
        many = rnd.choice([1500, 5300, 10400]) if t == big else 0
        base = ["ObjID"] + rnd.sample(["H", "GS", "INDEX", "a", "e", "q", "t_p_MJD_TDB", "u-r"], rnd.choice([1, 3, 5]))
        for i in range(rnd.choice([0, 1, 1, 1, 2, 3] if t != "orbits" else [1, 1, 2, 3])):
            cs = list(base)
            if rnd.random() < 0.4:
                rnd.shuffle(cs)
            l.append([t + rnd.choice(["%d.txt", "_%d.des", "%d.in"]) % i, cs, [[rnd.choice(["obj1", "007", "1e5", "S00"]) if c == "ObjID" else (serial * 3 + 1 if c == "INDEX" else rnd.choice([1.5, -20.25, 3, 0.1])) for c in cs] for serial in range(many if many and not l else rnd.choice([1, 2, 5]))]])
        ins[t] = l
    return {"files": files, "ins": ins, "stem": rnd.choice([None, "run", "", "zrun"]), "complex": rnd.random() < 0.5,
            "where": rnd.choice(["res", "res", "sub", "out"]), "outname": rnd.choice(["run_all.db", "results.db"]), "rerun": rnd.random() < 0.6, "later": rnd.random() < 0.5}


def write_db(p, cols, rows):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    con = sqlite3.connect(p)
    con.execute("CREATE TABLE sorcha_results (" + ", ".join(f"[{c}]" for c in cols) + ")")
    con.executemany("INSERT INTO sorcha_results VALUES (" + ",".join("?" * len(cols)) + ")", [[r.get(c) for c in cols] for r in rows])
    con.commit()
    con.close()


def read_table(p, t):
    con = sqlite3.connect(p)
    try:
        cur = con.execute(f"SELECT * FROM {t}")
        names = [x[0] for x in cur.description]
        return names, [dict(zip(names, r)) for r in cur.fetchall()]
    except sqlite3.OperationalError:
        return None, None
    finally:
        con.close()


def key(r, cols):
    return tuple((type(r[c]).__name__, r[c]) for c in cols)


def near(a, b):
    if isinstance(b, str):
        return a == b
    return isinstance(a, (int, float)) and abs(a - b) <= 1e-13 * abs(b)


def run_db(case):
    with scratch() as d:
        res, ind, outd = (os.path.join(d, x) for x in ("res", "in", "out"))
        for x in (res, ind, outd, os.path.join(res, "sub")):
            os.makedirs(x)
        outp = os.path.join({"res": res, "sub": os.path.join(res, "sub"), "out": outd}[case["where"]], case["outname"])
        if any(os.path.normpath(os.path.join(res, f[0], f[1])) == outp for f in case["files"]):
            raise Skip
        for t, l in case["ins"].items():
            for nm, cs, rows in l:
                with open(os.path.join(ind, nm), "w") as f:
                    f.write(" ".join(cs) + "\n" + "".join("  ".join(str(x) for x in r) + "\n" for r in rows))
        files = list(case["files"])
        steps = [files]
        if case["rerun"]:
            steps = [files[:-1], files] if case["later"] and len(files) > 1 else [files, files]
        there = 0
        for step in steps:
            for dd, nm, cols, rows in step[there:]:
                write_db(os.path.join(res, dd, nm), cols, rows)
            there = len(step)
            used = [f for f in step if f[1].startswith(case["stem"] or "")]
            args = SimpleNamespace(output=outp, inputs=ind, results=res, stem=case["stem"], complex=case["complex"])
            out = call(fn(CMD + ":cmd_outputs_create_sqlite"), args)
            need_in = ["params", "orbits"] + (["complex"] if case["complex"] else [])
            if not used:
                must_exit(out, "no result files")
                return
            if len({frozenset(f[2]) for f in used}) > 1:
                must_exit(out, "files with different columns")
                return
            if any(not case["ins"][t] for t in need_in):
                must_exit(out, "no input files")
                return
            must_return(out)
            cols = sorted(used[0][2])
            names, got = read_table(outp, "sorcha_results")
            need(names is not None and sorted(names) == cols, f"columns {names}")
            want = Counter(key(r, cols) for f in used for r in f[3])
            have = Counter(key(r, cols) for r in got)
            need(have == want, f"rows lost {list((want - have).items())[:2]}, rows added {list((have - want).items())[:2]}")
            for t in ("params", "orbits", "complex"):
                names, got = read_table(outp, t)
                if t not in need_in:
                    need(names is None, f"table {t} not asked for")
                    continue
                want = [dict(zip(cs, r)) for nm, cs, rows in case["ins"][t] for r in rows]
                need(names is not None and len(got) == len(want), f"{t}: {got and len(got)} of {len(want)} rows")
                if len(want) > 1000:
                    # the first and the last rows, and as many rows of each object
                    n1, n2 = Counter(w["ObjID"] for w in want), Counter(g.get("ObjID") for g in got)
                    need(n1 == n2, f"{t}: rows of each object {n2}, not {n1}")
                    want = want[:20] + want[-20:]
                left = list(got)
                for w in want:
                    hit = [g for g in left if all(near(g.get("orig_index" if c == "INDEX" else c), v) for c, v in w.items())]
                    need(hit, f"{t}: row {w} is missing")
                    left.remove(hit[0])
            # the inputs are as they were
            for dd, nm, cs, rows in step:
                names, got = read_table(os.path.join(res, dd, nm), "sorcha_results")
                need(names == cs and [list(g.values()) for g in got] == [[r.get(c) for c in cs] for r in rows], "a result file changed")


TARGETS = {"logs": Target(gen_logs, run_logs, from_model=lambda m: None), "cmd_logs": Target(gen_logs, run_logs, from_model=lambda m: None), "database": Target(gen_db, run_db, from_model=lambda m: None, weight=2)}
