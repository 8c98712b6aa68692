"""Discharge of obligations: z3 first, cvc5 second.  Transcendental functions
are uninterpreted, constrained by the axioms below instantiated at every
application that occurs in the query (assumed contracts on numpy/libm)."""
import os
import subprocess
import tempfile
import time
import z3
from . import ring

RS = z3.RealSort()
UF = {}


def uf(name, arity=1):
    if name not in UF:
        UF[name] = z3.Function("f_" + name, *([RS] * arity), RS)
    return UF[name]


PI = z3.Real("PI")

UNARY = ["exp", "log", "log10", "sqrt", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "pow10", "sinh", "cosh",
         "tanh", "arctanh", "arccosh", "cbrt"]
for _n in UNARY:
    uf(_n)
uf("arctan2", 2)
uf("powr", 2)

AXIOM_DOC = {
    "exp": "exp>0, exp(0)=1, strictly monotone",
    "pow10": "10^x>0, 10^0=1, strictly monotone, 10^(log10 x)=x",
    "log10": "strictly monotone on x>0, log10 1=0, log10 10=1",
    "log": "strictly monotone on x>0, log 1=0",
    "sqrt": "x>=0 => sqrt(x)>=0 and sqrt(x)^2=x",
    "sin": "sin^2+cos^2=1, |sin|<=1, |cos|<=1",
    "cos": "sin^2+cos^2=1, |sin|<=1, |cos|<=1",
    "arcsin": "range [-pi/2,pi/2], sin(arcsin x)=x on [-1,1], monotone",
    "arccos": "range [0,pi], cos(arccos x)=x on [-1,1], antitone",
    "arctan2": "range (-pi,pi]; r cos = x, r sin = y",
    "arctan": "range (-pi/2,pi/2), monotone",
    "tan": "tan*cos=sin",
    "powr": "x>0 => x^y>0",
    "cosh": "cosh>=1", "sinh": "sinh(0)=0, monotone", "tanh": "|tanh|<1",
}


def collect_apps(terms):
    seen = set()
    apps = {}
    pi = False
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            n = t.decl().name()
            if n.startswith("f_") and t.num_args() > 0:
                if not has_var(t):
                    apps.setdefault(n[2:], {})[i] = t
            elif n == "PI" and t.num_args() == 0:
                pi = True
            stack.extend(t.children())
    return apps, pi


def has_var(t):
    stack = [t]
    while stack:
        x = stack.pop()
        if z3.is_var(x):
            return True
        stack.extend(x.children())
    return False


def axioms(terms, rounds=2, pair_limit=24):
    out = []
    done = set()
    used = set()
    cur = list(terms)
    for _ in range(rounds):
        apps, pi = collect_apps(cur + out)
        new = []

        def add(key, *ts):
            if key not in done:
                done.add(key)
                new.extend(ts)

        for n, d in apps.items():
            used.add(n)
            ts = list(d.values())
            for t in ts:
                x = t.arg(0)
                k = (n, t.get_id())
                if n in ("exp", "pow10"):
                    add(k, t > 0, z3.Implies(x == 0, t == 1), z3.Implies(x > 0, t > 1), z3.Implies(x < 0, t < 1))
                elif n in ("log10", "log"):
                    add(k, z3.Implies(x == 1, t == 0), z3.Implies(x > 1, t > 0),
                        z3.Implies(z3.And(x > 0, x < 1), t < 0))
                    if n == "log10":
                        add(k + (1,), z3.Implies(x == 10, t == 1), z3.Implies(x > 10, t > 1))
                        add(k + (2,), z3.Implies(x > 0, UF["pow10"](t) == x))
                elif n == "sqrt":
                    add(k, z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0))
                elif n in ("sin", "cos"):
                    s, c = UF["sin"](x), UF["cos"](x)
                    add(("sc", x.get_id()), s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1,
                        z3.Implies(x == 0, z3.And(s == 0, c == 1)),
                        z3.Implies(z3.And(x >= -PI / 2, x <= PI / 2), c >= 0),
                        z3.Implies(z3.And(x >= 0, x <= PI), s >= 0))
                elif n == "tan":
                    add(k, t * UF["cos"](x) == UF["sin"](x))
                elif n == "arcsin":
                    add(k, t >= -PI / 2, t <= PI / 2,
                        z3.Implies(z3.And(x >= -1, x <= 1), UF["sin"](t) == x), z3.Implies(x == 0, t == 0))
                elif n == "arccos":
                    add(k, t >= 0, t <= PI,
                        z3.Implies(z3.And(x >= -1, x <= 1), UF["cos"](t) == x), z3.Implies(x == 1, t == 0))
                elif n == "arctan":
                    add(k, t > -PI / 2, t < PI / 2, z3.Implies(x == 0, t == 0), z3.Implies(x > 0, t > 0),
                        z3.Implies(x < 0, t < 0))
                elif n == "arctan2":
                    y, x2 = t.arg(0), t.arg(1)
                    r = UF["sqrt"](x2 * x2 + y * y)
                    add(k, t > -PI, t <= PI, r * UF["cos"](t) == x2, r * UF["sin"](t) == y)
                elif n == "powr":
                    add(k, z3.Implies(x > 0, t > 0))
                elif n == "cosh":
                    add(k, t >= 1)
                elif n == "tanh":
                    add(k, t > -1, t < 1)
                elif n == "sinh":
                    add(k, z3.Implies(x == 0, t == 0))
            if n in ("exp", "pow10", "log10", "log", "sqrt", "arcsin", "arctan", "arccos", "sinh") and len(ts) <= pair_limit:
                for i in range(len(ts)):
                    for j in range(i + 1, len(ts)):
                        a, b = ts[i], ts[j]
                        x, y = a.arg(0), b.arg(0)
                        dom = z3.BoolVal(True)
                        if n in ("log10", "log"):
                            dom = z3.And(x > 0, y > 0)
                        elif n == "sqrt":
                            dom = z3.And(x >= 0, y >= 0)
                        elif n in ("arcsin", "arccos"):
                            dom = z3.And(x >= -1, x <= 1, y >= -1, y <= 1)
                        lt, gt = (a < b, a > b) if n != "arccos" else (a > b, a < b)
                        add(("m", n, min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id())),
                            z3.Implies(z3.And(dom, x < y), lt), z3.Implies(z3.And(dom, x > y), gt))
        if not new:
            break
        out += new
        cur = new
    apps, pi = collect_apps(list(terms) + out)
    if pi:
        out += [PI > z3.RealVal("3.14159265358979"), PI < z3.RealVal("3.1415926535898")]
    return out, used


class Stats:
    def __init__(self):
        self.z3 = 0
        self.cvc5 = 0
        self.time = 0.0
        self.queries = 0


def instantiate(obl):
    """row facts at every row term of the path"""
    out = []
    for space, fn in obl.ctx.rowfacts[: obl.nfacts]:
        for sp, r in obl.ctx.rows:
            if sp is space:
                out.append(z3.Implies(z3.And(r >= 0, r < space.n), fn(r)))
    return out


def query(obl):
    hyps = list(obl.hyps) + instantiate(obl)
    terms = hyps + [z3.Not(obl.goal)]
    terms = [z3.simplify(t, som=True) if False else t for t in terms]
    ax, used = axioms(terms)
    return terms, ax, used


def cvc5_check(terms, timeout_s):
    s = z3.Solver()
    s.add(*terms)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        p = f.name
    try:
        r = subprocess.run(["cvc5", "--lang", "smt2", f"--tlimit={int(timeout_s*1000)}", p], capture_output=True,
                           text=True, timeout=timeout_s + 5)
        out = r.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(p)


def ite_condition(t):
    """a condition, free of conditionals itself, of a conditional in t"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = ite_condition(x.arg(0))
                return x.arg(0) if c is None else c
            stack.extend(x.children())
    return None


def linear(terms):
    """the terms with every nonlinear monomial as an unknown of its own (sound for unsat)"""
    cache, names = {}, {}

    def go(t):
        i = t.get_id()
        if i in cache:
            return cache[i][1]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in t.children()) > 1:
            cs = [c for c in t.children() if z3.is_rational_value(c) or z3.is_int_value(c)]
            key = tuple(sorted(c.get_id() for c in t.children() if not (z3.is_rational_value(c) or z3.is_int_value(c))))
            x = names.setdefault(key, z3.Const(f"mono!{len(names)}", t.sort()))
            for c in cs:
                x = c * x
            r = x
        elif z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            k = t.decl().kind()
            if all(a is b or a.eq(b) for a, b in zip(ch, t.children())):
                r = t
            elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                r = (z3.And if k == z3.Z3_OP_AND else z3.Or)(*ch)
            elif k == z3.Z3_OP_ADD:
                r = z3.Sum(*ch)
            elif len(ch) > t.decl().arity():
                r = t
            else:
                r = t.decl()(*ch)
        else:
            r = t
        cache[i] = (t, r)
        return r

    return [go(z3.simplify(t, som=True)) for t in terms]


def by_cases(hyps, goal, deadline, depth=5, top=True):
    """split on the conditions of the conditionals in the goal"""
    c = ite_condition(goal)
    if c is not None and top:
        goal = z3.simplify(goal, som=True)
        hyps = [z3.simplify(x, som=True) if ite_condition(x) is not None else x for x in hyps]
        c = ite_condition(goal)
    if c is None or depth == 0:
        if top:
            return False
        if ring.proves(hyps, goal):
            return True
        terms = hyps + [z3.Not(goal)]
        ax, _ = axioms(terms)
        s = z3.Solver()
        s.set("timeout", 1000)
        s.add(*linear(terms))
        if s.check() == z3.unsat:
            return True
        s = z3.Solver()
        s.set("timeout", max(1, int(1000 * min(3.0, deadline - time.time()))))
        s.add(*(terms + ax))
        return s.check() == z3.unsat
    live = []
    for v, h in ((True, c), (False, z3.Not(c))):
        sub = (c, z3.BoolVal(v))
        hs = [z3.simplify(z3.substitute(x, sub)) if ite_condition(x) is not None else x for x in hyps] + [h]
        s = z3.Solver()
        s.set("timeout", 300)
        s.add(*linear(hs))
        if s.check() != z3.unsat:
            live.append((hs, z3.simplify(z3.substitute(goal, sub))))
    return time.time() < deadline and all(by_cases(h, g, deadline, depth - (len(live) > 1), False) for h, g in live)


def discharge(obl, timeout_s=8.0, stats=None, use_cvc5=True):
    stats = stats or Stats()
    t0 = time.time()
    g = z3.simplify(obl.goal)
    terms, ax, used = query(obl)
    obl.used = used
    stats.queries += 1
    if z3.is_true(g):
        obl.status, obl.backend = "proved", "z3-simplify"
        stats.z3 += 1
        obl.time = time.time() - t0
        stats.time += obl.time
        return obl.status

    if ring.proves(obl.hyps, obl.goal):
        obl.status, obl.backend = "proved", "ring"
        stats.z3 += 1
        obl.time = time.time() - t0
        stats.time += obl.time
        return obl.status

    def run(ts, to):
        s = z3.Solver()
        s.set("timeout", int(to * 1000))
        s.add(*ts)
        return s, s.check()

    # cheap try without axioms (sound for unsat)
    s, r = run(terms, min(1.0, timeout_s))
    if r == z3.unsat:
        obl.status, obl.backend = "proved", "z3"
    elif r == z3.sat and not ax:
        obl.status, obl.backend, obl.model = "refuted", "z3", s.model()
    elif ite_condition(obl.goal) is not None and by_cases(terms[:-1], obl.goal, time.time() + timeout_s):
        obl.status, obl.backend = "proved", "cases"
    else:
        s, r = run(terms + ax, timeout_s)
        if r == z3.unsat:
            obl.status, obl.backend = "proved", "z3"
        elif r == z3.sat:
            obl.status, obl.backend, obl.model = "refuted", "z3", s.model()
        else:
            obl.status = "unknown"
            # normalised polynomials help some nonlinear goals
            try:
                nt = [z3.simplify(t, som=True, mul_to_power=False) for t in terms + ax]
                s, r = run(nt, timeout_s / 2)
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                obl.status, obl.backend = "proved", "z3-som"
            elif use_cvc5:
                c = cvc5_check(terms + ax, timeout_s)
                if c == "unsat":
                    obl.status, obl.backend = "proved", "cvc5"
    if obl.status == "proved":
        if obl.backend == "cvc5":
            stats.cvc5 += 1
        else:
            stats.z3 += 1
    obl.time = time.time() - t0
    stats.time += obl.time
    return obl.status
