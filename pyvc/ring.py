"""Commutative-ring normal form: an equality of reals whose two sides have the
same normal form holds in every interpretation.  1/y is an atom of its own, and
y * (1/y) is only cancelled when y != 0 is among the hypotheses."""
from fractions import Fraction
import z3


class TooBig(Exception):
    pass


LIMIT = 20000


class Ring:
    def __init__(self, nonzero=(), eqs=None):
        self.rules = []
        self.base = {}  # index of 1/y -> y, for the y known to be nonzero
        self.keep = []
        self.atoms = {}  # key -> index
        self.inv_of = {}  # index of 1/y -> normal form of y
        self.cache = {}
        self.pairs = {}
        for t in nonzero:  # before the rules: rules then see cancelled terms
            try:
                self.note(self.norm(t))
            except TooBig:
                pass
        self.cache = {}
        if eqs is not None:
            for t, u in eqs:
                try:
                    a, b = self.norm(t), self.norm(u)
                except TooBig:
                    continue
                self.rule(a, b)
            self.cache = {}
            for t in nonzero:
                try:
                    self.note(self.norm(t), True)
                except TooBig:
                    pass
            self.cache = {}

    def rule(self, a, b):
        """a = b with a single monomial a that does not divide a term of b"""
        if len(a) != 1:
            return
        (m, c), = a.items()
        if not m:
            return
        b = self.reduce({k: v / c for k, v in b.items()})
        if any(self.divides(m, k) for k in b) or any(r[0] == m for r in self.rules):
            return
        self.rules.append((m, b))

    @staticmethod
    def divides(m, k):
        d = dict(k)
        return all(d.get(i, 0) >= e for i, e in m)

    def reduce(self, p):
        """rewrite with the rules until none applies"""
        if not self.rules:
            return p
        todo, out, steps = dict(p), {}, 0
        while todo:
            m, c = todo.popitem()
            for lhs, rhs in self.rules:
                if self.divides(lhs, m):
                    d = dict(m)
                    for i, e in lhs:
                        d[i] -= e
                    rest = tuple(sorted((i, e) for i, e in d.items() if e))
                    for k, v in rhs.items():
                        mm = self.mulm(rest, k)
                        x = todo.get(mm, 0) + c * v
                        if x:
                            todo[mm] = x
                        else:
                            todo.pop(mm, None)
                    break
            else:
                x = out.get(m, 0) + c
                if x:
                    out[m] = x
                else:
                    out.pop(m, None)
            steps += 1
            if steps > 400000 or len(todo) > LIMIT:
                raise TooBig
        return out

    def note(self, p, many=False):
        """y != 0 for a single atom y: y * (1/y) = 1"""
        if many and len(p) > 1:
            lead = max(p, key=lambda m: (sum(e for _, e in m), m))
            (j, c), = self.inv(p).items()  # c * (1/q), q = p / lead coefficient
            rhs = {(): Fraction(1)}
            for m, v in p.items():
                if m != lead:
                    rhs = self.add(rhs, {self.mulm(m, j): v * c}, -1)
            self.rule({self.mulm(lead, j): p[lead] * c}, rhs)
            (k, _), = j
            self.base[k] = {m: v * c for m, v in p.items()}
            return
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                i = m[0][0]
                j = self.atom(("inv", self.key({m: Fraction(1)})))
                self.inv_of[j] = i
                self.pairs[i] = j
                self.base[j] = {m: Fraction(1)}

    def zero(self, d):
        """d = 0, after multiplying with the nonzero denominators"""
        d = self.reduce(d)
        for _ in range(6):
            if not d:
                return True
            js = [i for m in d for i, e in m if i in self.base]
            if not js:
                return False
            j = max(js)
            top = max(e for m in d for i, e in m if i == j)
            by = {}  # d = sum p_e (1/y)^e; y^top d = sum p_e y^(top - e)
            for m, c in d.items():
                e = dict(m).get(j, 0)
                by.setdefault(e, {})[tuple((i, x) for i, x in m if i != j)] = c
            d, y = {}, self.const(1)
            for e in range(top, -1, -1):
                if e in by:
                    d = self.add(d, self.mul(by[e], y))
                y = self.mul(y, self.base[j])
            d = self.reduce(d)
        return not d

    def atom(self, key):
        if key not in self.atoms:
            self.atoms[key] = len(self.atoms)
        return self.atoms[key]

    @staticmethod
    def key(p):
        return tuple(sorted(p.items()))

    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def add(self, a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + s * c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return r

    def mulm(self, a, b):
        d = dict(a)
        for i, e in b:
            d[i] = d.get(i, 0) + e
        for i in list(d):
            j = self.pairs.get(i)
            if j is not None and j in d and i in d:
                k = min(d[i], d[j])
                d[i] -= k
                d[j] -= k
        return tuple(sorted((i, e) for i, e in d.items() if e))

    def mul(self, a, b):
        if len(a) * len(b) > LIMIT:
            raise TooBig
        r = {}
        for m, c in a.items():
            for n, e in b.items():
                k = self.mulm(m, n)
                x = r.get(k, 0) + c * e
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        return r

    def inv(self, p):
        if not p:
            return {((self.atom(("inv", ())), 1),): Fraction(1)}
        if len(p) == 1:  # a monomial
            (m, c), = p.items()
            r = {(): 1 / c}
            for i, e in m:
                j = self.pairs.get(i)
                if j is None:
                    if i in self.inv_of:
                        j = self.inv_of[i]
                    else:
                        j = self.atom(("inv", self.key({((i, 1),): Fraction(1)})))
                r = self.mul(r, {((j, e),): Fraction(1)})
            return r
        # scale so that equal polynomials up to a factor share their inverse
        lead = p[min(p)]
        q = {m: c / lead for m, c in p.items()}
        j = self.atom(("inv", self.key(q)))
        return {((j, 1),): 1 / lead}

    def inv_term(self, t):
        """1/t, factor by factor"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            r = self.const(1)
            for c in t.children():
                r = self.mul(r, self.inv_term(c))
            return r
        return self.inv(self.norm(t))

    def norm(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i][1]
        r = self.reduce(self._norm(t))
        if len(r) > LIMIT:
            raise TooBig
        self.cache[i] = (t, r)
        self.keep.append(t)
        return r

    def _norm(self, t):
        if z3.is_rational_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return self.const(t.as_long())
        k = t.decl().kind() if z3.is_app(t) else None
        ch = t.children() if k is not None else []
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.norm(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.norm(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.mul(self.const(-1), self.norm(ch[0]))
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for c in ch:
                r = self.mul(r, self.norm(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.norm(ch[0]), self.inv_term(ch[1]))
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 12 or \
                k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 12:
            n = ch[1].numerator_as_long() if z3.is_rational_value(ch[1]) else ch[1].as_long()
            r = self.const(1)
            b = self.norm(ch[0])
            for _ in range(n):
                r = self.mul(r, b)
            return r
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
            return self.const(ch[0].as_long())
        if k == z3.Z3_OP_UNINTERPRETED and ch and all(c.sort() == z3.RealSort() for c in ch):
            # functions of equal arguments are equal
            return {((self.atom(("app", t.decl().name(), tuple(self.key(self.norm(c)) for c in ch))), 1),): Fraction(1)}
        return {((self.atom(("term", t.get_id())), 1),): Fraction(1)}


def nonzero_hyps(hyps):
    """terms known to be nonzero from hypotheses t > 0, t < 0, t != 0"""
    out = []
    stack = list(hyps)
    while stack:
        h = stack.pop()
        if z3.is_and(h):
            stack.extend(h.children())
        elif z3.is_not(h):
            x = h.arg(0)
            if (z3.is_le(x) or z3.is_ge(x) or z3.is_eq(x)) and x.arg(0).sort() == z3.RealSort():
                a, b = x.arg(0), x.arg(1)
                for y, z in ((a, b), (b, a)):
                    if z3.is_rational_value(z) and z.numerator_as_long() == 0:
                        out.append(y)
        elif z3.is_gt(h) or z3.is_lt(h) or z3.is_distinct(h) and h.num_args() == 2:
            a, b = h.arg(0), h.arg(1)
            for y, z in ((a, b), (b, a)):
                if z3.is_rational_value(z) and z.numerator_as_long() == 0:
                    out.append(y)
    return [y for y in out if y.sort() == z3.RealSort()]


def equations(hyps):
    """hypotheses usable as rewrite rules: a product (or power) of atoms or a
    function application on the left"""
    out, stack = [], list(hyps)
    while stack:
        h = stack.pop(0)
        if z3.is_and(h):
            stack = list(h.children()) + stack
        elif z3.is_eq(h) and h.arg(0).sort() == z3.RealSort():
            a = h.arg(0)
            k = a.decl().kind() if z3.is_app(a) else None
            if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER, z3.Z3_OP_UNINTERPRETED):
                out.append((a, h.arg(1)))
    return out


def proves(hyps, goal):
    if z3.is_or(goal):
        return any(proves(hyps, g) for g in goal.children() if z3.is_eq(g) or z3.is_and(g))
    gs = goal.children() if z3.is_and(goal) else [goal]
    if not gs or not all(z3.is_eq(g) and g.arg(0).sort() == z3.RealSort() for g in gs):
        return False
    nz, eqs = nonzero_hyps(hyps), equations(hyps)
    for e in (None, eqs) if eqs or nz else (None,):
        try:
            R = Ring(nz, e)
            if all(R.zero(R.add(R.norm(g.arg(0)), R.norm(g.arg(1)), -1)) for g in gs):
                return True
        except TooBig:
            pass
    return False
