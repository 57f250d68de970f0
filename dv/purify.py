"""Linear abstraction of an obligation.

Every polynomial subterm is written as a sum of monomials and every monomial of degree two or more
is replaced by a constant of its own (the same one wherever the monomial occurs).  The formulas are
then an instance of the abstracted ones, so that `unsat` carries over; `sat` means nothing here.
Quotients by a term that the hypotheses keep away from zero are products with its inverse.
"""
import z3
from fractions import Fraction

LIMIT = 4000


class TooBig(Exception):
    pass


class Purifier:
    def __init__(self, nonzero):
        self.nonzero = nonzero        # term -> bool
        self.keep = []
        self.memo = {}
        self.pmemo = {}
        self.atoms = {}               # id -> atom (abstracted z3 term)
        self.mono = {}                # tuple of ids -> constant
        self.inverse = {}             # id of denominator -> atom id
        self.lemmas = []
        self.n = 0
        self.cancel = {}
        self.choices = {}
        self.reals = {}
        self.nonlinear = False

    def atom(self, t):
        """t: abstracted term; hash-consed by its ast id"""
        self.keep.append(t)
        self.atoms.setdefault(t.get_id(), t)
        return {(t.get_id(),): Fraction(1)}

    def tick(self, k=1):
        self.n += k
        if self.n > LIMIT:
            raise TooBig()

    # ---- polynomials
    def add(self, p, q, f=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + f * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        r = {}
        self.tick(len(p) * len(q))
        for m, c in p.items():
            for k, d in q.items():
                mk = tuple(sorted(m + k))
                cd = c * d
                for i in m + k:
                    if i in self.cancel and i in mk and self.cancel[i][0] in mk:
                        mk = list(mk)
                        mk.remove(i)
                        mk.remove(self.cancel[i][0])
                        mk = tuple(mk)
                        cd = cd * self.cancel[i][1]
                v = r.get(mk, 0) + cd
                if v:
                    r[mk] = v
                else:
                    r.pop(mk, None)
        return r

    def poly(self, t):
        key = t.get_id()
        if key in self.pmemo:
            return self.pmemo[key]
        self.tick()
        self.keep.append(t)
        r = self.poly_(t)
        self.pmemo[key] = r
        return r

    def product(self, ts):
        r = {(): Fraction(1)}
        for u in ts:
            r = self.mul(r, self.poly(u))
        return r

    def choice(self, c, pa, pb, sort):
        """conditional term: an atom whose products are conditional too (see monomial)"""
        if pa == pb:
            return pa
        t = z3.If(c, self.build(pa, sort), self.build(pb, sort))
        p = self.atom(t)
        self.choices[t.get_id()] = (c, pa, pb)
        return p

    def factors(self, t, out):
        if z3.is_app_of(t, z3.Z3_OP_MUL):
            for u in t.children():
                self.factors(u, out)
        elif z3.is_app_of(t, z3.Z3_OP_DIV) and not z3.is_rational_value(t.arg(1)) and self.nonzero(t.arg(1)):
            self.factors(t.arg(0), out)
            out.append(self.inv(t.arg(1)))
        elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
            self.factors(t.arg(0), out)
            out.append(z3.RealVal(-1) if t.sort() == z3.RealSort() else z3.IntVal(-1))
        else:
            out.append(t)
        return out

    def inv(self, d):
        p = self.poly(d)
        key = tuple(sorted(p.items()))
        if key not in self.inverse:
            v = z3.Real('inv!%d' % len(self.inverse))
            x = self.build(p, d.sort())
            self.lemmas += [z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0)]
            self.inverse[key] = v
            self.keep.append(v)
            one = self.mul(p, self.poly(v))
            if len(p) == 1 and len(next(iter(p))) == 1:
                self.cancel[v.get_id()] = (next(iter(p))[0], 1 / next(iter(p.values())))
            else:
                self.lemmas.append(self.build(one, d.sort()) == 1)
        return self.inverse[key]

    def poly_(self, t):
        if z3.is_int_value(t):
            return {(): Fraction(t.as_long())} if t.as_long() else {}
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return {(): Fraction(f.numerator, f.denominator)} if f else {}
        if z3.is_app_of(t, z3.Z3_OP_ADD):
            r = {}
            for u in t.children():
                r = self.add(r, self.poly(u))
            return r
        if z3.is_app_of(t, z3.Z3_OP_SUB):
            ch = t.children()
            r = self.poly(ch[0])
            for u in ch[1:]:
                r = self.add(r, self.poly(u), -1)
            return r
        if z3.is_app_of(t, z3.Z3_OP_UMINUS):
            return self.add({}, self.poly(t.arg(0)), -1)
        if z3.is_app_of(t, z3.Z3_OP_MUL):
            return self.product(self.factors(t, []))
        if z3.is_app_of(t, z3.Z3_OP_DIV):
            d = t.arg(1)
            if z3.is_rational_value(d) and d.as_fraction():
                f = d.as_fraction()
                return self.mul(self.poly(t.arg(0)), {(): Fraction(f.denominator, f.numerator)})
            if self.nonzero(d):
                return self.product(self.factors(t, []))
            return self.atom(self.term(t.arg(0)) / self.term(d))
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            return self.choice(self.formula(c), self.poly(a), self.poly(b), t.sort())
        if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
            u = t.arg(0)
            return self.poly_real(self.poly(u))
        if z3.is_var(t):
            raise TooBig()
        if t.num_args() and not z3.is_quantifier(t):
            args = [self.term(u) for u in t.children()]
            return self.atom(t.decl()(*args))
        return self.atom(t)

    def real(self, i):
        if i not in self.reals:
            if i in self.choices:
                c, pa, pb = self.choices[i]
                R = z3.RealSort()
                f = lambda p: self.poly_real(p)
                self.reals[i] = self.choice(c, f(pa), f(pb), R)
            else:
                self.reals[i] = self.atom(z3.ToReal(self.atoms[i]))
        return self.reals[i]

    def poly_real(self, p):
        r = {}
        for m, c in p.items():
            mk = {(): c}
            for i in m:
                mk = self.mul(mk, self.real(i))
            r = self.add(r, mk)
        return r

    def build(self, p, sort):
        real = sort == z3.RealSort()
        out = []
        for m, c in sorted(p.items()):
            cv = z3.RealVal(c) if real else z3.IntVal(c.numerator)
            if not m:
                out.append(cv)
                continue
            v = self.atoms[m[0]] if len(m) == 1 else self.monomial(m)
            if v.sort() != sort:
                v = z3.ToReal(v) if real else z3.ToInt(v)
            out.append(v if c == 1 else cv * v)
        if not out:
            return z3.RealVal(0) if real else z3.IntVal(0)
        return out[0] if len(out) == 1 else z3.Sum(*out)

    def monomial(self, m):
        if m not in self.mono:
            self.nonlinear = True
            s = self.atoms[m[0]].sort()
            v = z3.Const('mono!%d' % len(self.mono), s)
            self.mono[m] = v
            self.tick()
            for i in m:
                if i in self.choices:
                    c, pa, pb = self.choices[i]
                    rest = list(m)
                    rest.remove(i)
                    rest = {tuple(rest): Fraction(1)}
                    self.lemmas.append(v == z3.If(c, self.build(self.mul(pa, rest), s), self.build(self.mul(pb, rest), s)))
                    break
            if len(m) == 2:
                a, b = self.atoms[m[0]], self.atoms[m[1]]
                if a.sort() == s and b.sort() == s:
                    self.lemmas += [z3.Implies(z3.And(a >= 0, b >= 0), v >= 0), z3.Implies(z3.And(a > 0, b > 0), v > 0),
                                    z3.Implies(z3.Or(a == 0, b == 0), v == 0),
                                    z3.Implies(z3.And(a >= 0, b <= 0), v <= 0), z3.Implies(z3.And(a <= 0, b >= 0), v <= 0)]
        return self.mono[m]

    # ---- terms and formulas
    def term(self, t):
        if z3.is_arith(t):
            return self.build(self.poly(t), t.sort())
        if z3.is_bool(t):
            return self.formula(t)
        return t

    def formula(self, t):
        key = t.get_id()
        if key in self.memo:
            return self.memo[key]
        self.keep.append(t)
        self.tick()
        r = self.formula_(t)
        self.memo[key] = r
        return r

    def formula_(self, t):
        if z3.is_quantifier(t) or z3.is_var(t):
            raise TooBig()
        k = t.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (
                k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and t.num_args() == 2 and z3.is_arith(t.arg(0))):
            s = t.arg(0).sort()
            d = self.add(self.poly(t.arg(0)), self.poly(t.arg(1)), -1)
            # one orientation, so that opposite differences share their atoms
            if d:
                lead = d[min(d)]
                if lead < 0:
                    d = {m: -c for m, c in d.items()}
                    k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LE,
                         z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
            x = self.build(d, s)
            return {z3.Z3_OP_LE: lambda: x <= 0, z3.Z3_OP_LT: lambda: x < 0, z3.Z3_OP_GE: lambda: x >= 0,
                    z3.Z3_OP_GT: lambda: x > 0, z3.Z3_OP_EQ: lambda: x == 0, z3.Z3_OP_DISTINCT: lambda: x != 0}[k]()
        if t.num_args() == 0:
            return t
        return t.decl()(*[self.term(u) for u in t.children()])


def apps(t, out, seen):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_app(t):
        if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.setdefault(t.decl().name(), {})[t.get_id()] = t
        for u in t.children():
            apps(u, out, seen)
    elif z3.is_quantifier(t):
        apps(t.body(), out, seen)


def instances(ground, quantified, limit=600):
    """instances of the universally quantified hypotheses (of one variable) at the indices where the
    ground formulas read the functions that the hypothesis speaks about"""
    qs = []
    for f in quantified:
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == z3.IntSort():
            fs = {}
            apps(f.body(), fs, set())
            # functions applied to the bound variable itself
            names = {(n, k) for n, ts in fs.items() for t in ts.values() for k in range(t.num_args())
                     if z3.is_var(t.arg(k))}
            qs.append((f, names))
    table, seen = {}, set()
    for g in ground:
        apps(g, table, seen)
    out, done = [], set()
    for rnd in range(3):
        new = []
        for f, names in qs:
            for n, k in names:
                for t in list(table.get(n, {}).values()):
                    if k >= t.num_args():
                        continue
                    a = t.arg(k)
                    if a.sort() != z3.IntSort() or open_term(a):
                        continue
                    key = (f.get_id(), a.get_id())
                    if key in done:
                        continue
                    done.add(key)
                    if len(done) > limit:
                        return out
                    new.append(z3.substitute_vars(f.body(), a))
        if not new:
            break
        out += new
        for g in new:
            apps(g, table, seen)
    return out


def open_term(t):
    return z3.is_var(t) or any(open_term(u) for u in t.children())


def abstracted(formulas, nonzero, dropped=None):
    """-> formulas with the same consequences over the reals made linear, or None if nothing is nonlinear"""
    P = Purifier(nonzero)
    out = []
    for f in formulas:
        before = P.n
        try:
            out.append(P.formula(f))
        except (TooBig, z3.Z3Exception, AttributeError):
            P.n = before
            if dropped is not None:
                dropped.append(f)
            continue            # a hypothesis less
    if not P.nonlinear and not P.inverse:
        return None
    return out + P.lemmas
