"""Core of the deductive verifier: symbolic scalars, path exploration, obligations.

The *real* code objects of /repo run under this engine (see twin.py); every value that a
contract leaves arbitrary is a term of the logic (z3: Int, Real, Bool).  A branch on a
symbolic condition forks the path (by re-execution), a contract clause or a safety
condition becomes an obligation `path condition => goal`, checked by z3 (then cvc5).
"""
from __future__ import annotations
import builtins
import fractions
import itertools
import math
import numbers
import time

import z3

real_int, real_float, real_bool = builtins.int, builtins.float, builtins.bool
real_isinstance, real_len = builtins.isinstance, builtins.len


class Unsupported(BaseException):
    """The verifier cannot express this construct: no verdict (never a violation)."""


class PathEnd(BaseException):
    """End of a path that was explored completely (loop body, infeasible, ...)."""


class Undecided(Exception):
    pass


# --------------------------------------------------------------------------- context
class Ctx:
    cur: 'Ctx' = None

    def __init__(self, prefix, fixed_dims=None, stats=None, deadline=None, depth=100, cut=False):
        self.deadline = deadline
        self.depth = depth
        self.cut = cut
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []
        self.alts = []
        self.pc = []              # assumptions along the path (z3 Bool)
        self.obligs = []          # (label, [pc], goal)
        self.names = {}
        self.keep = []            # keep z3 terms alive (ids are used as keys)
        self.memo = {}
        self.draws = []
        self.inputs = []          # (name, descriptor) for counter-model extraction
        self.qdepth = 0
        self.sums = []
        self.insts = []           # (vars, ground-instantiable fact, derived index term)
        self.axioms_used = set()
        self.fixed_dims = fixed_dims
        self.solver = z3.Solver()
        self.solver.set('timeout', 300)
        self._nsolver = 0
        self.stats = stats if stats is not None else {}
        self.trusted = set()
        self.called = set()
        self.dead = False

    # -- names: deterministic per path so that re-execution yields equal terms
    def fresh_name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return base if k == 0 else '%s!%d' % (base, k)

    def hold(self, t):
        self.keep.append(t)
        return t

    # -- facts
    def assume(self, c):
        c = as_z3bool(c)
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for ch in c.children():
                self.assume(ch)
            return
        self.pc.append(c)
        if self.qdepth == 0:
            self.solver.add(c)

    def axiom(self, c, why):
        """A fact from the trusted theory of a numpy primitive."""
        self.trusted.add(why)
        if self.qdepth and free_bound(c):
            raise Unsupported('axiom instance under a quantifier: ' + why)
        q, self.qdepth = self.qdepth, 0
        try:
            self.assume(c)
        finally:
            self.qdepth = q

    def _check(self, extra):
        t0 = time.time()
        self.solver.push()
        self.solver.add(extra)
        r = self.solver.check()
        self.solver.pop()
        self.stats['feas_time'] = self.stats.get('feas_time', 0) + time.time() - t0
        return r

    def entails(self, c, timeout=1500):
        """True only if proved."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.solver.set('timeout', timeout)
        r = self._check(z3.Not(c))
        self.solver.set('timeout', 300)
        return r == z3.unsat

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.qdepth:
            raise Unsupported('branch on a symbolic condition under a quantifier')
        if self.pos < real_len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            self.assume(cond if d else z3.Not(cond))
            return d
        if real_len(self.alts) >= self.depth or (self.deadline and time.time() > self.deadline):
            # a loop without an invariant on a symbolic condition: unrolled no further
            if self.cut:
                raise PathEnd('unrolled to the bound')
            raise Unsupported('loop without an invariant (path of %d decisions)' % real_len(self.decisions))
        can_t = self._check(cond) != z3.unsat
        can_f = self._check(z3.Not(cond)) != z3.unsat
        if not can_t and not can_f:
            self.dead = True
            raise PathEnd('infeasible')
        d = can_t
        if can_t and can_f:
            self.alts.append(self.decisions + [False])
            self.decisions.append(True)
            self.pos += 1
        else:
            # forced: no decision recorded (re-execution recomputes the same verdict
            # because terms and solver inputs are identical) -> record for stability
            self.decisions.append(d)
            self.pos += 1
        self.prefix = list(self.decisions)
        self.assume(cond if d else z3.Not(cond))
        return d

    only = None     # decide only the clauses with these labels: the others belong to another property

    def oblige(self, label, goal, assume_after=True):
        goal = as_z3bool(goal)
        g = z3.simplify(goal)
        if self.only is None or label in self.only:
            self.obligs.append((label, list(self.pc), goal))
        if assume_after and not z3.is_true(g):
            self.assume(goal)


def free_bound(t):
    """does t mention a variable bound by an enclosing (open) quantifier?"""
    seen, stack = set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            stack.append(u.body())
            continue
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                u.decl().name()[:1] in '?!':
            return True
        stack.extend(u.children())
    return False


def ctx():
    c = Ctx.cur
    if c is None:
        raise RuntimeError('no verification context')
    return c


# --------------------------------------------------------------------------- scalars
def is_sym(x):
    return real_isinstance(x, SVal)


class SVal:
    """A symbolic scalar."""
    __array_ufunc__ = None
    __slots__ = ('t', 'nan')
    ndim = 0
    shape = ()

    def __hash__(self):
        return id(self)

    # numpy-scalar look-alikes
    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt):
        from . import arr
        return arr.cast_scalar(self, arr.kind_of_dtype(dt))

    def reshape(self, *shape):
        from . import arr
        return arr.SArr((), self.kind, lambda: self.t).reshape(*shape)

    def sum(self, *a, **k):
        return self

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.t)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _mk(kind, t, nan=None):
    if kind == 'b':
        return SBool(t)
    if kind == 'i':
        return SInt(t)
    if kind == 'f':
        return SReal(t, nan)
    if kind == 's':
        return SStr(t)
    if kind == 'M':
        from .dt import SDT
        return SDT(t)
    raise Unsupported('kind ' + kind)


STRINGS = {}


def intern_str(s):
    if s not in STRINGS:
        STRINGS[s] = 1000 + real_len(STRINGS)
    return STRINGS[s]


def lift(x):
    """-> (kind, z3 term, nan term or None)"""
    import numpy as np
    if real_isinstance(x, SVal):
        return x.kind, x.t, getattr(x, 'nan', None) if x.kind == 'f' else None
    if real_isinstance(x, (real_bool, np.bool_)):
        return 'b', z3.BoolVal(real_bool(x)), None
    if real_isinstance(x, (real_int, np.integer)):
        return 'i', z3.IntVal(real_int(x)), None
    if real_isinstance(x, (real_float, np.floating)):
        return lift_float(real_float(x))
    if real_isinstance(x, fractions.Fraction):
        return 'f', z3.RealVal(x), None
    if real_isinstance(x, str):
        return 's', z3.IntVal(intern_str(str(x))), None
    if z3.is_expr(x):
        if z3.is_bool(x):
            return 'b', x, None
        if z3.is_int(x):
            return 'i', x, None
        if z3.is_real(x):
            return 'f', x, None
    raise Unsupported('cannot lift %r' % (type(x),))


def lift_float(x):
    if math.isnan(x):
        return 'f', z3.RealVal(0), z3.BoolVal(True)
    if math.isinf(x):
        raise Unsupported('infinite float constant')
    # decimal literal semantics: 0.1 means the rational 1/10 (assumption: floats as reals)
    f = fractions.Fraction(repr(x))
    return 'f', z3.RealVal(f), None


def as_z3bool(x):
    if real_isinstance(x, z3.BoolRef):
        return x
    if real_isinstance(x, SBool):
        return x.t
    import numpy as np
    if real_isinstance(x, (real_bool, np.bool_)):
        return z3.BoolVal(real_bool(x))
    if real_isinstance(x, (SInt, SReal)):
        return x.t != 0
    from . import arr
    if real_isinstance(x, arr.SArr) and x.ndim == 0:
        return as_z3bool(x.item())
    raise Unsupported('not a condition: %r' % (x,))


def to_real(kind, t):
    if kind == 'f':
        return t
    if kind == 'i':
        return z3.ToReal(t) if not z3.is_int_value(t) else z3.RealVal(t.as_long())
    if kind == 'b':
        if z3.is_true(t):
            return z3.RealVal(1)
        if z3.is_false(t):
            return z3.RealVal(0)
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported('to_real ' + kind)


def to_intt(kind, t):
    if kind == 'i':
        return t
    if kind == 'b':
        if z3.is_true(t):
            return z3.IntVal(1)
        if z3.is_false(t):
            return z3.IntVal(0)
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if kind == 'f':   # truncation toward zero
        s = z3.simplify(t)
        if z3.is_rational_value(s):
            fr = s.as_fraction()
            return z3.IntVal(real_int(fr))
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_TO_REAL:
            return s.arg(0)
        return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))
    raise Unsupported('to_int ' + kind)


def to_boolt(kind, t):
    if kind == 'b':
        return t
    if kind in 'if':
        return t != 0
    raise Unsupported('to_bool ' + kind)


def cast(kind, t, new):
    if kind == new:
        return t
    if new == 'f':
        return to_real(kind, t)
    if new == 'i':
        return to_intt(kind, t)
    if new == 'b':
        return to_boolt(kind, t)
    raise Unsupported('cast %s -> %s' % (kind, new))


def or_nan(*ns):
    ns = [n for n in ns if n is not None]
    if not ns:
        return None
    if real_len(ns) == 1:
        return ns[0]
    return z3.Or(*ns)


ORDER = 'bif'


def promote(k1, k2):
    if k1 == k2:
        return k1
    if k1 in ORDER and k2 in ORDER:
        return ORDER[max(ORDER.index(k1), ORDER.index(k2))]
    raise Unsupported('promote %s %s' % (k1, k2))


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or (z3.is_expr(a) and z3.is_expr(b) and a.eq(b)):
        return a
    return z3.If(c, a, b)


def uf(name, *args, sort=None):
    sort = sort or z3.RealSort()
    f = z3.Function(name, *[a.sort() for a in args], sort)
    return f(*args)


def fdiv_int(a, b):
    b_s = z3.simplify(b)
    if z3.is_int_value(b_s):
        if b_s.as_long() > 0:
            return a / b_s
        if b_s.as_long() < 0:
            return (-a) / (-b_s)
    return z3.If(b > 0, a / b, (-a) / (-b))


def fmod_int(a, b):
    b_s = z3.simplify(b)
    if z3.is_int_value(b_s) and b_s.as_long() > 0:
        return a % b_s
    return a - b * fdiv_int(a, b)


def known_true(c):
    return z3.is_true(z3.simplify(c))


def binop(op, x, y):
    """x, y: (kind, term, nan).  -> (kind, term, nan)"""
    (k1, t1, n1), (k2, t2, n2) = x, y
    nan = or_nan(n1, n2)
    if op in ('add', 'sub', 'mul'):
        if op == 'add' and k1 == k2 == 's':
            raise Unsupported('string concat')
        k = promote(k1, k2)
        if k == 'b':
            if op == 'mul':
                return 'b', z3.And(t1, t2), None
            if op == 'add':
                return 'b', z3.Or(t1, t2), None
            k = 'i'
        # products with booleans become ite (keeps the arithmetic linear)
        if op == 'mul':
            if k1 == 'b':
                b = cast(k2, t2, k)
                return k, ite(t1, b, z3.RealVal(0) if k == 'f' else z3.IntVal(0)), nan
            if k2 == 'b':
                a = cast(k1, t1, k)
                return k, ite(t2, a, z3.RealVal(0) if k == 'f' else z3.IntVal(0)), nan
        a, b = cast(k1, t1, k), cast(k2, t2, k)
        if op == 'add':
            if is_num(a, 0):
                return k, b, nan
            if is_num(b, 0):
                return k, a, nan
            return k, a + b, nan
        if op == 'sub':
            if is_num(b, 0):
                return k, a, nan
            return k, a - b, nan
        if is_num(a, 0) or is_num(b, 1):
            return k, a, nan
        if is_num(b, 0) or is_num(a, 1):
            return k, b, nan
        return k, a * b, nan
    if op == 'truediv':
        a, b = to_real(k1, t1), to_real(k2, t2)
        return 'f', a / b, nan
    if op == 'floordiv':
        if promote(k1, k2) == 'f':
            a, b = to_real(k1, t1), to_real(k2, t2)
            return 'f', z3.ToReal(z3.ToInt(a / b)), nan
        return 'i', fdiv_int(to_intt(k1, t1), to_intt(k2, t2)), None
    if op == 'mod':
        if promote(k1, k2) == 'f':
            a, b = to_real(k1, t1), to_real(k2, t2)
            return 'f', a - b * z3.ToReal(z3.ToInt(a / b)), nan
        return 'i', fmod_int(to_intt(k1, t1), to_intt(k2, t2)), None
    if op == 'pow':
        s = z3.simplify(t2)
        n = None
        if z3.is_int_value(s):
            n = s.as_long()
        elif z3.is_rational_value(s) and s.as_fraction().denominator == 1:
            n = s.as_fraction().numerator
        if n is not None and 0 <= n <= 6:
            k = promote(promote(k1, k2), 'i')
            a = cast(k1, t1, k)
            r = z3.RealVal(1) if k == 'f' else z3.IntVal(1)
            for i in range(n):
                r = a if i == 0 else r * a
            return k, r, nan
        if n is not None and -6 <= n < 0 and promote(k1, k2) == 'f':
            r = a = to_real(k1, t1)
            for i in range(-n - 1):
                r = r * a
            return 'f', z3.RealVal(1) / r, nan
        s1 = z3.simplify(t1)
        if k1 == 'i' and k2 == 'i' and z3.is_int_value(s1):
            base = s1.as_long()
            f = z3.Function('pow_%d' % base, z3.IntSort(), z3.IntSort())
            ctx().axiom(z3.And(f(z3.IntVal(0)) == 1, z3.Implies(t2 >= 0, f(t2) >= 1),
                               f(t2 + 1) == base * f(t2)), 'integer power recursion')
            return 'i', f(t2), None
        return 'f', uf('real_pow', to_real(k1, t1), to_real(k2, t2)), nan
    if op in ('lt', 'le', 'gt', 'ge'):
        if k1 == 's' or k2 == 's':
            raise Unsupported('string ordering')
        k = promote(promote(k1, k2), 'i')
        a, b = cast(k1, t1, k), cast(k2, t2, k)
        r = {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[op]
        if nan is not None:
            r = z3.And(z3.Not(nan), r)
        return 'b', r, None
    if op in ('eq', 'ne'):
        if (k1 == 's') != (k2 == 's'):
            return 'b', z3.BoolVal(op == 'ne'), None
        if k1 == 's':
            r = t1 == t2
        elif k1 == k2 == 'b':
            r = t1 == t2
        else:
            k = promote(promote(k1, k2), 'i')
            r = cast(k1, t1, k) == cast(k2, t2, k)
        if nan is not None:
            r = z3.And(z3.Not(nan), r)
        return 'b', (r if op == 'eq' else z3.Not(r)), None
    if op in ('and', 'or', 'xor'):
        if k1 == k2 == 'b':
            return 'b', {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](t1, t2), None
        s1, s2 = z3.simplify(to_intt(k1, t1)), z3.simplify(to_intt(k2, t2))
        if z3.is_int_value(s1) and z3.is_int_value(s2):
            a, b = s1.as_long(), s2.as_long()
            return 'i', z3.IntVal({'and': a & b, 'or': a | b, 'xor': a ^ b}[op]), None
        f = z3.Function('bit' + op, z3.IntSort(), z3.IntSort(), z3.IntSort())
        ctx().trusted.add('bitwise integer operations left uninterpreted')
        a, b = to_intt(k1, t1), to_intt(k2, t2)
        r = f(a, b)
        if op == 'and' and ctx().qdepth == 0:
            # x & x == x ; 0 & x == 0 (enough to be exact on equal operands)
            ctx().axiom(z3.Implies(a == b, r == a), 'x & x == x')
        return 'i', r, None
    if op in ('minimum', 'maximum'):
        k = promote(promote(k1, k2), 'i')
        a, b = cast(k1, t1, k), cast(k2, t2, k)
        return k, (z3.If(a <= b, a, b) if op == 'minimum' else z3.If(a >= b, a, b)), nan
    raise Unsupported('binop ' + op)


def is_num(t, v):
    if z3.is_int_value(t):
        return t.as_long() == v
    if z3.is_rational_value(t):
        return t.as_fraction() == v
    return False


def unop(op, x):
    k, t, n = x
    if op == 'neg':
        if k == 'b':
            raise TypeError('numpy boolean negative')
        return k, -t, n
    if op == 'pos':
        return k, t, n
    if op == 'abs':
        if k == 'b':
            return k, t, n
        return k, z3.If(t >= 0, t, -t), n
    if op == 'invert':
        if k == 'b':
            return 'b', z3.Not(t), None
        if k == 'i':
            return 'i', -t - 1, None
        raise TypeError('invert float')
    if op == 'isnan':
        return 'b', (n if n is not None else z3.BoolVal(False)), None
    if op == 'round':
        k, r = k, t
        if k != 'f':
            return k, t, n
        fl = z3.ToInt(t)
        d = t - z3.ToReal(fl)
        r = z3.If(d < z3.RealVal('1/2'), fl, z3.If(d > z3.RealVal('1/2'), fl + 1,
                  z3.If(fl % 2 == 0, fl, fl + 1)))
        return 'f', z3.ToReal(r), n
    if op in ('floor', 'ceil'):
        if k != 'f':
            return 'f', to_real(k, t), n
        fl = z3.ToInt(t)
        if op == 'floor':
            return 'f', z3.ToReal(fl), n
        return 'f', z3.ToReal(-z3.ToInt(-t)), n
    if op in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'radians',
              'degrees', 'arctan', 'square', 'sign'):
        a = to_real(k, t)
        if op == 'square':
            return k, t * t, n
        if op == 'sign':
            return k, z3.If(t > 0, cast('i', z3.IntVal(1), k), z3.If(
                t < 0, cast('i', z3.IntVal(-1), k), cast('i', z3.IntVal(0), k))), n
        r = uf('real_' + op, a)
        c = Ctx.cur
        if c is not None and op == 'log' and 'log' not in c.__dict__.setdefault('once', set()):
            c.once.add('log')
            x = z3.Real('?log_x')
            lx = uf('real_log', x)
            c.axiom(z3.ForAll([x], z3.And(z3.Implies(z3.And(x >= 0, x <= 1), lx <= 0), z3.Implies(x >= 1, lx >= 0)),
                              patterns=[lx]), 'sign of the logarithm')
        if c is not None and c.qdepth == 0:
            if op == 'exp':
                c.axiom(z3.And(r > 0, z3.Implies(a <= 0, r <= 1), z3.Implies(a >= 0, r >= 1)),
                        'exp > 0, monotone at 0')
            if op == 'sqrt':
                c.axiom(z3.Implies(a >= 0, z3.And(r >= 0, r * r == a)), 'sqrt')
            if op in ('sin', 'cos'):
                c.axiom(z3.And(r >= -1, r <= 1), '|sin|,|cos| <= 1')
            if op == 'sin':
                c.axiom(z3.And(z3.Implies(z3.And(a > 0, a < z3.RealVal('3.14159')), r > 0),
                               z3.Implies(z3.And(a < 0, a > z3.RealVal('-3.14159')), r < 0),
                               z3.Implies(a == 0, r == 0)), 'sign of the sine')
            if op == 'arcsin':
                c.axiom(z3.And(r >= z3.RealVal('-1.5708'), r <= z3.RealVal('1.5708'), (r > 0) == (a > 0),
                               (r < 0) == (a < 0)), 'sign and range of the arc sine (its argument is assumed to lie in [-1, 1])')
        return 'f', r, n
    raise Unsupported('unop ' + op)


def sbin(op, a, b, refl=False):
    from . import arr
    if op == 'mul' and type(b) is list and real_isinstance(a, SInt):
        from . import twin
        return twin.repeated(b, a)
    if real_isinstance(b, arr.ARRAYISH):
        return NotImplemented
    try:
        x, y = lift(a), lift(b)
    except Unsupported:
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented
    if refl:
        x, y = y, x
    return _mk(*binop(op, x, y))


def _ops(cls):
    for name, op in [('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'truediv'),
                     ('floordiv', 'floordiv'), ('mod', 'mod'), ('pow', 'pow'),
                     ('and', 'and'), ('or', 'or'), ('xor', 'xor')]:
        setattr(cls, '__%s__' % name, lambda a, b, op=op: sbin(op, a, b))
        setattr(cls, '__r%s__' % name, lambda a, b, op=op: sbin(op, a, b, True))
    for name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        setattr(cls, '__%s__' % name, lambda a, b, op=name: sbin(op, a, b))
    cls.__neg__ = lambda a: _mk(*unop('neg', lift(a)))
    cls.__pos__ = lambda a: a
    cls.__abs__ = lambda a: _mk(*unop('abs', lift(a)))
    cls.__invert__ = lambda a: _mk(*unop('invert', lift(a)))
    cls.__divmod__ = lambda a, b: (a // b, a % b)
    cls.__round__ = lambda a, nd=None: _round(a, nd)
    return cls


def _round(a, nd):
    if nd not in (None, 0):
        raise Unsupported('round to digits')
    k, t, n = unop('round', lift(a))
    return SInt(to_intt(k, t)) if nd is None else _mk(k, t, n)


@_ops
class SBool(SVal):
    kind = 'b'
    __slots__ = ()
    pytype = real_bool

    def __init__(self, t):
        self.t = t
        self.nan = None

    def __bool__(self):
        return ctx().branch(self.t)

    def any(self, *a, **k):
        return self

    all = any
    __hash__ = SVal.__hash__


@_ops
class SInt(SVal):
    kind = 'i'
    __slots__ = ()
    pytype = real_int

    def __init__(self, t):
        self.t = t
        self.nan = None

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def __index__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported('symbolic integer used where a concrete index is required')

    __int__ = __index__
    __hash__ = SVal.__hash__


@_ops
class SReal(SVal):
    kind = 'f'
    __slots__ = ()
    pytype = real_float

    def __init__(self, t, nan=None):
        self.t = t
        self.nan = nan

    def __bool__(self):
        return ctx().branch(self.t != 0)

    def is_integer(self):
        return SBool(z3.IsInt(self.t))

    def __float__(self):
        s = z3.simplify(self.t)
        if z3.is_rational_value(s):
            return real_float(s.as_fraction())
        raise Unsupported('symbolic real used where a concrete float is required')
    __hash__ = SVal.__hash__


class SStr(SVal):
    kind = 's'
    __slots__ = ()
    pytype = str

    def __init__(self, t):
        self.t = t
        self.nan = None

    def __eq__(self, o):
        return sbin('eq', self, o)

    def __ne__(self, o):
        return sbin('ne', self, o)
    __hash__ = SVal.__hash__


# --------------------------------------------------------------------------- logic helpers
def And(*cs):
    cs = [as_z3bool(c) for c in cs]
    return SBool(z3.And(*cs)) if cs else SBool(z3.BoolVal(True))


def Or(*cs):
    cs = [as_z3bool(c) for c in cs]
    return SBool(z3.Or(*cs)) if cs else SBool(z3.BoolVal(False))


def Not(c):
    return SBool(z3.Not(as_z3bool(c)))


def Implies(a, b):
    return SBool(z3.Implies(as_z3bool(a), as_z3bool(b)))


def quant(dims, body, universal=True, patterns=None):
    """Quantify `body(*ints)` over the box of dims; concrete small dims are expanded."""
    c = ctx()
    concrete = [d if real_isinstance(d, real_int) else None for d in dims]
    for i, d in enumerate(dims):
        if not real_isinstance(d, real_int):
            s = z3.simplify(d)
            if z3.is_int_value(s):
                concrete[i] = s.as_long()
    if all(d is not None for d in concrete):
        n = 1
        for d in concrete:
            n *= d
        if n <= 400:
            parts = [as_z3bool(body(*[z3.IntVal(i) for i in idx]))
                     for idx in itertools.product(*[range(d) for d in concrete])]
            if universal:
                return z3.And(*parts) if parts else z3.BoolVal(True)
            return z3.Or(*parts) if parts else z3.BoolVal(False)
    qs = [z3.Int(c.fresh_name('?q')) for _ in dims]
    c.qdepth += 1
    try:
        b = as_z3bool(body(*qs))
    finally:
        c.qdepth -= 1
    rng = z3.And(*[z3.And(q >= 0, q < d) for q, d in zip(qs, dims)])
    if universal:
        return z3.ForAll(qs, z3.Implies(rng, b), patterns=patterns or [])
    return z3.Exists(qs, z3.And(rng, b))


def forall_z3(qs, body, patterns=()):
    pats = []
    for p in patterns:
        pats.append(z3.MultiPattern(*p) if real_isinstance(p, (list, tuple)) else p)
    try:
        return z3.ForAll(qs, body, patterns=pats)
    except z3.Z3Exception:
        return z3.ForAll(qs, body)
