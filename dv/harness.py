"""Contract harness: one Python function per contract, executed in three modes.

  proof    symbolic dimensions and values: every clause is an obligation for all inputs
  fixed    the same with small concrete dimensions (counterexample search; bounded stand-in)
  concrete the real code of /repo on generated or replayed inputs
"""
from __future__ import annotations
import copy
import contextlib
import datetime as _dt
import fractions
import importlib
import math
import os
import random
import sys
import time
import traceback
import types

import numpy as np
import z3

from . import arr, core, dt, npshim, realload
from .arr import SArr, zi, zdim, odim
from .core import (Ctx, SVal, SBool, SInt, SReal, SStr, _mk, lift, Unsupported, PathEnd,
                   as_z3bool, real_int, real_float, real_bool, real_isinstance as isinst, real_len)
from . import twin
from .twin import LoopContract

CONTRACTS = []


class Reject(Exception):
    """generated input does not satisfy the precondition"""


def foreign(S, e):
    """The contract prepared an object attribute by attribute, or calls a private method, and the code
    represents its state differently: the contract does not apply, which is no observation about behaviour."""
    if not isinst(e, AttributeError) or e.name is None:
        return False
    if any(e.obj is o for o in S.raws):
        return True
    tb = traceback.extract_tb(e.__traceback__)
    return e.name.startswith('_') and bool(tb) and '/contracts/' in tb[-1].filename


class ClauseFailed(Exception):
    def __init__(self, label, detail=''):
        super().__init__(label)
        self.label, self.detail = label, detail


class NoDraw:
    """a random draw that the code did not take as recorded: clauses about it are skipped"""

    def __init__(self, why):
        self.__dict__['why'] = why

    def _skip(self, *a, **k):
        raise SkipClause(self.why)
    __getitem__ = __getattr__ = __array__ = __len__ = __iter__ = __float__ = __mul__ = __lt__ = __gt__ = _skip


class SkipClause(Exception):
    pass


class Contract:
    def __init__(self, fn, prop, funcs, name, proof, dims_hi, runs, quick_runs, max_paths, note, timeout):
        self.fn, self.prop, self.funcs, self.name = fn, prop, funcs, name
        self.proof, self.dims_hi, self.runs, self.quick_runs = proof, dims_hi, runs, quick_runs
        self.max_paths, self.note, self.timeout = max_paths, note, timeout


def contract(prop, funcs, proof=True, name=None, dims_hi=3, runs=600, quick_runs=150,
             max_paths=300, note='', timeout=20, only=None, extra=False):
    """proof=True: obligations from the real source for all inputs; False: bounded only; extra: bounded, says
    nothing that the proved contracts of the property do not say."""
    def d(fn):
        c = Contract(fn, prop, funcs if isinst(funcs, list) else [funcs], name or fn.__name__,
                     proof, dims_hi, runs, quick_runs, max_paths, note, timeout)
        c.only, c.extra = only, extra
        CONTRACTS.append(c)
        fn.contract = c
        return fn
    return d


def same_contract(prop, fn, only):
    """the clauses with these labels of a contract also decide another property"""
    c = copy.copy(fn.contract)
    c.prop, c.only, c.name = prop, only, 'bookkeeping_' + c.name
    c.funcs = [f for f in c.funcs if f.endswith('.step')] or c.funcs
    CONTRACTS.append(c)


def lz(x):
    """lazy argument of a connective: short-circuits in concrete mode"""
    return x() if isinst(x, types.FunctionType) else x


class Env(dict):
    """locals of the function under a loop contract"""

    def __missing__(self, k):
        raise Unsupported('the loop contract refers to a local that does not exist: ' + str(k))


class Fact:
    """a formula known for all indices below dims; calling it gives its instance"""

    def __init__(self, S, dims, f):
        self.S, self.f = S, f
        self.dims = [zi(zdim(d)) for d in (dims if isinst(dims, (tuple, list)) else (dims,))]

    def __call__(self, *ix):
        assert real_len(ix) == real_len(self.dims)
        ts = [lift(i)[1] for i in ix]
        return z3.Implies(z3.And(*[z3.And(t >= 0, t < d) for t, d in zip(ts, self.dims)]),
                          as_z3bool(self.f(*[SInt(t) for t in ts])))


# ====================================================================== symbolic
class SymS:
    symbolic = True

    def __init__(self, ctx, twins, dimvals=None):
        self.ctx = ctx
        self.twins = twins
        self.np = npshim.shim
        self.dt = dt.shim
        self.dimvals = dimvals       # fixed mode: name -> int, or None
        self.dim_names = []
        self.undo = []
        self.raws = []
        ctx.loops = {}

    @property
    def fixed(self):
        return self.dimvals is not None

    # -- inputs
    def dim(self, name, lo=0, hi=4):
        self.dim_names.append((name, lo, hi))
        if self.dimvals is not None:
            v = self.dimvals.get(name, lo)
            self.ctx.inputs.append((name, 'dim', v))
            return v
        t = z3.Int(name)
        self.ctx.assume(t >= lo)
        self.ctx.inputs.append((name, 'dim', t))
        return SInt(t)

    def int(self, name, lo=None, hi=None, gen=None):
        t = z3.Int(name)
        if lo is not None:
            self.ctx.assume(t >= lift(lo)[1])
        if hi is not None:
            self.ctx.assume(t <= lift(hi)[1])
        self.ctx.inputs.append((name, 'int', t))
        return SInt(t)

    def real(self, name, lo=None, hi=None, gen=None):
        t = z3.Real(name)
        if lo is not None:
            self.ctx.assume(t >= arr.cast(*lift(lo)[:2], 'f'))
        if hi is not None:
            self.ctx.assume(t <= arr.cast(*lift(hi)[:2], 'f'))
        self.ctx.inputs.append((name, 'real', t))
        return SReal(t)

    def bool(self, name, p=0.5):
        t = z3.Bool(name)
        self.ctx.inputs.append((name, 'bool', t))
        return SBool(t)

    def choice(self, name, options, weights=None):
        t = z3.Int(name)
        self.ctx.inputs.append((name, 'int', t))
        self.ctx.assume(z3.And(t >= 0, t < len(options)))
        for i, o in enumerate(options[:-1]):
            if self.ctx.branch(t == i):
                return o
        return options[-1]

    def flag(self, name):
        """a Python bool: both values are explored as separate paths"""
        return real_bool(self.bool(name))

    def arr(self, name, shape, kind='f', lo=None, hi=None, gen=None, nan=False, options=None):
        shape = tuple(shape) if isinst(shape, (tuple, list)) else (shape,)
        a = arr.fresh(name, shape, kind, nanable=nan, nm=name)
        self.ctx.inputs.append((name, 'arr', a, kind, nan))
        if options is not None and kind == 's':
            ids = [core.intern_str(o) for o in options]
            self.ctx.alphabet = getattr(self.ctx, 'alphabet', []) + list(options)
            self._each(a, lambda v: z3.Or(*[v == i for i in ids]))
        if lo is not None or hi is not None:
            def bnd(v):
                cs = []
                if lo is not None:
                    cs.append(v >= arr.cast(*lift(lo)[:2], kind))
                if hi is not None:
                    cs.append(v <= arr.cast(*lift(hi)[:2], kind))
                return z3.And(*cs)
            self._each(a, bnd)
        # hand out a copy so that the input is never confused with in-place updates
        return a

    def maybe_int(self, name, a):
        """concrete runs: sometimes whole numbers of an integer dtype"""
        return a

    def _each(self, a, p):
        if all(isinst(d, real_int) for d in a._shape):
            self.ctx.assume(core.quant(a._shape, lambda *i: p(a.at(*i))))
            return
        qs = [z3.Int(self.ctx.fresh_name('?e')) for _ in a._shape]
        rng = z3.And(*[z3.And(q >= 0, q < zi(d)) for q, d in zip(qs, a._shape)])
        self.ctx.assume(core.forall_z3(qs, z3.Implies(rng, p(a.fn(*qs))), [a.fn(*qs)]))

    def datetime(self, name, gen=None):
        t = z3.Int(name)
        lo = dt.td_us(_dt.datetime(1980, 1, 1) - dt.EPOCH)
        hi = dt.td_us(_dt.datetime(2080, 1, 1) - dt.EPOCH)
        self.ctx.assume(z3.And(t >= lo, t <= hi))
        self.ctx.inputs.append((name, 'datetime', t))
        return dt.SDT(t)

    def timedelta(self, name, lo, hi, gen=None):
        t = z3.Int(name)
        self.ctx.assume(z3.And(t >= dt.us_of(lo), t <= dt.us_of(hi)))
        self.ctx.inputs.append((name, 'timedelta', t))
        return dt.STD(t)

    def time(self, name, gen=None):
        t = z3.Int(name)
        self.ctx.assume(z3.And(t >= 0, t < dt.US_DAY))
        self.ctx.inputs.append((name, 'time', t))
        return dt.STime(t)

    def tod(self, x):
        """microseconds since midnight of a time or datetime"""
        return dt.mkint(dt.us_of(x) % dt.US_DAY if dt.cls_of(x) == 'dt' else dt.us_of(x))

    # -- logic
    def assume(self, c):
        self.ctx.assume(as_z3bool(c))
        if self.ctx.solver.check() == z3.unsat:
            raise PathEnd('assumption excludes the path')

    only = None     # labels of the clauses to decide, None: all

    def ensure(self, label, c):
        if self.only is not None and label not in self.only:
            return
        self.ctx.oblige(label, as_z3bool(c), assume_after=False)

    def lemma(self, label, c):
        """proved here, usable afterwards"""
        self.ctx.oblige('lemma: ' + label, as_z3bool(c), assume_after=True)

    def forall(self, dims, f):
        dims = dims if isinst(dims, (tuple, list)) else (dims,)
        return SBool(core.quant([zdim(d) for d in dims], lambda *i: as_z3bool(f(*[SInt(x) for x in i]))))

    def exists(self, dims, f):
        dims = dims if isinst(dims, (tuple, list)) else (dims,)
        return SBool(core.quant([zdim(d) for d in dims], lambda *i: as_z3bool(f(*[SInt(x) for x in i])), universal=False))

    def arb(self, dims, name='arb'):
        """arbitrary in-range index (a skolem constant): proving for it proves for all"""
        dims = dims if isinst(dims, (tuple, list)) else (dims,)
        out = []
        for d in dims:
            t = z3.Int(self.ctx.fresh_name(name))
            self.ctx.inputs.append((str(t), 'int', t))
            self.ctx.assume(z3.And(t >= 0, t < zi(zdim(d))))
            out.append(SInt(t))
        if self.ctx.solver.check() == z3.unsat:
            raise PathEnd('empty range')
        return out[0] if real_len(out) == 1 else tuple(out)

    def for_all(self, dims, f):
        """run the clauses of f for an arbitrary index"""
        r = self.arb(dims)
        f(*(r if isinst(r, tuple) else (r,)))

    def len(self, x):
        return twin.dv_len(x)

    def item(self, x, i):
        return twin.list_at(x, i) if isinst(x, list) else x[i]

    def at(self, a, *idx):
        if isinst(a, SArr):
            v, n = a.get2(tuple(i if isinst(i, real_int) else lift(i)[1] for i in idx))
            return _mk(a.kind, v, n)
        if isinst(a, (np.ndarray, list, tuple)):
            return self.at(arr.toarr(a), *idx)
        raise Unsupported('S.at on %r' % type(a))

    def eq(self, a, b):
        if isinst(a, (dt._Cmp, _dt.datetime, _dt.timedelta, _dt.time)) or a is None or b is None:
            return a == b
        x, y = lift(a), lift(b)
        n1, n2 = x[2], y[2]
        if n1 is None and n2 is None:
            return SBool(core.binop('eq', x, y)[1])
        n1 = n1 if n1 is not None else z3.BoolVal(False)
        n2 = n2 if n2 is not None else z3.BoolVal(False)
        e = core.binop('eq', (x[0], x[1], None), (y[0], y[1], None))[1]
        return SBool(z3.And(n1 == n2, z3.Or(n1, e)))

    def le(self, a, b):
        return a <= b if not isinst(a, (real_int, real_float)) else b >= a

    def lt(self, a, b):
        return a < b if not isinst(a, (real_int, real_float)) else b > a

    exact_le, exact_lt = le, lt

    def And(self, *a):
        return core.And(*[lz(x) for x in a])

    def Or(self, *a):
        return core.Or(*[lz(x) for x in a])

    def Not(self, a):
        return core.Not(a)

    def Implies(self, a, b):
        return core.Implies(a, lz(b))

    def Iff(self, a, b):
        return SBool(as_z3bool(a) == as_z3bool(b))

    def ite(self, c, a, b):
        x, y = lift(lz(a)), lift(lz(b))
        k = core.promote(x[0], y[0])
        return _mk(k, core.ite(z3.simplify(as_z3bool(c)), core.cast(x[0], x[1], k), core.cast(y[0], y[1], k)))

    def isnan(self, a):
        k, t, n = lift(a)
        return SBool(n if n is not None else z3.BoolVal(False))

    def same(self, a, b):
        a, b = arr.toarr(a), arr.toarr(b)
        if a.ndim != b.ndim:
            return SBool(z3.BoolVal(False))
        cs = [zi(x) == zi(y) for x, y in zip(a._shape, b._shape)]
        shp = z3.And(*cs) if cs else z3.BoolVal(True)
        if z3.is_false(z3.simplify(shp)):
            return SBool(z3.BoolVal(False))
        return SBool(z3.And(shp, core.quant(a._shape, lambda *i: as_z3bool(
            self.eq(_mk(a.kind, *a.get2(i)), _mk(b.kind, *b.get2(i)))))))

    def shape_is(self, a, *dims):
        if not isinst(a, (SArr, np.ndarray)):
            if real_len(dims) == 0 and isinst(a, (SVal, real_int, real_float)):
                return True
            return False
        if a.ndim != real_len(dims):
            return False
        return core.And(*[zi(zdim(x)) == zi(zdim(d)) for x, d in zip(a.shape, dims)])

    def branch(self, c):
        return self.ctx.branch(as_z3bool(c))

    def rint(self, x):
        return core._mk(*core.unop('round', lift(x)))

    def to_real(self, x):
        return SReal(core.to_real(*lift(x)[:2]))

    def to_int(self, x):
        return SInt(core.to_intt(*lift(x)[:2]))

    def sum(self, a, axis=None):
        return arr.sum_(arr.toarr(a), axis)

    def count(self, a):
        return arr.sum_(arr.toarr(a))

    def parts(self, a, *row):
        """lemma: no entry of a row without negative entries exceeds its total (the premise is proved)"""
        m = odim(a._shape[-1])
        self.ctx.oblige('lemma: no negative entry', as_z3bool(self.forall(m, lambda j: self.at(a, *row, j) >= 0)), assume_after=False)
        t = arr.sum_(a, a.ndim - 1) if a.ndim > 1 else arr.sum_(a)
        self.assume(self.forall(m, lambda j: self.at(a, *row, j) <= (self.at(t, *row) if row else t)))

    def positive(self, a, axis=None):
        """lemma: totals of entries that are not negative are not negative (the premise is proved)"""
        self.ctx.oblige('lemma: no negative entry', as_z3bool(self.forall([odim(d) for d in a._shape], lambda *i: self.at(a, *i) >= 0)),
                        assume_after=False)
        t = arr.sum_(a, axis)
        self.assume(self.forall([odim(d) for d in t._shape], lambda *i: self.at(t, *i) >= 0) if isinst(t, SArr) else t >= 0)

    def single(self, a, k, *row):
        """lemma: the total of a row whose other entries are all zero is the entry k (the premise is proved)"""
        m = odim(a._shape[-1])
        self.ctx.oblige('lemma: the other entries are zero', as_z3bool(self.And(k >= 0, k < m, self.forall(
            m, lambda j: self.Or(j == k, self.at(a, *row, j) == 0)))), assume_after=False)
        t = arr.sum_(a, a.ndim - 1) if a.ndim > 1 else arr.sum_(a)
        self.assume((self.at(t, *row) if row else t) == self.at(a, *row, k))

    def cum(self, a, axis):
        """spec: running sum (same theory object as np.cumsum of the same content)"""
        return arr.cumsum(a, axis)

    def distribution(self, a, steps=False):
        """assume that every row totals one; the running sums (lemma running_sums of C02)"""
        if isinst(a._shape[-1], real_int):
            c = arr.cumsum(a, a.ndim - 1)
            m = a._shape[-1] - 1
            self.assume(self.forall([odim(d) for d in a._shape[:-1]], lambda *i: self.at(c, *i, m) == 1)
                        if a.ndim > 1 else self.at(c, m) == 1)
            return c
        return arr.distribution_cumsum(a, steps)

    def monotone(self, c, axis):
        pass

    def uf(self, name, *args):
        return SReal(core.uf(name, *[core.to_real(*lift(a)[:2]) for a in args]))

    # -- program
    def mod(self, name):
        return self.twins.load(name)

    def cls(self, path):
        m, c = path.rsplit('.', 1)
        return getattr(self.mod(m), c)

    def new(self, path, **attrs):
        c = self.cls(path)
        o = c.__new__(c)
        self.raws.append(o)
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def copy(self, a):
        return arr.copy(a) if isinst(a, SArr) else a

    def stub(self, obj, name, fn):
        """assume a callee's contract at its call sites (its own body is checked elsewhere)"""
        had = name in vars(obj)
        old = vars(obj).get(name)
        setattr(obj, name, fn)
        self.undo.append((obj, name, had, old))

    def local_timezone(self):
        pass

    def close(self):
        for obj, name, had, old in reversed(self.undo):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self.undo = []

    def raises(self, excs, fn):
        try:
            self.result = fn()
        except excs as e:
            return e
        return None

    @property
    def draws(self):
        return [a for _, a in self.ctx.draws]

    def drawn(self, i, *shape):
        try:
            a = self.ctx.draws[i][1]
        except IndexError:
            return NoDraw('draw %d was not taken from the recorded source' % i)
        if shape and not real_bool(core.known_true(as_z3bool(self.shape_is(a, *shape)))):
            if not self.ctx.entails(as_z3bool(self.shape_is(a, *shape))):
                return NoDraw('draw %d has another shape' % i)
        return a

    def n_draws(self):
        return real_len(self.ctx.draws)

    def fresh(self, name, shape, kind, lo=None, hi=None):
        """value returned by an assumed contract (arbitrary within its postcondition)"""
        a = arr.fresh(name, tuple(shape), kind)
        self.ctx.inputs.append((a.fn.name() if shape else name, 'arr', a, kind, False))
        if lo is not None or hi is not None:
            def bnd(v):
                cs = []
                if lo is not None:
                    cs.append(v >= arr.cast(*lift(lo)[:2], kind))
                if hi is not None:
                    cs.append(v <= arr.cast(*lift(hi)[:2], kind))
                return z3.And(*cs)
            self._each(a, bnd)
        return a

    def loop(self, lid, inv, modifies=None, havoc=None):
        self.ctx.loops[lid] = LoopContract(
            lambda k, env: as_z3bool(inv(SInt(k), Env(env))),
            {m: (lambda k, f=f: f(SInt(k))) for m, f in (modifies or {}).items()},
            (lambda k: havoc(SInt(k))) if havoc else None)

    def ghost_int(self, name):
        return SInt(z3.Int(self.ctx.fresh_name(name)))

    def advance(self, it, k):
        """skip k elements of an iterator"""
        if isinst(it, (twin.SCycle, twin.SeqIter)):
            it.pos = it.pos + k
        elif isinst(k, real_int):
            for _ in range(k):
                next(it)
        else:
            raise Unsupported('advance by a symbolic number')

    def cycle(self, a):
        return twin.SCycle(a)

    def iter(self, a):
        return twin.dv_iter1(a)

    def yday(self, t):
        return t.timetuple().tm_yday

    @property
    def math(self):
        return twin.MATH

    def seq(self, n, make):
        """a list of n objects (n may be symbolic), item k described by make(k)"""
        if isinst(n, real_int):
            return [make(k) for k in range(n)]
        return twin.GhostSeq(n, make)

    def used(self, *names):
        """the primitives that the code used, in order, by name"""
        r = {n: [d for k, d in self.ctx.memo.get('used', ()) if k == n] for n in names}
        for n in names:
            if not r[n]:
                raise Unsupported('the proof is about a use of %s' % n)
        return r

    # -- manual proofs: facts about all indices, used at chosen indices
    def premise(self, dims, f):
        """assume f for all indices"""
        self.assume(self.forall(dims, f))
        return Fact(self, dims, f)

    def known(self, label, dims, f):
        """fact proved from everything known on the path"""
        self.ctx.oblige('lemma: ' + label, as_z3bool(self.forall(dims, f)), assume_after=False)
        return Fact(self, dims, f)

    def derive(self, label, dims, f, using):
        """fact proved for arbitrary indices from the given instances of facts only"""
        g = Fact(self, dims, f)
        ix = [SInt(z3.Int(self.ctx.fresh_name('ix'))) for _ in g.dims]
        goal = g(*ix)
        self.ctx.obligs.append(('lemma: ' + label if not label.startswith('=') else label[1:], [as_z3bool(x) for x in using(*ix)], goal))
        return g

    def derive_up(self, label, n, f, base, step, using=()):
        """fact by induction over the last index: base(..) at 0, step(.., k) from k to k + 1"""
        g = Fact(self, n, f)
        ix = [SInt(z3.Int(self.ctx.fresh_name('ix'))) for _ in g.dims]
        z = ix[:-1] + [SInt(z3.IntVal(0))]
        self.ctx.obligs.append(('lemma: %s (base)' % label, [as_z3bool(x) for x in base(*z)], g(*z)))
        self.ctx.obligs.append(('lemma: %s (step)' % label, [z3.And(ix[-1].t >= 0, g(*ix))] + [as_z3bool(x) for x in step(*ix)],
                                g(*ix[:-1], ix[-1] + 1)))
        return g

    def name(self, label, n, f):
        """a name for the values f(0), ..., f(n - 1)"""
        v = f(SInt(z3.Int('!v')))
        kind = 'i' if isinst(v, SInt) else 'f'
        a = arr.fresh(self.ctx.fresh_name(label), (zi(zdim(n)),), kind)
        self.ctx.assume(as_z3bool(self.forall(n, lambda j: self.at(a, j) == f(j))))
        return a

    def unsupported(self, why):
        raise Unsupported(why)

    def num(self, t):
        return SInt(zi(t)) if not isinst(t, z3.ExprRef) or t.sort() == z3.IntSort() else SReal(t)

    def z(self, x):
        return lift(x)[1] if not isinst(x, real_int) else z3.IntVal(x)

    def prefix(self, a, n):
        """ghost: running totals p[0] = 0, p[k + 1] = p[k] + a[k]"""
        p = arr.fresh(self.ctx.fresh_name('prefix'), (zi(zdim(n)) + 1 if not isinst(n, real_int) else n + 1,), 'i')
        self.assume(self.at(p, 0) == 0)
        self.assume(self.forall(n, lambda k: self.at(p, k + 1) == self.at(p, k) + self.at(a, k)))
        return p

    def induct(self, label, n, p, down=False):
        """lemma by induction: p(0) and p(k) => p(k + 1) for k < n; gives p(k) for all k <= n
        (down: from p(n) and p(k + 1) => p(k))"""
        c = self.ctx
        c.oblige('lemma: %s (base)' % label, as_z3bool(p(n if down else 0)), assume_after=False)
        k = SInt(z3.Int(c.fresh_name('ind')))
        c.oblige('lemma: %s (step)' % label, as_z3bool(self.Implies(
            self.And(k >= 0, k < n, p(k + 1 if down else k)), p(k if down else k + 1))), assume_after=False)
        c.assume(as_z3bool(self.forall(n + 1, p)))


# ====================================================================== concrete
def tol(a, b):
    return 1e-7 * max(1.0, abs(a), abs(b))


class ConS:
    """the real code on concrete inputs"""
    symbolic = False
    fixed = True

    def __init__(self, seed, tape=None, draw_tape=None, strict=None):
        self.rng = random.Random(seed)
        self.nrng = np.random.RandomState(seed % (2**32))
        self._natural = False
        self.tape = tape or {}
        self.draw_tape = list(draw_tape) if draw_tape is not None else None
        self.np = np
        self.dt = _dt
        self.log = {}
        self.draw_log = []
        self.pool_ = []
        self.checked = 0
        self.labels = set()
        self.skipped = []
        self.undo = []
        self.raws = []
        self.failed = []

    def _rec(self, name, v):
        self.log[name] = v
        return v

    def _t(self, name):
        if name in self.tape:
            return True
        return False

    def dim(self, name, lo=0, hi=4):
        v = self.tape[name] if self._t(name) else self.rng.randint(lo, hi)
        return self._rec(name, int(v))

    def int(self, name, lo=None, hi=None, gen=None):
        if self._t(name):
            return self._rec(name, int(self.tape[name]))
        if gen:
            v = gen(self.nrng)
        else:
            l = -5 if lo is None else int(lo)
            h = l + 10 if hi is None else int(hi)
            if h < l:
                raise Reject('empty')
            if h - l > 50 and self.rng.random() < .5:
                v = self.rng.randint(l, l + 10)
            else:
                v = self.rng.randint(l, h)
        return self._rec(name, int(v))

    def _real(self, lo, hi):
        r = self.rng.random()
        if lo is None and hi is None:
            return self.rng.choice([0.0, 1.0, -1.0]) if r < .2 else self.rng.gauss(0, 10)
        if lo is None:
            lo = hi - 20
        if hi is None:
            hi = lo + 20
        if r < .1:
            return float(lo)
        if r < .2:
            return float(hi)
        return lo + (hi - lo) * self.rng.random()

    def real(self, name, lo=None, hi=None, gen=None):
        if self._t(name):
            return self._rec(name, float(self.tape[name]))
        v = gen(self.nrng) if gen else self._real(lo, hi)
        return self._rec(name, float(v))

    def bool(self, name, p=0.5):
        v = self.tape[name] if self._t(name) else self.rng.random() < p
        return self._rec(name, real_bool(v))

    flag = bool

    def choice(self, name, options, weights=None):
        i = self.tape[name] if self._t(name) else self.rng.choices(range(len(options)), weights)[0]
        i = min(max(int(i), 0), len(options) - 1)
        self._rec(name, i)
        return options[i]

    def arr(self, name, shape, kind='f', lo=None, hi=None, gen=None, nan=False, options=None):
        shape = tuple(shape) if isinst(shape, (tuple, list)) else (shape,)
        shape = tuple(int(d) for d in shape)
        dtp = {'f': float, 'i': int, 'b': bool, 's': str}[kind]
        if self._t(name):
            v = np.array(self.tape[name], dtype=dtp).reshape(shape)
        elif gen is not None:
            v = np.array(gen(self.nrng, shape), dtype=dtp).reshape(shape)
        elif kind == 'b':
            p = self.rng.choice([.5, .5, .1, .9, 0, 1])
            v = self.nrng.uniform(size=shape) < p
        elif kind == 'i':
            l = -3 if lo is None else int(lo)
            h = l + 6 if hi is None else int(hi)
            if h < l:
                if np.prod(shape) == 0:
                    h = l
                else:
                    raise Reject('empty range')
            v = self.nrng.randint(l, h + 1, size=shape)
        elif kind == 's':
            v = np.array([self.rng.choice(options or ['a', 'b', 'c']) for _ in range(int(np.prod(shape)))],
                         dtype=str).reshape(shape)
        else:
            n = int(np.prod(shape))
            v = np.array([self._real(lo, hi) for _ in range(n)], dtype=float).reshape(shape)
            if nan and n:
                v[self.nrng.uniform(size=shape) < self.rng.choice([0, .3, .6])] = np.nan
        self._rec(name, v.copy())
        return v

    def maybe_int(self, name, a):
        if self._t(name):
            whole = bool(self.tape[name])
        else:
            whole = self.rng.random() < .2
        self._rec(name, whole)
        return np.rint(a).astype(int) if whole and not np.isnan(a).any() else a

    def datetime(self, name, gen=None):
        if self._t(name):
            v = self.tape[name]
            if not isinst(v, _dt.datetime):
                v = dt.EPOCH + _dt.timedelta(microseconds=int(v))
            return self._rec(name, v)
        r = self.rng.random()
        day = _dt.date(self.rng.randint(2012, 2024), self.rng.randint(1, 12), 1)
        if r < .4:
            d = day - _dt.timedelta(days=1) if self.rng.random() < .7 else day
        elif r < .5:
            d = _dt.date(self.rng.randint(2012, 2024), *self.rng.choice([(12, 31), (2, 28), (1, 1), (3, 1)]))
        else:
            d = day + _dt.timedelta(days=self.rng.randint(0, 27))
        us = self.rng.choice([0, 3, 4, 4, 23, 23, self.rng.randint(0, 23)]) * 3600 * 10**6
        q = self.rng.random()
        if q < .6:
            us += self.rng.choice([0, 0, 1, 10, 15, 30, 45, 50, 59, self.rng.randint(0, 59)]) * 60 * 10**6
        else:
            us += self.rng.randint(0, 3600 * 10**6 - 1)
        return self._rec(name, _dt.datetime(d.year, d.month, d.day) + _dt.timedelta(microseconds=us))

    def timedelta(self, name, lo, hi, gen=None):
        if self._t(name):
            v = self.tape[name]
            if not isinst(v, _dt.timedelta):
                v = _dt.timedelta(microseconds=int(v))
            return self._rec(name, v)
        if gen:
            return self._rec(name, gen(self.rng))
        cand = [lo, hi] + [_dt.timedelta(minutes=m) for m in (1, 1, 2, 5, 10, 10, 15, 30, 60, 90, 1440)] + \
            [_dt.timedelta(seconds=s) for s in (1, 7, 30)]
        cand = [c for c in cand if lo <= c <= hi]
        if self.rng.random() < .25:
            return self._rec(name, _dt.timedelta(microseconds=self.rng.randint(dt.td_us(lo), dt.td_us(hi))))
        return self._rec(name, self.rng.choice(cand))

    def time(self, name, gen=None):
        if self._t(name):
            us = int(self.tape[name])
        elif gen and self.rng.random() < .6:
            us = gen(self.rng)
        else:
            us = self.rng.choice([0, 4 * 3600 * 10**6, self.rng.randint(0, 1439) * 60 * 10**6,
                                  self.rng.randint(0, dt.US_DAY - 1)])
        self._rec(name, us)
        return (dt.EPOCH + _dt.timedelta(microseconds=us)).time()

    def tod(self, x):
        return ((x.hour * 60 + x.minute) * 60 + x.second) * 10**6 + x.microsecond

    # -- logic
    def assume(self, c):
        if not real_bool(c):
            raise Reject()

    only = None

    def ensure(self, label, c):
        if self.only is not None and label not in self.only:
            return
        self.checked += 1
        self.labels.add(label)
        if isinst(c, np.ndarray):
            c = c.all()
        if not real_bool(c):
            raise ClauseFailed(label)

    lemma = ensure

    def known(self, label, dims, f):
        self.ensure('lemma: ' + label, self.forall(dims, f))

    def premise(self, dims, f):
        self.assume(self.forall(dims, f))

    def forall(self, dims, f):
        dims = dims if isinst(dims, (tuple, list)) else (dims,)
        return all(real_bool(f(*i)) for i in np.ndindex(*[int(d) for d in dims]))

    def exists(self, dims, f):
        dims = dims if isinst(dims, (tuple, list)) else (dims,)
        return any(real_bool(f(*i)) for i in np.ndindex(*[int(d) for d in dims]))

    def for_all(self, dims, f):
        dims = dims if isinst(dims, (tuple, list)) else (dims,)
        for i in np.ndindex(*[int(d) for d in dims]):
            f(*i)

    def len(self, x):
        return len(x)

    def item(self, x, i):
        return x[i]

    def at(self, a, *idx):
        a = np.asarray(a)
        idx = tuple(int(i) for i in idx)
        if real_len(idx) != a.ndim or any(i < 0 or i >= d for i, d in zip(idx, a.shape)):
            raise ClauseFailed('shape', 'index %s of an array of shape %s' % (idx, a.shape))
        return a[idx]

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinst(a, (str, np.str_, _dt.datetime, _dt.timedelta, _dt.time)):
            return real_bool(a == b)
        if isinst(a, np.ndarray) and a.ndim == 0:
            a = a.item()
        if isinst(b, np.ndarray) and b.ndim == 0:
            b = b.item()
        if isinst(a, (real_float, np.floating)) or isinst(b, (real_float, np.floating)):
            a, b = float(a), float(b)
            if math.isnan(a) or math.isnan(b):
                return math.isnan(a) and math.isnan(b)
            if a == b:
                return True
            return abs(a - b) <= tol(a, b)
        return real_bool(a == b)

    def le(self, a, b):
        return real_bool(a <= b) or self.eq(a, b)

    def lt(self, a, b):
        return real_bool(a < b) or (isinst(a, (float, np.floating)) and self.eq(a, b))

    def exact_le(self, a, b):
        return real_bool(a <= b)

    def exact_lt(self, a, b):
        return real_bool(a < b)

    def And(self, *a):
        return all(real_bool(lz(x)) for x in a)

    def Or(self, *a):
        return any(real_bool(lz(x)) for x in a)

    def Not(self, a):
        return not real_bool(a)

    def Implies(self, a, b):
        return (not real_bool(a)) or real_bool(lz(b))

    def Iff(self, a, b):
        return real_bool(a) == real_bool(b)

    def ite(self, c, a, b):
        return lz(a) if real_bool(c) else lz(b)

    def isnan(self, a):
        return real_bool(np.isnan(a))

    def same(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return all(self.eq(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))

    def shape_is(self, a, *dims):
        return np.shape(a) == tuple(int(d) for d in dims)

    def branch(self, c):
        return real_bool(c)

    def rint(self, x):
        return float(np.round(x))

    def to_real(self, x):
        return float(x)

    def to_int(self, x):
        return int(x)

    def sum(self, a, axis=None):
        return np.sum(a, axis=axis)

    count = sum

    def parts(self, a, *row):
        pass

    single = positive = parts

    def cum(self, a, axis):
        return np.cumsum(a, axis=axis)

    def distribution(self, a, steps=False):
        c = np.cumsum(a, axis=-1)
        if a.size and not np.all(c[..., -1] == 1):
            raise Reject('rows do not total one')
        self.pool(c)
        return c

    def monotone(self, c, axis):
        pass

    def uf(self, name, *args):
        return getattr(np, name.replace('real_', ''))(*args)

    # -- program
    def mod(self, name):
        return realload.mod(name)

    def cls(self, path):
        m, c = path.rsplit('.', 1)
        return getattr(self.mod(m), c)

    def new(self, path, **attrs):
        c = self.cls(path)
        o = c.__new__(c)
        self.raws.append(o)
        for k, v in attrs.items():
            setattr(o, k, v)
        return o

    def copy(self, a):
        return np.array(a, copy=True) if isinst(a, np.ndarray) else a

    def stub(self, obj, name, fn):
        had = name in vars(obj)
        old = vars(obj).get(name)
        setattr(obj, name, fn)
        self.undo.append((obj, name, had, old))

    zone_before = ()

    def local_timezone(self):
        """the time zone of the machine: naive times must not depend on it"""
        z = self.choice('time zone of the machine', ['UTC', 'America/New_York', 'Asia/Kolkata'])
        self.zone_before = (os.environ.get('TZ'),)
        os.environ['TZ'] = z
        time.tzset()

    def close(self):
        if self.zone_before:
            if self.zone_before[0] is None:
                os.environ.pop('TZ', None)
            else:
                os.environ['TZ'] = self.zone_before[0]
            time.tzset()
            self.zone_before = ()
        for obj, name, had, old in reversed(self.undo):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)
        self.undo = []

    def raises(self, excs, fn):
        try:
            self.result = fn()
        except excs as e:
            return e
        return None

    @property
    def draws(self):
        return [a for _, a in self.draw_log]

    def drawn(self, i, *shape):
        try:
            a = self.draw_log[i][1]
        except IndexError:
            return NoDraw('draw not recorded')
        shape = tuple(int(d) for d in shape)
        if shape and np.shape(a) != shape:
            if np.size(a) != np.prod(shape):
                return NoDraw('draw has another shape')
            a = np.reshape(a, shape)
        return a

    def natural(self, seed):
        """from now on random numbers come from a seeded generator and are not recorded"""
        self.nrng = np.random.RandomState(int(seed) % 2**32)
        self._natural = True

    def n_draws(self):
        return real_len(self.draw_log)

    def pool(self, a):
        """interesting values for uniform draws"""
        for v in np.asarray(a).ravel().tolist()[:50]:
            if 0 <= v < 1:
                self.pool_.append(float(v))

    def fresh(self, name, shape, kind, lo=None, hi=None):
        n = name
        k = 0
        while n in self.log:
            k += 1
            n = '%s!%d' % (name, k)
        v = self.arr(n, shape, kind, lo, hi)
        return v if shape else (v.item() if v.ndim == 0 else v)

    def loop(self, *a, **k):
        pass

    def ghost_int(self, name):
        return 0

    def advance(self, it, k):
        for _ in range(int(k)):
            next(it)

    def cycle(self, a):
        import itertools
        return itertools.cycle(a)

    def iter(self, a):
        return iter(a)

    def yday(self, t):
        return t.timetuple().tm_yday

    math = math

    def seq(self, n, make):
        return [make(k) for k in range(int(n))]

    def prefix(self, a, n):
        return np.concatenate([[0], np.cumsum(a[:n])]).astype(int)

    def induct(self, label, n, p, down=False):
        pass

    # -- patched random source
    def _base(self, name, shp, gen):
        if self._natural:
            del self.draw_log[-1:]
            return gen()
        if self.draw_tape:
            nm, v = self.draw_tape.pop(0)
            v = np.array(v)
            if nm == name and v.shape == tuple(shp):
                return v
        return gen()

    def _u(self, size):
        shp = () if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size))

        def gen():
            u = self.nrng.random_sample(shp)
            u = np.asarray(u)
            if self._natural:
                return u
            mode = self.rng.random()
            if mode < .35 and u.size:
                pick = self.nrng.random_sample(shp)
                edge = [0.0, 1 - 2**-53, .5] + self.pool_
                vals = np.array([self.rng.choice(edge) for _ in range(u.size)]).reshape(shp)
                u = np.where(pick < .4, vals, u)
            return u
        u = self._base('uniform', shp, gen)
        self.draw_log.append(('uniform', np.array(u)))
        return float(u) if size is None else np.asarray(u, dtype=float)

    @contextlib.contextmanager
    def patched(self):
        R = np.random
        saved = {}

        def setp(n, f):
            saved[n] = getattr(R, n)
            setattr(R, n, f)

        def uniform(low=0.0, high=1.0, size=None):
            if size is None and (np.ndim(low) or np.ndim(high)):
                size = np.broadcast(low, high).shape
            u = self._u(size)
            if np.ndim(low) == 0 and np.ndim(high) == 0 and low == 0 and high == 1:
                return u
            return low + (high - low) * u

        def rand(*s):
            return self._u(s or None)

        def sample(size=None):
            return self._u(size)

        def randint(low, high=None, size=None, dtype=int):
            l, h = (0, low) if high is None else (low, high)
            shp = np.broadcast(l, h).shape if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(size))
            v = self._base('randint', shp, lambda: np.asarray(self.nrng.randint(l, h, size=shp or None)))
            self.draw_log.append(('randint', np.array(v)))
            if size is None and shp == ():
                return int(v)
            return np.asarray(v).astype(dtype)

        def normal(loc=0.0, scale=1.0, size=None):
            shp = np.broadcast(loc, scale).shape if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(size))
            z = self._base('normal', shp, lambda: np.asarray(self.nrng.standard_normal(shp)))
            self.draw_log.append(('normal', np.array(z)))
            r = loc + scale * z
            return float(r) if shp == () else r

        def randn(*s):
            z = self._base('normal', s, lambda: np.asarray(self.nrng.standard_normal(s)))
            self.draw_log.append(('normal', np.array(z)))
            return float(z) if not s else np.asarray(z)

        def poisson(lam=1.0, size=None):
            shp = np.shape(lam) if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(size))
            v = self._base('poisson', shp, lambda: np.asarray(self.nrng.poisson(lam, shp or None)))
            self.draw_log.append(('poisson', np.array(v)))
            return int(v) if shp == () else np.asarray(v)

        def binomial(n, p, size=None):
            shp = np.broadcast(n, p).shape if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(size))
            v = self._base('binomial', shp, lambda: np.asarray(self.nrng.binomial(n, p, shp or None)))
            self.draw_log.append(('binomial', np.array(v)))
            return int(v) if shp == () else np.asarray(v)
        for n, f in dict(uniform=uniform, rand=rand, random=sample, random_sample=sample, randint=randint,
                         normal=normal, randn=randn, poisson=poisson, binomial=binomial).items():
            setp(n, f)
        st = R.get_state()
        try:
            R.seed(self.rng.randint(0, 2**31))
            yield
        finally:
            for n, f in saved.items():
                setattr(R, n, f)
            R.set_state(st)


def sym_pool(self, a):
    pass


SymS.pool = sym_pool
