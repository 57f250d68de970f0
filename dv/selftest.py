"""Differential test of the trusted theory: `python -m dv.selftest [n]` (n rounds, default 4).

  arrays    every operation of the array theory, applied to symbolic arrays: the result that numpy gives on random
            arrays has to be a model of the path conditions, axioms and result terms (never `unsat`)
  calendar  the calendar lemmas, over every pair of neighbouring and near days of a 400-year period
  dates     arithmetic of datetimes and timedeltas against the standard library
  linear    random satisfiable nonlinear formulas stay satisfiable under the linear abstraction
A defect found here would be a proof of something false; nothing here looks at the code under verification.
"""
from __future__ import annotations
import datetime as _dt
import multiprocessing
import os
import random
import sys

from . import realload
realload.setup()

import numpy as np                                       # noqa: E402
import z3                                                # noqa: E402

from . import arr, core, dt, engine, harness, purify     # noqa: E402

TIMEOUT = 1500


class Con:
    """numpy side"""
    np = np
    symbolic = False

    def __init__(self, rng, dims):
        self.rng, self.dims, self.inputs = rng, dims, {}

    def dim(self, name, lo=0, hi=4):
        return self.dims.setdefault(name, self.rng.randint(lo, hi))

    def real(self, name):
        return self.inputs.setdefault(name, self.rng.choice([-1.5, -.5, 0., .25, 1., 2.]))

    def int(self, name, lo, hi):
        return self.inputs.setdefault(name, self.rng.randint(lo, hi))

    def arr(self, name, shape, kind='f', lo=None, hi=None):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        if name in self.inputs:
            return self.inputs[name]
        r = self.rng
        lo = {'f': -1, 'i': -3, 'b': 0}[kind] if lo is None else lo
        hi = {'f': 2, 'i': 4, 'b': 1}[kind] if hi is None else hi
        a = np.empty(shape, {'f': float, 'i': int, 'b': bool}[kind])
        for i in np.ndindex(*shape):
            a[i] = r.choice([lo, hi, (lo + hi) / 2, lo + (hi - lo) / 4]) if kind == 'f' else r.randint(lo, hi)
        self.inputs[name] = a
        return a


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def many(**fs):
    for n, f in fs.items():
        OPS[n] = f


A = lambda S, *sh, name='a', **k: S.arr(name, tuple(S.dim(d, 1) if isinstance(d, str) else d for d in sh), **k)
V = lambda S, **k: A(S, 'n', **k)
M = lambda S, **k: A(S, 'n', 'm', **k)
many(
    cumsum1=lambda S: S.np.cumsum(V(S)),
    cumsum2=lambda S: S.np.cumsum(M(S), axis=-1),
    cumsum20=lambda S: S.np.cumsum(M(S), axis=0),
    sum1=lambda S: S.np.sum(V(S)),
    sum2=lambda S: S.np.sum(M(S), axis=-1),
    sum20=lambda S: S.np.sum(M(S), axis=0),
    sum_bool=lambda S: S.np.sum(V(S, kind='b')),
    sum_mask=lambda S: S.np.sum(V(S) > 0),
    mean=lambda S: S.np.mean(V(S)),
    mean0=lambda S: S.np.mean(M(S), axis=0),
    any_=lambda S: S.np.any(V(S, kind='b')),
    all_=lambda S: S.np.all(M(S) > -1, axis=-1),
    argmax=lambda S: S.np.argmax(V(S)),
    argmax2=lambda S: S.np.argmax(M(S), axis=-1),
    argmaxb=lambda S: S.np.argmax(M(S) > 0, axis=-1),
    argmin=lambda S: S.np.argmin(V(S)),
    amin=lambda S: V(S).min(),
    amax2=lambda S: M(S).max(axis=-1),
    diff=lambda S: S.np.diff(V(S)),
    diff2=lambda S: S.np.diff(M(S), axis=-1),
    clip=lambda S: S.np.clip(M(S), 0, 1),
    where3=lambda S: S.np.where(V(S) > 0, V(S), V(S, name='b')),
    where1=lambda S: S.np.where(V(S) > 0)[0],
    nonzero2=lambda S: S.np.argwhere(M(S) > 0),
    count=lambda S: S.np.count_nonzero(V(S) > 0),
    mask_get=lambda S: V(S)[V(S, name='b') > 0],
    mask_rows=lambda S: M(S)[V(S, name='b') > 0],
    mask2=lambda S: M(S)[M(S, name='b') > 0],
    idx_get=lambda S: V(S)[A(S, 'k', name='i', kind='i', lo=0, hi=0)],
    row_get=lambda S: M(S)[S.np.arange(S.dim('n', 1)), S.arr('j', S.dim('n', 1), 'i', 0, 0)],
    row_last=lambda S: M(S)[S.np.arange(S.dim('n', 1)), S.np.argmax(M(S), axis=-1)],
    slice1=lambda S: V(S)[1:],
    slice2=lambda S: M(S)[:, :-1],
    slice3=lambda S: V(S)[::-1],
    newaxis=lambda S: V(S)[:, None] * V(S, name='b')[None, :],
    broadcast=lambda S: M(S) + A(S, 'm', name='b'),
    div=lambda S: M(S) / S.np.where(A(S, 'm', name='b') > 0, 4., -.5),
    floordiv=lambda S: V(S, kind='i') // 2,
    mod=lambda S: V(S, kind='i') % 3,
    fmod=lambda S: V(S) % 1.5,
    neg=lambda S: -V(S),
    power=lambda S: V(S) ** 2,
    rint=lambda S: S.np.rint(V(S) * 2.5),
    round_=lambda S: S.np.round(V(S) * 1.3),
    floor=lambda S: S.np.floor(V(S)),
    ceil=lambda S: S.np.ceil(V(S)),
    sign=lambda S: S.np.sign(V(S)),
    astype_i=lambda S: V(S).astype(int),
    astype_b=lambda S: V(S).astype(bool),
    astype_f=lambda S: (V(S) > 0).astype(float),
    minimum=lambda S: S.np.minimum(V(S), V(S, name='b')),
    maximum=lambda S: S.np.maximum(V(S), .5),
    reshape=lambda S: M(S).reshape(-1),
    reshape2=lambda S: M(S).reshape((S.dim('m', 1), S.dim('n', 1))),
    reshape3=lambda S: A(S, 'n', 'm', 2).reshape((S.dim('n', 1), -1)),
    flatten=lambda S: M(S).flatten(),
    transpose=lambda S: M(S).T,
    moveaxis=lambda S: S.np.moveaxis(A(S, 'n', 'm', 'k'), 0, -1),
    swapaxes=lambda S: S.np.swapaxes(A(S, 'n', 'm', 'k'), 0, 1),
    concat=lambda S: S.np.concatenate((V(S), A(S, 'k', name='b'))),
    concat0=lambda S: S.np.concatenate((M(S), A(S, 'k', 'm', name='b')), axis=0),
    append=lambda S: S.np.append(V(S), 2.5),
    stack=lambda S: S.np.stack((V(S), V(S, name='b'))),
    column_stack=lambda S: S.np.column_stack((V(S), V(S, name='b'))),
    vstack=lambda S: S.np.vstack((V(S), V(S, name='b'))),
    hstack=lambda S: S.np.hstack((V(S), A(S, 'k', name='b'))),
    roll=lambda S: S.np.roll(V(S), 1),
    roll2=lambda S: S.np.roll(M(S), -1, axis=1),
    repeat=lambda S: S.np.repeat(V(S), 3),
    repeat_n=lambda S: S.np.repeat(V(S), S.arr('r', S.dim('n', 1), 'i', 0, 2)),
    tile=lambda S: S.np.tile(V(S), 2),
    flip=lambda S: S.np.flip(V(S)),
    eye=lambda S: S.np.eye(S.dim('n', 1)),
    arange=lambda S: S.np.arange(S.dim('n', 1)),
    arange2=lambda S: S.np.arange(1, S.dim('n', 1) + 2),
    zeros=lambda S: S.np.zeros((S.dim('n', 1), 2)),
    ones_like=lambda S: S.np.ones_like(M(S)),
    full=lambda S: S.np.full((2, S.dim('n', 1)), 1.5),
    isin=lambda S: S.np.isin(V(S, kind='i'), [1, 2]),
    unique=lambda S: S.np.unique(V(S, kind='i', lo=0, hi=2)),
    sort=lambda S: S.np.sort(V(S)),
    argsort=lambda S: V(S)[S.np.argsort(V(S))],
    searchsorted=lambda S: S.np.searchsorted(S.np.cumsum(S.np.abs(V(S))), S.real('v')),
    searchsorted_r=lambda S: S.np.searchsorted(S.np.cumsum(S.np.abs(V(S))), A(S, 'k', name='w'), side='right'),
    digitize=lambda S: S.np.digitize(A(S, 'k', name='w'), [0., .5, 1.]),
    bincount=lambda S: S.np.bincount(V(S, kind='i', lo=0, hi=3), minlength=4),
    bincount_w=lambda S: S.np.bincount(V(S, kind='i', lo=0, hi=3), minlength=5, weights=V(S, name='b')),
    outer=lambda S: S.np.outer(V(S), V(S, name='b')) if not S.symbolic else S.np.outer(V(S), V(S, name='b')),
    dot=lambda S: S.np.dot(V(S), V(S, name='b')),
    allclose=lambda S: S.np.allclose(V(S), V(S, name='b')),
    array_equal=lambda S: S.np.array_equal(V(S), V(S, name='b')),
    isclose=lambda S: S.np.isclose(V(S), .25),
    logic=lambda S: S.np.logical_and(V(S) > 0, ~(V(S, name='b') > 0)),
    logic_r=lambda S: S.np.logical_or.reduce([V(S) > 0, V(S, name='b') > 0]),
    nan_to_num=lambda S: S.np.nan_to_num(V(S)),
    expand=lambda S: S.np.expand_dims(M(S), 1),
    tobool=lambda S: S.np.array(V(S, kind='i'), dtype=bool),
    floor_to_int=lambda S: S.np.array(V(S) * 1.9, dtype=int),
    bcast=lambda S: S.np.broadcast_to(V(S), (2, S.dim('n', 1))),
    average=lambda S: S.np.average(V(S)),
    prod=lambda S: S.np.prod(A(S, 3)),
    c_=lambda S: S.np.c_[V(S), V(S, name='b')],
    xor=lambda S: (V(S) > 0) ^ (V(S, name='b') > 0),
    cmp=lambda S: M(S) == A(S, 'm', name='b'),
    scalar_idx=lambda S: V(S)[S.int('q', 0, 0)],
    neg_idx=lambda S: V(S)[-1],
    ell=lambda S: A(S, 'n', 'm', 2)[..., 1],
    mixed=lambda S: A(S, 'n', 'm', 2)[:, 0, [1, 0]],
)


@op
def store_row(S):
    a = M(S).copy()
    a[0] = 7.
    return a


@op
def store_mask(S):
    a = V(S).copy()
    a[V(S, name='b') > 0] = 3.
    return a


@op
def store_mask_values(S):
    a = V(S).copy()
    m = V(S, name='b') > 0
    a[m] = V(S, name='c')[m]
    return a


@op
def store_fancy(S):
    a = V(S).copy()
    a[S.arr('i', 3, 'i', 0, 0)] = S.arr('v', 3)
    return a


@op
def store_where(S):
    a = V(S).copy()
    i = S.np.where(V(S, name='b') > 0)[0]
    a[i] += 1.
    return a


@op
def store_slice(S):
    a = M(S).copy()
    a[:, 1:] = 0.
    return a


@op
def store_view(S):
    a = M(S).copy()
    b = a.T
    b[0] -= 2.
    return a


@op
def store_column(S):
    a = M(S).copy()
    a[:, 0] = V(S, name='b')
    return a


@op
def store_pairs(S):
    a = M(S).copy()
    a[S.np.arange(S.dim('n', 1)), S.np.argmax(a, axis=-1)] = 9.
    return a


@op
def inplace_cumsum(S):
    a = M(S).copy()
    a -= S.np.cumsum(a, axis=-1)
    a *= 2
    return a


@op
def truncating_store(S):
    a = V(S, kind='i').copy()
    a[:] = V(S, name='b') * 1.9
    return a


@op
def mask_twice(S):
    a = V(S)
    m = V(S, name='b') > 0
    b = a[m]
    return b[b > 0]


@op
def mask_count(S):
    m = V(S, name='b') > 0
    return V(S)[m].shape[0] if not S.symbolic else arr.odim(V(S)[m]._shape[0])


@op
def add_at_like(S):
    a = S.np.zeros(S.dim('n', 1))
    for k in (0, 0):
        a[k] += 1
    return a


# ------------------------------------------------------------------------------- arrays
def value(kind, v):
    if kind == 'f':
        return z3.RealVal(str(core.fractions.Fraction(float(v))))
    return z3.BoolVal(bool(v)) if kind == 'b' else z3.IntVal(int(v))


def equal_scalar(s, v):
    """the symbolic scalar s is the number v"""
    k, t, nan = core.lift(s)
    if isinstance(v, (float, np.floating)) and np.isnan(v):
        return z3.BoolVal(True) if nan is None else nan
    t = core.cast(k, t, 'f') if k != 'b' else t
    if k == 'b' and not isinstance(v, (bool, np.bool_)):
        return z3.BoolVal(False)
    r = t == value('b' if k == 'b' else 'f', v)
    return r if nan is None else z3.And(z3.Not(nan), r)


def equal(r, v):
    """the result r may be the numpy result v"""
    if isinstance(v, np.ndarray) and v.ndim:
        r = arr.toarr(r)
        if r.ndim != v.ndim or r.kind != arr.kind_of_dtype(v.dtype):
            return z3.BoolVal(False)
        cs = [arr.zi(d) == int(e) for d, e in zip(r._shape, v.shape)]
        for i in np.ndindex(*v.shape):
            cs.append(equal_scalar(core._mk(r.kind, *r.get2(tuple(int(x) for x in i))), v[i]))
        return z3.And(*cs) if cs else z3.BoolVal(True)
    if isinstance(r, arr.SArr) and r.ndim == 0:
        r = r.item()
    return equal_scalar(r, v)


def test_op(job):
    name, rounds, seed = job
    f = OPS[name]
    rng = random.Random('%s %s' % (name, seed))
    out = []
    for mode in ('symbolic', 'fixed'):
        fixed, cached = mode == 'fixed', None
        for k in range(rounds):
            C = Con(rng, {})
            try:
                v = f(C)
            except Exception as e:
                v = e
            # exact thirds and the like would differ by rounding: inputs are dyadic
            if fixed or cached is None:
                res = []

                def fn(S):
                    r = f(S)
                    c = S.ctx
                    res.append((c, r))
                S_int = harness.SymS.int
                con = harness.Contract(fn, 'T', ['numpy'], name, True, 3, 0, 0, 60, '', 5)
                con.only = None
                try:
                    ctxs = engine.explore(con, dimvals=dict(C.dims) if fixed else None)
                except (core.Unsupported, z3.Z3Exception) as e:
                    out.append((name, mode, 'unsupported: %s' % e))
                    break
                cached = (ctxs, res)
            ctxs, res = cached
            fine = False
            for c in ctxs:
                s = z3.Solver()
                s.set('timeout', TIMEOUT)
                s.add(*c.pc)
                for inp in c.inputs:
                    n, kd = inp[0], inp[1]
                    if kd == 'dim':
                        s.add(arr.zi(inp[2]) == C.dims[n])
                    elif kd == 'arr' and n in C.inputs:
                        a = inp[2]
                        for i in np.ndindex(*C.inputs[n].shape):
                            t = a.at(*[int(x) for x in i])
                            s.add(core.lift(t)[1] == value(a.kind, C.inputs[n][i]) if not isinstance(t, z3.ExprRef)
                                  else t == value(a.kind, C.inputs[n][i]))
                    elif n in C.inputs:
                        s.add(inp[2] == value('f' if kd == 'real' else 'i', C.inputs[n]))
                rs = [r for x, r in res if x is c]
                if isinstance(v, Exception):
                    # an obligation of the path fails on it
                    bad = [z3.Not(z3.Implies(z3.And(*pc) if pc else z3.BoolVal(True), g)) for _, pc, g in c.obligs]
                    s.add(z3.Or(*bad) if bad else z3.BoolVal(False))
                elif rs:
                    Ctx0 = core.Ctx.cur
                    core.Ctx.cur = c
                    n0 = len(c.pc)
                    try:
                        s.add(equal(rs[0], v))
                        s.add(*c.pc[n0:])
                    except (core.Unsupported, z3.Z3Exception) as e:
                        out.append((name, mode, 'engine: %s' % e))
                        fine = True
                        break
                    finally:
                        core.Ctx.cur = Ctx0
                else:
                    continue
                if s.check() != z3.unsat:
                    fine = True
                    break
            if not fine:
                out.append((name, mode, 'UNSOUND: %s %s -> %r' % (C.dims, {k: v.tolist() if isinstance(v, np.ndarray) else v
                                                                          for k, v in C.inputs.items()}, v)))
                break
    return out


# ----------------------------------------------------------------------------- calendar
def test_calendar():
    """the instances of the lemmas that are not pure definitions, for all days of 400 years"""
    day = _dt.date(1600, 1, 1)
    days = [day + _dt.timedelta(k) for k in range(146097 + 28)]
    out = []
    for i, x in enumerate(days[:146097]):
        y = days[i + 1]
        if not (1 <= x.day <= 31 and 1 <= x.month <= 12 and 1 <= x.timetuple().tm_yday <= 366):
            out.append('range %s' % x)
        if not ((y.day == x.day + 1 and (y.month, y.year) == (x.month, x.year)) or (y.day == 1 and x.day >= 28 and (
                (y.month == x.month + 1 and y.year == x.year) or (y.month == 1 and x.month == 12 and y.year == x.year + 1)))):
            out.append('successor %s' % x)
        if any(days[i + k].day == x.day for k in range(1, 28)):
            out.append('27 days %s' % x)
        if x.weekday() != (x.toordinal() - 1) % 7:
            out.append('week day %s' % x)
    # year, month and day identify a day: strictly increasing tuples
    if any((x.year, x.month, x.day) >= (y.year, y.month, y.day) for x, y in zip(days, days[1:])):
        out.append('injective')
    return out


# -------------------------------------------------------------------------------- dates
def test_dates(rng, rounds):
    """terms of symbolic dates, evaluated at the values that the standard library is given"""
    out = []
    fs = {
        'add': (lambda d, t, e, u, k: d + t), 'sub': (lambda d, t, e, u, k: d - t), 'diff': (lambda d, t, e, u, k: d - e),
        'mod': (lambda d, t, e, u, k: t % u), 'floordiv': (lambda d, t, e, u, k: t // u), 'div': (lambda d, t, e, u, k: t / u),
        'floordiv_n': (lambda d, t, e, u, k: t // k), 'mul': (lambda d, t, e, u, k: t * k), 'seconds': (lambda d, t, e, u, k: t.seconds),
        'days': (lambda d, t, e, u, k: t.days), 'us': (lambda d, t, e, u, k: t.microseconds),
        'total': (lambda d, t, e, u, k: t.total_seconds()), 'hour': (lambda d, t, e, u, k: d.hour),
        'minute': (lambda d, t, e, u, k: d.minute), 'second': (lambda d, t, e, u, k: d.second),
        'weekday': (lambda d, t, e, u, k: d.weekday()), 'isoweekday': (lambda d, t, e, u, k: d.isoweekday()),
        'time_hour': (lambda d, t, e, u, k: d.time().minute), 'lt': (lambda d, t, e, u, k: d < e), 'le_t': (lambda d, t, e, u, k: t <= u),
        'replace': (lambda d, t, e, u, k: d.replace(hour=4, minute=0, second=0, microsecond=0)),
        'neg': (lambda d, t, e, u, k: -t), 'ordinal': (lambda d, t, e, u, k: d.toordinal()), 'abs': (lambda d, t, e, u, k: abs(t)),
        'eq': (lambda d, t, e, u, k: d == e), 'div_us': (lambda d, t, e, u, k: (d - e) // u)}
    for name, f in fs.items():
        for n in range(rounds):
            us = lambda hi: rng.choice([0, 1, 10**6, 60 * 10**6, 86400 * 10**6, rng.randint(0, hi)])
            d = _dt.datetime(1999, 12, 31) + _dt.timedelta(microseconds=us(10**16))
            e = _dt.datetime(1999, 12, 31) + _dt.timedelta(microseconds=us(10**16))
            t = _dt.timedelta(microseconds=rng.choice([1, 1, -1]) * us(10**13))
            u = _dt.timedelta(microseconds=1 + us(10**11))
            k = rng.randint(1, 9)
            want = f(d, t, e, u, k)
            c = core.Ctx([], stats={})
            core.Ctx.cur = c
            try:
                zs = [z3.Int(x) for x in 'dteu']
                vals = [dt.td_us(d - dt.EPOCH), dt.td_us(t), dt.td_us(e - dt.EPOCH), dt.td_us(u)]
                c.assume(zs[3] > 0)
                c.assume(z3.And(zs[0] >= 0, zs[2] >= 0))
                try:
                    got = f(dt.SDT(zs[0]), dt.STD(zs[1]), dt.SDT(zs[2]), dt.STD(zs[3]), k)
                except core.Unsupported as x:
                    out.append((name, 'unsupported: %s' % x))
                    break
                sub = [(a, z3.IntVal(b)) for a, b in zip(zs, vals)]
                w = dt.us_of(want)
                g = got.t if dt.us_of(got) is not None else core.lift(got)[1]
                if w is None:
                    if isinstance(want, bool):
                        w = z3.BoolVal(want)
                    elif isinstance(want, float):
                        exact = {'div': core.fractions.Fraction(vals[1], vals[3]),
                                 'total': core.fractions.Fraction(vals[1], 10**6)}[name]
                        w = z3.RealVal(str(exact))
                    else:
                        w = z3.IntVal(want)
                s = z3.Solver()
                s.set('timeout', TIMEOUT)
                s.add(*[z3.substitute(p, *sub) for p in c.pc])
                s.add(z3.substitute(g, *sub) == w)
                if s.check() == z3.unsat:
                    out.append((name, 'UNSOUND: %s' % ((d, t, e, u, k, want),)))
                    break
            finally:
                core.Ctx.cur = None
    return out


# ------------------------------------------------------------------------------- linear
def test_linear(rng, rounds):
    """formulas true of a random assignment: their abstraction must not become unsatisfiable"""
    out = []
    R, I = [z3.Real('x%d' % i) for i in range(4)], [z3.Int('k%d' % i) for i in range(3)]
    F = z3.Function('F', z3.IntSort(), z3.RealSort())
    for n in range(rounds):
        m = {}
        for v in R:
            m[v.get_id()] = (v, z3.RealVal(str(core.fractions.Fraction(rng.randint(-6, 6), rng.choice([1, 2, 3])))))
        for v in I:
            m[v.get_id()] = (v, z3.IntVal(rng.randint(-3, 3)))
        table = {k: core.fractions.Fraction(rng.randint(-3, 3), 2) for k in range(-60, 61)}
        sub = list(m.values())

        def ev(t):
            t = z3.simplify(z3.substitute(t, *sub))
            for _ in range(4):
                apps = {}
                purify.apps(t, apps, set())
                r = [(a, z3.RealVal(str(table.get(a.arg(0).as_long(), 0)))) for a in apps.get('F', {}).values()
                     if z3.is_int_value(a.arg(0))]
                if not r:
                    break
                t = z3.simplify(z3.substitute(t, *r))
            return t

        def term(d):
            k = rng.randint(0, 9)
            if d == 0 or k == 0:
                return rng.choice(R + [z3.RealVal(rng.randint(-2, 2)), z3.ToReal(rng.choice(I)), F(rng.choice(I))])
            if k < 3:
                return term(d - 1) + term(d - 1)
            if k == 3:
                return term(d - 1) - term(d - 1)
            if k < 7:
                return term(d - 1) * term(d - 1)
            if k == 7:
                den = term(d - 1)
                return term(d - 1) / den if nonzero(den) else den
            if k == 8:
                return z3.If(atom(d - 1), term(d - 1), term(d - 1))
            return z3.ToReal(rng.choice(I) * rng.choice(I) + rng.choice(I))

        def nonzero(t):
            v = ev(t)
            return z3.is_rational_value(v) and v.as_fraction() != 0

        def atom(d):
            a, b = term(d), term(d)
            f = rng.choice([lambda: a <= b, lambda: a < b, lambda: a == b, lambda: a != b])()
            return f

        def formula(d):
            k = rng.randint(0, 4)
            if d == 0 or k < 2:
                f = atom(2)
            elif k == 2:
                f = z3.And(formula(d - 1), formula(d - 1))
            elif k == 3:
                f = z3.Or(formula(d - 1), formula(d - 1))
            else:
                f = z3.Implies(formula(d - 1), formula(d - 1))
            return f
        fs = []
        for _ in range(rng.randint(2, 6)):
            f = formula(2)
            v = ev(f)
            if z3.is_true(v):
                fs.append(f)
            elif z3.is_false(v):
                fs.append(z3.Not(f))
        try:
            # every divisor that is different from zero under the assignment is declared so, as a fact
            seen = []

            def nz(t):
                if nonzero(t):
                    seen.append(t)
                    return True
                return False
            g = purify.abstracted(fs, nz)
        except purify.TooBig:
            continue
        if g is None:
            continue
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*g)
        if s.check() == z3.unsat:
            out.append(('linear', 'UNSOUND: %s under %s' % (fs, sub)))
            break
    return out


def main():
    rounds = int(sys.argv[1]) if len(sys.argv) > 1 else 4
    seed = os.environ.get('VERIF_SEED', '1')
    bad = 0
    with multiprocessing.get_context('fork').Pool(int(os.environ.get('DV_PROC', 0)) or os.cpu_count()) as pool:
        rs = pool.map_async(test_op, [(n, rounds, seed) for n in OPS], chunksize=1)
        cal = pool.apply_async(test_calendar)
        das = [pool.apply_async(test_dates, (random.Random(seed), 6 * rounds))]
        lin = [pool.apply_async(test_linear, (random.Random('%s %d' % (seed, k)), 25 * rounds)) for k in range(8)]
        n = 0
        for r in rs.get():
            n += 1
            for x in r:
                print(*x)
                bad += 'UNSOUND' in x[2]
        for x in cal.get():
            print('calendar', x)
            bad += 1
        for q in das + lin:
            for x in q.get():
                print(*x)
                bad += 'UNSOUND' in x[1]
    print('%d operations, calendar, dates, linear abstraction: %s' % (n, 'ok' if not bad else '%d DEFECTS' % bad))
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
