"""The object that stands for `numpy` inside the twin modules.

Every function dispatches to real numpy when no argument is symbolic, so concrete
sub-computations of the code under contract run on the real library.
"""
from __future__ import annotations
import builtins
import types

import numpy as np
import z3

from . import arr
from .arr import SArr, toarr, has_sym, zdim, zi, kind_of_dtype, out_scalar
from .core import (Ctx, ctx, SVal, SBool, SInt, SReal, _mk, lift, Unsupported, real_int,
                   real_float, real_bool, real_isinstance as isinst, real_len, quant)


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinst(x, (np.ndarray, SArr))

    def __subclasscheck__(cls, c):
        return issubclass(c, (np.ndarray, SArr))

    def __call__(cls, *a, **k):
        return np.ndarray(*a, **k)

    def __getitem__(cls, k):
        return cls


class ndarray(metaclass=_NdMeta):
    pass


def _unw(x):
    """unwrap shim types before calling real numpy"""
    if x is ndarray:
        return np.ndarray
    return x


def S(*xs):
    return any(has_sym(x) for x in xs)


def wrap(fn, name):
    """real numpy function: concrete only"""
    def f(*a, **k):
        if S(a, k):
            raise Unsupported('np.%s on symbolic arguments' % name)
        return fn(*[_unw(x) for x in a], **{kk: _unw(v) for kk, v in k.items()})
    f.__name__ = name
    return f


class Shim(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(np, name)
        if isinst(v, type) or not callable(v):
            return v
        return wrap(v, name)


shim = Shim('numpy')
REG = {}


def reg(name=None):
    def d(f):
        n = name or f.__name__.rstrip('_')
        real = getattr(np, n)

        def g(*a, **k):
            if not S(a, k):
                return real(*[_unw(x) for x in a], **{kk: _unw(v) for kk, v in k.items()})
            if k.get('out') is not None or 'where' in k:
                raise Unsupported('np.%s out/where' % n)
            k.pop('out', None)
            return f(*a, **k)
        g.__name__ = n
        g.__wrapped_name__ = n
        setattr(shim, n, g)
        REG[n] = g
        return g
    return d


shim.ndarray = ndarray
shim.newaxis = None


# ------------------------------------------------------------------ construction
def _arr(x, dtype=None, copy=True, ndmin=0, order=None, subok=None):
    if isinst(x, SArr):
        r = arr.copy(x) if copy else x
    elif isinst(x, SVal):
        r = arr.scalar_arr(x)
    else:
        r = arr.from_list(x)
    if dtype is not None:
        k = kind_of_dtype(dtype)
        if k != r.kind:
            r = arr.astype(r, k)
    while r.ndim < ndmin:
        r = r[None]
    return r


@reg()
def array(x, dtype=None, copy=True, ndmin=0, **k):
    return _arr(x, dtype, copy, ndmin)


@reg()
def asarray(x, dtype=None, **k):
    return _arr(x, dtype, copy=False)


@reg()
def asfarray(x, **k):
    return _arr(x, float, copy=False)


def _shape(s):
    if isinst(s, SArr) and s.ndim == 1:
        return [zdim(x) for x in s]
    if isinst(s, (tuple, list)):
        return [zdim(x) for x in s]
    return [zdim(s)]


def _check_dims(shp):
    for d in shp:
        if not isinst(d, real_int):
            if not ctx().entails(d >= 0):
                ctx().oblige('safety: array dimension is non-negative', d >= 0)


def _const(name, val):
    def f(shape, dtype=None, order=None):
        shp = _shape(shape)
        _check_dims(shp)
        k = kind_of_dtype(dtype)
        t = arr.cast('i', z3.IntVal(val), k)
        return arr.full(shp, k, t)
    f.__name__ = name
    return f


reg('zeros')(_const('zeros', 0))
reg('ones')(_const('ones', 1))


@reg()
def empty(shape, dtype=None, order=None):
    shp = _shape(shape)
    _check_dims(shp)
    return arr.fresh('empty', shp, kind_of_dtype(dtype))


@reg()
def full(shape, v, dtype=None, order=None):
    shp = _shape(shape)
    _check_dims(shp)
    if isinst(v, (SArr, np.ndarray, list, tuple)):
        r = arr.copy(arr.broadcast_to(toarr(v), shp))
        return arr.astype(r, kind_of_dtype(dtype)) if dtype is not None else r
    k, t, n = lift(v)
    k2 = kind_of_dtype(dtype) if dtype is not None else k
    return arr.full(shp, k2, arr.cast(k, t, k2), n)


def _like(name, val):
    def f(a, dtype=None, shape=None, **kw):
        a = toarr(a)
        k = kind_of_dtype(dtype) if dtype is not None else a.kind
        if k not in 'bif':
            raise Unsupported('*_like of kind ' + k)
        return arr.full(_shape(shape) if shape is not None else a._shape, k, arr.cast('i', z3.IntVal(val), k))
    return f


reg('zeros_like')(_like('zeros_like', 0))
reg('ones_like')(_like('ones_like', 1))


@reg()
def empty_like(a, dtype=None, **kw):
    a = toarr(a)
    return arr.fresh('empty', a._shape, kind_of_dtype(dtype) if dtype is not None else a.kind)


@reg()
def full_like(a, v, dtype=None, **kw):
    a = toarr(a)
    k = kind_of_dtype(dtype) if dtype is not None else a.kind
    if isinst(v, (SArr, np.ndarray, list, tuple)):
        return arr.astype(arr.copy(arr.broadcast_to(toarr(v), a._shape)), k)
    kv, t, n = lift(v)
    return arr.full(a._shape, k, arr.cast(kv, t, k), n if k == 'f' else None)


@reg()
def arange(*a, dtype=None):
    start, step = 0, 1
    if real_len(a) == 1:
        stop = a[0]
    elif real_len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    start, stop, step = [x.item() if isinst(x, SArr) else x for x in (start, stop, step)]
    ks, ts, _ = lift(start)
    ke, te, _ = lift(stop)
    kst, tst, _ = lift(step)
    if 'f' in (ks, ke, kst):
        raise Unsupported('np.arange on floats')
    ts, te, tst = [arr.to_intt(k, t) for k, t in ((ks, ts), (ke, te), (kst, tst))]
    st = z3.simplify(tst)
    if not z3.is_int_value(st) or st.as_long() < 1:
        raise Unsupported('np.arange with symbolic/negative step')
    st = st.as_long()
    n = z3.simplify(te - ts if st == 1 else (te - ts + st - 1) / st)
    if not ctx().entails(n >= 0):
        n = z3.If(n < 0, z3.IntVal(0), n)
    r = SArr((zdim(n),), 'i', lambda i: z3.simplify(ts + st * zi(i)) if not z3.is_int_value(ts) or ts.as_long() != 0 or st != 1 else zi(i))
    if dtype is not None:
        r = arr.astype(r, kind_of_dtype(dtype))
    return r


@reg()
def linspace(a, b, num=50, **k):
    n = zdim(num)
    if k:
        raise Unsupported('linspace kwargs')
    (ka, ta, _), (kb, tb, _) = lift(a), lift(b)
    ta, tb = arr.cast(ka, ta, 'f'), arr.cast(kb, tb, 'f')
    if isinst(n, real_int) and n == 1:
        return arr.full((1,), 'f', ta)
    ctx().oblige('safety: linspace with a number of points', zi(n) >= 0)
    return SArr((n,), 'f', lambda i: z3.If(zi(n) == 1, ta, ta + z3.ToReal(zi(i)) * (tb - ta) / z3.ToReal(zi(n) - 1)))


# ------------------------------------------------------------------ elementwise
for _n, _op in [('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'), ('divide', 'truediv'),
                ('true_divide', 'truediv'), ('floor_divide', 'floordiv'), ('mod', 'mod'),
                ('remainder', 'mod'), ('power', 'pow'), ('equal', 'eq'), ('not_equal', 'ne'),
                ('less', 'lt'), ('less_equal', 'le'), ('greater', 'gt'), ('greater_equal', 'ge'),
                ('minimum', 'minimum'), ('maximum', 'maximum'), ('bitwise_and', 'and'),
                ('bitwise_or', 'or'), ('bitwise_xor', 'xor')]:
    reg(_n)(lambda a, b, _op=_op, dtype=None: arr.binary(_op, a, b))

for _n, _op in [('abs', 'abs'), ('absolute', 'abs'), ('negative', 'neg'), ('invert', 'invert'),
                ('bitwise_not', 'invert'), ('isnan', 'isnan'), ('exp', 'exp'), ('log', 'log'),
                ('sqrt', 'sqrt'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'),
                ('arcsin', 'arcsin'), ('arccos', 'arccos'), ('arctan', 'arctan'),
                ('floor', 'floor'), ('ceil', 'ceil'), ('square', 'square'), ('sign', 'sign'),
                ('radians', 'radians'), ('deg2rad', 'radians'), ('degrees', 'degrees'),
                ('rint', 'round')]:
    reg(_n)(lambda a, _op=_op: arr.unary(_op, a if isinst(a, SVal) else toarr(a)))


def _round(a, decimals=0):
    if decimals != 0:
        raise Unsupported('round to decimals')
    return arr.unary('round', a)


reg('round')(_round)
reg('around')(_round)


def _tobool(a):
    if isinst(a, SVal):
        return SBool(arr.as_z3bool(a))
    return arr.astype(toarr(a), 'b')


class LogicUfunc:
    def __init__(self, name, op):
        self.name, self.op = name, op

    def __call__(self, a, b):
        if not S(a, b):
            return getattr(np, self.name)(a, b)
        return arr.binary(self.op, _tobool(a), _tobool(b))

    def reduce(self, xs, axis=0):
        if not S(xs):
            return getattr(np, self.name).reduce(xs, axis=axis)
        if isinst(xs, (tuple, list)) and axis == 0:
            r = None
            for x in xs:
                r = _tobool(x) if r is None else arr.binary(self.op, r, _tobool(x))
            return r
        if self.op == 'or':
            return arr.any_(toarr(xs), axis)
        return arr.all_(toarr(xs), axis)


shim.logical_and = LogicUfunc('logical_and', 'and')
shim.logical_or = LogicUfunc('logical_or', 'or')
shim.logical_xor = LogicUfunc('logical_xor', 'xor')


@reg()
def logical_not(a):
    return arr.unary('invert', _tobool(a))


@reg()
def where(c, *xy):
    if not xy:
        return arr.nonzero(c)
    return arr.where3(c, *xy)


@reg()
def nonzero(a):
    return arr.nonzero(a)


@reg()
def flatnonzero(a):
    return arr.nonzero(arr.reshape(toarr(a), (-1,)))[0]


@reg()
def argwhere(a):
    return shim.stack(arr.nonzero(a), axis=-1)


@reg()
def count_nonzero(a, axis=None):
    return arr.sum_(_tobool(a), axis)


@reg()
def clip(a, lo=None, hi=None, **k):
    return arr.clip(a, lo, hi)


@reg()
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    d = arr.unary('abs', arr.binary('sub', a, b))
    return arr.binary('le', d, arr.binary('add', atol, arr.binary('mul', rtol, arr.unary('abs', b) if has_sym(b) else np.abs(b))))


@reg()
def allclose(a, b, **k):
    return arr.all_(toarr(isclose(a, b, **k)))


@reg()
def array_equal(a, b, **k):
    a, b = toarr(a), toarr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not arr.deq(x, y):
            if isinst(x, real_int) and isinst(y, real_int):
                return False
            if not real_bool(SBool(zi(x) == zi(y))):
                return False
    return arr.all_(toarr(arr.binary('eq', a, b)))


# ------------------------------------------------------------------ reductions
def _cat(a):
    """np functions accept lists"""
    return a if isinst(a, (SArr, SVal)) else toarr(a)


@reg('sum')
def sum_(a, axis=None, dtype=None, keepdims=False):
    r = arr.sum_(_cat(a), axis, keepdims)
    return r.astype(dtype) if dtype is not None else r


@reg()
def nansum(a, axis=None):
    a = _cat(a)
    if isinst(a, SVal):
        return a
    return arr.sum_(nan_to_num(a), axis)


@reg()
def nan_to_num(a, copy=True, nan=0.0):
    if not copy or nan != 0.0:
        raise Unsupported('nan_to_num with options')
    a = _cat(a)
    if isinst(a, SVal):
        raise Unsupported('nan_to_num of a number')
    s = arr.snapshot(a)

    def f(*i):
        v, n = s(i)
        return v if n is None else arr.ite(n, arr.cast('i', z3.IntVal(0), a.kind), v)
    return SArr(a._shape, a.kind, f)


@reg('prod')
def prod_(a, axis=None):
    a = toarr(a)
    if a.ndim == 1 and isinst(a._shape[0], real_int):
        r = 1
        for x in a:
            r = r * x
        return r
    raise Unsupported('prod')


@reg('mean')
def mean_(a, axis=None):
    return arr.mean(_cat(a), axis)


@reg()
def average(a, axis=None, weights=None):
    if weights is None:
        return arr.mean(_cat(a), axis)
    a, w = toarr(a), toarr(weights)
    if axis is not None and w.ndim != a.ndim:
        ax = axis % a.ndim
        sh = [None] * a.ndim
        sh[ax] = slice(None)
        w = w[tuple(sh)]
    den = arr.sum_(arr.astype(toarr(weights), 'f'), None if weights is not None and toarr(weights).ndim == 1 else axis)
    return arr.binary('truediv', arr.sum_(toarr(arr.binary('mul', a, w)), axis), den)


@reg('any')
def any_(a, axis=None, **k):
    return arr.any_(_cat(a), axis)


@reg('all')
def all_(a, axis=None, **k):
    return arr.all_(_cat(a), axis)


for _n, _w in [('max', 'max'), ('min', 'min'), ('amax', 'max'), ('amin', 'min')]:
    reg(_n)(lambda a, axis=None, _w=_w: arr.minmax(_cat(a), axis, _w))


@reg('argmax')
def argmax_(a, axis=None):
    return arr.argmax(a, axis)


@reg('argmin')
def argmin_(a, axis=None):
    return arr.argmax(a, axis, 'min')


@reg('cumsum')
def cumsum_(a, axis=None, dtype=None):
    return arr.cumsum(a, axis)


@reg()
def diff(a, n=1, axis=-1, **k):
    if n != 1 or k:
        raise Unsupported('diff')
    a = toarr(a)
    axis %= a.ndim
    hi = [slice(None)] * a.ndim
    lo = [slice(None)] * a.ndim
    hi[axis] = slice(1, None)
    lo[axis] = slice(None, -1)
    x, y = a[tuple(hi)], a[tuple(lo)]
    if a.kind == 'b':
        return arr.binary('xor', x, y)
    return arr.binary('sub', x, y)


# ------------------------------------------------------------------ shapes
@reg('reshape')
def reshape_(a, shape, order='C'):
    return toarr(a).reshape(shape)


@reg('transpose')
def transpose_(a, axes=None):
    return arr.transpose(a, axes)


@reg('moveaxis')
def moveaxis_(a, s, d):
    return arr.moveaxis(a, s, d)


@reg()
def swapaxes(a, x, y):
    a = toarr(a)
    p = list(range(a.ndim))
    p[x], p[y] = p[y], p[x]
    return arr.transpose(a, p)


@reg('broadcast_to')
def broadcast_to_(a, shape, **k):
    return arr.broadcast_to(a, _shape(shape))


@reg()
def expand_dims(a, axis):
    a = toarr(a)
    key = [slice(None)] * a.ndim
    axis %= a.ndim + 1
    key.insert(axis, None)
    return a[tuple(key)]


@reg('concatenate')
def concatenate_(xs, axis=0, **k):
    return arr.concatenate(xs if isinst(xs, SArr) else list(xs), axis)


@reg()
def append(a, b, axis=None):
    if axis is None:
        return arr.concatenate([arr.reshape(toarr(a), (-1,)), arr.reshape(toarr(b), (-1,))])
    return arr.concatenate([a, b], axis)


@reg()
def stack(xs, axis=0):
    xs = [toarr(x) for x in xs]
    nd = xs[0].ndim + 1
    axis %= nd
    key = [slice(None)] * (nd - 1)
    key.insert(axis, None)
    return arr.concatenate([x[tuple(key)] for x in xs], axis)


@reg()
def column_stack(xs):
    return arr.concatenate([x if toarr(x).ndim > 1 else toarr(x)[:, None] for x in xs], 1)


@reg()
def vstack(xs):
    return arr.concatenate([x if toarr(x).ndim > 1 else toarr(x)[None, :] for x in xs], 0)


@reg()
def hstack(xs):
    xs = [toarr(x) if toarr(x).ndim else toarr(x)[None] for x in xs]
    return arr.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


class _CR:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, key):
        if not S(key):
            return getattr(np, self.name)[key]
        if not isinst(key, tuple):
            key = (key,)
        xs = []
        for k in key:
            if isinst(k, (slice, str)):
                raise Unsupported('np.%s_ slices' % self.name)
            k = toarr(k)
            if self.name == 'c_':
                if k.ndim == 0:
                    k = k[None]
                if k.ndim == 1:
                    k = k[:, None]
            elif k.ndim == 0:
                k = arr.reshape(k, (1,))
            xs.append(k)
        return arr.concatenate(xs, -1 if self.name == 'c_' else 0)


shim.c_ = _CR('c_')
shim.r_ = _CR('r_')


@reg('roll')
def roll_(a, shift, axis=None):
    return arr.roll(a, shift, axis)


@reg('repeat')
def repeat_(a, n, axis=None):
    a = toarr(a)
    if isinst(n, (SArr, np.ndarray, list)):
        raise Unsupported('repeat with counts')
    if axis is None and a.ndim == 0:
        a = arr.reshape(a, (1,))
    if axis is None and a.ndim != 1:
        raise Unsupported('repeat flattened')
    axis = (axis or 0) % a.ndim
    m = zdim(n)
    s = arr.snapshot(a)
    d = a._shape[axis]
    if isinst(d, real_int) and d == 1:
        shp = list(a._shape)
        shp[axis] = m
        return SArr(shp, a.kind, lambda *i: s(i[:axis] + (0,) + i[axis + 1:]))
    F, U = arr.flat_pair(d, m)
    shp = list(a._shape)
    shp[axis] = arr.prod_dims([d, m])
    return SArr(shp, a.kind, lambda *i: s(i[:axis] + (U(i[axis])[0],) + i[axis + 1:]))


@reg('tile')
def tile_(a, reps):
    a = toarr(a)
    if isinst(reps, (tuple, list)):
        reps = list(reps)
    else:
        reps = [reps]
    while real_len(reps) > a.ndim:
        a = a[None]
    while real_len(reps) < a.ndim:
        reps = [1] + reps
    for ax, m in enumerate(reps):
        m = zdim(m)
        if isinst(m, real_int) and m == 1:
            continue
        d = a._shape[ax]
        s = arr.snapshot(a)
        shp = list(a._shape)
        if isinst(d, real_int) and d == 1:
            shp[ax] = m
            a = SArr(shp, a.kind, (lambda s, ax: lambda *i: s(i[:ax] + (0,) + i[ax + 1:]))(s, ax))
            continue
        F, U = arr.flat_pair(m, d)
        shp[ax] = arr.prod_dims([m, d])
        a = SArr(shp, a.kind, (lambda s, ax, U: lambda *i: s(i[:ax] + (U(i[ax])[1],) + i[ax + 1:]))(s, ax, U))
    return arr.copy(a)


@reg('flip')
def flip_(a, axis=None):
    a = toarr(a)
    key = [slice(None, None, -1) if axis is None or i == axis % a.ndim else slice(None)
           for i in range(a.ndim)]
    return a[tuple(key)]


@reg('shape')
def shape_(a):
    return toarr(a).shape


@reg('ndim')
def ndim_(a):
    return toarr(a).ndim


@reg('size')
def size_(a, axis=None):
    return toarr(a).size


@reg('copy')
def copy_(a, **k):
    return arr.copy(a)


@reg('ravel')
def ravel_(a):
    return toarr(a).flatten()


@reg('dot')
def dot_(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return arr.sum_(toarr(arr.binary('mul', a, b)))
    if a.ndim == 2 and b.ndim == 1:
        return arr.sum_(toarr(arr.binary('mul', a, b)), 1)
    if a.ndim == 2 and b.ndim == 2:
        return arr.sum_(toarr(arr.binary('mul', a[:, :, None], b[None, :, :])), 1)
    if a.ndim == 0 or b.ndim == 0:
        return arr.binary('mul', a, b)
    raise Unsupported('dot')


# ------------------------------------------------------------------ sets
@reg('isin')
def isin_(x, ys, invert=False, **k):
    return arr.isin(x, ys, invert)


@reg('in1d')
def in1d_(x, ys, invert=False, **k):
    return arr.isin(x, ys, invert)


@reg('unique')
def unique_(a, axis=None, **k):
    if axis is not None:
        raise Unsupported('unique axis')
    return arr.unique(a, **k)


@reg('sort')
def sort_(a, axis=-1, **k):
    return arr.sort(a, axis)


@reg('argsort')
def argsort_(a, axis=-1, kind=None, order=None, **k):
    return arr.argsort(a, axis, kind)


@reg('searchsorted')
def searchsorted_(a, v, side='left', **k):
    return arr.searchsorted(a, v, side)


@reg('digitize')
def digitize_(x, bins, right=False):
    return arr.searchsorted(bins, x, side='left' if right else 'right')


@reg('bincount')
def bincount_(a, minlength=0, weights=None):
    return arr.bincount(a, minlength, weights)


# ------------------------------------------------------------------ random
class RandomShim:
    """Draws are unconstrained values of the documented range (recorded in order)."""
    WHY = 'np.random draws are arbitrary values of the documented range'

    def _draw(self, name, size, kind, lo=None, hi=None, hi_strict=True, lo_strict=False):
        c = ctx()
        if size is None:
            shp = ()
        else:
            shp = tuple(_shape(size))
        a = arr.fresh(name, shp, kind)

        def bounds(*i):
            v = a.at(*i)
            cs = []
            if lo is not None:
                l = _at(lo, i)
                cs.append(v > l if lo_strict else v >= l)
            if hi is not None:
                h = _at(hi, i)
                cs.append(v < h if hi_strict else v <= h)
            return z3.And(*cs) if cs else z3.BoolVal(True)

        def _at(b, i):
            if isinst(b, SArr):
                if b.ndim == 0:
                    return arr.cast(b.kind, b.at(), kind)
                return arr.cast(b.kind, b.at(*arr.bidx(b._shape, i)), kind)
            k, t, _ = lift(b)
            return arr.cast(k, t, kind)
        if lo is not None or hi is not None:
            if not shp:
                c.axiom(bounds(), self.WHY)
            else:
                qs = [z3.Int(c.fresh_name('?d')) for _ in shp]
                body = z3.Implies(z3.And(*[z3.And(q >= 0, q < zi(d)) for q, d in zip(qs, a._shape)]),
                                  bounds(*qs))
                c.axiom(arr.forall_z3(qs, body, [a.fn(*qs)]), self.WHY)
                if c.fixed_dims is not None and all(isinst(d, real_int) for d in a._shape):
                    c.pc.pop()
                    c.axiom(quant(a._shape, bounds), self.WHY)
        c.draws.append((name, a))
        return out_scalar(a) if not shp else a

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (isinst(low, SArr) or isinst(high, SArr)):
            size = [arr.odim(d) for d in arr.bshape([toarr(low)._shape, toarr(high)._shape])]
        if isinst(low, (real_int, real_float)) and isinst(high, (real_int, real_float)) and low == 0 and high == 1:
            return self._draw('uniform', size, 'f', 0.0, 1.0)
        # low + (high-low)*u, exactly as numpy computes it
        u = self._draw('uniform', size, 'f', 0.0, 1.0)
        return arr.binary('add', low, arr.binary('mul', arr.binary('sub', high, low), u))

    def rand(self, *shape):
        return self._draw('uniform', shape or None, 'f', 0.0, 1.0)

    def random(self, size=None):
        return self._draw('uniform', size, 'f', 0.0, 1.0)

    random_sample = random

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if size is None and isinst(high, SArr):
            size = high.shape
        lo, hi = lift_dim(low), lift_dim(high)
        g = arr.binary('lt', low, high)
        ctx().oblige('safety: randint low < high',
                     arr.as_z3bool(g) if not isinst(g, SArr) else arr.as_z3bool(arr.all_(g)))
        return self._draw('randint', size, 'i', low, high)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (isinst(loc, SArr) or isinst(scale, SArr)):
            size = [arr.odim(d) for d in arr.bshape([toarr(loc)._shape, toarr(scale)._shape])]
        z = self._draw('normal', size, 'f')
        return arr.binary('add', loc, arr.binary('mul', scale, z))

    def randn(self, *shape):
        return self._draw('normal', shape or None, 'f')

    def poisson(self, lam=1.0, size=None):
        if size is None and isinst(lam, SArr):
            size = lam.shape
        return self._draw('poisson', size, 'i', 0)

    def binomial(self, n, p, size=None):
        if size is None:
            size = [arr.odim(d) for d in arr.bshape([toarr(n)._shape, toarr(p)._shape])] or None
        return self._draw('binomial', size, 'i', 0, n, hi_strict=False)

    def exponential(self, scale=1.0, size=None):
        u = self._draw('exponential', size, 'f', 0)
        return arr.binary('mul', scale, u)

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        raise Unsupported('np.random.%s' % n)


def lift_dim(x):
    return x


shim.random = RandomShim()


class _Testing:
    pass
