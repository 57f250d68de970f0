"""Symbolic numpy arrays: shape (dims may be terms) + element function index -> term."""
from __future__ import annotations
import builtins
import itertools

import numpy as np
import z3

from .core import (Ctx, ctx, SVal, SBool, SInt, SReal, _mk, lift, cast, binop, unop, ite,
                   promote, Unsupported, as_z3bool, quant, or_nan, to_intt, real_int,
                   real_bool, real_float, real_isinstance, real_len, forall_z3, intern_str)

isinst = real_isinstance


# ------------------------------------------------------------------ dims
def zdim(d):
    """any dim -> python int or z3 Int term"""
    if isinst(d, SInt):
        d = d.t
    if isinst(d, (real_int, np.integer)):
        return real_int(d)
    if isinst(d, SReal):
        raise TypeError('float dimension')
    s = z3.simplify(d)
    if z3.is_int_value(s):
        return s.as_long()
    return s


def odim(d):
    return d if isinst(d, real_int) else SInt(d)


def zi(d):
    return z3.IntVal(d) if isinst(d, real_int) else d


def deq(a, b):
    """dims equal: proved?"""
    if isinst(a, real_int) and isinst(b, real_int):
        return a == b
    a, b = zi(a), zi(b)
    if a.eq(b):
        return True
    return ctx().entails(a == b)


def require_deq(a, b, why):
    if deq(a, b):
        return
    if isinst(a, real_int) and isinst(b, real_int):
        raise ValueError('%s: shape mismatch %s vs %s' % (why, a, b))
    ctx().oblige('safety: ' + why + ' (shapes agree)', zi(a) == zi(b))


def prod_dims(ds):
    r = 1
    for d in ds:
        if isinst(r, real_int) and r == 1:
            r = d
        elif isinst(d, real_int) and d == 1:
            pass
        else:
            r = r * d
    return zdim(r)


def kind_of_dtype(dt):
    if dt is None:
        return 'f'
    if dt in ('b', 'i', 'f', 's'):
        return dt
    pd = getattr(dt, '_realtype', None)
    if pd is not None:
        dt = pd
    if dt is real_bool:
        return 'b'
    if dt is real_int:
        return 'i'
    if dt is real_float:
        return 'f'
    if dt is str:
        return 's'
    if isinst(dt, DType):
        return dt.kind
    k = np.dtype(dt).kind
    if k in 'iu':
        return 'i'
    if k in 'bf':
        return k
    if k in 'US':
        return 's'
    raise Unsupported('dtype %r' % (dt,))


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        try:
            return kind_of_dtype(o) == self.kind
        except Exception:
            return False

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return 'dtype<%s>' % self.kind


SORT = {'b': z3.BoolSort(), 'i': z3.IntSort(), 'f': z3.RealSort(), 's': z3.IntSort(),
        'M': z3.IntSort()}


def default_val(kind):
    return {'b': z3.BoolVal(False), 'i': z3.IntVal(0), 'f': z3.RealVal(0),
            's': z3.IntVal(intern_str(''))}[kind]


def idx_key(idx):
    return tuple(i if isinst(i, real_int) else ('z', i.get_id()) for i in idx)


def norm_idx(idx):
    out = []
    for i in idx:
        if not isinst(i, real_int) and z3.is_int_value(i):
            i = i.as_long()
        out.append(i)
    return tuple(out)


class Store:
    """Element storage of a base array: functional, updated in place."""
    __slots__ = ('f', 'cache', 'ver')

    def __init__(self, f):
        self.f = f
        self.cache = {}
        self.ver = 0

    def get(self, idx):
        idx = norm_idx(idx)
        k = idx_key(idx)
        r = self.cache.get(k)
        if r is None:
            v = self.f(*idx)
            if not isinst(v, tuple):
                v = (v, None)
            self.cache[k] = r = (idx, v)   # idx kept alive: ids are stable
        return r[1]

    def update(self, g):
        """g(idx, old_thunk) -> new"""
        old = Store(self.f)
        old.cache = self.cache

        def f(*idx):
            return g(idx, lambda: old.get(idx))
        self.f = f
        self.cache = {}
        self.ver += 1


class SArr:
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, shape, kind, f=None, store=None, base=None, fwd=None, inv=None,
                 tag=None, readonly=False):
        self._shape = tuple(zdim(d) for d in shape)
        self.kind = kind
        if base is None:
            self.store = store or Store(f)
        self.base, self.fwd, self.inv = base, fwd, inv
        self.tag = tag            # ('pos', Mask, d) provenance of index arrays
        self.readonly = readonly
        self._scalar_of = None

    # -- basic attributes
    @property
    def shape(self):
        return tuple(odim(d) for d in self._shape)

    @property
    def ndim(self):
        return real_len(self._shape)

    @property
    def size(self):
        return odim(prod_dims(self._shape))

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def T(self):
        return transpose(self)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return '<SArr %s %s>' % (self.kind, self._shape)

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        if isinst(self._shape[0], real_int):
            return self._shape[0]
        raise Unsupported('len of an array of symbolic length outside the shim')

    # -- element access (z3 level)
    def get2(self, idx):
        if self.base is None:
            return self.store.get(idx)
        return self.base.get2(self.fwd(idx))

    def at(self, *idx):
        return self.get2(idx)[0]

    def nan_at(self, *idx):
        return self.get2(idx)[1]

    def update(self, g):
        if self.readonly:
            raise Unsupported('write to a reshaped/broadcast array')
        if self.base is None:
            self.store.update(g)
            return
        inv = self.inv

        def g2(bidx, old):
            r = inv(bidx)
            if r is None:
                return old()
            cond, vidx = r
            cond = z3.simplify(cond) if not isinst(cond, real_bool) else z3.BoolVal(cond)
            if z3.is_false(cond):
                return old()
            new = g(vidx, old)
            if not isinst(new, tuple):
                new = (new, None)
            if z3.is_true(cond):
                return new
            o = old()
            return ite2(cond, new, o)
        self.base.update(g2)

    def item(self, *a):
        if a:
            return self[a if real_len(a) > 1 else a[0]]
        if self.ndim == 0:
            v, n = self.get2(())
            return _mk(self.kind, v, n)
        if all(isinst(d, real_int) and d == 1 for d in self._shape):
            v, n = self.get2(tuple(0 for _ in self._shape))
            return _mk(self.kind, v, n)
        raise Unsupported('item() on array')

    def __bool__(self):
        if self.ndim == 0:
            return real_bool(self.item())
        if all(isinst(d, real_int) and d == 1 for d in self._shape):
            return real_bool(self.item())
        if self.ndim == 1:
            c = ctx()
            if c.branch(zi(self._shape[0]) == 1):
                return real_bool(_mk(self.kind, self.at(z3.IntVal(0))))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __index__(self):
        return self.item().__index__()

    def __int__(self):
        return self.item().__index__()

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        n = self._shape[0]
        if not isinst(n, real_int):
            raise Unsupported('iteration over an array of symbolic length')
        return iter([self[i] for i in range(n)])

    def __contains__(self, v):
        return real_bool(any_(binary('eq', self, v)))

    # -- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # -- methods
    def copy(self, order=None):
        return copy(self)

    def astype(self, dt, copy=True):
        return astype(self, kind_of_dtype(dt))

    def reshape(self, *shape, order=None):
        if real_len(shape) == 1 and isinst(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def flatten(self):
        return reshape(copy(self), (-1,))

    ravel = flatten

    def sum(self, axis=None, dtype=None, keepdims=False):
        return sum_(self, axis, keepdims)

    def any(self, axis=None):
        return any_(self, axis)

    def all(self, axis=None):
        return all_(self, axis)

    def min(self, axis=None):
        return minmax(self, axis, 'min')

    def max(self, axis=None):
        return minmax(self, axis, 'max')

    def mean(self, axis=None):
        return mean(self, axis)

    def cumsum(self, axis=None):
        return cumsum(self, axis)

    def argmax(self, axis=None):
        return argmax(self, axis)

    def transpose(self, *a):
        return transpose(self, *a)

    def nonzero(self):
        return nonzero(self)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinst(x, SArr) else x for x in self]

    def fill(self, v):
        self[...] = v

    def clip(self, lo=None, hi=None):
        return clip(self, lo, hi)

    def round(self, nd=0):
        return unary('round', self)

    def squeeze(self):
        raise Unsupported('squeeze')

    def __iadd__(self, o):
        return inplace('add', self, o)

    def __isub__(self, o):
        return inplace('sub', self, o)

    def __imul__(self, o):
        return inplace('mul', self, o)

    def __itruediv__(self, o):
        return inplace('truediv', self, o)

    def __iand__(self, o):
        return inplace('and', self, o)

    def __ior__(self, o):
        return inplace('or', self, o)

    def __ifloordiv__(self, o):
        return inplace('floordiv', self, o)

    def __imod__(self, o):
        return inplace('mod', self, o)

    def __invert__(self):
        return unary('invert', self)

    def __neg__(self):
        return unary('neg', self)

    def __pos__(self):
        return copy(self)

    def __abs__(self):
        return unary('abs', self)


def _arrops():
    def mkb(op, refl):
        def f(a, b):
            if isinst(b, (SArr, SVal, np.ndarray, real_int, real_float, real_bool, np.generic,
                          list, str, tuple)) or b is None:
                if b is None:
                    if op in ('eq', 'ne'):
                        return full(a._shape, 'b', z3.BoolVal(op == 'ne'))
                    return NotImplemented
                return binary(op, b, a) if refl else binary(op, a, b)
            return NotImplemented
        return f
    for name in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'and', 'or', 'xor'):
        setattr(SArr, '__%s__' % name, mkb(name, False))
        setattr(SArr, '__r%s__' % name, mkb(name, True))
    for name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        setattr(SArr, '__%s__' % name, mkb(name, False))


_arrops()
SArr.__hash__ = lambda self: id(self)
ARRAYISH = (SArr, np.ndarray)


def ite2(c, a, b):
    an, bn = a[1], b[1]
    n = None
    if an is not None or bn is not None:
        n = ite(c, an if an is not None else z3.BoolVal(False),
                bn if bn is not None else z3.BoolVal(False))
    return ite(c, a[0], b[0]), n


# ------------------------------------------------------------------ construction
def from_np(a):
    a = np.asarray(a)
    k = a.dtype.kind
    kind = {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'U': 's', 'S': 's'}.get(k)
    if kind is None:
        if k == 'O':
            return from_list(a.tolist())
        raise Unsupported('concrete array of dtype %s' % a.dtype)
    a = a.copy()

    def f(*idx):
        return lookup(a, idx)
    return SArr(a.shape, kind, f)


def lookup(a, idx):
    for d, i in enumerate(idx):
        if not isinst(i, real_int):
            n = a.shape[d]
            if n == 0:
                return (default_val({'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'U': 's'}[a.dtype.kind]), None)
            if n > 512:
                raise Unsupported('symbolic index into a large concrete array')
            res = None
            for v in reversed(range(n)):
                sub = lookup(a, tuple(idx[:d]) + (v,) + tuple(idx[d + 1:]))
                res = sub if res is None else ite2(i == v, sub, res)
            return res
    k, t, n = lift(a[tuple(idx)])
    return (t, n)


def from_list(x):
    """array from (nested) lists possibly containing symbolic values"""
    if isinst(x, SArr):
        return x
    if isinst(x, SVal):
        return scalar_arr(x)
    if isinst(x, np.ndarray) and x.dtype.kind != 'O':
        return from_np(x)
    if hasattr(type(x), '__dvlen__') and hasattr(x, 'make'):
        # sequence of symbolic length: rows described by an arbitrary index
        row = from_list(x[SInt(z3.Int(ctx().fresh_name('k_row')))])
        r1 = from_list(x[SInt(z3.Int(ctx().fresh_name('k_row')))])
        for d1, d2 in zip(row._shape, r1._shape):
            if not (isinst(d1, real_int) and isinst(d2, real_int) and d1 == d2) and not deq(d1, d2):
                raise Unsupported('rows of different lengths')
        return SArr((zdim(x.n),) + row._shape, row.kind,
                    lambda i, *j: from_list(x[_mk('i', zi(i))]).get2(j))
    if isinst(x, (list, tuple, np.ndarray)):
        xs = list(x)
        if not has_sym(xs):
            return from_np(np.array(xs))
        parts = [from_list(e) for e in xs]
        shp = parts[0]._shape
        kind = parts[0].kind
        for p in parts[1:]:
            if real_len(p._shape) != real_len(shp):
                raise ValueError('inhomogeneous shape')
            for d1, d2 in zip(shp, p._shape):
                require_deq(d1, d2, 'stacking arrays')
            kind = promote(kind, p.kind)

        def f(*idx):
            i = idx[0]
            if isinst(i, real_int):
                p = parts[i]
                v, n = p.get2(idx[1:])
                return cast(p.kind, v, kind), n
            res = None
            for j in reversed(range(real_len(parts))):
                v, n = parts[j].get2(idx[1:])
                v = cast(parts[j].kind, v, kind)
                res = (v, n) if res is None else ite2(i == j, (v, n), res)
            return res
        return SArr((real_len(parts),) + shp, kind, f)
    k, t, n = lift(x)
    return SArr((), k, lambda: (t, n))


def has_sym(x):
    if isinst(x, (SVal, SArr)) or hasattr(type(x), '__dvlen__'):
        return True
    if isinst(x, dict):
        return any(has_sym(v) for v in x.values())
    if isinst(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    if isinst(x, np.ndarray) and x.dtype == object:
        return any(has_sym(v) for v in x.ravel())
    return False


def scalar_arr(s):
    k, t, n = lift(s)
    return SArr((), k, lambda: (t, n))


def toarr(x):
    if isinst(x, SArr):
        return x
    if isinst(x, SVal):
        return scalar_arr(x)
    if isinst(x, np.ndarray) and x.dtype.kind != 'O':
        return from_np(x)
    if isinst(x, (list, tuple, np.ndarray)):
        return from_list(x)
    k, t, n = lift(x)
    return SArr((), k, lambda: (t, n))


def full(shape, kind, term, nan=None):
    return SArr(shape, kind, lambda *i: (term, nan))


def fresh(name, shape, kind, nanable=False, nm=None):
    """A fresh array: uninterpreted element function."""
    c = ctx()
    nm = nm or c.fresh_name(name)
    shape = tuple(zdim(d) for d in shape)
    if not shape:
        t = z3.Const(nm, SORT[kind])
        return SArr((), kind, lambda: (t, None))
    fn = z3.Function(nm, *[z3.IntSort()] * real_len(shape), SORT[kind])
    nf = z3.Function(nm + '$nan', *[z3.IntSort()] * real_len(shape), z3.BoolSort()) if nanable else None

    def f(*idx):
        zs = [zi(i) for i in idx]
        return fn(*zs), (nf(*zs) if nf is not None else None)
    a = SArr(shape, kind, f)
    a.fn = fn
    a.nanfn = nf
    return a


def out_scalar(a):
    """numpy returns scalars for 0-d results"""
    if isinst(a, SArr) and a.ndim == 0:
        return a.item()
    return a


def copy(a):
    a = toarr(a)
    if a.base is None:
        s = Store(a.store.f)
        s.cache = a.store.cache
        r = SArr(a._shape, a.kind, store=s)
    else:
        snap = snapshot(a)
        r = SArr(a._shape, a.kind, lambda *i: snap(i))
    r.tag = a.tag
    return r


def snapshot(a):
    """frozen reader of the current content"""
    if a.base is None:
        s = Store(a.store.f)
        s.cache = a.store.cache
        return lambda idx: s.get(idx)
    b = snapshot(a.base)
    fwd = a.fwd
    return lambda idx: b(fwd(idx))


def astype(a, kind):
    a = toarr(a)
    snap = snapshot(a)
    k0 = a.kind
    r = SArr(a._shape, kind, lambda *i: (cast(k0, snap(i)[0], kind),
                                         snap(i)[1] if kind == 'f' else None))
    if kind == k0:
        r.tag = a.tag
    return r


def cast_scalar(s, kind):
    k, t, n = lift(s)
    return _mk(kind, cast(k, t, kind), n if kind == 'f' else None)


# ------------------------------------------------------------------ broadcasting / elementwise
def bshape(shapes, why='broadcast'):
    nd = max(real_len(s) for s in shapes)
    out = []
    for i in range(nd):
        d = 1
        for s in shapes:
            j = i - (nd - real_len(s))
            if j < 0:
                continue
            e = s[j]
            if isinst(e, real_int) and e == 1:
                continue
            if isinst(d, real_int) and d == 1:
                d = e
                continue
            require_deq(d, e, why)
            if isinst(e, real_int):
                d = e
        out.append(d)
    return tuple(out)


def bidx(shape, idx):
    """index into an array of `shape` from an index of the broadcast result"""
    nd = real_len(idx)
    k = nd - real_len(shape)
    return tuple(0 if (isinst(s, real_int) and s == 1) else idx[k + j]
                 for j, s in enumerate(shape))


def binary(op, x, y):
    if isinst(x, (SVal, real_int, real_float, real_bool, np.generic)) and \
            isinst(y, (SVal, real_int, real_float, real_bool, np.generic)):
        return _mk(*binop(op, lift(x), lift(y)))
    a, b = toarr(x), toarr(y)
    if (a.kind == 's') != (b.kind == 's') and op not in ('eq', 'ne'):
        raise Unsupported('string arithmetic')
    shp = bshape([a._shape, b._shape])
    sa, sb, ka, kb = snapshot(a), snapshot(b), a.kind, b.kind
    shA, shB = a._shape, b._shape

    def f(*idx):
        v1, n1 = sa(bidx(shA, idx))
        v2, n2 = sb(bidx(shB, idx))
        k, t, n = binop(op, (ka, v1, n1), (kb, v2, n2))
        return t, n
    kind = result_kind(op, ka, kb)
    return out_scalar(SArr(shp, kind, f))


def result_kind(op, ka, kb):
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        return 'b'
    if op == 'truediv':
        return 'f'
    if op in ('and', 'or', 'xor'):
        if 'f' in (ka, kb) or 's' in (ka, kb):
            raise TypeError('bitwise op on floats')
        return 'b' if ka == kb == 'b' else 'i'
    k = promote(ka, kb)
    if k == 'b':
        if op in ('add', 'mul'):
            return 'b'
        if op == 'sub':
            raise TypeError('numpy boolean subtract')
        return 'i'
    if op == 'pow' and k == 'i':
        return 'i'
    return k


def unary(op, x):
    if isinst(x, SVal):
        return _mk(*unop(op, lift(x)))
    a = toarr(x)
    s, k = snapshot(a), a.kind
    kind = {'isnan': 'b'}.get(op, k)
    if op in ('exp', 'log', 'sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'floor', 'ceil',
              'radians', 'degrees', 'arctan'):
        kind = 'f'
    if op == 'invert' and k == 'f':
        raise TypeError("ufunc 'invert' not supported for floats")
    if op == 'neg' and k == 'b':
        raise TypeError('numpy boolean negative')

    def f(*idx):
        v, n = s(idx)
        _, t, n = unop(op, (k, v, n))
        return t, n
    return out_scalar(SArr(a._shape, kind, f))


def inplace(op, a, b):
    if a.ndim == 0:
        return binary(op, a, b)
    bb = toarr(b)
    shp = bshape([a._shape, bb._shape])
    if real_len(shp) != a.ndim:
        raise ValueError('non-broadcastable output operand')
    for d1, d2 in zip(shp, a._shape):
        require_deq(d1, d2, 'in-place op')
    rk = result_kind(op, a.kind, bb.kind)
    if rk != a.kind:
        if not (rk in 'bi' and a.kind == 'f') and not (rk == 'b' and a.kind == 'i'):
            raise TypeError("Cannot cast ufunc output from %s to %s (same_kind)" % (rk, a.kind))
    sb, shB, kb, ka = snapshot(bb), bb._shape, bb.kind, a.kind

    def g(idx, old):
        v, n = old()
        v2, n2 = sb(bidx(shB, idx))
        k, t, nn = binop(op, (ka, v, n), (kb, v2, n2))
        return cast(k, t, ka), nn
    a.update(g)
    a.tag = None
    return a


def where3(c, x, y):
    c, x, y = toarr(c), toarr(x), toarr(y)
    shp = bshape([c._shape, x._shape, y._shape])
    sc, sx, sy = snapshot(c), snapshot(x), snapshot(y)
    kind = promote(x.kind, y.kind)

    def f(*idx):
        cv = as_z3bool(_mk(c.kind, sc(bidx(c._shape, idx))[0]))
        v1, n1 = sx(bidx(x._shape, idx))
        v2, n2 = sy(bidx(y._shape, idx))
        return ite2(cv, (cast(x.kind, v1, kind), n1), (cast(y.kind, v2, kind), n2))
    return out_scalar(SArr(shp, kind, f))


def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = binary('maximum', r, lo)
    if hi is not None:
        r = binary('minimum', r, hi)
    return r


def broadcast_to(a, shape):
    a = toarr(a)
    shape = tuple(zdim(d) for d in shape)
    out = bshape([a._shape, shape])
    for d1, d2 in zip(out, shape):
        require_deq(d1, d2, 'broadcast_to')
    r = SArr(shape, a.kind, base=a, fwd=lambda idx: bidx(a._shape, idx), inv=None)
    r.readonly = True
    return r


def transpose(a, axes=None):
    a = toarr(a)
    nd = a.ndim
    if isinst(axes, (list, tuple)) and real_len(axes) == 1 and isinst(axes[0], (list, tuple)):
        axes = axes[0]
    p = list(axes) if axes is not None else list(reversed(range(nd)))
    q = [p.index(i) for i in range(nd)]
    return SArr([a._shape[i] for i in p], a.kind, base=a,
                fwd=lambda idx: tuple(idx[q[i]] for i in range(nd)),
                inv=lambda b: (True, tuple(b[p[i]] for i in range(nd))))


def moveaxis(a, src, dst):
    a = toarr(a)
    nd = a.ndim
    src %= nd
    dst %= nd
    order = [i for i in range(nd) if i != src]
    order.insert(dst, src)
    return transpose(a, order)


# ------------------------------------------------------------------ reshape
def flat_pair(d0, d1):
    """bijection between [0,d0)x[0,d1) and [0,d0*d1), row-major"""
    c = ctx()
    key = ('flat', zi(d0).get_id(), zi(d1).get_id())
    if key in c.memo:
        return c.memo[key]
    if isinst(d1, real_int):
        r = (lambda i, j: zi(i) * d1 + zi(j), lambda k: (zi(k) / d1, zi(k) % d1))
        c.memo[key] = r
        return r
    nm = c.fresh_name('flat')
    F = z3.Function(nm, z3.IntSort(), z3.IntSort(), z3.IntSort())
    P = z3.Function(nm + '_0', z3.IntSort(), z3.IntSort())
    Q = z3.Function(nm + '_1', z3.IntSort(), z3.IntSort())
    i, j, k = z3.Ints('?fi ?fj ?fk')
    N = zi(prod_dims([d0, d1]))
    why = 'row-major reshape is a bijection of index boxes'
    c.axiom(forall_z3([i, j], z3.Implies(z3.And(i >= 0, i < d0, j >= 0, j < d1), z3.And(
        F(i, j) >= 0, F(i, j) < N, P(F(i, j)) == i, Q(F(i, j)) == j)), [F(i, j)]), why)
    c.axiom(forall_z3([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(
        P(k) >= 0, P(k) < d0, Q(k) >= 0, Q(k) < d1, F(P(k), Q(k)) == k)), [P(k)]), why)
    c.axiom(forall_z3([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(
        P(k) >= 0, P(k) < d0, Q(k) >= 0, Q(k) < d1, F(P(k), Q(k)) == k)), [Q(k)]), why)

    def unflat(k):
        k = zi(k)
        if z3.is_app(k) and k.decl().eq(F):
            return k.arg(0), k.arg(1)
        return P(k), Q(k)
    r = (lambda i, j: F(zi(i), zi(j)), unflat)
    c.memo[key] = r
    c.hold((d0, d1))
    c.insts.append(([i, j], z3.Implies(z3.And(i >= 0, i < d0, j >= 0, j < d1), z3.And(
        F(i, j) >= 0, F(i, j) < N, P(F(i, j)) == i, Q(F(i, j)) == j)), F(i, j)))
    return r


def flatten_lead(a, k):
    """merge the first k dims into one"""
    while k > 1:
        d0, d1 = a._shape[0], a._shape[1]
        if isinst(d0, real_int) and d0 == 1:
            s = snapshot(a)
            a = SArr((d1,) + a._shape[2:], a.kind, (lambda s: lambda *i: s((0,) + i))(s))
        elif isinst(d1, real_int) and d1 == 1:
            s = snapshot(a)
            a = SArr((d0,) + a._shape[2:], a.kind, (lambda s: lambda *i: s((i[0], 0) + i[1:]))(s))
        else:
            F, U = flat_pair(d0, d1)
            s = snapshot(a)
            nd = prod_dims([d0, d1])
            a = SArr((nd,) + a._shape[2:], a.kind,
                     (lambda s, U: lambda *i: s(tuple(U(i[0])) + i[1:]))(s, U))
        k -= 1
    return a


def reshape(a, shape):
    a = toarr(a)
    shape = list(shape) if isinst(shape, (list, tuple)) else [shape]
    shape = [zdim(d) for d in shape]
    if any(isinst(d, real_int) and d == -1 for d in shape):
        j = [i for i, d in enumerate(shape) if isinst(d, real_int) and d == -1][0]
        rest = [d for i, d in enumerate(shape) if i != j]
        # remove matching dims from the source
        src = list(a._shape)
        ok = True
        for d in list(rest):
            if isinst(d, real_int) and d == 1:
                continue
            hit = [i for i, e in enumerate(src) if deq(e, d)]
            if not hit:
                ok = False
                break
            src.pop(hit[-1])
        if ok:
            shape[j] = prod_dims(src)
        elif all(isinst(d, real_int) for d in a._shape) and all(isinst(d, real_int) for d in rest):
            tot = 1
            for d in a._shape:
                tot *= d
            r = 1
            for d in rest:
                r *= d
            if r == 0 or tot % r:
                raise ValueError('cannot reshape')
            shape[j] = tot // r
        else:
            raise Unsupported('reshape with -1')
    # identical?
    if real_len(shape) == a.ndim and all(deq(x, y) for x, y in zip(shape, a._shape)):
        r = SArr(a._shape, a.kind, base=a, fwd=lambda i: i, inv=lambda b: (True, b))
        r.tag = a.tag
        return r
    strip = [d for d in shape if not (isinst(d, real_int) and d == 1)]
    sstrip = [d for d in a._shape if not (isinst(d, real_int) and d == 1)]
    pos = [i for i, d in enumerate(shape) if not (isinst(d, real_int) and d == 1)]
    spos = [i for i, d in enumerate(a._shape) if not (isinst(d, real_int) and d == 1)]
    s = snapshot(a)
    nd = a.ndim
    core = SArr(sstrip, a.kind, lambda *i: s(tuple(
        i[spos.index(p)] if p in spos else 0 for p in range(nd))))
    core = regroup(core, strip)
    cs = snapshot(core)
    r = SArr(shape, a.kind, lambda *i: cs(tuple(i[p] for p in pos)))
    r.readonly = True
    if real_len(strip) == 1 and real_len(sstrip) == 1:
        r.readonly = False if a.ndim == 1 else True
        if a.ndim == 1 and real_len(shape) > 1:
            p0 = pos[0]
            return SArr(shape, a.kind, base=a, fwd=lambda i: (i[p0],),
                        inv=lambda b: (True, tuple(b[0] if p == p0 else 0 for p in range(real_len(shape)))))
    return r


def regroup(core, strip):
    src = list(core._shape)
    if real_len(src) == real_len(strip):
        same = [deq(x, y) for x, y in zip(src, strip)]
        if real_len(src) > 1 and same.count(False) > 1:
            raise Unsupported('general reshape')
        for x, y in zip(src, strip):
            require_deq(x, y, 'reshape')
        return core
    if not strip:
        s = snapshot(core)
        return SArr((), core.kind, lambda: s(tuple(0 for _ in src)))
    if real_len(src) > real_len(strip):
        k = real_len(src) - real_len(strip) + 1
        # trailing dims must agree
        if all(deq(x, y) for x, y in zip(src[k:], strip[1:])):
            r = flatten_lead(core, k)
            require_deq(r._shape[0], strip[0], 'reshape')
            return r
        raise Unsupported('general reshape')
    # splitting the leading dim
    k = real_len(strip) - real_len(src) + 1
    if all(deq(x, y) for x, y in zip(src[1:], strip[k:])):
        r = core
        # (d0*d1*..., rest) -> (d0, d1, ..., rest): successively split the last of the lead
        if k == 2:
            d0, d1 = strip[0], strip[1]
            require_deq(src[0], prod_dims([d0, d1]), 'reshape')
            F, U = flat_pair(d0, d1)
            s = snapshot(r)
            return SArr(strip, r.kind, lambda *i: s((F(i[0], i[1]),) + i[2:]))
        if k == 3:
            d0, d1, d2 = strip[:3]
            require_deq(src[0], prod_dims([prod_dims([d0, d1]), d2]), 'reshape')
            F1, _ = flat_pair(d0, d1)
            F2, _ = flat_pair(prod_dims([d0, d1]), d2)
            s = snapshot(r)
            return SArr(strip, r.kind, lambda *i: s((F2(F1(i[0], i[1]), i[2]),) + i[3:]))
    raise Unsupported('general reshape (split)')


# ------------------------------------------------------------------ masks (compress / nonzero)
class Mask:
    """Positions of the True entries of a boolean array, in row-major order."""

    def __init__(self, a, name='m'):
        c = ctx()
        self.shape = a._shape
        self.nd = real_len(a._shape)
        nm = c.fresh_name(name)
        snap = snapshot(a)
        self.snap = lambda idx: as_z3bool(_mk(a.kind, snap(idx)[0]))
        self.cnt_t = z3.Int(nm + '_n')
        self.cnt = self.cnt_t
        I = z3.IntSort()
        self.pos_f = [z3.Function('%s_p%d' % (nm, d), I, I) for d in range(self.nd)]
        self.rank_f = z3.Function(nm + '_r', *[I] * self.nd, I)
        k = z3.Int('?' + nm + '_k')
        xs = [z3.Int('?%s_x%d' % (nm, d)) for d in range(self.nd)]
        why = 'boolean-mask / nonzero selection enumerates exactly the True positions, in order'
        pk = [p(k) for p in self.pos_f]

        def rng(ix):
            return z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(ix, self.shape)])
        c.qdepth += 1
        try:
            m_pk = self.snap(tuple(pk))
            m_xs = self.snap(tuple(xs))
        finally:
            c.qdepth -= 1
        body = z3.Implies(z3.And(k >= 0, k < self.cnt), z3.And(
            rng(pk), m_pk, self.rank_f(*pk) == k))
        for p in pk:
            c.axiom(forall_z3([k], body, [p]), why)
        c.axiom(forall_z3(xs, z3.Implies(z3.And(rng(xs), m_xs), z3.And(
            self.rank_f(*xs) >= 0, self.rank_f(*xs) < self.cnt,
            *[p(self.rank_f(*xs)) == x for p, x in zip(self.pos_f, xs)])),
            [self.rank_f(*xs)]), why)
        c.insts.append((xs, z3.Implies(z3.And(rng(xs), m_xs), z3.And(
            self.rank_f(*xs) >= 0, self.rank_f(*xs) < self.cnt,
            *[p(self.rank_f(*xs)) == x for p, x in zip(self.pos_f, xs)])), self.rank_f(*xs)))
        c.axiom(self.cnt >= 0, why)
        pats = [q for q in subterms(m_xs) if mentions_all(q, xs)]
        for q in pats[:2]:
            c.axiom(forall_z3(xs, z3.Implies(z3.And(rng(xs), m_xs), self.cnt > 0), [q]), why)
        # existence: without a trigger term rank(x) nothing would be known about cnt > 0
        ws = [z3.Int('%s_w%d' % (nm, d)) for d in range(self.nd)]
        c.axiom(z3.Implies(self.cnt > 0, z3.And(rng([p(z3.IntVal(0)) for p in self.pos_f]),
                                                self.at_term([p(z3.IntVal(0)) for p in self.pos_f]))), why)
        if self.nd == 1:
            c.axiom(self.cnt <= zi(self.shape[0]), why)
        if all(isinst(d, real_int) for d in self.shape):
            tot = 1
            for d in self.shape:
                tot *= d
            if tot <= 64:
                self.cnt_sum = z3.Sum([z3.If(self.at_term(ix), 1, 0) for ix in
                                       itertools.product(*[range(d) for d in self.shape])] or [z3.IntVal(0)])
                c.axiom(self.cnt == self.cnt_sum, why)
                for ix in itertools.product(*[range(d) for d in self.shape]):
                    zs = [z3.IntVal(i) for i in ix]
                    c.axiom(z3.Implies(self.at_term(ix), z3.And(
                        self.rank_f(*zs) >= 0, self.rank_f(*zs) < self.cnt)), why)
        self.mono = False
        self.c = c
        self.nm = nm

    def add_mono(self):
        if self.mono:
            return
        self.mono = True
        c = self.c
        I = z3.IntSort()
        a, b = z3.Ints('?' + self.nm + '_a ?' + self.nm + '_b')
        why = 'mask selection is increasing in row-major order'
        pa, pb = [p(a) for p in self.pos_f], [p(b) for p in self.pos_f]
        lt = z3.BoolVal(False)
        for d in reversed(range(self.nd)):
            lt = z3.Or(pa[d] < pb[d], z3.And(pa[d] == pb[d], lt))
        c.axiom(forall_z3([a, b], z3.Implies(z3.And(0 <= a, a < b, b < self.cnt), lt),
                          [(pa[0], pb[0])]), why)

    def at_term(self, idx):
        return self.snap(tuple(idx))

    def pos(self, d, k):
        k = zi(k)
        if z3.is_app(k) and k.decl().eq(self.rank_f):
            return k.arg(d)
        return self.pos_f[d](k)

    def rank(self, idx):
        idx = [zi(i) for i in idx]
        # rank(pos(k)) = k
        if all(z3.is_app(i) and i.num_args() == 1 and i.decl().eq(p) for i, p in zip(idx, self.pos_f)):
            if all(i.arg(0).eq(idx[0].arg(0)) for i in idx):
                return idx[0].arg(0)
        return self.rank_f(*idx)


def mask_of(a):
    """Mask object of a boolean SArr, memoised by content."""
    c = ctx()
    xs = [z3.Int('!c%d' % d) for d in range(a.ndim)]
    key, t = mask_key(a)
    if key not in c.memo:
        c.hold((t, [zi(d) for d in a._shape]))
        if a.ndim == 1 and z3.is_true(t):
            m = TrueMask(a._shape[0])
        else:
            m = outer_mask(a, t, xs) or Mask(a)
            c.memo.setdefault('used', []).append(('mask', dict(m=m)))
        c.memo[key] = m
        S = c.memo.get('count links', {}).get(key)
        if S is not None:
            c.axiom(S.value(()) == m.cnt, 'a boolean mask selects as many entries as are True')
    return c.memo[key]


def mask_key(a):
    c = ctx()
    xs = [z3.Int('!c%d' % d) for d in range(a.ndim)]
    c.qdepth += 1
    try:
        t = as_z3bool(_mk(a.kind, a.get2(tuple(xs))[0]))
    finally:
        c.qdepth -= 1
    t = z3.simplify(t)
    return ('mask', tuple(zi(d).get_id() for d in a._shape), t.get_id()), t


def outer_mask(a, t, xs):
    """a 2-D mask that selects whole rows and columns: its positions are the pairs of the selected
    rows and columns, in row-major order"""
    if a.ndim != 2 or all(isinst(d, real_int) for d in a._shape) or not z3.is_and(t):
        return None
    parts = [[], []]
    for ch in t.children():
        on = [contains(ch, [x]) for x in xs]
        if on[0] and on[1]:
            return None
        parts[1 if on[1] else 0].append(ch)
    if not parts[0] or not parts[1]:
        return None
    ms = []
    for d in range(2):
        f = parts[d][0] if real_len(parts[d]) == 1 else z3.And(*parts[d])
        ms.append(mask_of(SArr((a._shape[d],), 'b', (lambda f, x: lambda i: z3.substitute(f, (x, zi(i))))(f, xs[d]))))
    return OuterMask(a, ms)


class OuterMask:
    nd = 2

    def __init__(self, a, ms):
        self.shape = a._shape
        self.ms = ms
        self.cnt = zi(prod_dims([m.cnt for m in ms]))
        self.cnt_t = self.cnt
        self.F, self.U = flat_pair(ms[0].cnt, ms[1].cnt)
        c = ctx()
        c.axiom(self.cnt >= 0, 'the number of pairs is not negative')
        xs = [z3.Int('?' + c.fresh_name('om_x%d' % d)) for d in range(2)]
        rk = self.rank(xs)
        fact = z3.Implies(z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(xs, self.shape)] + [self.at_term(xs)]), z3.And(
            rk >= 0, rk < self.cnt, self.pos(0, rk) == xs[0], self.pos(1, rk) == xs[1]))
        if z3.is_app(rk) and rk.num_args() == 2 and contains(rk, [xs[0]]) and contains(rk, [xs[1]]):
            c.axiom(forall_z3(xs, fact, [rk]), 'boolean-mask / nonzero selection enumerates exactly the True positions, in order')
            c.insts.append((xs, fact, rk))

    def add_mono(self):
        raise Unsupported('order of the positions of an outer mask')

    def snap(self, idx):
        return z3.And(*[m.at_term((i,)) for m, i in zip(self.ms, idx)])

    def at_term(self, idx):
        return self.snap(tuple(idx))

    def pos(self, d, k):
        return self.ms[d].pos(0, self.U(zi(k))[d])

    def rank(self, idx):
        return self.F(*[m.rank((i,)) for m, i in zip(self.ms, idx)])


class TrueMask:
    """mask that is True everywhere: selection is the identity"""

    def __init__(self, d):
        self.shape = (d,)
        self.nd = 1
        self.cnt = zi(d)

    def add_mono(self):
        pass

    def at_term(self, idx):
        return z3.BoolVal(True)

    def pos(self, d, k):
        return zi(k)

    def rank(self, idx):
        return zi(idx[0])


def nonzero(a):
    a = toarr(a)
    if a.ndim == 0:
        raise Unsupported('nonzero 0-d')
    m = mask_of(a)
    out = []
    for d in range(a.ndim):
        r = SArr((m.cnt,), 'i', (lambda d: lambda k: m.pos(d, k))(d))
        r.tag = ('pos', m, d)
        out.append(r)
    return tuple(out)


# ------------------------------------------------------------------ indexing
def norm_key(a, key):
    if not isinst(key, tuple):
        key = (key,)
    out = []
    n_spec = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinst(k, (SArr, np.ndarray, list)):
            kk = toarr(k)
            if kk.kind == 'b':
                n_spec += max(kk.ndim, 1)
                continue
        n_spec += 1
    seen_ell = False
    for k in key:
        if k is Ellipsis:
            out.extend([slice(None)] * (a.ndim - n_spec))
            seen_ell = True
        else:
            out.append(k)
    if not seen_ell:
        out.extend([slice(None)] * (a.ndim - n_spec))
    return out


def conc_int(k):
    """python int / z3 int from an index component, or None"""
    if isinst(k, (real_int, np.integer)) and not isinst(k, (real_bool, np.bool_)):
        return real_int(k)
    if isinst(k, SInt):
        s = z3.simplify(k.t)
        return s.as_long() if z3.is_int_value(s) else s
    return None


def wrap_neg(i, d, label, check=True):
    """numpy index semantics: negative counts from the end; out of bounds is an obligation"""
    if isinst(i, real_int):
        if isinst(d, real_int):
            if not -d <= i < d:
                raise IndexError('index %d is out of bounds for axis with size %d' % (i, d))
            return i + d if i < 0 else i
        if i < 0:
            if check:
                ctx().oblige('safety: index in bounds (%s)' % label, zi(d) >= -i)
            return zi(d) + i
        if check:
            ctx().oblige('safety: index in bounds (%s)' % label, zi(d) > i)
        return i
    if check:
        ctx().oblige('safety: index in bounds (%s)' % label, z3.And(i >= -zi(d), i < zi(d)))
    if known_nonneg(i):
        return i
    return z3.If(i < 0, i + zi(d), i)


def known_nonneg(i):
    c = Ctx.cur
    if c is None or c.qdepth:
        return False
    return c.entails(i >= 0, timeout=300)


def slice_params(sl, d):
    """-> start(int/z3), step(int), length(dim)"""
    step = sl.step
    step = 1 if step is None else conc_int(step)
    if not isinst(step, real_int):
        raise Unsupported('symbolic slice step')

    def cl(x):
        return zdim(z3.simplify(x)) if not isinst(x, real_int) else x
    if isinst(d, real_int) and all(x is None or isinst(conc_int(x), real_int)
                                   for x in (sl.start, sl.stop)):
        s, e, st = slice(None if sl.start is None else conc_int(sl.start),
                         None if sl.stop is None else conc_int(sl.stop), step).indices(d)
        return s, st, real_len(range(s, e, st))
    if step == -1 and sl.start is None and sl.stop is None:
        return zdim(zi(d) - 1), -1, d
    if step != 1:
        raise Unsupported('strided slice of symbolic dim')

    def bound(x, dflt):
        if x is None:
            return dflt
        v = conc_int(x)
        if v is None:
            raise Unsupported('slice bound')
        if isinst(v, real_int):
            if v == 0:
                return 0
            if v > 0:
                if ctx().entails(zi(d) >= v):
                    return v
                return z3.If(zi(d) < v, zi(d), z3.IntVal(v))
            if ctx().entails(zi(d) >= -v):
                return zi(d) + v
            return z3.If(zi(d) + v < 0, z3.IntVal(0), zi(d) + v)
        if ctx().entails(z3.And(v >= 0, v <= zi(d))):
            return v
        w = z3.If(v < 0, v + zi(d), v)
        return z3.If(w < 0, z3.IntVal(0), z3.If(w > zi(d), zi(d), w))
    s = bound(sl.start, 0)
    e = bound(sl.stop, d)
    if (isinst(s, real_int) and s == 0):
        ln = e
    else:
        df = zi(e) - zi(s)
        ln = df if ctx().entails(df >= 0) else z3.If(df < 0, z3.IntVal(0), df)
    return (s if isinst(s, real_int) else zdim(s)), 1, zdim(ln) if not isinst(ln, real_int) else ln


def add_off(i, s, st):
    if st == 1:
        if isinst(s, real_int) and s == 0:
            return i
        if isinst(i, real_int) and isinst(s, real_int):
            return i + s
        return zi(i) + zi(s)
    if isinst(i, real_int) and isinst(s, real_int):
        return s + st * i
    return zi(s) + st * zi(i)


class Sel:
    """Resolved selection of `a[key]`: result shape, forward map, inverse map."""
    pass


def resolve(a, key, label='index'):
    comps = norm_key(a, key)
    # split bool arrays into position arrays
    items = []          # per result/source: ('new',) ('int', i) ('sl', s, st, ln) ('adv', SArr)
    ax = 0
    for k in comps:
        if k is None:
            items.append(('new',))
            continue
        if isinst(k, slice):
            s, st, ln = slice_params(k, a._shape[ax])
            items.append(('sl', ax, s, st, ln))
            ax += 1
            continue
        ci = conc_int(k)
        if ci is not None:
            items.append(('int', ax, wrap_neg(ci, a._shape[ax], label)))
            ax += 1
            continue
        if isinst(k, SArr) and k.ndim == 0 and k.kind == 'i':
            items.append(('int', ax, wrap_neg(z3.simplify(k.at()), a._shape[ax], label)))
            ax += 1
            continue
        if isinst(k, (real_bool, np.bool_, SBool)):
            raise Unsupported('boolean scalar index')
        if isinst(k, (SArr, np.ndarray, list, tuple)):
            kk = toarr(k)
            if kk.kind == 'b':
                for j in range(kk.ndim):
                    require_deq(kk._shape[j], a._shape[ax + j], 'boolean index')
                for p in nonzero(kk):
                    items.append(('adv', ax, p, True))
                    ax += 1
            elif kk.kind == 'i':
                items.append(('adv', ax, kk, False))
                ax += 1
            elif kk.kind == 'f' and any(isinst(d, real_int) and d == 0 for d in kk._shape):
                items.append(('adv', ax, astype(kk, 'i'), False))
                ax += 1
            else:
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            continue
        raise Unsupported('index component %r' % (k,))
    return items


def getitem(a, key):
    if isinst(key, str):
        raise IndexError('only integers, slices ... are valid indices')
    if a.ndim == 0 and key == ():
        return a.item()
    items = resolve(a, key)
    adv = [it for it in items if it[0] == 'adv']
    if not adv:
        # basic indexing -> view
        shape, plan = [], []
        for it in items:
            if it[0] == 'new':
                shape.append(1)
                plan.append(None)
            elif it[0] == 'sl':
                shape.append(it[4])
                plan.append(it)
        nd = a.ndim
        ints = {it[1]: it[2] for it in items if it[0] == 'int'}

        def fwd(idx):
            out = [None] * nd
            for ax, v in ints.items():
                out[ax] = v
            for p, i in zip(plan, idx):
                if p is not None:
                    out[p[1]] = add_off(i, p[2], p[3])
            return tuple(out)

        def inv(b):
            conds = []
            for ax, v in ints.items():
                conds.append(eqi(b[ax], v))
            vidx = []
            for p in plan:
                if p is None:
                    vidx.append(0)
                    continue
                _, ax, s, st, ln = p
                i = b[ax]
                if st == 1:
                    j = i if (isinst(s, real_int) and s == 0) else subi(i, s)
                    if not (isinst(s, real_int) and s == 0):
                        conds.append(zi(j) >= 0)
                    if not (isinst(ln, real_int) and isinst(a._shape[ax], real_int) and s == 0 and ln == a._shape[ax]) \
                            and not (not isinst(ln, real_int) and zi(ln).eq(zi(a._shape[ax])) and isinst(s, real_int) and s == 0):
                        conds.append(zi(j) < zi(ln))
                elif st == -1:
                    j = subi(s, i)
                    conds.append(z3.And(zi(j) >= 0, zi(j) < zi(ln)))
                else:
                    j = zi(subi(i, s)) / st
                    conds.append(z3.And(zi(subi(i, s)) % st == 0, j >= 0, j < zi(ln)))
                vidx.append(j)
            cs = [x for x in conds if not (isinst(x, real_bool) and x)]
            if any(isinst(x, real_bool) and not x for x in cs):
                return None
            return (z3.And(*cs) if cs else z3.BoolVal(True)), tuple(vidx)
        r = SArr(shape, a.kind, base=a, fwd=fwd, inv=inv, readonly=a.readonly)
        if real_len(shape) == 0:
            v, n = a.get2(fwd(()))
            return _mk(a.kind, v, n)
        if all(it[0] == 'sl' and isinst(it[2], real_int) and it[2] == 0 and it[3] == 1
               for it in items) and a.ndim == 1 and deq(shape[0], a._shape[0]):
            r.tag = a.tag
        return r
    # advanced
    shape, place = adv_layout(a, items, adv)
    bs = bshape([it[2]._shape for it in adv], 'fancy index')
    nb = real_len(bs)
    for it in adv:
        if not it[3]:
            check_bounds(it[2], a._shape[it[1]])
    snap = snapshot(a)
    nd = a.ndim
    advs = [(it[1], snapshot(it[2]), it[2]._shape, it[3] or nonneg_arr(it[2])) for it in adv]
    rest = [(it[1], it[2], it[3]) for it in items if it[0] == 'sl']
    ints = {it[1]: it[2] for it in items if it[0] == 'int'}

    def f(*idx):
        bi = idx[place[0]:place[0] + nb]
        others = idx[:place[0]] + idx[place[0] + nb:]
        out = [None] * nd
        for ax, v in ints.items():
            out[ax] = v
        for ax, s, shp, nonneg in advs:
            i = s(bidx(shp, bi))[0]
            out[ax] = i if nonneg else negidx(i, a._shape[ax])
        o = 0
        for kind_ in place[1]:
            if kind_ is None:
                o += 1
            else:
                ax, s, st = kind_
                out[ax] = add_off(others[o], s, st)
                o += 1
        return snap(tuple(out))
    r = SArr(shape, a.kind, f)
    # provenance of index arrays through filtering by a mask: hh[m2]
    if a.ndim == 1 and real_len(adv) == 1 and adv[0][3] and a.tag is not None and adv[0][2].tag:
        r.tag = ('sub', a.tag, adv[0][2].tag[1])
    r.selmask = adv[0][2].tag[1] if (real_len(adv) == 1 and adv[0][3] and adv[0][2].tag) else None
    r.selsrc = snap if a.ndim == 1 else None
    return r


def negidx(i, d):
    if isinst(i, real_int):
        return i if i >= 0 else (i + d if isinst(d, real_int) else zi(d) + i)
    if z3.is_int_value(i):
        return negidx(i.as_long(), d)
    return z3.If(i < 0, i + zi(d), i)


def nonneg_arr(ix):
    """True if all entries of the index array are proved >= 0 (skips negative wrapping)"""
    c = ctx()
    if c.qdepth:
        return False
    qs = [z3.Int(c.fresh_name('nn')) for _ in ix._shape]
    rng = z3.And(*[z3.And(q >= 0, q < zi(d)) for q, d in zip(qs, ix._shape)]) if qs else z3.BoolVal(True)
    v = ix.get2(tuple(qs))[0]
    return c.entails(z3.Implies(rng, v >= 0), timeout=500)


def check_bounds(ix, d):
    c = ctx()
    if c.qdepth:
        return
    g = quant(ix._shape, lambda *i: z3.And(ix.at(*i) >= -zi(d), ix.at(*i) < zi(d)))
    if z3.is_true(z3.simplify(g)):
        return
    c.oblige('safety: fancy index in bounds', g)


def adv_layout(a, items, adv):
    bs = bshape([it[2]._shape for it in adv], 'fancy index')
    kinds = [it[0] for it in items]
    # ints act as advanced indices for the adjacency rule
    first = min(i for i, k in enumerate(kinds) if k in ('adv', 'int'))
    last = max(i for i, k in enumerate(kinds) if k in ('adv', 'int'))
    contiguous = all(k in ('adv', 'int') for k in kinds[first:last + 1])
    shape, plan = [], []
    pre = 0
    for i, it in enumerate(items):
        if it[0] == 'new':
            shape.append(1)
            plan.append(None)
        elif it[0] == 'sl':
            shape.append(it[4])
            plan.append((it[1], it[2], it[3]))
        else:
            continue
        if i < first:
            pre += 1
    pos = pre if contiguous else 0
    shape = shape[:pos] + list(bs) + shape[pos:]
    return shape, (pos, plan)


def eqi(a, b):
    if isinst(a, real_int) and isinst(b, real_int):
        return a == b
    return zi(a) == zi(b)


def subi(a, b):
    if isinst(a, real_int) and isinst(b, real_int):
        return a - b
    return zi(a) - zi(b)


def tag_chain(tag):
    """('sub', ('pos', m, d), m2) -> (m, d, [m2,...])"""
    subs = []
    while tag is not None and tag[0] == 'sub':
        subs.append(tag[2])
        tag = tag[1]
    if tag is None or tag[0] != 'pos':
        return None
    return tag[1], tag[2], list(reversed(subs))


def setitem(a, key, val):
    if isinst(key, str):
        raise IndexError('only integers, slices ... are valid indices')
    items = resolve(a, key, 'store')
    adv = [it for it in items if it[0] == 'adv']
    v = toarr(val)
    if v.kind != a.kind:
        if a.kind in 'bif' and v.kind in 'bif':
            pass
        else:
            raise Unsupported('store %s into %s' % (v.kind, a.kind))
    sv, vk, vs = snapshot(v), v.kind, v._shape
    ak = a.kind

    def conv(x):
        t, n = x
        if ak == 'i' and vk == 'f' and n is not None:
            raise Unsupported('store nan into int')
        return cast(vk, t, ak), (n if ak == 'f' else None)
    if not adv:
        view = getitem_view(a, key)
        shp = view._shape
        out = bshape([shp, vs], 'store')
        if real_len(out) > real_len(shp):
            extra = real_len(out) - real_len(shp)
            if not all(isinst(d, real_int) and d == 1 for d in out[:extra]):
                raise ValueError('could not broadcast input array')
            out = out[extra:]
            base_sv = sv
            k = extra
            vs2 = vs[k:]
            sv = lambda i: base_sv((0,) * k + tuple(i))
            vs = vs2
        for x, y in zip(out, shp):
            require_deq(x, y, 'store')
        view.update(lambda idx, old: conv(sv(bidx(vs, idx))))
        a.tag = None
        return
    shape, place = adv_layout(a, items, adv)
    bs = bshape([it[2]._shape for it in adv], 'fancy store')
    nb = real_len(bs)
    for it in adv:
        if not it[3]:
            check_bounds(it[2], a._shape[it[1]])
    out = bshape([shape, vs], 'fancy store')
    if real_len(out) > real_len(shape):
        raise ValueError('could not broadcast')
    for x, y in zip(out, shape):
        require_deq(x, y, 'fancy store')
    rest = [(it[1], it[2], it[3], it[4]) for it in items if it[0] == 'sl']
    ints = [(it[1], it[2]) for it in items if it[0] == 'int']
    plan = place[1]

    inverse = adv_inverse(a, adv, bs)

    def g(idx, old):
        conds = []
        for ax, v_ in ints:
            e = eqi(idx[ax], v_)
            if isinst(e, real_bool):
                if not e:
                    return old()
                continue
            conds.append(e)
        others = []
        for p in plan:
            if p is None:
                others.append(0)
                continue
            ax, s, st = p
            j = subi(idx[ax], s) if st == 1 else subi(s, idx[ax])
            ln = [r for r in rest if r[0] == ax][0][3]
            if not (isinst(s, real_int) and s == 0 and st == 1):
                conds.append(zi(j) >= 0)
            if not (deq_fast(ln, a._shape[ax]) and isinst(s, real_int) and s == 0):
                conds.append(zi(j) < zi(ln))
            others.append(j)
        hit, bi = inverse(tuple(idx[it[1]] for it in adv))
        conds.append(hit)
        ridx = tuple(others[:place[0]]) + tuple(bi) + tuple(others[place[0]:])
        cond = z3.simplify(z3.And(*conds))
        if z3.is_false(cond):
            return old()
        new = conv(sv(bidx(vs, ridx)))
        if z3.is_true(cond):
            return new
        return ite2(cond, new, old())
    a.update(g)
    a.tag = None


def deq_fast(a, b):
    if isinst(a, real_int) and isinst(b, real_int):
        return a == b
    return zi(a).eq(zi(b))


def getitem_view(a, key):
    """like getitem for basic keys but always returns an array view (0-d too)"""
    items = resolve(a, key, 'store')
    if any(it[0] == 'sl' or it[0] == 'new' for it in items):
        return getitem(a, key)
    ints = {it[1]: it[2] for it in items}

    def inv(b):
        cs = [eqi(b[ax], v) for ax, v in ints.items()]
        if any(isinst(x, real_bool) and not x for x in cs):
            return None
        cs = [x for x in cs if not isinst(x, real_bool)]
        return (z3.And(*cs) if cs else z3.BoolVal(True)), ()
    nd = a.ndim
    return SArr((), a.kind, base=a, fwd=lambda i: tuple(ints[x] for x in range(nd)), inv=inv,
                readonly=a.readonly)


def adv_inverse(a, adv, bs):
    """inverse of the advanced part: source coords -> (hit, broadcast index)"""
    # (1) all index arrays come from the same position set
    chains = [tag_chain(it[2].tag) if it[2].tag else None for it in adv]
    if all(c is not None for c in chains) and real_len(bs) == 1:
        m, subs = chains[0][0], chains[0][2]
        if all(c[0] is m and c[2] == subs for c in chains) and \
                sorted(c[1] for c in chains) == list(range(m.nd)):
            order = [c[1] for c in chains]

            def inv(coords):
                full_ = [None] * m.nd
                for d, x in zip(order, coords):
                    full_[d] = x
                cond = [m.at_term(tuple(full_))]
                k = m.rank(full_)
                for s in subs:
                    cond.append(s.at_term((k,)))
                    k = s.rank((k,))
                return z3.And(*cond), (k,)
            return inv
    # (2) orthogonal masks, e.g. a[mask_rows[:,None]..., ] are not specialised
    # (3) concrete index arrays of small size
    dims = list(bs)
    if all(isinst(d, real_int) for d in dims):
        tot = 1
        for d in dims:
            tot *= d
        if tot <= 200:
            snaps = [(snapshot(it[2]), it[2]._shape, a._shape[it[1]], it[3]) for it in adv]
            pts = list(itertools.product(*[range(d) for d in dims]))

            def inv(coords):
                hit = z3.BoolVal(False)
                res = [z3.IntVal(0)] * real_len(dims)
                for p in pts:     # later assignments win
                    cs = []
                    for (s, shp, d, nn), x in zip(snaps, coords):
                        i = s(bidx(shp, p))[0]
                        i = zi(i if isinst(i, real_int) or nn else negidx(i, d))
                        cs.append(zi(x) == z3.simplify(i))
                    c = z3.simplify(z3.And(*cs))
                    hit = z3.Or(hit, c)
                    res = [ite(c, z3.IntVal(v), r) for v, r in zip(p, res)]
                return z3.simplify(hit), tuple(z3.simplify(r) for r in res)
            return inv
    # (4) general: skolemised last-writer
    if real_len(bs) != 1:
        raise Unsupported('fancy store with multi-dimensional symbolic index')
    c = ctx()
    nm = c.fresh_name('fs')
    I = z3.IntSort()
    na = real_len(adv)
    H = z3.Function(nm + '_hit', *[I] * na, z3.BoolSort())
    W = z3.Function(nm + '_w', *[I] * na, I)
    k = z3.Int('?' + nm + '_k')
    xs = [z3.Int('?%s_x%d' % (nm, i)) for i in range(na)]
    n = zi(bs[0])
    why = 'fancy store: last writer wins'

    def at(it, k_):
        v = it[2].get2(bidx(it[2]._shape, (k_,)))[0]
        return zi(v) if it[3] else negidx(v, a._shape[it[1]])
    c.qdepth += 1
    try:
        ks = [at(it, k) for it in adv]
        wx = W(*xs)
        ws = [at(it, wx) for it in adv]
    finally:
        c.qdepth -= 1
    c.axiom(forall_z3([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(H(*ks), W(*ks) >= k)),
                      pick_patterns(ks, k)), why)
    c.axiom(forall_z3(xs, z3.Implies(H(*xs), z3.And(wx >= 0, wx < n, *[w == x for w, x in zip(ws, xs)])),
                      [H(*xs)]), why)

    def inv(coords):
        cs = [zi(x) for x in coords]
        return H(*cs), (W(*cs),)
    return inv


def pick_patterns(terms, var):
    for t in terms:
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return [t]
    return []


# ------------------------------------------------------------------ reductions
def norm_axis(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinst(axis, (tuple, list)):
        return sorted(x % a.ndim for x in axis)
    return [real_int(axis) % a.ndim]


def split(a, axis):
    axes = norm_axis(a, axis)
    rest = [i for i in range(a.ndim) if i not in axes]
    nd = a.ndim

    def join(ri, ai):
        out = [None] * nd
        for i, x in zip(rest, ri):
            out[i] = x
        for i, x in zip(axes, ai):
            out[i] = x
        return tuple(out)
    return axes, rest, join


def keep(r, axes, nd, keepdims):
    if not keepdims:
        return r
    k = [slice(None)] * nd
    key = []
    j = 0
    r = toarr(r)
    for i in range(nd):
        if i in axes:
            key.append(None)
        else:
            key.append(slice(None))
    return getitem(r, tuple(key))


def any_(a, axis=None, univ=False, keepdims=False):
    if isinst(a, SVal):
        return SBool(as_z3bool(a))
    a = toarr(a)
    axes, rest, join = split(a, axis)
    s, k = snapshot(a), a.kind
    dims = [a._shape[i] for i in axes]

    def f(*ri):
        return quant(dims, lambda *ai: as_z3bool(_mk(k, s(join(ri, ai))[0])), universal=univ)
    return out_scalar(keep(SArr([a._shape[i] for i in rest], 'b', f), axes, a.ndim, keepdims))


def all_(a, axis=None, keepdims=False):
    return any_(a, axis, univ=True, keepdims=keepdims)


def small(dims, lim=64):
    t = 1
    for d in dims:
        if not isinst(d, real_int):
            return None
        t *= d
    return t if t <= lim else None


def sum_(a, axis=None, keepdims=False):
    if isinst(a, SVal):
        return a
    a = toarr(a)
    if getattr(a, 'bc', None) and a.store.ver == a.bc[1] and not keepdims:
        return SInt(z3.simplify(a.bc[0]))      # the counts of a bincount total the number of entries
    axes, rest, join = split(a, axis)
    s = snapshot(a)
    kin = a.kind
    kind = 'i' if kin == 'b' else kin
    dims = [a._shape[i] for i in axes]
    rdims = [a._shape[i] for i in rest]
    # expand the small concrete axes, keep symbolic ones as Sum terms
    cax = [j for j, d in enumerate(dims) if isinst(d, real_int)]
    sax = [j for j, d in enumerate(dims) if not isinst(d, real_int)]
    if small([dims[j] for j in cax], 256) is None:
        raise Unsupported('sum over a large concrete axis')
    zero = z3.RealVal(0) if kind == 'f' else z3.IntVal(0)

    def elem(ri, ai):
        acc, nn = zero, None
        for ci in itertools.product(*[range(dims[j]) for j in cax]):
            full_ = [None] * real_len(dims)
            for j, x in zip(cax, ci):
                full_[j] = x
            for j, x in zip(sax, ai):
                full_[j] = x
            v, n = s(join(ri, full_))
            v = cast(kin, v, kind)
            acc = v if (acc is zero) else acc + v
            nn = or_nan(nn, n)
        return acc, nn
    if not sax:
        return out_scalar(keep(SArr(rdims, kind, lambda *ri: elem(ri, ())), axes, a.ndim, keepdims))
    S = SumTerm([dims[j] for j in sax], rdims, kind, elem)
    if kin == 'b' and a.ndim == 1:
        link_count(a, S)
    return out_scalar(keep(SArr(rdims, kind, lambda *ri: S.value(ri)), axes, a.ndim, keepdims))


def link_count(a, S):
    """the number of True entries is the number of positions that the mask selects"""
    c = ctx()
    if c.qdepth:
        return
    key, t = mask_key(a)
    c.hold(t)
    links = c.memo.setdefault('count links', {})
    if key not in links:
        links[key] = S
        if key in c.memo:
            c.axiom(S.value(()) == c.memo[key].cnt, 'a boolean mask selects as many entries as are True')


class SumTerm:
    """Sum over symbolic dims; linear normal form + lemma library (see lemmas())."""

    def __init__(self, dims, rdims, kind, elem):
        self.dims, self.rdims, self.kind, self.elem = dims, rdims, kind, elem

    def value(self, ri):
        c = ctx()
        xs = [z3.Int('!s%d' % j) for j in range(real_len(self.dims))]
        c.qdepth += 1
        try:
            t, nn = self.elem(ri, tuple(xs))
        finally:
            c.qdepth -= 1
        if nn is not None:
            raise Unsupported('sum of possibly-nan entries')
        return lin_sum(t, xs, self.dims, self.kind, ri)


def contains(t, xs):
    ids = {x.get_id() for x in xs}
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if u.get_id() in ids:
            return True
        stack.extend(u.children())
    return False


def lin_sum(t, xs, dims, kind, ri=()):
    t = z3.simplify(t, som=True) if kind == 'f' else z3.simplify(t)
    return _lin(t, xs, dims, kind, ri)


def num(v, kind):
    return z3.RealVal(v) if kind == 'f' else z3.IntVal(v)


def _lin(t, xs, dims, kind, ri=()):
    if not contains(t, xs):
        n = None
        for d in dims:
            n = zi(d) if n is None else n * zi(d)
        if (z3.is_rational_value(t) and t.as_fraction() == 0) or (
                z3.is_int_value(t) and t.as_long() == 0):
            return t
        return t * (z3.ToReal(n) if kind == 'f' else n)
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = None
            for ch in t.children():
                v = _lin(ch, xs, dims, kind, ri)
                r = v if r is None else r + v
            return r
        if k == z3.Z3_OP_SUB:
            chs = t.children()
            r = _lin(chs[0], xs, dims, kind, ri)
            for ch in chs[1:]:
                r = r - _lin(ch, xs, dims, kind, ri)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -_lin(t.arg(0), xs, dims, kind, ri)
        if k == z3.Z3_OP_MUL:
            out, inn = [], []
            for ch in t.children():
                (inn if contains(ch, xs) else out).append(ch)
            if out:
                o = out[0]
                for x in out[1:]:
                    o = o * x
                i = inn[0]
                for x in inn[1:]:
                    i = i * x
                return o * _lin(i, xs, dims, kind, ri)
        if k == z3.Z3_OP_TO_REAL:
            return z3.ToReal(_lin(t.arg(0), xs, dims, 'i', ri))
        if k == z3.Z3_OP_DIV and not contains(t.arg(1), xs):
            return _lin(t.arg(0), xs, dims, kind, ri) / t.arg(1)
    return atom_sum(t, xs, dims, kind, ri)


def sum_params(t, xs, ri):
    """index terms the summand depends on (array indices free of the summation variables,
    row indices, enclosing bound variables) -> placeholders"""
    found = []
    seen = set()

    def visit(u):
        if u.get_id() in seen or not z3.is_app(u):
            return
        seen.add(u.get_id())
        isuf = u.decl().kind() == z3.Z3_OP_UNINTERPRETED
        for ch in u.children():
            if isuf and z3.is_int(ch) and not z3.is_int_value(ch) and not contains(ch, xs):
                if not any(ch.eq(f) for f in found):
                    found.append(ch)
            else:
                visit(ch)
    visit(t)
    for r in ri:
        if z3.is_expr(r) and not z3.is_int_value(r) and not any(r.eq(f) for f in found):
            found.append(r)
    subs, args = [], []
    # a fixed order (enclosing terms first), so that equal content gives the same parameters
    for r in sorted(found, key=lambda u: 0 if u.num_args() == 0 else -real_len(u.sexpr())):
        if contains(t, [r]):
            p = z3.Int('!p%d' % real_len(args))
            t = z3.substitute(t, (r, p))
            args.append(r)
            subs.append(p)
    for v in bound_params(t, list(xs) + subs):
        p = z3.Int('!p%d' % real_len(args))
        t = z3.substitute(t, (v, p))
        args.append(v)
        subs.append(p)
    return (z3.simplify(t) if subs else t), subs, args


def atom_sum(t, xs, dims, kind, ri=()):
    """uninterpreted sum of one summand, memoised by its canonical term"""
    c = ctx()
    t, ps, args = sum_params(t, xs, ri)
    key = ('sum', t.get_id(), tuple(zi(d).get_id() for d in dims), real_len(ps))
    if key in c.memo:
        F = c.memo[key]
        return F(*args) if ps else F
    nm = c.fresh_name('sum')
    srt = z3.RealSort() if kind == 'f' else z3.IntSort()
    I = z3.IntSort()
    np_ = real_len(ps)
    if ps:
        F = z3.Function(nm, *[I] * np_, srt)
        v = F(*ps)
    else:
        F = v = z3.Const(nm, srt)
    zd = [zi(d) for d in dims]
    c.hold((t, xs, zd, v, ps))
    c.memo[key] = F
    c.sums.append((v, t, list(xs), zd, kind, ps))
    why = 'finite sums: sign, zero and comparison lemmas'
    sub = lambda tt, w: z3.substitute(tt, *list(zip(xs, w)))
    inr = lambda w: z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(w, zd)])

    def wit():
        if not ps:
            return [z3.Int(c.fresh_name('sw')) for _ in xs]
        return [z3.Function(c.fresh_name('sw'), *[I] * np_, I)(*ps) for _ in xs]

    def ax(f, pats):
        if ps:
            qs = [z3.Int('?' + nm + '_p%d' % i) for i in range(np_)]
            f = z3.substitute(f, *zip(ps, qs))
            pats = [z3.substitute(p, *zip(ps, qs)) for p in pats]
            f = forall_z3(qs, f, [tuple(pats)])
        c.axiom(f, why)
    if bound_consts(t, list(xs) + ps):
        raise Unsupported('sum under an open quantifier')
    old = c.qdepth
    c.qdepth = 0
    w1, w2 = wit(), wit()
    ax(z3.Or(v >= 0, z3.And(inr(w1), sub(t, w1) < 0)), [v])
    ax(z3.Or(v <= 0, z3.And(inr(w2), sub(t, w2) > 0)), [v])
    for d in zd:
        ax(z3.Implies(d <= 0, v == 0), [v])
    for (v2, t2, xs2, dims2, kind2, p2) in c.sums[:-1]:
        if kind2 != kind or real_len(xs2) != real_len(xs):
            continue
        if not all(d1.eq(d2) for d1, d2 in zip(dims2, zd)):
            continue
        if real_len(p2) != np_:
            if c.fixed_dims is None:
                compare_sums(c, nm, (v, t, list(xs), ps), (v2, t2, xs2, p2), zd, why)
            continue
        w, w2 = wit(), wit()
        ax(z3.Or(v <= v2, z3.And(inr(w), sub(t, w) > sub(t2, w))), [v, v2])
        ax(z3.Or(v >= v2, z3.And(inr(w2), sub(t, w2) < sub(t2, w2))), [v, v2])
    c.qdepth = old
    return F(*args) if ps else F


def compare_sums(c, nm, s1, s2, zd, why):
    """sums of different parameters: the smaller sum has a smaller entry somewhere"""
    I = z3.IntSort()
    sides, qs = [], []
    for (v, t, xs, ps), tag in ((s1, 'a'), (s2, 'b')):
        q = [z3.Int('?%s_%s%d' % (nm, tag, i)) for i in range(real_len(ps))]
        sub = list(zip(ps, q))
        sides.append((z3.substitute(v, *sub) if sub else v, z3.substitute(t, *sub) if sub else t, xs))
        qs += q
    (v1, t1, x1), (v2, t2, x2) = sides
    for lo, hi in (((v1, t1, x1), (v2, t2, x2)), ((v2, t2, x2), (v1, t1, x1))):
        w = [z3.Function(c.fresh_name('sw'), *[I] * real_len(qs), I)(*qs) for _ in zd]
        at = lambda side: z3.substitute(side[1], *zip(side[2], w))
        f = z3.Or(lo[0] <= hi[0], z3.And(*[z3.And(x >= 0, x < d) for x, d in zip(w, zd)], at(lo) > at(hi)))
        c.axiom(forall_z3(qs, f, [(lo[0], hi[0])]), why)


def bound_consts(t, known):
    return bound_params(t, known)


def bound_params(t, xs):
    """quantified variables (named q!.. / mask vars) occurring in t, other than xs"""
    c = ctx()
    ids = {x.get_id() for x in xs}
    seen, out = set(), []
    stack = [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.get_id() not in ids:
            n = u.decl().name()
            if n.startswith(('?', '!')) and z3.is_int(u):
                out.append(u)
        stack.extend(u.children())
    return sorted(out, key=lambda x: x.decl().name())


def mean(a, axis=None):
    a = toarr(a)
    axes, rest, join = split(a, axis)
    n = prod_dims([a._shape[i] for i in axes])
    return binary('truediv', sum_(astype(a, 'f'), axis), odim(n))


def minmax(a, axis, which, initial=None):
    if isinst(a, SVal):
        return a
    a = toarr(a)
    axes, rest, join = split(a, axis)
    s, k = snapshot(a), a.kind
    dims = [a._shape[i] for i in axes]
    rdims = [a._shape[i] for i in rest]
    t = small(dims, 40)
    op = 'minimum' if which == 'min' else 'maximum'
    if t is not None:
        if t == 0:
            raise ValueError('zero-size array to reduction operation')
        pts = list(itertools.product(*[range(d) for d in dims]))

        def f(*ri):
            acc = None
            for p in pts:
                v, n = s(join(ri, p))
                x = (k, v, n)
                acc = x if acc is None else binop(op, acc, x)
            return cast(acc[0], acc[1], k), acc[2]
        return out_scalar(SArr(rdims, k, f))
    c = ctx()
    nm = c.fresh_name(which)
    c.oblige('safety: %s of a non-empty array' % which, z3.And(*[zi(d) > 0 for d in dims]))
    I = z3.IntSort()
    rs = [z3.Int('?%s_r%d' % (nm, i)) for i in rest]
    xs = [z3.Int('?%s_x%d' % (nm, i)) for i in axes]
    M = z3.Function(nm, *[I] * real_len(rest), SORT[k]) if rest else None
    Ws = [z3.Function('%s_w%d' % (nm, i), *[I] * real_len(rest), I) if rest else None for i in axes]
    mv = M(*rs) if rest else z3.Const(nm, SORT[k])
    wv = [W(*rs) if rest else z3.Int('%s_w%d' % (nm, i)) for W, i in zip(Ws, axes)]
    c.qdepth += 1
    try:
        tw = s(join(rs, wv))[0]
        tx = s(join(rs, xs))[0]
    finally:
        c.qdepth -= 1
    inr = z3.And(*[z3.And(r >= 0, r < zi(d)) for r, d in zip(rs, rdims)]) if rs else z3.BoolVal(True)
    inx = z3.And(*[z3.And(r >= 0, r < zi(d)) for r, d in zip(xs, dims)])
    inw = z3.And(*[z3.And(r >= 0, r < zi(d)) for r, d in zip(wv, dims)])
    why = 'min/max: bound attained by a witness'
    w_ax = z3.Implies(inr, z3.And(inw, mv == tw))
    b_ax = z3.Implies(z3.And(inr, inx), (mv <= tx) if which == 'min' else (mv >= tx))
    c.axiom(forall_z3(rs, w_ax, [mv]) if rs else w_ax, why)
    c.axiom(z3.ForAll(rs + xs, b_ax), why)

    def f(*ri):
        if not rest:
            return mv
        return M(*[zi(r) for r in ri])
    return out_scalar(SArr(rdims, k, f))


def argmax(a, axis=None, which='max'):
    a = toarr(a)
    if axis is None and a.ndim != 1:
        raise Unsupported('argmax over flattened array')
    axes, rest, join = split(a, axis if axis is not None else 0)
    s, k = snapshot(a), a.kind
    dim = a._shape[axes[0]]
    rdims = [a._shape[i] for i in rest]
    if isinst(dim, real_int) and dim <= 24:
        if dim == 0:
            raise ValueError('attempt to get argmax of an empty sequence')

        def f(*ri):
            best_i, best = z3.IntVal(0), s(join(ri, (0,)))[0]
            for j in range(1, dim):
                v = s(join(ri, (j,)))[0]
                if k == 'b':
                    better = z3.And(v, z3.Not(best)) if which == 'max' else z3.And(z3.Not(v), best)
                else:
                    better = v > best if which == 'max' else v < best
                best_i = ite(better, z3.IntVal(j), best_i)
                best = ite(better, v, best)
            return best_i
        return out_scalar(SArr(rdims, 'i', f))
    c = ctx()
    nm = c.fresh_name('argmax')
    I = z3.IntSort()
    c.oblige('safety: argmax of a non-empty axis', z3.Implies(
        z3.And(*[zi(d) > 0 for d in rdims]) if rdims else z3.BoolVal(True), zi(dim) > 0))
    rs = [z3.Int('?%s_r%d' % (nm, i)) for i in rest]
    j = z3.Int('?' + nm + '_j')
    K = z3.Function(nm, *[I] * real_len(rest), I) if rest else None
    kv = K(*rs) if rest else z3.Int(nm)
    c.qdepth += 1
    try:
        tk = s(join(rs, (kv,)))[0]
        tj = s(join(rs, (j,)))[0]
    finally:
        c.qdepth -= 1
    inr = z3.And(*[z3.And(r >= 0, r < zi(d)) for r, d in zip(rs, rdims)]) if rs else z3.BoolVal(True)
    why = 'argmax: first index of a maximal entry'
    a1 = z3.Implies(inr, z3.And(kv >= 0, kv < zi(dim)))
    c.axiom(forall_z3(rs, a1, [kv]) if rs else a1, why)
    if which == 'min':
        raise Unsupported('argmin symbolic')
    if k == 'b':
        body = z3.Implies(z3.And(inr, j >= 0, j < zi(dim), tj), z3.And(tk, kv <= j))
        # if the chosen entry is not maximal then nothing is True and index is 0
        a3 = z3.Implies(z3.And(inr, z3.Not(tk)), kv == 0)
        c.axiom(forall_z3(rs, a3, [kv]) if rs else a3, why)
    else:
        body = z3.Implies(z3.And(inr, j >= 0, j < zi(dim)), z3.And(
            tk >= tj, z3.Implies(tj == tk, kv <= j)))
    c.axiom(z3.ForAll(rs + [j], body), why)

    def f(*ri):
        return K(*[zi(r) for r in ri]) if rest else kv
    return out_scalar(SArr(rdims, 'i', f))


def cumsum_key(c, a, axis, kind, s):
    cs = [z3.Int('!c%d' % d) for d in range(a.ndim)]
    c.qdepth += 1
    try:
        ct = z3.simplify(s(tuple(cs))[0])
    finally:
        c.qdepth -= 1
    return ct, ('cumsum', axis, kind, tuple(zi(d).get_id() for d in a._shape), ct.get_id())


def match_term(p, t, pv, b):
    """binds the variables pv of the pattern p so that it equals t"""
    for v in pv:
        if p.eq(v):
            if v.get_id() in b:
                return b[v.get_id()].eq(t)
            b[v.get_id()] = t
            return True
    if p.eq(t):
        return True
    if not (z3.is_app(p) and z3.is_app(t)) or not p.decl().eq(t.decl()) or p.num_args() != t.num_args():
        return False
    return p.num_args() > 0 and all(match_term(x, y, pv, b) for x, y in zip(p.children(), t.children()))


def gathered_cumsum(c, a, axis, kind, ct):
    """running sums of a selection of rows are the selected rows of the running sums"""
    if axis != a.ndim - 1 or a.ndim < 2:
        return None
    last = z3.Int('!c%d' % axis)
    for ax0, k0, shp0, ct0, key0 in c.memo.get('cumsums', ()):
        n0 = len(shp0)
        if k0 != kind or ax0 != n0 - 1 or not zi(shp0[-1]).eq(zi(a._shape[-1])) or key0 not in c.memo:
            continue
        pv = [z3.Int('!c%d' % d) for d in range(n0)]
        tmp = [z3.Int('!p%d' % d) for d in range(n0)]
        b = {}
        if not match_term(z3.substitute(ct0, *zip(pv, tmp)), ct, tmp, b):
            continue
        if any(v.get_id() not in b for v in tmp) or not b[tmp[-1].get_id()].eq(last):
            continue
        rows = [b[v.get_id()] for v in tmp[:-1]]
        if any(contains(r, [last]) for r in rows):
            continue
        f0, cum = c.memo[key0]
        cs = [z3.Int('!c%d' % d) for d in range(a.ndim)]

        def f(*idx):
            zs = [zi(i) for i in idx]
            return f0(*[z3.substitute(r, *zip(cs, zs)) for r in rows], zs[-1])
        c.hold((ct, rows))
        return SArr(a._shape, kind, f)
    return None


def distribution_cumsum(a, steps=False):
    """running sums over the last axis of non-negative values that total one: only what is proved of
    them in general (lemma running_sums of C02) is known"""
    a = toarr(a)
    axis = a.ndim - 1
    s, c = snapshot(a), ctx()
    ct, mkey = cumsum_key(c, a, axis, a.kind, s)
    c.hold((ct, [zi(d) for d in a._shape]))
    c.memo.setdefault('cumsums', []).append((axis, a.kind, a._shape, ct, mkey))
    nm = c.fresh_name('cdf')
    I = z3.IntSort()
    C = z3.Function(nm, *[I] * a.ndim, SORT['f'])
    why = 'running sums of a distribution (lemma running_sums of C02)'
    qs = [z3.Int('?%s_i%d' % (nm, i)) for i in range(a.ndim)]
    other = qs[:-1] + [z3.Int('?%s_j' % nm)]
    rng = [z3.And(q >= 0, q < zi(d)) for q, d in zip(qs, a._shape)]
    m = zi(a._shape[-1])
    c.axiom(forall_z3(qs, z3.Implies(z3.And(*rng), z3.And(C(*qs) >= 0, C(*qs) <= 1, z3.Implies(
        qs[-1] == m - 1, C(*qs) == 1))), [C(*qs)]), why)
    c.axiom(forall_z3(qs + [other[-1]], z3.Implies(z3.And(*rng, other[-1] >= 0, other[-1] <= qs[-1]), C(*other) <= C(*qs)),
                      [(C(*qs), C(*other))]), why)
    if len(qs) > 1:
        c.axiom(forall_z3(qs[:-1], z3.Implies(z3.And(*rng[:-1]), C(*qs[:-1], m - 1) == 1), [C(*qs[:-1], m - 1)]), why)
    else:
        c.axiom(C(m - 1) == 1, why)
    if steps:
        c.qdepth += 1
        try:
            tq = s(tuple(qs))[0]
        finally:
            c.qdepth -= 1
        c.axiom(forall_z3(qs, z3.Implies(z3.And(*rng), C(*qs) == tq + z3.If(
            qs[-1] == 0, z3.RealVal(0), C(*qs[:-1], qs[-1] - 1))), [(C(*qs), tq)]), 'cumsum: C[k] = C[k-1] + a[k]')

    def f(*idx):
        return C(*[zi(i) for i in idx])
    r = SArr(a._shape, 'f', f)
    r.cum = (C, s, axis)
    c.memo[mkey] = (f, r.cum)
    return r


def cumsum(a, axis=None):
    a = toarr(a)
    if axis is None:
        if a.ndim != 1:
            a = reshape(a, (-1,))
        axis = 0
    axis = axis % a.ndim
    s, kin = snapshot(a), a.kind
    kind = 'i' if kin == 'b' else kin
    dim = a._shape[axis]
    if isinst(dim, real_int) and dim <= 64:
        def f(*idx):
            i = idx[axis]

            def upto(m):
                acc, nn = None, None
                for j in range(m + 1):
                    v, n = s(idx[:axis] + (j,) + idx[axis + 1:])
                    v = cast(kin, v, kind)
                    acc = v if acc is None else acc + v
                    nn = or_nan(nn, n)
                return acc, nn
            if isinst(i, real_int):
                return upto(i)
            res = None
            for m in reversed(range(dim)):
                u = upto(m)
                res = u if res is None else ite2(i == m, u, res)
            return res if res is not None else (cast('i', z3.IntVal(0), kind), None)
        return SArr(a._shape, kind, f)
    c = ctx()
    # the running sum of equal content is the same function (memoised by content)
    ct, mkey = cumsum_key(c, a, axis, kind, s)
    if mkey in c.memo:
        f0, cum = c.memo[mkey]
        r = SArr(a._shape, kind, f0)
        r.cum = cum
        return r
    g = gathered_cumsum(c, a, axis, kind, ct)
    if g is not None:
        return g
    c.hold((ct, [zi(d) for d in a._shape]))
    c.memo.setdefault('cumsums', []).append((axis, kind, a._shape, ct, mkey))
    nm = c.fresh_name('cumsum')
    I = z3.IntSort()
    nd = a.ndim
    C = z3.Function(nm, *[I] * nd, SORT[kind])
    why = 'cumsum: C[k] = C[k-1] + a[k]'
    qs = [z3.Int('?%s_i%d' % (nm, i)) for i in range(nd)]
    c.qdepth += 1
    try:
        tq = cast(kin, s(tuple(qs))[0], kind)
    finally:
        c.qdepth -= 1
    inr = z3.And(*[z3.And(q >= 0, q < zi(d)) for q, d in zip(qs, a._shape)])
    prev = list(qs)
    prev[axis] = qs[axis] - 1
    first = list(qs)
    first[axis] = z3.IntVal(0)
    body = z3.Implies(inr, C(*qs) == tq + z3.If(qs[axis] == 0, cast('i', z3.IntVal(0), kind), C(*prev)))
    if c.fixed_dims is None:
        # trigger on the summand's own application keeps the recursion from looping
        pats = [t for t in subterms(tq) if mentions_all(t, qs)]
        c.axiom(forall_z3(qs, body, [(C(*qs), pats[0])] if pats else [C(*qs)]), why)
    def f(*idx):
        zs = [zi(i) for i in idx]
        v = C(*zs)
        if c.qdepth == 0 and Ctx.cur is c:
            key = ('cs', v.get_id())
            if key not in c.memo:
                c.memo[key] = v
                inr_ = z3.And(*[z3.And(q >= 0, q < zi(d)) for q, d in zip(zs, a._shape)])
                p = list(zs)
                p[axis] = zs[axis] - 1
                t = cast(kin, s(tuple(zs))[0], kind)
                c.axiom(z3.Implies(inr_, v == t + z3.If(zs[axis] == 0, cast('i', z3.IntVal(0), kind), C(*p))), why)
        return v
    r = SArr(a._shape, kind, f)
    r.cum = (C, s, axis)
    c.memo[mkey] = (f, r.cum)
    c.memo.setdefault('used', []).append(('cumsum', dict(a=r, of=s)))
    return r


def subterms(t):
    seen, out, stack = set(), [], [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.num_args() and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(u)
        stack.extend(u.children())
    return out


def mentions_all(t, qs):
    return all(contains(t, [q]) for q in qs)


# ------------------------------------------------------------------ set-like primitives
def isin(x, ys, invert=False):
    x, y = toarr(x), toarr(ys)
    sx, sy = snapshot(x), snapshot(y)
    tag = getattr(y, 'tag', None)
    if tag is not None and tag[0] == 'pos' and tag[1].nd == 1 and x.kind == 'i':
        # membership in the positions of the True entries of a mask
        m = tag[1]

        def g(*idx):
            v = sx(idx)[0]
            r = z3.And(v >= 0, v < zi(m.shape[0]), m.at_term((v,)))
            return z3.Not(r) if invert else r
        return out_scalar(SArr(x._shape, 'b', g))
    m = getattr(y, 'selmask', None)
    if m is not None and m.nd == 1 and getattr(y, 'selsrc', None) is not None and y.base is None and y.store.ver == 0:
        # membership in the selected entries of an array
        src, kd = y.selsrc, y.kind

        def h(*idx):
            v = sx(idx)[0]
            r = quant((m.shape[0],), lambda k: z3.And(m.at_term((k,)), binop('eq', (x.kind, v, None), (kd, src((k,))[0], None))[1]),
                      universal=False)
            return z3.Not(r) if invert else r
        return out_scalar(SArr(x._shape, 'b', h))
    if tag is not None and tag[0] == 'unique' and y.base is None and y.store.ver == 0:
        # the different values of an array are its values
        y = tag[1]
        sy = tag[2]

    def f(*idx):
        v = sx(idx)[0]
        r = quant(y._shape, lambda *k: binop('eq', (x.kind, v, None), (y.kind, sy(k)[0], None))[1],
                  universal=False)
        return z3.Not(r) if invert else r
    return out_scalar(SArr(x._shape, 'b', f))


def concatenate(parts, axis=0):
    if isinst(parts, SArr):
        parts = list(parts)
    parts = [toarr(p) for p in parts]
    if not parts:
        raise ValueError('need at least one array to concatenate')
    nd = parts[0].ndim
    if axis is None:
        parts = [reshape(p, (-1,)) for p in parts]
        axis, nd = 0, 1
    axis %= nd
    kind = parts[0].kind
    for p in parts[1:]:
        # numpy: empty float arrays still promote
        kind = promote(kind, p.kind)
        if p.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for i in range(nd):
            if i != axis:
                require_deq(p._shape[i], parts[0]._shape[i], 'concatenate')
    offs = [0]
    for p in parts:
        o = offs[-1]
        d = p._shape[axis]
        offs.append(zdim(zi(o) + zi(d)))
    snaps = [snapshot(p) for p in parts]
    shape = list(parts[0]._shape)
    shape[axis] = offs[-1]
    for o in offs[1:-1]:
        x = z3.Int('?off')
        ctx().insts.append(([x], z3.BoolVal(True), zi(o) + x))

    def f(*idx):
        i = idx[axis]
        res = None
        for j in reversed(range(real_len(parts))):
            sub = subi(i, offs[j])
            if isinst(sub, real_int) and isinst(parts[j]._shape[axis], real_int):
                if not 0 <= sub < parts[j]._shape[axis]:
                    continue
            elif not isinst(sub, real_int):
                sub = z3.simplify(sub)
            v, n = snaps[j](idx[:axis] + (sub,) + idx[axis + 1:])
            v = cast(parts[j].kind, v, kind)
            if res is None:
                res = (v, n)
            else:
                lt = zi(i) < zi(offs[j + 1])
                res = ite2(z3.simplify(lt), (v, n), res)
        return res if res is not None else (default_val(kind), None)
    return SArr(shape, kind, f)


def roll(a, shift, axis=None):
    a = toarr(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('roll flattened')
        axis = 0
    axis %= a.ndim
    sh = conc_int(shift)
    d = a._shape[axis]
    s = snapshot(a)

    def f(*idx):
        i = idx[axis]
        if isinst(i, real_int) and isinst(d, real_int) and isinst(sh, real_int):
            j = (i - sh) % d
        elif sh == 1:
            j = z3.If(zi(i) == 0, zi(d) - 1, zi(i) - 1)
        elif sh == -1:
            j = z3.If(zi(i) == zi(d) - 1, z3.IntVal(0), zi(i) + 1)
        else:
            j = (zi(i) - zi(sh)) % zi(d)
        return s(idx[:axis] + (j,) + idx[axis + 1:])
    return SArr(a._shape, a.kind, f)


def searchsorted(a, v, side='left'):
    a = toarr(a)
    vv = toarr(v)
    sa, sv = snapshot(a), snapshot(vv)
    n = zi(a._shape[0])
    c = ctx()
    nm = c.fresh_name('ss')
    I = z3.IntSort()
    k = promote(a.kind, promote(vv.kind, 'i'))
    rs = [z3.Int('?%s_r%d' % (nm, i)) for i in range(vv.ndim)]
    K = z3.Function(nm, *[I] * vv.ndim, I) if rs else None
    kv = K(*rs) if rs else z3.Int(nm)
    c.qdepth += 1
    try:
        val = cast(vv.kind, sv(tuple(rs))[0], k)
        lo = cast(a.kind, sa((kv - 1,))[0], k)
        hi = cast(a.kind, sa((kv,))[0], k)
    finally:
        c.qdepth -= 1
    inr = z3.And(*[z3.And(r >= 0, r < zi(d)) for r, d in zip(rs, vv._shape)]) if rs else z3.BoolVal(True)
    if side == 'left':
        body = z3.And(kv >= 0, kv <= n, z3.Or(kv == 0, lo < val), z3.Or(kv == n, hi >= val))
    else:
        body = z3.And(kv >= 0, kv <= n, z3.Or(kv == 0, lo <= val), z3.Or(kv == n, hi > val))
    why = 'searchsorted: binary-search boundary condition'
    ax = z3.Implies(inr, body)
    c.axiom(forall_z3(rs, ax, [kv]) if rs else ax, why)
    c.memo.setdefault('used', []).append(('searchsorted', dict(of=sa, n=n, v=sv, K=K, side=side)))
    return out_scalar(SArr(vv._shape, 'i', lambda *ri: K(*[zi(r) for r in ri]) if rs else kv))


def unique_strings(a, c):
    """strings of a known alphabet: case split over which of them occur"""
    n, s = zi(a._shape[0]), snapshot(a)
    i = z3.Int('?' + c.fresh_name('letter'))
    c.qdepth += 1
    try:
        si = s((i,))[0]
    finally:
        c.qdepth -= 1
    rng = z3.And(i >= 0, i < n)
    letters = sorted(set(c.alphabet))
    if not c.entails(z3.ForAll([i], z3.Implies(rng, z3.Or(*[si == intern_str(x) for x in letters])))):
        return None
    return np.array([x for x in letters if c.branch(z3.Exists([i], z3.And(rng, si == intern_str(x))))], dtype=str)


def unique(a, return_inverse=False, return_counts=False, return_index=False):
    a = toarr(a)
    if a.ndim != 1:
        a = reshape(a, (-1,))
    if return_index:
        raise Unsupported('unique return_index')
    c = ctx()
    if a.kind == 's' and not return_inverse and not return_counts and getattr(c, 'alphabet', None):
        found = unique_strings(a, c)
        if found is not None:
            return found
    nm = c.fresh_name('uniq')
    I = z3.IntSort()
    n = zi(a._shape[0])
    s = snapshot(a)

    def s2(*i):
        return s(i)
    U = z3.Function(nm, I, SORT[a.kind])
    W = z3.Function(nm + '_w', I, I)
    V = z3.Function(nm + '_inv', I, I)
    cnt = z3.Int(nm + '_n')
    k, k2, i = z3.Ints('?%s_k ?%s_k2 ?%s_i' % (nm, nm, nm))
    why = 'np.unique: strictly increasing, exactly the occurring values'
    c.qdepth += 1
    try:
        si, sw = s((i,))[0], s((W(k),))[0]
    finally:
        c.qdepth -= 1
    c.axiom(z3.And(cnt >= 0, cnt <= n, z3.Implies(n > 0, cnt > 0)), why)
    c.axiom(forall_z3([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
        V(i) >= 0, V(i) < cnt, U(V(i)) == si)), [V(i)]), why)
    pats = [t for t in subterms(si) if mentions_all(t, [i])]
    if pats:
        c.axiom(forall_z3([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(
            V(i) >= 0, V(i) < cnt, U(V(i)) == si)), [pats[0]]), why)
    c.axiom(forall_z3([k], z3.Implies(z3.And(k >= 0, k < cnt), z3.And(
        W(k) >= 0, W(k) < n, sw == U(k), V(W(k)) == k)), [U(k)]), why)
    if a.kind in 'if':
        c.axiom(forall_z3([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < cnt), U(k) < U(k2)),
                          [(U(k), U(k2))]), why)
    else:
        c.axiom(forall_z3([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < cnt), U(k) != U(k2)),
                          [(U(k), U(k2))]), why)
    u = SArr((cnt,), a.kind, lambda j: U(zi(j)))
    if a.kind in 'ibs':
        u.tag = ('unique', SArr(a._shape, a.kind, s2), s)
    c.memo.setdefault('used', []).append(('unique', dict(of=s, n=n, U=U, W=W, inv=V, cnt=cnt)))
    outs = [u]
    if return_inverse:
        outs.append(SArr((n,), 'i', lambda j: V(zi(j))))
    if return_counts:
        # count of value U(k): an abstract counting function of the array and the value
        outs.append(SArr((cnt,), 'i', lambda j: count_eq(a, U(zi(j)))))
    return outs[0] if real_len(outs) == 1 else tuple(outs)


def count_eq(a, val):
    """number of entries of the 1-D array a equal to val, as a Sum term"""
    s = snapshot(a)
    S = SumTerm([a._shape[0]], [], 'i', lambda ri, ai: (z3.If(s(ai)[0] == val, z3.IntVal(1), z3.IntVal(0)), None))
    if isinst(a._shape[0], real_int):
        n = a._shape[0]
        return z3.Sum([z3.If(s((j,))[0] == val, 1, 0) for j in range(n)]) if n else z3.IntVal(0)
    return S.value(())


def bincount(a, minlength=0, weights=None):
    a = toarr(a)
    if weights is not None:
        raise Unsupported('bincount weights')
    c = ctx()
    s = snapshot(a)
    n = a._shape[0]
    c.oblige('safety: bincount of non-negative entries', quant((n,), lambda i: s((i,))[0] >= 0))
    ml = zdim(minlength)
    ln = z3.Int(c.fresh_name('bc_n'))
    why = 'bincount: out[k] = number of entries equal to k; length covers minlength and max'
    w = z3.Int(c.fresh_name('bc_w'))
    c.axiom(z3.And(ln >= zi(ml), z3.Or(ln == zi(ml), z3.And(w >= 0, w < zi(n), s((w,))[0] == ln - 1))), why)
    c.axiom(quant((n,), lambda i: s((i,))[0] < ln), why)
    out = SArr((ln,), 'i', lambda k: count_eq(a, zi(k)))
    out.bc = (zi(n), out.store.ver)
    return out


def sort(a, axis=-1):
    a = toarr(a)
    if a.ndim != 1 or a.kind not in 'if':
        raise Unsupported('sort')
    c = ctx()
    if c.qdepth:
        raise Unsupported('sort under a quantifier')
    nm = c.fresh_name('sort')
    I = z3.IntSort()
    n, s = zi(a._shape[0]), snapshot(a)
    U = z3.Function(nm, I, SORT[a.kind])
    P, Q = z3.Function(nm + '_from', I, I), z3.Function(nm + '_to', I, I)
    k, k2 = z3.Ints('?%s_k ?%s_k2' % (nm, nm))
    why = 'np.sort: a permutation in non-decreasing order'
    c.qdepth += 1
    try:
        (sp, nan), si = s((P(k),)), s((k,))[0]
    finally:
        c.qdepth -= 1
    if nan is not None:
        raise Unsupported('sort of possibly-nan entries')
    ok = z3.And(k >= 0, k < n)
    c.axiom(forall_z3([k], z3.Implies(ok, z3.And(P(k) >= 0, P(k) < n, Q(P(k)) == k, U(k) == sp)), [U(k)]), why)
    inv = z3.Implies(ok, z3.And(Q(k) >= 0, Q(k) < n, P(Q(k)) == k, U(Q(k)) == si))
    c.axiom(forall_z3([k], inv, [Q(k)]), why)
    pats = [t for t in subterms(si) if mentions_all(t, [k])]
    if pats:
        c.axiom(forall_z3([k], inv, [pats[0]]), why)
    c.axiom(forall_z3([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < n), U(k) <= U(k2)), [(U(k), U(k2))]), why)
    return SArr((a._shape[0],), a.kind, lambda j: U(zi(j)))


def argsort(a, axis=-1, kind=None, stable=None):
    a = toarr(a)
    if a.ndim != 1 or a.kind not in 'if':
        raise Unsupported('argsort')
    c = ctx()
    if c.qdepth:
        raise Unsupported('argsort under a quantifier')
    nm = c.fresh_name('argsort')
    I = z3.IntSort()
    n, s = zi(a._shape[0]), snapshot(a)
    P, Q = z3.Function(nm + '_from', I, I), z3.Function(nm + '_to', I, I)
    k, k2 = z3.Ints('?%s_k ?%s_k2' % (nm, nm))
    why = 'np.argsort: a permutation that sorts%s' % (' stably' if stable or kind in ('stable', 'mergesort') else '')
    c.qdepth += 1
    try:
        (sp, nan), sp2, si = s((P(k),)), s((P(k2),))[0], s((k,))[0]
    finally:
        c.qdepth -= 1
    if nan is not None:
        raise Unsupported('sort of possibly-nan entries')
    ok = z3.And(k >= 0, k < n)
    c.axiom(forall_z3([k], z3.Implies(ok, z3.And(P(k) >= 0, P(k) < n, Q(P(k)) == k)), [P(k)]), why)
    c.axiom(forall_z3([k], z3.Implies(ok, z3.And(Q(k) >= 0, Q(k) < n, P(Q(k)) == k)), [Q(k)]), why)
    order = z3.Or(sp < sp2, z3.And(sp == sp2, P(k) < P(k2))) if stable or kind in ('stable', 'mergesort') else sp <= sp2
    c.axiom(forall_z3([k, k2], z3.Implies(z3.And(k >= 0, k < k2, k2 < n), order), [(P(k), P(k2))]), why)
    c.memo.setdefault('used', []).append(('argsort', dict(of=s, n=n, P=P, Q=Q, sel=getattr(a, 'selmask', None))))
    return SArr((a._shape[0],), 'i', lambda j: P(zi(j)))
