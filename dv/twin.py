"""Twin import: the source text of /repo's demod modules, compiled again on every run and
executed over symbolic values.

What the extraction changes, mechanically, and nothing else:
  * `import numpy` / `import datetime` inside demod modules resolve to the shims;
    `import demod.x` resolves to the twin of demod.x; dataset singletons that need raw files
    resolve to inert placeholders (realload.STUBBED);
  * the builtins len, range, min, max, sum, isinstance, abs, any, all, sorted, round,
    enumerate, zip, print are looked up in a table that handles symbolic values and otherwise
    defers to Python's;
  * calls int(..), float(..), bool(..), str(..) in the source go through the same table;
  * the iterable of each `for` statement goes through `__dv_iter__(iterable, id)`, which is the
    identity unless the iterable has symbolic length (then a loop contract is required);
  * list comprehensions with one generator and no condition go through `__dv_comp__(lambda x: e, it)`,
    which is the comprehension unless the iterable has symbolic length (then the item at an arbitrary
    index, evaluated without effects or case distinctions, describes every item).
Docstrings, annotations and everything else are executed as written.
"""
from __future__ import annotations
import ast
import builtins
import ctypes
import importlib.util
import os
import sys
import types

import numpy as np
import z3

from . import arr, dt, npshim
from .arr import SArr, odim, zi, zdim
from .core import (Ctx, ctx, SVal, SBool, SInt, SReal, SStr, _mk, lift, Unsupported, PathEnd,
                   real_int, real_float, real_bool, real_isinstance as isinst, real_len,
                   as_z3bool, to_intt, to_real)
from .realload import STUBBED, make_stub, REPO


# ------------------------------------------------------------------ builtins
class SRange:
    """range with a symbolic bound"""

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def __iter__(self):
        raise Unsupported('iteration over a range of symbolic length (no loop contract)')


def dv_len(x):
    if isinst(x, SArr):
        if x.ndim == 0:
            raise TypeError('len() of unsized object')
        return odim(x._shape[0])
    if isinst(x, SRange):
        return x.stop - x.start
    f = getattr(type(x), '__dvlen__', None)
    if f:
        return f(x)
    return real_len(x)


def dv_range(*a):
    a = [x.item() if isinst(x, SArr) else x for x in a]
    if any(isinst(x, SVal) for x in a):
        b = []
        for x in a:
            if isinst(x, SReal):
                raise TypeError("'float' object cannot be interpreted as an integer")
            if isinst(x, SVal):
                s = z3.simplify(to_intt(*lift(x)[:2]))
                b.append(s.as_long() if z3.is_int_value(s) else SInt(s))
            else:
                b.append(x)
        if any(isinst(x, SVal) for x in b):
            if real_len(b) == 1:
                return SRange(0, b[0])
            return SRange(*b)
        a = b
    return range(*a)


def dv_isinstance(x, c):
    if isinst(x, SVal):
        cs = c if isinst(c, tuple) else (c,)
        for k in cs:
            if isinst(k, types.UnionType):
                if dv_isinstance(x, k.__args__):
                    return True
                continue
            if k is object or (isinst(k, type) and issubclass(x.pytype, k)):
                return True
            if k is np.generic or k is np.number:
                return False
        return False
    if isinst(x, (dt.SDT, dt.STD, dt.STime, dt.SDate)):
        cs = c if isinst(c, tuple) else (c,)
        for k in cs:
            if isinst(k, type(dt.datetime)) or isinst(k, (type(dt.timedelta), type(dt.time), type(dt.date))):
                if isinst(x, k):
                    return True
            elif isinst(k, type) and issubclass(x.pytype, k):
                return True
        return False
    if isinst(x, GhostSeq):
        return any(k in (list, object) for k in (c if isinst(c, tuple) else (c,)))
    return isinst(x, c)


def _minmax(which):
    real = getattr(builtins, which)

    def f(*a, key=None, **k):
        xs = list(a[0]) if real_len(a) == 1 and not isinst(a[0], SArr) else a
        if real_len(a) == 1 and isinst(a[0], SArr):
            return arr.minmax(a[0], None, which)
        if key is None and any(isinst(x, SVal) for x in xs):
            if not xs:
                return real(xs, **k)
            r = xs[0]
            for x in xs[1:]:
                r = arr.binary('minimum' if which == 'min' else 'maximum', r, x)
            return r
        if key is None and any(isinst(x, (dt.SDT, dt.STD)) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                c = (x < r) if which == 'min' else (x > r)
                if c:
                    r = x
            return r
        if any(isinst(x, SArr) for x in xs):
            raise ValueError('The truth value of an array is ambiguous')
        if key is not None:
            k['key'] = key
        return real(xs, **k)
    return f


def dv_sum(x, start=0):
    if isinst(x, SArr):
        if isinst(x._shape[0], real_int):
            x = list(x)
        else:
            r = arr.sum_(x, 0)
            return r if isinst(start, real_int) and start == 0 else r + start
    r = start
    for v in x:
        r = r + v
    return r


def dv_any(xs):
    if isinst(xs, SArr):
        if xs.ndim != 1:
            raise ValueError('ambiguous')
        return arr.any_(xs)
    xs = list(xs)
    if any(isinst(x, (SBool, SInt, SReal)) for x in xs):
        return SBool(z3.Or(*[as_z3bool(x) for x in xs]))
    return builtins.any(xs)


def dv_all(xs):
    if isinst(xs, SArr):
        if xs.ndim != 1:
            raise ValueError('ambiguous')
        return arr.all_(xs)
    xs = list(xs)
    if any(isinst(x, (SBool, SInt, SReal)) for x in xs):
        return SBool(z3.And(*[as_z3bool(x) for x in xs]))
    return builtins.all(xs)


def dv_sorted(xs, **k):
    if isinst(xs, SArr):
        raise Unsupported('sorted() of symbolic values')
    xs = list(xs)
    by = [k['key'](x) for x in xs] if k.get('key') is not None else xs
    if arr.has_sym(by):
        raise Unsupported('sorted() of symbolic values')
    return [xs[i] for i in builtins.sorted(builtins.range(real_len(xs)), key=by.__getitem__, reverse=k.get('reverse', False))]


def dv_print(*a, **k):
    return None


def dv_int(*a, **k):
    if a and isinst(a[0], (SVal, SArr)):
        x = a[0]
        if isinst(x, SArr):
            if x.ndim == 1:
                require_one(x)
                x = _mk(x.kind, *x.get2((0,)))
            else:
                x = x.item()
        if isinst(x, SStr):
            raise Unsupported('int of a string')
        k_, t, n = lift(x)
        r = z3.simplify(to_intt(k_, t))
        return r.as_long() if z3.is_int_value(r) else SInt(r)
    return int(*a, **k)


def require_one(x):
    d = x._shape[0]
    if isinst(d, real_int):
        if d != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
    else:
        if not real_bool(SBool(zi(d) == 1)):
            raise TypeError('only length-1 arrays can be converted to Python scalars')


def dv_float(*a):
    if a and isinst(a[0], (SVal, SArr)):
        x = a[0]
        if isinst(x, SArr):
            if x.ndim == 1:
                require_one(x)
                x = _mk(x.kind, *x.get2((0,)))
            else:
                x = x.item()
        if isinst(x, SStr):
            raise Unsupported('float of a string')
        k_, t, n = lift(x)
        return SReal(to_real(k_, t), n)
    return float(*a)


def dv_bool(*a):
    if a and isinst(a[0], (SBool, SInt, SReal)):
        return SBool(as_z3bool(a[0]))
    return bool(*a)


def dv_str(*a, **k):
    if a and isinst(a[0], (SStr,)):
        return a[0]
    if a and isinst(a[0], (SVal, SArr)):
        return repr(a[0])
    return str(*a, **k)


def dv_hash(x):
    return hash(x)


class dv_enumerate:
    def __new__(cls, xs, start=0):
        if isinst(xs, GhostSeq) or isinst(xs, SArr) and not isinst(xs._shape[0], real_int):
            return SEnum([xs], True, start)
        if isinst(xs, SEnum) and not xs.with_index:
            return SEnum([xs], True, start)
        return enumerate(xs, start)


class GhostSeq:
    """sequence of symbolic length whose items are described by make(k)"""

    def __init__(self, n, make):
        self.n, self.make, self.items = n, make, {}

    def __dvlen__(self):
        return self.n

    def __iter__(self):
        raise Unsupported('iteration over a sequence of symbolic length (no loop contract)')

    def __getitem__(self, k):
        t = z3.simplify(lift(k)[1])
        key = t.get_id()
        if key not in self.items:
            self.items[key] = (t, self.make(SInt(t) if not z3.is_int_value(t) else t.as_long()))
        return self.items[key][1]

    def __add__(self, o):
        return concat(self, o)

    def __radd__(self, o):
        return concat(o, self)


def concat(a, b):
    """a + b, at least one of them of symbolic length"""
    if not isinst(a, (list, GhostSeq)) or not isinst(b, (list, GhostSeq)):
        return NotImplemented
    at = lambda x, i: x[i] if isinst(x, GhostSeq) or isinst(i, real_int) else list_at(x, i)
    n = a.n if isinst(a, GhostSeq) else real_len(a)
    m = b.n if isinst(b, GhostSeq) else real_len(b)
    return GhostSeq(n + m, lambda i: at(a, i) if real_bool(i < n) else at(b, i - n))


def repeated(x, n):
    """x * n, of a list"""
    if real_len(x) != 1:
        raise Unsupported('a symbolic number of repetitions of more than one item')
    return GhostSeq(_mk('i', z3.If(lift(n)[1] > 0, lift(n)[1], z3.IntVal(0))), lambda i: x[0])


def list_at(x, i):
    for j, v in builtins.enumerate(x):
        if real_bool(i == j):
            return v
    raise IndexError('list index out of range')


def generic(v, k):
    """items of a sequence from the item at an arbitrary index k"""
    if isinst(v, SArr):
        snap = arr.snapshot(v)

        def make(i):
            sub = lambda t: t if t is None or not z3.is_expr(t) else z3.substitute(t, (k, i))
            shp = tuple(d if isinst(d, real_int) else z3.simplify(sub(zi(d))) for d in v._shape)
            return SArr(shp, v.kind, lambda *j: tuple(sub(t) for t in snap(j)))
        return make
    if isinst(v, SVal):
        knd, t, nan = lift(v)
        return lambda i: _mk(knd, z3.substitute(t, (k, i)), None if nan is None else z3.substitute(nan, (k, i)))
    if isinst(v, dict):
        ms = {a: generic(b, k) for a, b in v.items()}
        return lambda i: {a: m(i) for a, m in ms.items()}
    if isinst(v, (list, tuple)):
        ms = [generic(b, k) for b in v]
        return lambda i: type(v)(m(i) for m in ms)
    if v is None or isinst(v, (real_int, real_float, str)):
        return lambda i: v
    raise Unsupported('comprehension over a symbolic sequence: items of type ' + type(v).__name__)


def dv_comp(f, it, frame=None):
    """[f(x) for x in it]; over a symbolic sequence: the item at an arbitrary index, evaluated once,
    without effects, case distinctions or new unknowns, describes all items"""
    if Ctx.cur is None:
        return [f(x) for x in it]
    n = symlen(it) if isinst(it, (SArr, SRange, SEnum, GhostSeq)) else None
    if n is None:
        return [f(x) for x in it]
    n = z3.simplify(n)
    if z3.is_int_value(n):
        return [f(elem_at(it, z3.IntVal(i))) for i in range(n.as_long())]
    c = ctx()
    if c.entails(n <= 0):
        return []
    k = z3.Int(c.fresh_name('k_comp'))
    fr = sys._getframe(1)
    pc, names, dec, draws = real_len(c.pc), dict(c.names), real_len(c.decisions), real_len(c.draws)
    s0, keep = snapshot(fr.f_locals)
    c.solver.push()
    try:
        c.assume(z3.And(k >= 0, k < n))
        v = f(elem_at(it, k))
        if isinst(v, (SArr, SVal)):
            m = generic(v, k)
            m(k)
        else:
            m = generic(v, k)
    finally:
        c.solver.pop()
        new = c.pc[pc:]
        del c.pc[pc:]
    if real_len(c.decisions) != dec or real_len(c.draws) != draws or c.names != names:
        raise Unsupported('comprehension over a symbolic sequence: case distinctions or new unknowns in its items')
    s1, keep1 = snapshot(fr.f_locals)
    if any(s1.get(p) != s0[p] for p in s0):
        raise Unsupported('comprehension over a symbolic sequence with effects')
    return GhostSeq(SInt(n), lambda i: m(lift(i)[1]))


class SEnum:
    def __init__(self, seqs, with_index, start=0):
        self.seqs, self.with_index, self.start0 = seqs, with_index, start

    def __iter__(self):
        raise Unsupported('iteration over an array of symbolic length (no loop contract)')


def dv_zip(*xs, **k):
    if any(isinst(x, (SArr, SRange, GhostSeq)) and symlen(x) is not None for x in xs):
        return SEnum(list(xs), False)
    return zip(*xs, **k)


def symlen(x):
    """z3 length if symbolic, else None"""
    if isinst(x, GhostSeq):
        return lift(x.n)[1]
    if isinst(x, SArr) and x.ndim and not isinst(x._shape[0], real_int):
        return zi(x._shape[0])
    if isinst(x, SRange):
        if not (isinst(x.step, real_int) and x.step == 1):
            raise Unsupported('symbolic range step')
        a, b = lift(x.start)[1], lift(x.stop)[1]
        return z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
    if isinst(x, SEnum):
        ls = [symlen(s) for s in x.seqs]
        if real_len(x.seqs) > 1:
            n = None
            for s, l in zip(x.seqs, ls):
                if l is None:
                    l = zi(real_len(s) if not isinst(s, SArr) else s._shape[0])
                n = l if n is None else z3.If(l < n, l, n)
            n = z3.simplify(n)
            # common case: all equal
            if all(l is not None and ctx().entails(l == ls[0]) for l in ls):
                n = ls[0]
            return n
        return ls[0]
    return None


def elem_at(x, k):
    if isinst(x, SRange):
        return x.start + SInt(k) if not (isinst(x.start, real_int) and x.start == 0) else SInt(k)
    if isinst(x, SEnum):
        e = tuple(elem_at(s, k) for s in x.seqs)
        if x.with_index:
            return (SInt(k) + x.start0 if x.start0 else SInt(k),) + e
        return e
    return x[SInt(k)]


# ------------------------------------------------------------------ loops
class LoopContract:
    """inv(S, k, env) -> condition; `modifies`: {local name: maker(k) -> fresh value};
    `havoc(k)` resets object state; `inv` reads the environment (dict of the locals)."""

    def __init__(self, inv, modifies=None, havoc=None):
        self.inv, self.modifies, self.havoc = inv, modifies or {}, havoc


def set_locals(frame, vals):
    loc = frame.f_locals
    for k, v in vals.items():
        loc[k] = v
    ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(frame), ctypes.c_int(0))


def dv_iter(it, lid):
    if Ctx.cur is None:
        return it
    n = symlen(it) if isinst(it, (SArr, SRange, SEnum, GhostSeq)) else None
    if n is None:
        return it
    loops = getattr(ctx(), 'loops', {})
    lc = loops.get(lid) or loops.get(lid.split('#')[0])
    if lc is None:
        s = z3.simplify(n)
        if z3.is_int_value(s):
            return [elem_at(it, z3.IntVal(i)) for i in range(s.as_long())]
        if lc is None and ctx().entails(n == 0):
            return []
        raise Unsupported('loop over a symbolic iterable without contract: ' + lid)
    return _loop(it, n, lc, lid)


def snapshot(loc):
    """identity of everything reachable from the locals (frame check of loop bodies)"""
    out, keep, seen = {}, [], set()

    def walk(p, v, depth):
        keep.append(v)
        if isinst(v, SArr):
            b = v
            while b.base is not None:
                b = b.base
            out[p] = (id(b), b.store.ver)
            return
        if isinst(v, SVal):
            out[p] = v.t.get_id()
            return
        if isinst(v, dt._Cmp):
            out[p] = v.t.get_id()
            return
        if isinst(v, (real_int, real_float, str)) or v is None:
            out[p] = v
            return
        out[p] = id(v)
        if id(v) in seen or depth > 4:
            return
        seen.add(id(v))
        if isinst(v, dict):
            for k, w in v.items():
                walk('%s[%r]' % (p, k if isinst(k, (str, real_int)) else id(k)), w, depth + 1)
            out[p + ' (keys)'] = real_len(v)
        elif isinst(v, (list, tuple)):
            for k, w in enumerate(v):
                walk('%s[%d]' % (p, k), w, depth + 1)
            out[p + ' (length)'] = real_len(v)
        elif isinst(v, GhostSeq):
            pass
        elif hasattr(v, '__dict__') and not isinst(v, (type, types.ModuleType, types.FunctionType)):
            for k, w in vars(v).items():
                walk(p + '.' + k, w, depth + 1)
            out[p + ' (attributes)'] = real_len(vars(v))
    for k, v in loc.items():
        walk(k, v, 0)
    return out, keep


def _loop(it, n, lc, lid):
    c = ctx()
    fr = sys._getframe(1)
    c.oblige('loop invariant on entry: ' + lid, lc.inv(z3.IntVal(0), dict(fr.f_locals)))
    k = z3.Int(c.fresh_name('k_' + lid))
    inside = SBool(z3.Bool(c.fresh_name('in_' + lid)))
    if real_bool(inside):
        c.assume(z3.And(k >= 0, k < n))
        s0, keep = snapshot(fr.f_locals)
        if lc.havoc:
            lc.havoc(k)
        set_locals(fr, {m: mk(k) for m, mk in lc.modifies.items()})
        c.assume(lc.inv(k, dict(fr.f_locals)))
        el = elem_at(it, k)
        s1, keep1 = snapshot(fr.f_locals)
        yield el
        fr = sys._getframe(1)
        s2, keep2 = snapshot(fr.f_locals)
        for p in s0:
            if s2.get(p) != s1.get(p) and s0[p] == s1.get(p):
                raise Unsupported('frame of loop %s: the body changes %s' % (lid, p))
        c.oblige('loop invariant preserved: ' + lid, lc.inv(k + 1, dict(fr.f_locals)))
        raise PathEnd('loop body')
    c.assume(n >= 0)
    if lc.havoc:
        lc.havoc(n)
    set_locals(fr, {m: mk(n) for m, mk in lc.modifies.items()})
    c.assume(lc.inv(n, dict(fr.f_locals)))


# ------------------------------------------------------------------ source transform
TYPECALLS = {'type': '__dv_type__', 'next': '__dv_next__', 'int': '__dv_int__', 'float': '__dv_float__', 'bool': '__dv_bool__', 'str': '__dv_str__'}


def dv_type(*a, **k):
    if real_len(a) == 1 and not k:
        x = a[0]
        if isinst(x, SArr):
            return npshim.shim.ndarray
        if isinst(x, (SVal, dt._Cmp)):
            return x.pytype
    return type(*a, **k)


class SCycle:
    """itertools.cycle over an array of symbolic length: element number pos modulo the length"""

    def __init__(self, a):
        self.a, self.n, self.pos = a, zi(a._shape[0]), SInt(z3.IntVal(0))
        ctx().oblige('safety: cycle over a non-empty array', self.n > 0)

    def __iter__(self):
        return self

    def __next__(self):
        p = self.pos
        self.pos = p + 1
        return elem_at(self.a, z3.simplify(lift(p)[1] % self.n))


class SeqIter:
    """iterator over an array of symbolic length"""

    def __init__(self, a):
        self.a, self.n, self.pos = a, zi(a._shape[0]), SInt(z3.IntVal(0))

    def __iter__(self):
        raise Unsupported('loop over an iterator of symbolic length')

    def __next__(self):
        p = zi(lift(self.pos)[1])
        if real_bool(SBool(p < self.n)):
            self.pos = self.pos + 1
            return elem_at(self.a, z3.simplify(p))
        raise StopIteration


def dv_iter1(x, *a):
    if not a and isinst(x, SArr) and x._shape and not real_int_dim(x):
        return SeqIter(x)
    return iter(x, *a)


def dv_next(it, *d):
    if isinst(it, SArr):
        raise TypeError('array is not an iterator')
    return next(it, *d)


class _Itertools(types.ModuleType):
    def __getattr__(self, n):
        import itertools
        return getattr(itertools, n)

    @staticmethod
    def cycle(x):
        import itertools
        if isinst(x, SArr):
            if real_int_dim(x):
                return itertools.cycle([x[i] for i in range(x._shape[0])])
            return SCycle(x)
        return itertools.cycle(x)


def real_int_dim(x):
    return isinst(x._shape[0], real_int)


ITER = _Itertools('itertools')


class Tx(ast.NodeTransformer):
    def __init__(self):
        self.stack = []
        self.counts = {}

    def _scope(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    visit_FunctionDef = visit_ClassDef = visit_AsyncFunctionDef = _scope

    def visit_For(self, node):
        q = '.'.join(self.stack)
        n = self.counts.get(q, 0)
        self.counts[q] = n + 1
        self.generic_visit(node)
        node.iter = ast.copy_location(ast.Call(
            func=ast.Name('__dv_iter__', ast.Load()),
            args=[node.iter, ast.Constant('%s#%d' % (q, n))], keywords=[]), node.iter)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators
        if real_len(g) != 1 or g[0].ifs or g[0].is_async or any(
                isinst(x, (ast.NamedExpr, ast.Yield, ast.Await)) or isinst(x, ast.Name) and x.id == 'super' for x in ast.walk(node)):
            return node
        # [e for t in it]  ->  __dv_comp__(lambda x: [e for t in [x]][0], it)
        inner = ast.ListComp(elt=node.elt, generators=[ast.comprehension(
            target=g[0].target, iter=ast.List([ast.Name('__dv_x__', ast.Load())], ast.Load()), ifs=[], is_async=0)])
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('__dv_x__')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=ast.Subscript(value=inner, slice=ast.Constant(0), ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=ast.Name('__dv_comp__', ast.Load()), args=[lam, g[0].iter], keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinst(node.func, ast.Name) and node.func.id in TYPECALLS:
            node.func.id = TYPECALLS[node.func.id]
        return node


class Twins:
    """one import universe of twin modules"""

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.b = dict(builtins.__dict__)
        self.b.update(len=dv_len, range=dv_range, isinstance=dv_isinstance,
                      min=_minmax('min'), max=_minmax('max'), sum=dv_sum, any=dv_any, all=dv_all,
                      sorted=dv_sorted, print=dv_print, enumerate=dv_enumerate, zip=dv_zip,
                      __dv_int__=dv_int, __dv_float__=dv_float, __dv_bool__=dv_bool, __dv_str__=dv_str,
                      __dv_iter__=dv_iter, __dv_comp__=dv_comp, __dv_type__=dv_type, __dv_next__=dv_next, iter=dv_iter1, __import__=self.imp)
        for n, cl in STUBBED.items():
            self.mods[n] = make_stub(n, cl)

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self.path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.b
        self.mods[name] = m
        src = open(path, encoding='utf8').read()
        tree = ast.fix_missing_locations(Tx().visit(ast.parse(src, path)))
        exec(compile(tree, path, 'exec', dont_inherit=True), m.__dict__)
        if '.' in name:
            setattr(self.mods[name.rsplit('.', 1)[0]], name.rsplit('.', 1)[1], m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals['__package__']
            for _ in range(level - 1):
                pk = pk.rpartition('.')[0]
            name = pk + ('.' + name if name else '')
        if name == 'numpy':
            return npshim.shim
        if name == 'numpy.random' and fromlist:
            return npshim.shim.random
        if name == 'datetime':
            return dt.shim
        if name == 'itertools' and not fromlist:
            return ITER
        if name == 'copy':
            return COPY
        if name == 'math':
            return MATH
        if name == 'demod' or name.startswith('demod.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and f not in m.__dict__ and hasattr(m, '__path__'):
                        try:
                            self.load(name + '.' + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load('demod')
        return builtins.__import__(name, globals, locals, fromlist, level)


# ------------------------------------------------------------------ copy / math
COPY = types.ModuleType('copy')


def dv_deepcopy(x, memo=None):
    if isinst(x, SArr):
        return arr.copy(x)
    if isinst(x, (SVal, dt.SDT, dt.STD, dt.STime, dt.SDate)):
        return x
    if type(x) is dict:
        return {k: dv_deepcopy(v) for k, v in x.items()}
    if type(x) in (list, tuple):
        return type(x)(dv_deepcopy(v) for v in x)
    if arr.has_sym(x):
        raise Unsupported('deepcopy')
    if hasattr(x, '__dict__') and not isinst(x, type):
        n = x.__class__.__new__(x.__class__)
        n.__dict__.update({k: dv_deepcopy(v) for k, v in x.__dict__.items()})
        return n
    import copy as _c
    return _c.deepcopy(x)


def dv_copy(x):
    if isinst(x, SArr):
        return arr.copy(x)
    if isinst(x, (SVal, dt.SDT, dt.STD, dt.STime)):
        return x
    import copy as _c
    return _c.copy(x)


COPY.deepcopy, COPY.copy = dv_deepcopy, dv_copy


class _Math(types.ModuleType):
    def __getattr__(self, n):
        import math as m
        v = getattr(m, n)
        if not callable(v):
            return v
        op = {'sqrt': 'sqrt', 'exp': 'exp', 'log': 'log', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan',
              'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'floor': 'floor', 'ceil': 'ceil',
              'radians': 'radians', 'degrees': 'degrees', 'fabs': 'abs', 'isnan': 'isnan'}.get(n)

        def f(*a):
            if not arr.has_sym(list(a)):
                return v(*a)
            if op is None:
                raise Unsupported('math.' + n)
            r = arr.unary(op, a[0])
            return dv_int(r) if n in ('floor', 'ceil') else r
        return f


MATH = _Math('math')
