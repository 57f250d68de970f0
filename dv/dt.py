"""Symbolic datetime / timedelta / time: exact integer microseconds (naive datetimes).

Year, month and day of a symbolic day number are uninterpreted functions of it,
constrained by calendar lemmas (checked over a full 400-year period by selftest.py).
"""
from __future__ import annotations
import datetime as _dt
import types

import z3

from .core import (ctx, Ctx, SVal, SInt, SReal, SBool, lift, Unsupported, real_int,
                   real_isinstance as isinst, real_bool, to_intt, to_real, cast)

US_DAY = 86400 * 10**6
EPOCH = _dt.datetime(1, 1, 1)
Y = z3.Function('cal_year', z3.IntSort(), z3.IntSort())
M = z3.Function('cal_month', z3.IntSort(), z3.IntSort())
D = z3.Function('cal_day', z3.IntSort(), z3.IntSort())
YD = z3.Function('cal_yday', z3.IntSort(), z3.IntSort())
WHY = 'calendar lemmas (proved by enumeration of a 400-year period in selftest)'


def td_us(td):
    return (td.days * 86400 + td.seconds) * 10**6 + td.microseconds


def simp(t):
    return z3.simplify(t)


def mkint(t):
    t = simp(t)
    return t.as_long() if z3.is_int_value(t) else SInt(t)


def us_of(x):
    """z3 Int microseconds of a (symbolic or real) timedelta/datetime/time, with its class"""
    if isinst(x, (STD, SDT, STime)):
        return x.t
    if isinst(x, _dt.timedelta):
        return z3.IntVal(td_us(x))
    if isinst(x, _dt.datetime):
        if x.tzinfo is not None:
            raise Unsupported('timezone-aware datetime')
        return z3.IntVal(td_us(x - EPOCH))
    if isinst(x, _dt.time):
        return z3.IntVal(((x.hour * 60 + x.minute) * 60 + x.second) * 10**6 + x.microsecond)
    return None


def cls_of(x):
    if isinst(x, (STD, _dt.timedelta)):
        return 'td'
    if isinst(x, (SDT, _dt.datetime)):
        return 'dt'
    if isinst(x, (STime, _dt.time)):
        return 'tm'
    if isinst(x, (SDate, _dt.date)):
        return 'da'
    return None


class _Cmp:
    def _c(self, o, f, eqlike=None):
        k = cls_of(o)
        if k != self.K:
            if eqlike is not None:
                return eqlike
            return NotImplemented
        return SBool(f(self.t, us_of(o) if k != 'da' else day_of(o)))

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b, True)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, self.t)

    def __format__(self, s):
        return repr(self)


class STD(_Cmp):
    """timedelta"""
    K = 'td'
    pytype = _dt.timedelta
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = simp(t)

    def total_seconds(self):
        return SReal(z3.ToReal(self.t) / 10**6)

    @property
    def days(self):
        return mkint(self.t / US_DAY)

    @property
    def seconds(self):
        return mkint((self.t % US_DAY) / 10**6)

    @property
    def microseconds(self):
        return mkint(self.t % 10**6)

    def __bool__(self):
        return real_bool(SBool(self.t != 0))

    def __neg__(self):
        return STD(-self.t)

    def __abs__(self):
        return STD(z3.If(self.t >= 0, self.t, -self.t))

    def __add__(self, o):
        k = cls_of(o)
        if k == 'td':
            return STD(self.t + us_of(o))
        if k == 'dt':
            return SDT(us_of(o) + self.t)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        return STD(self.t - us_of(o)) if cls_of(o) == 'td' else NotImplemented

    def __rsub__(self, o):
        if cls_of(o) == 'td':
            return STD(us_of(o) - self.t)
        if cls_of(o) == 'dt':
            return SDT(us_of(o) - self.t)
        return NotImplemented

    def _nz(self, d):
        g = d != 0
        if not z3.is_true(simp(g)):
            ctx().oblige('safety: division by a non-zero timedelta', g)

    def __truediv__(self, o):
        if cls_of(o) == 'td':
            d = us_of(o)
            self._nz(d)
            e = euclid(self.t, d)
            return SReal(e[2] if e else z3.ToReal(self.t) / z3.ToReal(d))
        k, t, n = lift(o)
        s = simp(t)
        if k == 'i' and z3.is_int_value(s):
            return STD(round_half_even(self.t, s.as_long()))
        raise Unsupported('timedelta / number')

    def __rtruediv__(self, o):
        d = self.t
        self._nz(d)
        return SReal(z3.ToReal(us_of(o)) / z3.ToReal(d))

    def __floordiv__(self, o):
        from .core import fdiv_int
        if cls_of(o) == 'td':
            self._nz(us_of(o))
            e = euclid(self.t, us_of(o))
            return mkint(e[0] if e else fdiv_int(self.t, us_of(o)))
        k, t, n = lift(o)
        return STD(fdiv_int(self.t, to_intt(k, t)))

    def __rfloordiv__(self, o):
        from .core import fdiv_int
        self._nz(self.t)
        return mkint(fdiv_int(us_of(o), self.t))

    def __mod__(self, o):
        from .core import fmod_int
        self._nz(us_of(o))
        e = euclid(self.t, us_of(o))
        return STD(e[1] if e else fmod_int(self.t, us_of(o)))

    def __rmod__(self, o):
        from .core import fmod_int
        self._nz(self.t)
        return STD(fmod_int(us_of(o), self.t))

    def __mul__(self, o):
        try:
            k, t, n = lift(o)
        except Unsupported:
            return NotImplemented
        if k in 'ib':
            return STD(self.t * to_intt(k, t))
        raise Unsupported('timedelta * float')

    __rmul__ = __mul__
    __hash__ = _Cmp.__hash__


def euclid(a, d):
    """quotient, remainder and real quotient of a by a symbolic d > 0 (Euclid's lemma)"""
    c = ctx()
    d = simp(zi_(d))
    a = simp(zi_(a))
    if z3.is_int_value(d) or c.qdepth:
        return None
    key = ('euclid', a.get_id(), d.get_id())
    if key not in c.memo:
        if not c.entails(d > 0):
            return None
        q, r, x = z3.Int(c.fresh_name('quo')), z3.Int(c.fresh_name('rem')), z3.Real(c.fresh_name('ratio'))
        c.axiom(z3.And(a == q * d + r, r >= 0, r < d, z3.ToInt(x) == q, (x >= 0) == (a >= 0),
                       z3.ToReal(q) <= x, x < z3.ToReal(q) + 1, (x == z3.ToReal(q)) == (r == 0),
                       z3.ToInt(-x) == z3.If(r == 0, -q, -q - 1), x * z3.ToReal(d) == z3.ToReal(a)),
                'Euclidean division of timedeltas')
        c.hold((a, d))
        c.memo[key] = (q, r, x)
    return c.memo[key]


def zi_(x):
    return z3.IntVal(x) if isinst(x, int) else x


def round_half_even(t, d):
    q = t / d
    r = t - q * d
    return z3.If(2 * r < d, q, z3.If(2 * r > d, q + 1, z3.If(q % 2 == 0, q, q + 1)))


class STime(_Cmp):
    K = 'tm'
    pytype = _dt.time
    tzinfo = None

    def __init__(self, t):
        self.t = simp(t)

    hour = property(lambda s: mkint(s.t / (3600 * 10**6)))
    minute = property(lambda s: mkint((s.t / (60 * 10**6)) % 60))
    second = property(lambda s: mkint((s.t / 10**6) % 60))
    microsecond = property(lambda s: mkint(s.t % 10**6))
    __hash__ = _Cmp.__hash__


class SDate(_Cmp):
    K = 'da'
    pytype = _dt.date

    def __init__(self, t):
        self.t = simp(t)

    year = property(lambda s: cal(s.t)[0])
    month = property(lambda s: cal(s.t)[1])
    day = property(lambda s: cal(s.t)[2])

    def toordinal(self):
        return mkint(self.t + 1)

    def weekday(self):
        return mkint(self.t % 7)

    def isoweekday(self):
        return mkint(self.t % 7 + 1)

    def __sub__(self, o):
        if cls_of(o) in ('da', 'dt'):
            return STD((self.t - day_of(o)) * US_DAY)
        if cls_of(o) == 'td':
            return SDate(self.t - us_of(o) / US_DAY)
        return NotImplemented

    def __rsub__(self, o):
        return STD((day_of(o) - self.t) * US_DAY)

    def __add__(self, o):
        return SDate(self.t + us_of(o) / US_DAY)
    __hash__ = _Cmp.__hash__


def day_of(o):
    if isinst(o, SDate):
        return o.t
    if isinst(o, SDT):
        return simp(o.t / US_DAY)
    return z3.IntVal(o.toordinal() - 1)


def cal(d):
    d = simp(d)
    if z3.is_int_value(d):
        x = _dt.date.fromordinal(d.as_long() + 1)
        return x.year, x.month, x.day
    c = ctx()
    if c.qdepth:
        raise Unsupported('calendar under quantifier')
    reg = c.memo.setdefault('caldays', [])
    if not any(d.eq(x) for x in reg):
        c.axiom(z3.And(D(d) >= 1, D(d) <= 31, M(d) >= 1, M(d) <= 12, Y(d) >= 1), WHY)
        for e in reg:
            c.axiom(pair_lemma(d, e), WHY)
        reg.append(d)
    return SInt(Y(d)), SInt(M(d)), SInt(D(d))


def pair_lemma(d, e):
    df = z3.If(d >= e, d - e, e - d)
    lo = z3.If(d >= e, e, d)
    hi = z3.If(d >= e, d, e)
    same = z3.And(Y(d) == Y(e), M(d) == M(e), D(d) == D(e))
    return z3.And(
        same == (d == e),
        z3.Implies(z3.And(df >= 1, df <= 27), D(d) != D(e)),
        z3.Implies(hi == lo + 1, z3.Or(
            z3.And(D(hi) == D(lo) + 1, M(hi) == M(lo), Y(hi) == Y(lo)),
            z3.And(D(hi) == 1, D(lo) >= 28, z3.Or(
                z3.And(M(hi) == M(lo) + 1, Y(hi) == Y(lo)),
                z3.And(M(hi) == 1, M(lo) == 12, Y(hi) == Y(lo) + 1))))))


class SDT(_Cmp):
    K = 'dt'
    pytype = _dt.datetime
    tzinfo = None
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = simp(t)

    @property
    def _tod(self):
        return self.t % US_DAY

    hour = property(lambda s: mkint(s._tod / (3600 * 10**6)))
    minute = property(lambda s: mkint((s._tod / (60 * 10**6)) % 60))
    second = property(lambda s: mkint((s._tod / 10**6) % 60))
    microsecond = property(lambda s: mkint(s.t % 10**6))
    year = property(lambda s: cal(day_of(s))[0])
    month = property(lambda s: cal(day_of(s))[1])
    day = property(lambda s: cal(day_of(s))[2])

    def time(self):
        return STime(self._tod)

    def date(self):
        return SDate(day_of(self))

    def timetuple(self):
        c = ctx()
        d = YD(day_of(self))
        c.axiom(z3.And(d >= 1, d <= 366), WHY)
        return types.SimpleNamespace(tm_yday=mkint(d), tm_hour=self.hour, tm_min=self.minute, tm_sec=self.second)

    def weekday(self):
        return mkint(day_of(self) % 7)

    def isoweekday(self):
        return mkint(day_of(self) % 7 + 1)

    def toordinal(self):
        return mkint(day_of(self) + 1)

    def replace(self, **k):
        bad = set(k) - {'hour', 'minute', 'second', 'microsecond', 'tzinfo'}
        if bad:
            raise Unsupported('datetime.replace(%s)' % bad)
        f = dict(hour=self.hour, minute=self.minute, second=self.second, microsecond=self.microsecond)
        for kk, v in k.items():
            if kk != 'tzinfo':
                f[kk] = v
        return SDT(day_of(self) * US_DAY + hms(f['hour'], f['minute'], f['second'], f['microsecond']))

    def __add__(self, o):
        if cls_of(o) == 'td':
            return SDT(self.t + us_of(o))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        k = cls_of(o)
        if k == 'td':
            return SDT(self.t - us_of(o))
        if k == 'dt':
            return STD(self.t - us_of(o))
        return NotImplemented

    def __rsub__(self, o):
        return STD(us_of(o) - self.t)

    def timestamp(self):
        raise Unsupported('timestamp')
    __hash__ = _Cmp.__hash__


def it(x):
    k, t, n = lift(x)
    return to_intt(k, t)


def hms(h=0, m=0, s=0, us=0):
    # recombining the components of one time of day gives that time of day
    z = [simp(it(x)) for x in (h, m, s, us)]
    if z3.is_app(z[0]) and z[0].decl().kind() == z3.Z3_OP_IDIV:
        T = z[0].arg(0)
        if all(simp(x).eq(y) for x, y in zip((T / (3600 * 10**6), (T / (60 * 10**6)) % 60, (T / 10**6) % 60), z)):
            full = T.arg(0) if z3.is_app(T) and T.decl().kind() == z3.Z3_OP_MOD else T
            if simp(T % 10**6).eq(z[3]) or simp(full % 10**6).eq(z[3]):
                return T
    return ((it(h) * 60 + it(m)) * 60 + it(s)) * 10**6 + it(us)


def issym(*xs):
    return any(isinst(x, (SVal, STD, SDT, STime, SDate)) for x in xs)


def mk_datetime(year, month, day, hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **k):
    y, m, d = it(year), it(month), it(day)
    sy, sm, sd = simp(y), simp(m), simp(d)
    tod = hms(hour, minute, second, microsecond)
    if all(z3.is_int_value(v) for v in (sy, sm, sd)):
        o = _dt.date(sy.as_long(), sm.as_long(), sd.as_long()).toordinal() - 1
        return SDT(o * US_DAY + tod)
    if all(z3.is_app(v) and v.num_args() == 1 for v in (sy, sm, sd)) and \
            sy.decl().eq(Y) and sm.decl().eq(M) and sd.decl().eq(D) and \
            sy.arg(0).eq(sm.arg(0)) and sy.arg(0).eq(sd.arg(0)):
        return SDT(sy.arg(0) * US_DAY + tod)
    raise Unsupported('datetime() from unrelated symbolic year/month/day')


def _meta(real, syms, ctor):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinst(x, (real,) + syms)

        def __subclasscheck__(cls, c):
            return issubclass(c, (real,) + syms)

        def __call__(cls, *a, **k):
            if issym(*a, *k.values()):
                return ctor(*a, **k)
            return real(*a, **k)

        def __getattr__(cls, n):
            return getattr(real, n)
    return Meta


def mk_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    tot = z3.RealVal(0)
    for v, m in ((days, US_DAY), (seconds, 10**6), (microseconds, 1), (milliseconds, 1000),
                 (minutes, 60 * 10**6), (hours, 3600 * 10**6), (weeks, 7 * US_DAY)):
        k, t, n = lift(v)
        if k == 'f':
            s = simp(t)
            if not z3.is_rational_value(s):
                raise Unsupported('timedelta of a symbolic float')
        tot = tot + to_real(k, t) * m
    return STD(z3.simplify(z3.ToInt(tot)))


def mk_time(hour=0, minute=0, second=0, microsecond=0, tzinfo=None, **k):
    return STime(hms(hour, minute, second, microsecond))


class datetime(metaclass=_meta(_dt.datetime, (SDT,), mk_datetime)):
    @staticmethod
    def combine(d, t, **k):
        if issym(d, t):
            return SDT(day_of(d) * US_DAY + us_of(t))
        return _dt.datetime.combine(d, t, **k)


class timedelta(metaclass=_meta(_dt.timedelta, (STD,), mk_timedelta)):
    pass


class time(metaclass=_meta(_dt.time, (STime,), mk_time)):
    pass


class date(metaclass=_meta(_dt.date, (SDate, SDT), lambda *a, **k: (_ for _ in ()).throw(Unsupported('date()')))):
    pass


shim = types.ModuleType('datetime')
shim.__dict__.update({k: getattr(_dt, k) for k in dir(_dt) if not k.startswith('__')})
shim.datetime, shim.timedelta, shim.time, shim.date = datetime, timedelta, time, date
