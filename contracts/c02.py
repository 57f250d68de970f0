"""C02  Validation and rescaling of probability tables."""
import numpy as np
from dv.harness import contract
from contracts.common import gen_pdf

DF = 'demod.utils.distribution_functions'
TOL = 1e-9


def gen_table(rng, shape):
    """cdf-like rows, each possibly damaged in one place"""
    c = np.cumsum(gen_pdf(rng, shape), axis=-1)
    flat = c.reshape(-1, shape[-1])
    if flat.size and rng.random_sample() < .6:
        i, j = rng.randint(flat.shape[0]), rng.randint(flat.shape[1])
        flat[i, j] = rng.choice([-.1, 0, .3, .97, 1, 1.03, 1.2, 2., -1e-3])
    return flat.reshape(shape)


def gen_mass(rng, shape):
    p = gen_pdf(rng, shape)
    if p.size and rng.random_sample() < .7:
        f = p.reshape(-1, shape[-1])
        f *= 1 + rng.uniform(-.06, .06, size=(f.shape[0], 1)) * rng.choice([0, 1, 3, 3])
        p = f.reshape(shape)
    return p


def dims(S, nd):
    return tuple(S.dim('d%d' % i, 1, 4 - (nd >= 3)) for i in range(nd))


def rows(S, shp):
    return shp[:-1]


def last(S, a, r, m):
    return S.at(a, *(tuple(r) + (m - 1,)))


def make_valid(nd):
    @contract('C02', DF + '.check_valid_cdf', name='check_valid_cdf_%dd' % nd)
    def h(S):
        shp = dims(S, nd)
        m = shp[-1]
        eps = S.real('epsilon', lo=1e-6, hi=.5)
        cdf = S.arr('cdf', shp, gen=gen_table)
        f = S.mod(DF).check_valid_cdf
        e = S.raises(ValueError, lambda: f(cdf, epsilon=eps))
        ok = S.forall(shp, lambda *i: S.And(
            S.at(cdf, *i) >= 0, S.at(cdf, *i) <= 1 + eps,
            S.Implies(i[-1] >= 1, lambda: S.at(cdf, *(tuple(i[:-1]) + (i[-1] - 1,))) <= S.at(cdf, *i)),
            S.Implies(i[-1] == m - 1, lambda: S.And(S.at(cdf, *i) > 1 - eps, S.at(cdf, *i) < 1 + eps))))
        if e is None:
            S.ensure('an accepted table is a valid cumulative distribution', ok)
            S.ensure('acceptance returns True', S.result is True)
        else:
            S.ensure('a rejected table is not a valid cumulative distribution', S.Not(ok))
    return h


for _nd in (1, 2, 3):
    make_valid(_nd)


@contract('C02', DF + '.check_valid_cdf')
def check_valid_default_tolerance(S):
    n, m = S.dim('n', 1, 4), S.dim('m', 1, 4)
    cdf = S.arr('cdf', (n, m), gen=gen_table)
    k = S.arr('k', (n,), 'f', gen=lambda r, s: r.choice([0, 0, 0, 5e-7, 2e-6, -5e-7, -2e-6], size=s))
    e = S.raises(ValueError, lambda: S.mod(DF).check_valid_cdf(cdf))
    S.ensure('default tolerance is 1e-6', S.Implies(e is None, S.forall((n,), lambda i: S.And(
        S.at(cdf, i, m - 1) < 1 + 1e-6, S.at(cdf, i, m - 1) > 1 - 1e-6))))


def make_rescale(which, nd):
    @contract('C02', DF + '.rescale_' + which, name='rescale_%s_%dd' % (which, nd))
    def h(S):
        shp = dims(S, nd)
        m = shp[-1]
        eps = S.real('epsilon', lo=.01, hi=.5)
        a = S.arr('a', shp, lo=0 if which == 'pdf' else None, gen=gen_mass if which == 'pdf' else gen_table)
        keep = S.copy(a)
        f = getattr(S.mod(DF), 'rescale_' + which)
        if which == 'pdf':
            tot = S.sum(a, axis=-1)
            total = (lambda r: S.at(tot, *r)) if nd > 1 else (lambda r: tot)
        else:
            total = lambda r: last(S, a, r, m)
        # totals exactly at the tolerance boundary are a floating-point coin toss
        rws = rows(S, shp)
        if not S.symbolic:
            S.assume(S.forall(rws, lambda *r: S.And(abs(total(r) - 1 - eps) > TOL, abs(total(r) - 1 + eps) > TOL)))
        good = S.forall(rws, lambda *r: S.And(total(r) < 1 + eps, total(r) > 1 - eps))
        e = S.raises(ValueError, lambda: f(a, epsilon=eps))
        S.ensure('the input is not modified', S.same(a, keep))
        if e is None:
            S.ensure('accepted only when every row total is within the tolerance of one', good)
            out = S.result
            S.ensure('same shape', S.shape_is(out, *shp))
            S.ensure('every row is divided by its total', S.forall(shp, lambda *i: S.eq(
                S.at(out, *i), S.at(a, *i) / total(i[:-1]))))
            if which == 'cdf':
                S.ensure('every row ends at one', S.forall(rws, lambda *r: S.eq(last(S, out, r, m), 1)))
            else:
                ot = S.sum(out, axis=-1)
                S.ensure('every row totals one', S.forall(rws, lambda *r: S.eq(
                    S.at(ot, *r) if nd > 1 else ot, 1)))
        else:
            S.ensure('rejected only when some row total is outside the tolerance', S.Not(good))
    return h


for _w in ('pdf', 'cdf'):
    for _nd in (1, 2, 3):
        make_rescale(_w, _nd)


def make_sums(nd):
    @contract('C02', 'numpy.cumsum', name='running_sums_%dd' % nd)
    def h(S):
        """lemma used by other contracts: running sums of non-negative values that total one"""
        shp = dims(S, nd)
        m = shp[-1]
        a = S.arr('pdf', shp, lo=0, gen=gen_pdf)
        c = S.cum(a, nd - 1)
        d = shp[:-1]
        if d:
            S.assume(S.forall(d, lambda *i: S.at(c, *i, m - 1) == 1))
        else:
            S.assume(S.at(c, m - 1) == 1)
        r = S.arb(d) if d and S.symbolic else ()
        for r in ([r if isinstance(r, tuple) else (r,)] if S.symbolic else np.ndindex(*d)):
            S.induct('not negative', m - 1, lambda j: S.at(c, *r, j) >= 0)
            S.induct('at most the total', m - 1, lambda j: S.at(c, *r, j) <= S.at(c, *r, m - 1), down=True)
            S.induct('non-decreasing', m - 1, lambda k: S.forall((m,), lambda j: S.Implies(
                j <= k, lambda: S.at(c, *r, j) <= S.at(c, *r, k))))
            S.ensure('running sums of a distribution', S.forall((m, m), lambda k, j: S.And(
                S.at(c, *r, k) >= 0, S.at(c, *r, k) <= 1, S.Implies(j <= k, lambda: S.at(c, *r, j) <= S.at(c, *r, k)))))
    return h


for _nd in (1, 2, 3, 4):
    make_sums(_nd)
