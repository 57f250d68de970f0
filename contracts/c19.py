"""C19  Sampling of populations."""
import math

import numpy as np

from dv.harness import contract
from contracts.common import check_contract, ends, gen_pdf, totals

SP = 'demod.simulators.util.sample_population'


def population(S):
    mod = S.mod('demod.simulators.util')
    if S.symbolic:
        S.stub(mod, 'check_valid_cdf', check_contract(S))
    m = S.dim('subgroups', 1, 6)
    n = S.dim('households', 1, 30)
    pdf = S.arr('pdf', (m,), lo=0, gen=gen_pdf)
    c = S.distribution(pdf, steps=True)
    return m, n, pdf, c, mod.sample_population


@contract('C19', SP)
def spread(S):
    """the deterministic sampling: a grid on the cumulative distribution"""
    m, n, pdf, c, f = population(S)
    p0 = S.copy(pdf)
    k = f(n, pdf) if S.flag('default') else f(n, pdf, 'real_population')
    S.ensure('one number per subgroup', S.shape_is(k, m))
    S.ensure('exactly the requested households', S.eq(k.sum(), n))
    S.ensure('never negative', S.forall(m, lambda e: S.at(k, e) >= 0))
    S.ensure('no household of an impossible subgroup', S.forall(m, lambda e: S.Implies(S.at(pdf, e) == 0, lambda: S.at(k, e) == 0)))
    S.ensure('the distribution is unchanged', S.same(pdf, p0))


@contract('C19', SP)
def monte_carlo(S):
    """the random sampling: the subgroup of every household is drawn from the distribution"""
    m, n, pdf, c, f = population(S)
    k = f(n, pdf, 'monte_carlo')
    S.ensure('one number per subgroup', S.shape_is(k, m))
    S.ensure('exactly the requested households', S.eq(k.sum(), n))
    u = S.drawn(0, n)
    S.ensure('no household of an impossible subgroup', S.forall(m, lambda e: S.Implies(S.at(pdf, e) == 0, lambda: S.at(k, e) == 0)))
    if not S.symbolic:
        want = np.array([sum(1 for x in u if (c[e - 1] if e else 0) <= x < c[e]) for e in range(m)])
        S.ensure('as many households as draws in the interval of the subgroup', np.array_equal(k, want))


@contract('C19', SP)
def rejected(S):
    m = S.dim('subgroups', 1, 6)
    n = S.dim('households', 1, 30)
    mod = S.mod('demod.simulators.util')
    if S.symbolic:
        S.stub(mod, 'check_valid_cdf', check_contract(S))
    pdf = S.arr('pdf', (m,), lo=0, gen=lambda r, s: gen_pdf(r, s) * r.choice([.2, .9, 1.1]))
    c = S.np.cumsum(pdf)
    S.assume(S.Or(S.at(c, m - 1) < .99, S.at(c, m - 1) > 1.01))
    S.ensure('a distribution that does not total one is rejected', S.raises(ValueError, lambda: mod.sample_population(n, pdf)) is not None)
    S.ensure('also for random sampling', S.raises(ValueError, lambda: mod.sample_population(n, pdf, 'monte_carlo')) is not None)


@contract('C19', SP)
def unknown(S):
    m, n, pdf, c, f = population(S)
    S.ensure('an unknown algorithm is rejected', S.raises((NotImplementedError, ValueError), lambda: f(n, pdf, 'anything')) is not None)


@contract('C19', SP, proof=False, quick_runs=600, runs=20000)
def shares(S):
    """the deterministic numbers follow the shares"""
    m = S.dim('subgroups', 1, 8)
    n = S.int('households', 1, 400, gen=lambda r: r.choice([1, 2, 3, 7, 10, 33, 100, 399]))
    pdf = S.arr('pdf', (m,), gen=lambda r, s: gen_pdf(r, s) if r.random_sample() < .5 else r.dirichlet(np.ones(s[0]) * .5))
    k = S.mod('demod.simulators.util').sample_population(n, pdf)
    S.ensure('exactly the requested households', len(k) == m and k.sum() == n)
    S.ensure('every number within two of its share', (np.abs(k - n * pdf) < 2 + 1e-6).all())
    S.ensure('households are spread over the cumulative shares', (np.abs(np.cumsum(k) - n * np.cumsum(pdf)) <= 1 + 1e-6).all()
             if pdf[0] > 0 or n > 1 else True)
    S.ensure('no household of an impossible subgroup', (k[pdf == 0] == 0).all())


@contract('C19', SP, proof=False, quick_runs=12, runs=150)
def random_shares(S):
    """whatever the source of the random numbers: over many samples every subgroup gets its share"""
    m, n = S.dim('subgroups', 2, 4), S.dim('households', 1, 5)
    pdf = S.arr('pdf', (m,), gen=lambda r, s: r.dirichlet(np.ones(s[0])))
    f = S.mod('demod.simulators.util').sample_population
    S.natural(S.dim('seed', 0, 10**6))
    out = np.array([f(n, pdf, 'monte_carlo') for _ in range(1000)])
    N = len(out) * n
    S.ensure('as many households as the share of the subgroup', (np.abs(out.sum(0) - N * pdf) <= 7 * np.sqrt(N * pdf * (1 - pdf)) + 7).all())
    S.ensure('households are drawn independently', (np.abs(
        (out ** 2).mean(0) - n * pdf * (1 - pdf) - (n * pdf)**2) <= n**2 * 7 / np.sqrt(len(out))).all())
