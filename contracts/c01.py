"""C01  Monte-Carlo draws follow the given distribution by inversion of its CDF."""
import numpy as np
from dv.harness import contract
from contracts.common import frequencies, gen_cdf, gen_pdf, inversion, is_cdf

MC = 'demod.utils.monte_carlo'


@contract('C01', MC + '.monte_carlo_from_cdf')
def from_cdf(S):
    n, m = S.dim('n', 1, 5), S.dim('m', 1, 5)
    cdf = S.arr('cdf', (n, m), gen=gen_cdf)
    S.assume(is_cdf(S, cdf, n, m))
    keep = S.copy(cdf)
    S.pool(cdf)
    out = S.mod(MC).monte_carlo_from_cdf(cdf)
    S.ensure('the distribution given is left unchanged', S.same(cdf, keep))
    u = S.drawn(0, n)
    inversion(S, out, lambda i, j: S.at(cdf, i, j), u, n, m)


@contract('C01', MC + '.monte_carlo_from_1d_cdf')
def from_1d_cdf(S):
    n, m = S.dim('n', 1, 5), S.dim('m', 1, 5)
    cdf = S.arr('cdf', (m,), gen=gen_cdf)
    S.assume(S.And(S.forall((m,), lambda j: S.And(S.at(cdf, j) >= 0, S.Implies(
        j >= 1, lambda: S.at(cdf, j - 1) <= S.at(cdf, j)))), S.at(cdf, m - 1) == 1))
    S.pool(cdf)
    out = S.mod(MC).monte_carlo_from_1d_cdf(cdf, n_samples=n)
    u = S.drawn(0, n)
    inversion(S, out, lambda i, j: S.at(cdf, j), u, n, m)


@contract('C01', MC + '.monte_carlo_from_1d_cdf')
def from_1d_cdf_default(S):
    m = S.dim('m', 1, 5)
    cdf = S.arr('cdf', (m,), gen=gen_cdf)
    S.assume(S.And(S.forall((m,), lambda j: S.And(S.at(cdf, j) >= 0, S.Implies(
        j >= 1, lambda: S.at(cdf, j - 1) <= S.at(cdf, j)))), S.at(cdf, m - 1) == 1))
    S.pool(cdf)
    out = S.mod(MC).monte_carlo_from_1d_cdf(cdf)
    S.ensure('one sample by default', S.shape_is(out, 1))
    inversion(S, out, lambda i, j: S.at(cdf, j), S.drawn(0, 1), 1, m)


@contract('C01', MC + '.monte_carlo_from_pdf')
def from_pdf(S):
    n, m = S.dim('n', 1, 5), S.dim('m', 1, 5)
    pdf = S.arr('pdf', (n, m), lo=0, gen=gen_pdf)
    c = S.cum(pdf, 1)
    S.assume(S.forall((n,), lambda i: S.at(c, i, m - 1) == 1))
    S.pool(c)
    out = S.mod(MC).monte_carlo_from_pdf(pdf)
    u = S.drawn(0, n)
    inversion(S, out, lambda i, j: S.at(c, i, j), u, n, m)


@contract('C01', MC + '.monte_carlo_from_1d_pdf')
def from_1d_pdf(S):
    n, m = S.dim('n', 1, 5), S.dim('m', 1, 5)
    pdf = S.arr('pdf', (m,), lo=0, gen=gen_pdf)
    c = S.cum(pdf, 0)
    S.assume(S.at(c, m - 1) == 1)
    S.pool(c)
    out = S.mod(MC).monte_carlo_from_1d_pdf(pdf, n_samples=n)
    u = S.drawn(0, n)
    inversion(S, out, lambda i, j: S.at(c, j), u, n, m)


@contract('C01', MC + '.monte_carlo_from_1d_pdf')
def from_1d_pdf_default(S):
    m = S.dim('m', 1, 5)
    pdf = S.arr('pdf', (m,), lo=0, gen=gen_pdf)
    c = S.cum(pdf, 0)
    S.assume(S.at(c, m - 1) == 1)
    S.pool(c)
    out = S.mod(MC).monte_carlo_from_1d_pdf(pdf)
    S.ensure('one sample by default', S.shape_is(out, 1))
    inversion(S, out, lambda i, j: S.at(c, j), S.drawn(0, 1), 1, m)


@contract('C01', [MC + '.monte_carlo_from_cdf', MC + '.monte_carlo_from_pdf', MC + '.monte_carlo_from_1d_cdf', MC + '.monte_carlo_from_1d_pdf'],
          proof=False, quick_runs=12, runs=200, extra=True)
def frequency(S):
    """whatever the source of the random numbers: rows are drawn independently with their own probabilities"""
    n, m = S.dim('n', 2, 3), S.dim('m', 2, 3)
    pdf = S.arr('pdf', (n, m), lo=0, gen=lambda r, s: r.dirichlet(np.ones(s[1]) * 2, s[0]))
    cdf = np.cumsum(pdf, -1)
    cdf[:, -1] = 1
    mc = S.mod(MC)
    S.natural(S.dim('seed', 0, 10**6))
    which = S.choice('function', ['cdf', 'pdf', '1d cdf', '1d pdf'])
    if which[0] == '1':
        pdf[:] = pdf[0]
        cdf[:] = cdf[0]
    frequencies(S, {'cdf': lambda: mc.monte_carlo_from_cdf(cdf), 'pdf': lambda: mc.monte_carlo_from_pdf(pdf),
                    '1d cdf': lambda: mc.monte_carlo_from_1d_cdf(cdf[0], n), '1d pdf': lambda: mc.monte_carlo_from_1d_pdf(pdf[0], n)}[which], pdf)
