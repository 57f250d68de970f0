"""Shared generators and spec functions of the contracts."""
import numpy as np


def gen_pdf(rng, shape):
    """rows summing to exactly 1 (dyadic), with zeros likely"""
    shape = tuple(shape)
    m = shape[-1]
    rows = int(np.prod(shape[:-1])) if len(shape) > 1 else 1
    out = np.zeros((rows, m))
    for r in range(rows):
        k = rng.randint(1, m + 1) if rng.random_sample() < .6 else 1
        sup = rng.choice(m, k, replace=False)
        cuts = np.sort(rng.randint(0, 65, size=k - 1)) if k > 1 else np.array([], int)
        w = np.diff(np.concatenate([[0], cuts, [64]])) / 64
        out[r, sup] = w
    return out.reshape(shape)


def gen_cdf(rng, shape):
    return np.cumsum(gen_pdf(rng, shape), axis=-1)


def is_cdf(S, cdf, n, m):
    return S.And(
        S.forall((n, m), lambda i, j: S.And(S.at(cdf, i, j) >= 0, S.Implies(
            j >= 1, lambda: S.at(cdf, i, j - 1) <= S.at(cdf, i, j)))),
        S.forall((n,), lambda i: S.at(cdf, i, m - 1) == 1))


def inversion(S, out, cdf, u, n, m):
    """out[i] is the first state whose cumulative probability exceeds u[i]"""
    S.ensure('one state per row', S.shape_is(out, n))
    S.ensure('state is in the domain', S.forall((n,), lambda i: S.And(
        S.at(out, i) >= 0, S.at(out, i) < m)))
    S.ensure('a state of zero probability is never drawn', S.forall((n,), lambda i: S.Or(
        S.And(S.at(out, i) == 0, lambda: S.exact_lt(0, cdf(i, 0))),
        S.And(S.at(out, i) > 0, lambda: S.exact_lt(cdf(i, S.at(out, i) - 1), cdf(i, S.at(out, i)))))))
    S.ensure('cumulative probability of the state exceeds the draw',
             S.forall((n,), lambda i: S.exact_lt(S.at(u, i), cdf(i, S.at(out, i)))))
    S.ensure('no earlier state exceeds the draw', S.forall((n, m), lambda i, j: S.Implies(
        j < S.at(out, i), lambda: S.exact_le(cdf(i, j), S.at(u, i)))))


def frequencies(S, sample, probs, runs=1500, pairs=True):
    """bounded: over many independent calls every value of every individual appears as often as its probability
    says (7 standard deviations), and two individuals do not influence one another; probs (individuals, values)"""
    probs = np.asarray(probs, float)
    out = np.array([np.asarray(sample()) for _ in range(runs)])
    S.ensure('one value per individual', out.shape == (runs, len(probs)))

    def rare(count, p):
        return abs(count - runs * p) > 7 * np.sqrt(runs * p * (1 - p)) + 7
    for i, row in enumerate(probs):
        for j, p in enumerate(row):
            S.ensure('values appear as often as their probability', not rare((out[:, i] == j).sum(), p))
        for i2 in range(i) if pairs else ():
            for j in range(len(row)):
                for j2, p2 in enumerate(probs[i2]):
                    S.ensure('individuals are drawn independently', not rare(((out[:, i] == j) & (out[:, i2] == j2)).sum(), row[j] * p2))


# -- contracts of callees, proved in C01 and C02 and assumed at their call sites
def callees(S, *modules):
    """replaces the draws and the check of tables by their contracts (proof only)"""
    if not S.symbolic:
        return
    for mod in modules:
        for name, f in (('monte_carlo_from_cdf', draw_contract(S)), ('check_valid_cdf', check_contract(S)),
                        ('monte_carlo_from_pdf', draw_pdf_contract(S))):
            if name in vars(mod):
                S.stub(mod, name, f)


def draw_contract(S):
    def monte_carlo_from_cdf(cdf):
        n, m = cdf.shape
        S.lemma('precondition of monte_carlo_from_cdf: cumulative distributions', is_cdf(S, cdf, n, m))
        u = S.np.random.uniform(size=n)
        out = S.fresh('drawn', (n,), 'i', lo=0)
        S.assume(S.forall((n,), lambda i: S.And(S.at(out, i) < m, S.at(u, i) < S.at(cdf, i, S.at(out, i)))))
        S.assume(S.forall((n, m), lambda i, j: S.Implies(j < S.at(out, i), lambda: S.at(cdf, i, j) <= S.at(u, i))))
        return out
    return monte_carlo_from_cdf


def draw_pdf_contract(S):
    def monte_carlo_from_pdf(pdf):
        return draw_contract(S)(S.cum(pdf, 1))
    return monte_carlo_from_pdf


def valid_table(S, cdf, eps):
    shp = cdf.shape
    m = shp[-1]
    return S.forall(shp, lambda *i: S.And(
        S.at(cdf, *i) >= 0, S.at(cdf, *i) <= 1 + eps,
        S.Implies(i[-1] >= 1, lambda: S.at(cdf, *(tuple(i[:-1]) + (i[-1] - 1,))) <= S.at(cdf, *i)),
        S.Implies(i[-1] == m - 1, lambda: S.And(S.at(cdf, *i) > 1 - eps, S.at(cdf, *i) < 1 + eps))))


def check_contract(S):
    def check_valid_cdf(cdf, epsilon=1e-6):
        if not S.branch(valid_table(S, cdf, epsilon)):
            raise ValueError('invalid cdf')
        return True
    return check_valid_cdf


def totals(S, a, *dims):
    """running sums over the last axis of non-negative values, ending at one"""
    return S.distribution(a)


def ends(S, c, *dims):
    """running sums of non-negative values lie between zero and their total"""
    d, m = dims[:-1], dims[-1]
    al = (lambda p: S.forall(d, p)) if d else (lambda p: p())
    S.induct('running sums are not negative', m - 1, lambda j: al(lambda *i: S.at(c, *i, j) >= 0))
    S.induct('running sums do not exceed the total', m - 1, lambda j: al(
        lambda *i: S.at(c, *i, j) <= S.at(c, *i, m - 1)), down=True)


def increases(S, c, a, *dims):
    """running sums of non-negative values never decrease"""
    S.lemma('running sums never decrease', S.forall(dims, lambda *i: S.Implies(i[-1] >= 1, lambda: S.And(
        S.at(a, *i) >= 0, S.at(c, *(i[:-1] + (i[-1] - 1,))) <= S.at(c, *i)))))


COUNTED, DROPPED, CLOCK = 'a step is counted once', 'cached values are dropped by a step', 'the clock advances by one step size'


def step(S, sim, *a, **k):
    """one step of a simulator, with the bookkeeping every step of every simulator owes"""
    v = vars(sim)
    t, now, size = v.get('current_time_step'), v.get('current_time'), v.get('step_size')
    if isinstance(v.get('_cache'), dict):
        sim._cache['of an earlier step'] = 1
    out = sim.step(*a, **k)
    if t is not None:
        S.ensure(COUNTED, sim.current_time_step == t + 1)
    if isinstance(v.get('_cache'), dict):
        S.ensure(DROPPED, 'of an earlier step' not in sim._cache)
    if now is not None and size is not None:
        S.ensure(CLOCK, sim.current_time == now + size)
    return out
