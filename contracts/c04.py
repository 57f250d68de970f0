"""C04  Sampling from a sparse transition matrix."""
import warnings
import numpy as np
from dv.harness import contract, Reject
from contracts.common import frequencies, gen_pdf

SP = 'demod.utils.sparse'


def world(S, dead=False):
    """a matrix whose rows total one (exactly, in floating point), entries in any order"""
    T, N = S.dim('T', 1, 3), S.dim('N', 1, 4)

    def gen(rng, shape):
        p = gen_pdf(rng, shape)
        if rng.random_sample() < .5:      # rows without any transition
            p[rng.random_sample(shape[:2]) < .3] = 0
        return p
    P = S.arr('P', (T, N, N), lo=0, gen=gen)
    t, f, to = np.nonzero(P)
    if S.bool('explicit zeros'):
        z = np.argwhere((P == 0) & (P.sum(-1, keepdims=True) > 0))[:3]
        t, f, to = [np.concatenate([a, z[:, k]]) for k, a in enumerate((t, f, to))]
        o = np.lexsort((to, f, t))
        t, f, to = t[o], f[o], to[o]
    if len(t) == 0:
        raise Reject('no entry')
    if S.bool('shuffled'):
        o = np.array(sorted(range(len(t)), key=lambda i: (i * 7 + 3) % 11))
        t, f, to = t[o], f[o], to[o]
    v = P[t, f, to]
    tpm = S.mod(SP).SparseTPM(t, f, to, v, n_states=N, n_times=T)
    return T, N, P, t, f, to, v, tpm


def follows(out, k, s, u, t, f, to, v):
    """out is the first destination of s whose cumulative probability exceeds u; draws with so
    many digits that adding a small integer rounds them are compared with a tolerance"""
    if out == expected(k, s, u, t, f, to, v):
        return True
    if float(u) * 2**40 == int(float(u) * 2**40):
        return False
    c = 0.
    for e in range(len(t)):
        if t[e] == k and f[e] == s:
            if to[e] == out:
                return c <= u + 1e-12 and u <= c + v[e] + 1e-12
            c += v[e]
    return False


def expected(k, s, u, t, f, to, v):
    c = 0.
    for e in range(len(t)):
        if t[e] == k and f[e] == s:
            c += v[e]
            if c > u:
                return to[e]
    return None


def listed(S, E, N, t, f, v):
    """ghost: of every entry the previous and the next one listed for the same time and origin, and the
    probability of the row up to it"""
    box = {}

    def gen(k):
        def g(rng, shape):
            if 'c' not in box:
                e = len(t)
                prev, nxt, cum = np.full(e, -1), np.full(e, e), np.zeros(e)
                for a in range(e):
                    for b in range(a):
                        if t[a] == t[b] and f[a] == f[b]:
                            prev[a], nxt[b] = b, min(nxt[b], a)
                    cum[a] = v[a] + (cum[prev[a]] if prev[a] >= 0 else 0)
                box['c'] = prev, nxt, cum
            return box['c'][k]
        return g
    prev = S.arr('prev', (E,), 'i', lo=-1, gen=gen(0))
    nxt = S.arr('next', (E,), 'i', lo=0, gen=gen(1))
    cum = S.arr('row total', (E,), gen=gen(2))

    def row(a, b):
        return S.And(S.at(t, a) == S.at(t, b), S.at(f, a) == S.at(f, b))
    k = dict(
        box=S.premise(E, lambda e: S.And(S.at(prev, e) >= -1, S.at(prev, e) < e, S.at(nxt, e) > e, S.at(nxt, e) <= E)),
        prev=S.premise(E, lambda e: S.Or(S.at(prev, e) == -1, lambda: row(S.at(prev, e), e))),
        nxt=S.premise(E, lambda e: S.Or(S.at(nxt, e) == E, lambda: row(S.at(nxt, e), e))),
        nearest=S.premise((E, E), lambda a, b: S.Implies(S.And(a < b, row(a, b)), lambda: S.And(S.at(prev, b) >= a, S.at(nxt, a) <= b))),
        cum=S.premise(E, lambda e: S.at(cum, e) == S.at(v, e) + S.ite(S.at(prev, e) >= 0, lambda: S.at(cum, S.at(prev, e)), 0)))
    return prev, nxt, cum, k


def rows_totalling_one(S):
    """any number of entries, listed in any order; the entries of every time and origin total one"""
    E, T, N = S.dim('E', 1, 9), S.dim('T', 1, 3), S.dim('N', 1, 4)
    box = {}

    def gen(k):
        def g(rng, shape):
            if 'c' not in box:
                e = shape[0]
                r = rng.randint(0, T * N, e) if rng.random_sample() < .7 else rng.choice([0, T * N - 1], e)
                if rng.random_sample() < .4:
                    r = np.sort(r)
                v = np.zeros(e)
                for x in set(r):
                    m = np.nonzero(r == x)[0]
                    v[m] = gen_pdf(rng, (len(m),))
                box['c'] = r // N, r % N, rng.randint(0, N, e), v
            return box['c'][k]
        return g
    t = S.arr('times', (E,), 'i', lo=0, hi=T - 1, gen=gen(0))
    f = S.arr('inds_from', (E,), 'i', lo=0, hi=N - 1, gen=gen(1))
    to = S.arr('inds_to', (E,), 'i', lo=0, hi=N - 1, gen=gen(2))
    v = S.arr('values', (E,), lo=0, gen=gen(3))
    prev, nxt, cum, known = listed(S, E, N, t, f, v)
    known['one'] = S.premise(E, lambda e: S.Implies(S.at(nxt, e) == E, lambda: S.at(cum, e) == 1))
    known['sign'] = S.premise(E, lambda e: S.at(v, e) >= 0)
    tpm = S.mod(SP).SparseTPM(t, f, to, v, n_states=N, n_times=T)
    return E, T, N, t, f, to, v, prev, nxt, cum, known, tpm


@contract('C04', SP + '.SparseTPM.sparse_monte_carlo', runs=1500, quick_runs=400)
def sampling(S):
    E, T, N, t, f, to, v, prev, nxt, cum, known, tpm = rows_totalling_one(S)
    n = S.dim('n', 1, 6)
    k = S.int('time', 0, 7)
    kk = k % T
    st = S.arr('states', (n,), 'i', lo=0, hi=N - 1, gen=lambda r, s: r.choice([f[e] for e in range(len(t)) if t[e] == kk] or [0], s))
    # a transition of every individual
    w = S.arr('transition', (n,), 'i', lo=0, hi=E - 1, gen=lambda r, s: np.array([
        ([e for e in range(len(t)) if t[e] == kk and f[e] == x] or [0])[0] for x in st]))
    known['live'] = S.premise(n, lambda i: S.And(S.at(w, i) >= 0, S.at(w, i) < E, S.at(t, S.at(w, i)) == kk, S.at(f, S.at(w, i)) == S.at(st, i)))
    keep = S.copy(st)
    if not S.symbolic:
        S.pool(cum)
    if S.bool('with a dead state value'):
        tpm.dead_state_value = S.int('dead value', 0, N - 1)
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        out = tpm.sparse_monte_carlo(k, st)
    S.ensure('current states are not modified', S.same(st, keep))
    S.ensure('entries are kept', S.And(S.same(tpm.values, v), S.same(tpm.inds_from, f), S.same(tpm.inds_to, to), S.same(tpm.times, t)))
    follows_draw(S, out, S.drawn(0, n), S.n_draws() - 1, E, N, n, kk, t, f, to, v, prev, nxt, cum, st, w, known)


def slack(S, u):
    """draws with so many digits that adding a small integer rounds them are compared with a tolerance"""
    return 0 if S.symbolic or float(u) * 2**40 == int(float(u) * 2**40) else 1e-12


def follows_draw(S, out, u, d, E, N, n, kk, t, f, to, v, prev, nxt, cum, st, w, known):
    S.ensure('one state per individual', S.shape_is(out, n))

    def drawn(i, e):
        d = slack(S, S.at(u, i))
        return S.And(S.at(t, e) == kk, S.at(f, e) == S.at(st, i), S.at(to, e) == S.at(out, i), S.exact_lt(S.at(u, i) - d, S.at(cum, e)),
                     S.Or(S.at(prev, e) == -1, lambda: S.exact_le(S.at(cum, S.at(prev, e)) - d, S.at(u, i))))
    label = 'the first listed destination of the own state whose cumulative probability exceeds the draw'
    if S.symbolic:
        entry, facts = inversion(S, out, u, E, N, n, kk, t, f, to, v, prev, nxt, cum, st, w, known)
        S.derive('=' + label, n, lambda i: S.And(entry(i) >= 0, entry(i) < E, drawn(i, entry(i))), facts)
    else:
        S.ensure(label, S.forall(n, lambda i: S.exists(E, lambda e: drawn(i, e))))


def inversion(S, out, u, E, N, n, kk, t, f, to, v, prev, nxt, cum, st, w, known):
    """the running sums over the selected entries, grouped by origin, are the number of earlier origins plus the
    probability of the row up to the entry; -> the entry drawn by individual i and the facts that show it"""
    used = S.used('unique', 'mask', 'argsort', 'cumsum', 'searchsorted')
    uq, m, so, cs = used['unique'][-1], used['mask'][-1]['m'], used['argsort'][-1], used['cumsum'][-1]['a']
    if len(used['searchsorted']) != 3:
        S.unsupported('the proof is about three searches')
    cnt, G = S.num(m.cnt), S.num(uq['cnt'])
    A = S.at
    ent = lambda j: S.num(m.pos(0, so['P'](S.z(j))))
    pos = lambda e: S.num(so['Q'](m.rank((S.z(e),))))
    inv = lambda i: S.num(uq['inv'](S.z(i)))
    U, W = lambda g: S.num(uq['U'](S.z(g))), lambda g: S.num(uq['W'](S.z(g)))
    C = lambda j: A(cs, j)
    own = S.arr('own', (E,), 'i')
    F = lambda j: A(f, ent(j))
    P = lambda j: A(prev, ent(j))
    g_ = lambda j: inv(A(own, ent(j)))
    box, kprev, knxt, near, kcum, one, sign, live = [known[x] for x in 'box prev nxt nearest cum one sign live'.split()]
    S.premise(E, lambda e: S.Implies(S.And(A(t, e) == kk, S.exists(n, lambda i: A(st, i) == A(f, e))), lambda: S.And(
        A(own, e) >= 0, A(own, e) < n, A(st, A(own, e)) == A(f, e))))
    # what the primitives give
    e1 = S.known('the selected entries', cnt, lambda j: S.And(
        ent(j) >= 0, ent(j) < E, A(t, ent(j)) == kk, pos(ent(j)) == j,
        A(own, ent(j)) >= 0, A(own, ent(j)) < n, A(st, A(own, ent(j))) == F(j)))
    e2 = S.known('every transition of an individual is selected', (E, n), lambda e, i: S.Implies(
        S.And(A(t, e) == kk, A(f, e) == A(st, i)), lambda: S.And(pos(e) >= 0, pos(e) < cnt, ent(pos(e)) == e)))
    m.add_mono()
    e3 = S.known('grouped by origin, in the order listed', (cnt, cnt), lambda a, b: S.Implies(a < b, lambda: S.Or(
        F(a) < F(b), S.And(F(a) == F(b), ent(a) < ent(b)))))
    un = S.known('numbers of the origins', n, lambda i: S.And(inv(i) >= 0, inv(i) < G, U(inv(i)) == A(st, i)))
    uw = S.known('an individual of every origin', G, lambda g: S.And(W(g) >= 0, W(g) < n, A(st, W(g)) == U(g)))
    uo = S.known('origins in order', (G, G), lambda a, b: S.Implies(a < b, lambda: U(a) < U(b)))
    cs_ = S.known('running sums', cnt, lambda j: C(j) == A(v, ent(j)) + S.ite(j == 0, 0, lambda: C(j - 1)))

    def at(*js):            # what is known of positions, pairwise
        js = list(js)
        return [e1(j) for j in js] + [e3(a, b) for a in js for b in js] + [x(ent(j)) for j in js for x in (box, kprev, knxt, kcum, one, sign)] + [
            un(A(own, ent(j))) for j in js] + [uo(g_(a), g_(b)) for a in js for b in js]

    def listed_at(e, i):    # position of the entry e, of the origin of individual i
        return [e2(e, i)] + [e1(pos(e))]

    def with_entry(e, i, *js):
        return listed_at(e, i) + at(pos(e), *js)
    d1 = S.derive('after an entry of the same row comes its successor', cnt, lambda j: S.Implies(
        P(j) >= 0, lambda: S.And(j >= 1, ent(j - 1) == P(j))),
        lambda j: with_entry(P(j), A(own, ent(j)), j, j - 1) + [near(ent(j - 1), ent(j)), near(P(j), ent(j))])
    d2 = S.derive('the last entry of a row precedes the first one of another', cnt, lambda j: S.Implies(
        S.And(j >= 1, P(j) == -1), lambda: S.And(F(j - 1) < F(j), A(cum, ent(j - 1)) == 1)),
        lambda j: at(j, j - 1) + with_entry(A(nxt, ent(j - 1)), A(own, ent(j - 1)), j, j - 1) + [near(ent(j - 1), ent(j))])
    d3 = S.derive('the next origin', cnt, lambda j: S.Implies(S.And(j >= 1, P(j) == -1), lambda: g_(j) == g_(j - 1) + 1),
                  lambda j: [d2(j)] + at(j, j - 1) + (lambda g: [uw(g), live(W(g)), uo(g_(j - 1), g), uo(g, g_(j))] +
                                                      with_entry(A(w, W(g)), W(g), j, j - 1))(g_(j - 1) + 1))
    d4 = S.derive('the same origin', cnt, lambda j: S.Implies(P(j) >= 0, lambda: g_(j) == g_(j - 1)),
                  lambda j: [d1(j)] + at(j, j - 1))
    d0 = S.derive('the first position', cnt, lambda j: S.Implies(j == 0, lambda: S.And(P(j) == -1, g_(j) == 0)),
                  lambda j: [d1(j)] + at(j) + [uw(0), live(W(0)), uo(0, g_(j))] + with_entry(A(w, W(0)), W(0), j))
    dl = S.derive('the last position', cnt, lambda j: S.Implies(j == cnt - 1, lambda: A(cum, ent(j)) == 1),
                  lambda j: at(j) + with_entry(A(nxt, ent(j)), A(own, ent(j)), j))
    mm = S.derive_up('running sums are earlier origins plus the row up to the entry', cnt, lambda j: S.And(
        C(j) == g_(j) + A(cum, ent(j)),
        S.Implies(j >= 1, lambda: C(j - 1) == g_(j) + S.ite(P(j) >= 0, lambda: A(cum, P(j)), 0))),
        lambda j: at(j) + [cs_(j), d0(j)],
        lambda j: at(j, j + 1) + [cs_(j + 1), d1(j + 1), d2(j + 1), d3(j + 1), d4(j + 1)])
    mo = S.derive_up('running sums do not decrease', (cnt, cnt), lambda a, b: S.Implies(a <= b, lambda: C(a) <= C(b)),
                     lambda a, b: [], lambda a, b: at(b + 1) + [cs_(b + 1)])
    K, L, R = [(lambda i, s=s: S.num(s['K'](S.z(i)))) for s in used['searchsorted']]
    ks = S.known('position of the draw', n, lambda i: S.And(
        K(i) >= 0, K(i) <= cnt, S.Or(K(i) == 0, C(K(i) - 1) <= A(u, i) + inv(i)), S.Or(K(i) == cnt, C(K(i)) > A(u, i) + inv(i))))
    ls = S.known('first position of the origin', n, lambda i: S.And(
        L(i) >= 0, L(i) <= cnt, S.Or(L(i) == 0, F(L(i) - 1) < A(st, i)), S.Or(L(i) == cnt, F(L(i)) >= A(st, i))))
    rs = S.known('last position of the origin', n, lambda i: S.And(
        R(i) >= 0, R(i) <= cnt, S.Or(R(i) == 0, F(R(i) - 1) <= A(st, i)), S.Or(R(i) == cnt, F(R(i)) > A(st, i))))
    us = S.known('the draw', n, lambda i: S.And(A(u, i) >= 0, A(u, i) < 1))

    def search(i):
        jw = pos(A(w, i))
        return [live(i), un(i), ks(i), ls(i), rs(i), us(i)] + with_entry(A(w, i), i, L(i), R(i), R(i) - 1, L(i) - 1)
    rng = S.derive('the positions of the origin', n, lambda i: S.And(
        L(i) < R(i), F(L(i)) == A(st, i), F(R(i) - 1) == A(st, i), g_(L(i)) == inv(i), g_(R(i) - 1) == inv(i)),
        lambda i: search(i) + [uo(a, b) for a in (g_(L(i)), inv(i), g_(R(i) - 1)) for b in (g_(L(i)), inv(i), g_(R(i) - 1))])
    end = S.derive('the ends of the origin', n, lambda i: S.And(P(L(i)) == -1, A(cum, ent(R(i) - 1)) == 1),
                   lambda i: [rng(i), ls(i), rs(i), d0(L(i)), d1(L(i)), d2(R(i)), d1(R(i)), dl(R(i) - 1)] + at(L(i), R(i), L(i) - 1, R(i) - 1))
    fit = S.derive('the draw falls into the entries of the origin', n, lambda i: S.And(L(i) <= K(i), K(i) < R(i)),
                   lambda i: [rng(i), end(i), ks(i), ls(i), rs(i), us(i), mm(L(i)), mm(R(i) - 1), mo(K(i), L(i) - 1), mo(R(i) - 1, K(i) - 1), d0(L(i))])
    res = S.known('the result is the destination of the entry', n, lambda i: S.Implies(
        S.And(L(i) <= K(i), K(i) < R(i)), lambda: A(out, i) == A(to, ent(K(i)))))

    def facts(i):
        return [rng(i), fit(i), res(i), ks(i), ls(i), rs(i), us(i), un(i), mm(K(i)), d0(K(i))] + at(K(i), L(i), R(i) - 1) + [
            uo(inv(i), g_(K(i))), uo(g_(K(i)), inv(i))]
    return (lambda i: ent(K(i))), facts


@contract('C04', SP + '.SparseTPM.sparse_monte_carlo', proof=False, runs=1500, quick_runs=1500,
          note='numbers of states up to 4, times up to 3, individuals up to 6')
def sampled_states(S):
    T, N, P, t, f, to, v, tpm = world(S)
    n = S.dim('n', 1, 6)
    k = S.int('time', 0, 7)
    live = np.nonzero(P[k % T].sum(-1) > 0)[0]
    if len(live) == 0:
        raise Reject('no live state')
    st = S.arr('states', (n,), 'i', gen=lambda r, s: r.choice(live, s))
    S.assume(S.forall((n,), lambda i: st[i] in live))
    keep = st.copy()
    S.pool(np.cumsum(P[k % T][live], axis=-1))
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        out = tpm.sparse_monte_carlo(k, st)
    S.ensure('current states are not modified', S.same(st, keep))
    S.ensure('one state per individual', np.shape(out) == (n,))
    u = S.drawn(0, n)
    for i in range(n):
        S.ensure('a transition of the own state', any(
            t[e] == k % T and f[e] == st[i] and to[e] == out[i] for e in range(len(t))))
        S.ensure('first listed destination whose cumulative probability exceeds the draw',
                 follows(out[i], k % T, st[i], u[i], t, f, to, v))
    S.ensure('entries are kept', S.same(tpm.values, v) and S.same(tpm.inds_from, f) and S.same(tpm.inds_to, to))


@contract('C04', SP + '.SparseTPM.sparse_monte_carlo', runs=1500, quick_runs=300)
def dead_states(S):
    """individuals in a state without transition at that time restart from the dead state value"""
    E, T, N, t, f, to, v, prev, nxt, cum, known, tpm = rows_totalling_one(S)
    n = S.dim('n', 1, 6)
    k = S.int('time', 0, 7)
    kk = k % T
    here = lambda: [e for e in range(len(t)) if t[e] == kk]
    dead = S.int('dead value', 0, N - 1, gen=lambda r: r.choice([f[e] for e in here()] or [0]))
    dw = S.int('transition of the dead value', 0, E - 1, gen=lambda r: ([e for e in here() if f[e] == dead] or [0])[0])
    S.assume(S.And(S.at(t, dw) == kk, S.at(f, dw) == dead))
    tpm.dead_state_value = dead
    st = S.arr('states', (n,), 'i', lo=0, hi=N - 1)
    w = S.arr('transition', (n,), 'i', lo=-1, hi=E - 1, gen=lambda r, s: np.array([
        ([e for e in here() if f[e] == x] or [-1])[0] for x in st]))
    S.assume(S.forall(n, lambda i: S.Or(S.at(w, i) == -1, lambda: S.And(S.at(t, S.at(w, i)) == kk, S.at(f, S.at(w, i)) == S.at(st, i)))))
    S.assume(S.forall((n, E), lambda i, e: S.Implies(S.And(S.at(t, e) == kk, S.at(f, e) == S.at(st, i)), lambda: S.at(w, i) >= 0)))
    d = S.int('somebody in a dead state', 0, n - 1, gen=lambda r: ([i for i in range(n) if w[i] < 0] or [0])[0])
    S.assume(S.at(w, d) == -1)
    keep = S.copy(st)
    if S.symbolic:
        st2 = S.name('effective state', n, lambda i: S.ite(S.at(w, i) >= 0, S.at(st, i), dead))
        w2 = S.name('effective transition', n, lambda i: S.ite(S.at(w, i) >= 0, S.at(w, i), dw))
    else:
        st2, w2 = np.where(w >= 0, st, dead), np.where(w >= 0, w, dw)
        S.pool(cum)
    known['live'] = S.known('every individual has a transition', n, lambda i: S.And(
        S.at(w2, i) >= 0, S.at(w2, i) < E, S.at(t, S.at(w2, i)) == kk, S.at(f, S.at(w2, i)) == S.at(st2, i)))
    again = []
    if S.symbolic:      # the recursive call by its contract (sampling)
        def recursive(time, states):
            S.lemma('the recursive call is for the same time', time % T == kk)
            S.lemma('the recursive call is for the effective states', S.And(
                S.shape_is(states, n), S.forall(n, lambda i: S.at(states, i) == S.at(st2, i))))
            again.append(S.fresh('sampled', (n,), 'i'))
            return again[0]
        S.stub(tpm, 'sparse_monte_carlo', recursive)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = S.cls(SP + '.SparseTPM').sparse_monte_carlo(tpm, k, st)
    S.ensure('current states are not modified', S.same(st, keep))
    S.ensure('entries are kept', S.And(S.same(tpm.values, v), S.same(tpm.inds_from, f), S.same(tpm.inds_to, to), S.same(tpm.times, t)))
    if again:
        S.ensure('a dead state restarts from the given value', S.same(out, again[0]))
    else:
        follows_draw(S, out, S.drawn(0, n), S.n_draws() - 1, E, N, n, kk, t, f, to, v, prev, nxt, cum, st2, w2, known)


@contract('C04', SP + '.SparseTPM.sparse_monte_carlo', runs=600)
def dead_without_value(S):
    """without a dead state value the result is still a state"""
    E, T, N, t, f, to, v, prev, nxt, cum, known, tpm = rows_totalling_one(S)
    n = S.dim('n', 1, 6)
    k = S.int('time', 0, 7)
    kk = k % T
    st = S.arr('states', (n,), 'i', lo=0, hi=N - 1)
    some = S.int('an individual', 0, n - 1)
    w = S.int('its transition', 0, E - 1, gen=lambda r: ([e for e in range(len(t)) if t[e] == kk and f[e] == st[some]] or [0])[0])
    S.assume(S.And(S.at(t, w) == kk, S.at(f, w) == S.at(st, some)))
    keep = S.copy(st)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        out = tpm.sparse_monte_carlo(k, st)
    S.ensure('current states are not modified', S.same(st, keep))
    S.ensure('one state per individual', S.shape_is(out, n))
    S.ensure('a valid state', S.forall(n, lambda i: S.And(S.at(out, i) >= 0, S.at(out, i) < N)))


@contract('C04', SP + '.SparseTPM.sparse_monte_carlo', proof=False, runs=800, quick_runs=600)
def dead_states_of_tables(S):
    T, N, P, t, f, to, v, tpm = world(S)
    n = S.dim('n', 1, 6)
    k = S.int('time', 0, 7)
    live = np.nonzero(P[k % T].sum(-1) > 0)[0]
    if len(live) == 0 or len(live) == N:
        raise Reject('no dead state')
    dead = live[S.int('dead value', 0, 5) % len(live)]
    tpm.dead_state_value = dead
    st = S.arr('states', (n,), 'i', lo=0, hi=N - 1)
    keep = st.copy()
    S.pool(np.cumsum(P[k % T][live], axis=-1))
    out = tpm.sparse_monte_carlo(k, st)
    S.ensure('current states are not modified', S.same(st, keep))
    u = S.draws[-1]
    if np.shape(u) != (n,):
        return
    for i in range(n):
        s = st[i] if st[i] in live else dead
        S.ensure('a dead state restarts from the given value', follows(out[i], k % T, s, u[i], t, f, to, v))


@contract('C04', SP + '.SparseTPM.sparse_monte_carlo', proof=False, runs=300)
def independent(S):
    """the draw of an individual does not depend on the other individuals"""
    T, N, P, t, f, to, v, tpm = world(S)
    n = S.dim('n', 2, 6)
    k = S.int('time', 0, 7)
    live = np.nonzero(P[k % T].sum(-1) > 0)[0]
    if len(live) == 0:
        raise Reject('no live state')
    st = S.arr('states', (n,), 'i', gen=lambda r, s: r.choice(live, s))
    S.assume(S.forall((n,), lambda i: st[i] in live))
    out = tpm.sparse_monte_carlo(k, st)
    u = np.floor(S.drawn(0, n) * 2**40) / 2**40
    S._base = lambda name, shp, gen: u.reshape(shp)
    out = tpm.sparse_monte_carlo(k, st)
    for i in range(n):
        S._base = lambda name, shp, gen, i=i: u[i:i + 1].reshape(shp)
        alone = tpm.sparse_monte_carlo(k, st[i:i + 1])
        S.ensure('same result when sampled alone', alone[0] == out[i])


@contract('C04', SP + '.SparseTPM.sparse_monte_carlo', proof=False, quick_runs=12, runs=150)
def frequency(S):
    """whatever the source of the random numbers: independent draws with the probabilities of the own state"""
    T, N, n, k = S.dim('T', 1, 3), S.dim('N', 2, 3), S.dim('n', 2, 4), S.int('time', 0, 5)
    P = S.arr('P', (T, N, N), lo=0, gen=lambda r, s: r.dirichlet(np.ones(s[-1]) * 2, s[:-1]))
    t, f, to = np.nonzero(P)
    tpm = S.mod(SP).SparseTPM(t, f, to, P[t, f, to], n_states=N, n_times=T)
    st = S.arr('states', (n,), 'i', lo=0, hi=N - 1)
    S.natural(S.dim('seed', 0, 10**6))
    frequencies(S, lambda: tpm.sparse_monte_carlo(k, st), P[k % T][st])
