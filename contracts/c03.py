"""C03  A sparse transition matrix stores what was put in."""
import os
import tempfile
import numpy as np
from dv.harness import contract

SP = 'demod.utils.sparse'


def triples(S, E, T, N, sort=False):
    """arrays of distinct (time, origin, destination) entries"""
    box = {}

    def gen(k):
        def g(rng, shape):
            if 'c' not in box:
                e = shape[0]
                cells = rng.choice(max(T * N * N, e), e, replace=False)
                if sort or rng.random_sample() < .4:
                    cells = np.sort(cells)
                box['c'] = (cells // (N * N) % T, cells // N % N, cells % N)
            return box['c'][k]
        return g
    t = S.arr('times', (E,), 'i', lo=0, hi=T - 1, gen=gen(0))
    f = S.arr('inds_from', (E,), 'i', lo=0, hi=N - 1, gen=gen(1))
    to = S.arr('inds_to', (E,), 'i', lo=0, hi=N - 1, gen=gen(2))
    S.assume(S.forall((E, E), lambda a, b: S.Implies(
        a < b, lambda: S.Not(S.And(S.at(t, a) == S.at(t, b), S.at(f, a) == S.at(f, b),
                                   S.at(to, a) == S.at(to, b))))))
    return t, f, to


def build(S, explicit=True):
    E, T, N = S.dim('E', 1, 8), S.dim('T', 1, 3), S.dim('N', 1, 3)
    t, f, to = triples(S, E, T, N)
    v = S.arr('values', (E,), lo=0, hi=1)
    tpm = S.mod(SP).SparseTPM(t, f, to, v, n_states=N, n_times=T)
    return E, T, N, t, f, to, v, tpm


def holds(S, R, key, E, N, t, f, to, v, what='lookup'):
    S.ensure(what + ': square matrix over the states', S.shape_is(R, N, N))
    S.ensure(what + ': every entry of that time is there', S.forall((E,), lambda e: S.Implies(
        S.at(t, e) == key, lambda: S.at(R, S.at(f, e), S.at(to, e)) == S.at(v, e))))
    S.ensure(what + ': nothing else is there', S.forall((N, N), lambda i, j: S.Or(
        S.at(R, i, j) == 0, lambda: S.exists((E,), lambda e: S.And(
            S.at(t, e) == key, S.at(f, e) == i, S.at(to, e) == j, S.at(R, i, j) == S.at(v, e))))))


@contract('C03', SP + '.SparseTPM.__init__')
def init_stores(S):
    E, T, N, t, f, to, v, tpm = build(S)
    S.ensure('the transitions are stored as given', S.And(
        S.same(tpm.times, t), S.same(tpm.inds_from, f), S.same(tpm.inds_to, to), S.same(tpm.values, v)))
    S.ensure('numbers of states and times', S.And(tpm.n_states == N, tpm.n_times == T))
    S.ensure('shape is times x states x states', S.And(
        len(tpm.shape) == 3, tpm.shape[0] == T, tpm.shape[1] == N, tpm.shape[2] == N))


@contract('C03', SP + '.SparseTPM.__init__')
def init_infers(S):
    E, T, N = S.dim('E', 1, 6), S.dim('T', 1, 3), S.dim('N', 1, 3)
    t, f, to = triples(S, E, T, N)
    v = S.arr('values', (E,), lo=0, hi=1)
    tpm = S.mod(SP).SparseTPM(t, f, to, v)
    S.ensure('every state and time has its place', S.forall((E,), lambda e: S.And(
        S.at(t, e) < tpm.n_times, S.at(f, e) < tpm.n_states, S.at(to, e) < tpm.n_states)))
    S.ensure('no superfluous time', S.exists((E,), lambda e: S.at(t, e) == tpm.n_times - 1))
    S.ensure('no superfluous state', S.exists((E,), lambda e: S.Or(
        S.at(f, e) == tpm.n_states - 1, S.at(to, e) == tpm.n_states - 1)))
    S.ensure('shape', S.And(tpm.shape[0] == tpm.n_times, tpm.shape[1] == tpm.n_states,
                            tpm.shape[2] == tpm.n_states))


@contract('C03', SP + '.SparseTPM.__init__')
def init_rejects_lengths(S):
    a, b, c, d = [S.dim(x, 1, 4) for x in 'abcd']
    t, f = S.arr('t', (a,), 'i', lo=0, hi=5), S.arr('f', (b,), 'i', lo=0, hi=5)
    to, v = S.arr('to', (c,), 'i', lo=0, hi=5), S.arr('v', (d,), lo=0, hi=1)
    e = S.raises(ValueError, lambda: S.mod(SP).SparseTPM(t, f, to, v))
    equal = S.And(a == b, a == c, a == d)
    if e is None:
        S.ensure('accepted arrays have equal lengths', equal)
    else:
        S.ensure('rejected arrays do not have equal lengths', S.Not(equal))


@contract('C03', [SP + '.SparseTPM.__getitem__', SP + '.SparseTPM._check_int_time_value'])
def lookup(S):
    E, T, N, t, f, to, v, tpm = build(S)
    key = S.int('key', -7, 20)
    R = tpm[key]
    holds(S, R, key % T, E, N, t, f, to, v)
    S.ensure('looking up changes nothing', S.And(
        S.same(tpm.times, t), S.same(tpm.inds_from, f), S.same(tpm.inds_to, to), S.same(tpm.values, v)))


@contract('C03', [SP + '.SparseTPM.__setitem__', SP + '.SparseTPM._check_int_time_value'])
def assign(S):
    E, T, N, t, f, to, v, tpm = build(S)
    key = S.int('key', -7, 20)
    M = S.arr('M', (N, N), lo=0, hi=1, gen=lambda r, s: np.where(r.random_sample(s) < .5, 0, r.random_sample(s)))
    M = S.maybe_int('M of whole numbers', M)
    k = key % T
    other = S.int('other', 0, T - 1)
    tpm[key] = M
    S.ensure('the assigned time holds the assigned matrix', S.same(tpm[k], M))
    S.assume(S.Not(other == k))
    holds(S, tpm[other], other, E, N, t, f, to, v, 'other times')
    S.ensure('shape is kept', S.And(tpm.n_times == T, tpm.n_states == N))


@contract('C03', SP + '.SparseTPM.__setitem__')
def assign_rejects_size(S):
    E, T, N, t, f, to, v, tpm = build(S)
    a, b = S.dim('a', 1, 4), S.dim('b', 1, 4)
    M = S.arr('M', (a, b), lo=0, hi=1)

    def go():
        tpm[0] = M
    e = S.raises(ValueError, go)
    S.ensure('only square matrices over the states are accepted', S.Iff(e is None, S.And(a == N, b == N)))
    if e is not None:
        S.ensure('a rejected assignment changes nothing', S.And(
            S.same(tpm.times, t), S.same(tpm.inds_from, f), S.same(tpm.inds_to, to), S.same(tpm.values, v)))


@contract('C03', [SP + '.SparseTPM.__iter__', SP + '.SparseTPM.__next__'])
def next_matrix(S):
    """one step of the iteration from any position"""
    E, T, N, t, f, to, v, tpm = build(S)
    first = iter(tpm)
    S.ensure('iterating starts at time 0', first._iter_count == 0)
    pos = S.int('pos', 0, 4)
    S.assume(pos <= T)
    tpm._iter_count = pos
    e = S.raises(StopIteration, lambda: next(tpm))
    if e is None:
        S.ensure('stops only after the last time', pos < T)
        holds(S, S.result, pos, E, N, t, f, to, v, 'iteration')
        S.ensure('moves on by one time', tpm._iter_count == pos + 1)
    else:
        S.ensure('stops after the last time', pos == T)


@contract('C03', SP + '.SparseTPM.__iter__', proof=False)
def iteration(S):
    E, T, N, t, f, to, v, tpm = build(S)
    for _ in range(2):
        got = [R for R in tpm]
        S.ensure('one matrix per time', len(got) == T)
        for k, R in enumerate(got):
            holds(S, R, k, E, N, t, f, to, v, 'iteration')


@contract('C03', [SP + '.SparseTPM.save', SP + '.SparseTPM.load'], proof=False,
          note='np.save/np.load are executed, not modelled')
def save_load(S):
    E, T, N, t, f, to, v, tpm = build(S)
    changed = S.bool('assigned first')
    if changed:
        tpm[T - 1] = S.arr('M', (N, N), lo=0, hi=1)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'x')
        tpm.save(p)
        back = S.mod(SP).SparseTPM.load(p)
    S.ensure('same numbers of times and states', back.n_times == T and back.n_states == N)
    for k in range(T):
        S.ensure('same transitions', S.same(back[k], tpm[k]))


@contract('C03', [SP + '.SparseTPM.__getitem__', SP + '.SparseTPM.__setitem__'], proof=False)
def assign_history(S):
    """any sequence of assignments behaves as a dense array of matrices"""
    E, T, N, t, f, to, v, tpm = build(S)
    dense = np.zeros((T, N, N))
    dense[t, f, to] = v
    for s in range(S.dim('steps', 1, 5)):
        k = S.int('k%d' % s, -3, 6)
        M = S.arr('M%d' % s, (N, N), lo=0, hi=1,
                  gen=lambda r, sh: np.where(r.random_sample(sh) < .5, 0, r.random_sample(sh)))
        M = S.maybe_int('M%d of whole numbers' % s, M)
        tpm[k] = M
        dense[k % T] = M
        for i in range(T):
            S.ensure('same as a dense array', S.same(tpm[i], dense[i]))
