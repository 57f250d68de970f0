"""Exploration of a contract over the real source, discharge of its obligations,
counterexample search and concrete execution."""
from __future__ import annotations
import datetime as _dt
import itertools
import json
import os
import random
import shutil
import signal
import resource
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np
import z3

from . import arr, core, dt, harness, purify, realload
from .core import Ctx, PathEnd, Unsupported, real_int, real_bool, real_isinstance as isinst, real_len
from .harness import SymS, ConS, Reject, ClauseFailed, SkipClause, foreign
from .twin import Twins

HERE = os.path.dirname(os.path.abspath(__file__))
TWINS = None


def twins():
    global TWINS
    if TWINS is None:
        realload.setup()
        TWINS = Twins()
    return TWINS


class Path:
    def __init__(self, c):
        self.ctx = c


ENGINE_ERRS = ('SArr', 'SInt', 'SReal', 'SBool', 'SVal', 'SStr', 'SRange', 'SDT', 'STD', 'STime', 'Shim',
               'dtype<', 'DType')


def is_engine_error(e):
    tb = traceback.extract_tb(e.__traceback__)
    if tb and os.path.dirname(os.path.abspath(tb[-1].filename)) == HERE:
        # numpy-like errors raised deliberately by the array theory
        if isinst(e, (IndexError, ValueError)) and 'arr.py' in tb[-1].filename:
            return False
        return True
    m = str(e)
    return any(x in m for x in ENGINE_ERRS)


def explore(contract, dimvals=None, deadline=None, stats=None, depth=100, cut=False):
    """-> list of ctx (one per complete path)"""
    stats = stats if stats is not None else {}
    work = [[]]
    out = []
    n = 0
    while work:
        prefix = work.pop()
        n += 1
        if n > contract.max_paths:
            raise Unsupported('more than %d paths' % contract.max_paths)
        if deadline and time.time() > deadline:
            raise Unsupported('exploration time limit')
        c = Ctx(prefix, fixed_dims=dimvals, stats=stats, deadline=deadline, depth=depth, cut=cut)
        c.only = contract.only
        Ctx.cur = c
        S = SymS(c, twins(), dimvals)
        S.only = contract.only
        ended = None
        try:
            contract.fn(S)
        except PathEnd as e:
            ended = str(e)
        except Unsupported:
            raise
        except SkipClause as e:
            c.skipped = str(e)
            raise Unsupported('clause needs a recorded draw: %s' % e)
        except RecursionError:
            raise Unsupported('recursion')
        except Exception as e:
            if is_engine_error(e):
                tb = traceback.extract_tb(e.__traceback__)
                raise Unsupported('engine: %s: %s at %s' % (type(e).__name__, e, ' < '.join(
                    '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-6:]))))
            if foreign(S, e):
                raise Unsupported('representation: %s' % e)
            c.exc = e
            if contract.only is not None:
                raise Unsupported('ends with %s, decided elsewhere' % type(e).__name__)
            tb = traceback.extract_tb(e.__traceback__)
            c.obligs.append(('no unexpected exception: %s: %s (%s)' % (
                type(e).__name__, e, ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno)
                                                for f in reversed(tb[-3:]))), list(c.pc), z3.BoolVal(False)))
        finally:
            Ctx.cur = None
            S.close()
            if os.environ.get('DV_DEPTH'):
                print('DEPTH', len(c.alts), contract.name, file=sys.stderr)
        work.extend(c.alts)
        c.ended = ended
        c.dim_names = S.dim_names
        out.append(c)
    return out


def split_goal(g):
    """conjuncts (also under implications / universal quantifiers are left alone)"""
    if z3.is_and(g):
        r = []
        for ch in g.children():
            r.extend(split_goal(ch))
        return r
    if z3.is_implies(g) and z3.is_and(g.arg(1)):
        return [z3.Implies(g.arg(0), x) for x in split_goal(g.arg(1))]
    return [g]


def cone(pc, goal):
    return pc


def check_z3(pc, goal, timeout, cfg=None):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for k, v in (cfg or {}).items():
        s.set(k, v)
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s


def check_cvc5(pc, goal, timeout):
    s = z3.Solver()
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--full-saturate-quant', '--strings-exp', fn],
                           capture_output=True, text=True, timeout=timeout + 10)
        o = r.stdout.strip().splitlines()
        return o[-1] if o else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(fn)


def skolem_hyp(h, out, sk):
    """top-level existential hypotheses -> skolem constants (equisatisfiable)"""
    if z3.is_and(h):
        for ch in h.children():
            skolem_hyp(ch, out, sk)
        return
    neg = z3.is_not(h)
    q = h.arg(0) if neg else h
    if z3.is_quantifier(q) and q.is_forall() == neg and not q.is_lambda():
        vs = [z3.Const('sk!%d' % (real_len(sk) + i), q.var_sort(i)) for i in range(q.num_vars())]
        sk.extend(vs)
        body = z3.substitute_vars(q.body(), *reversed(vs))
        skolem_hyp(z3.Not(body) if neg else body, out, sk)
        return
    if neg and z3.is_implies(q):
        skolem_hyp(q.arg(0), out, sk)
        skolem_hyp(z3.Not(q.arg(1)), out, sk)
        return
    if neg and z3.is_or(q):
        for ch in q.children():
            skolem_hyp(z3.Not(ch), out, sk)
        return
    if neg and z3.is_not(q):
        skolem_hyp(q.arg(0), out, sk)
        return
    out.append(h)


def prep(pc, goal, insts, arbs=()):
    """refutation problem with skolem constants and ground instances of the index bijections
    (reshape, mask enumeration, concatenation offsets) at those constants"""
    out, sk = [], []
    skolem_hyp(z3.Not(goal), out, sk)
    ngoal = real_len(sk)
    for p in pc:
        skolem_hyp(p, out, sk)
    level = list(arbs)[:3] + [v for v in sk[:ngoal] if z3.is_int(v)][:4] + [v for v in sk[ngoal:] if z3.is_int(v)][:3]
    seen = set(v.get_id() for v in level)
    n = 0
    for rnd in range(4):
        new = []
        for vs, fact, term in insts:
            k = real_len(vs)
            if k > 2 or (k == 2 and rnd > 0):
                continue
            for ts in itertools.product(level, repeat=k):
                if k == 2 and ts[0].eq(ts[1]):
                    continue
                if n > 400:
                    return out
                n += 1
                f = z3.substitute(fact, *zip(vs, ts))
                if not z3.is_true(f):
                    out.append(f)
                t = z3.simplify(z3.substitute(term, *zip(vs, ts)))
                if t.get_id() not in seen:
                    seen.add(t.get_id())
                    out.append(t == t)
                    new.append(t)
        level = new[:24]
    return out


def linear(pc, goal):
    if os.environ.get('DV_NOLINEAR'):
        return False
    fs = pc if z3.is_false(goal) else prep(pc, goal, [])
    known = {}
    ground = [f for f in fs if not has_quantifier(f)]

    def nonzero(t):
        k = t.get_id()
        if k not in known:
            known[k] = (t, check_z3(fs, t != 0, .5)[0] == z3.unsat)
        return known[k][1]
    fs = ground + purify.instances(ground, [f for f in fs if has_quantifier(f)])
    dropped = []
    fs = purify.abstracted(fs, nonzero, dropped)
    r = None if fs is None else check_z3(fs, z3.BoolVal(False), 5)[0]
    if os.environ.get('DV_LINEAR') and r != z3.unsat:
        print('LINEAR', r, len(ground), fs and len(fs), [str(d)[:200] for d in dropped][:5], [(str(a), b) for a, b in known.values() if not b],
              file=sys.stderr)
    return r == z3.unsat


def has_quantifier(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return False
    seen.add(t.get_id())
    return z3.is_quantifier(t) or any(has_quantifier(u, seen) for u in t.children())


def discharge(pc, goal, timeout, stats, hurry=False, ctx=None, retry=False):
    """-> ('proved', backend) | ('refuted', model) | ('unknown', reason)"""
    if z3.is_true(z3.simplify(goal)):
        return 'proved', 'simplifier', None
    if ctx is not None and ctx.insts:
        t0 = time.time()
        r, s = check_z3(pc, goal, 2)
        stats['solver_time'] = stats.get('solver_time', 0) + time.time() - t0
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', s.model()
        arbs = [i[2] for i in ctx.inputs if i[1] == 'int' and i[0].startswith('arb')]
        pc, goal = prep(pc, goal, ctx.insts, arbs), z3.BoolVal(False)
    t0 = time.time()
    try:
        r, s = check_z3(pc, goal, 2)
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', s.model()
        if hurry:
            return 'unknown', s.reason_unknown(), None
        if linear(pc, goal):
            return 'proved', 'z3 on the linear abstraction', None
        v, be = portfolio(pc, goal, timeout, retry)
        if v == 'unsat':
            return 'proved', be, None
        if v == 'sat':
            r, s = check_z3(pc, goal, timeout)
            if r == z3.sat:
                return 'refuted', 'z3', s.model()
        return 'unknown', 'timeout', None
    finally:
        stats['solver_time'] = stats.get('solver_time', 0) + time.time() - t0
        if os.environ.get('DV_SLOW') and time.time() - t0 > 1:
            print('%.1f s' % (time.time() - t0), str(goal)[:300].replace(chr(10), ' '), file=sys.stderr)


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))


def portfolio(pc, goal, timeout, retry=False):
    """several solver configurations in parallel; the first conclusive answer wins"""
    s = z3.Solver()
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    txt = s.to_smt2()
    d = tempfile.mkdtemp(prefix='dv')
    procs = []
    try:
        fn = os.path.join(d, 'a.smt2')
        with open(fn, 'w') as f:
            f.write(txt)
        f2 = os.path.join(d, 'b.smt2')
        with open(f2, 'w') as f:
            f.write('(set-logic ALL)\n' + txt)
        T = int(timeout)
        for name, cmd in [('z3', ['z3-new', '-T:%d' % T, 'smt.mbqi=false', fn]),
                          ('z3', ['z3-new', '-T:%d' % T, 'smt.random_seed=7', fn]),
                          ('z3', ['z3-new', '-T:%d' % T, 'smt.mbqi=false', 'smt.arith.solver=2', 'smt.random_seed=3', fn]),
                          ('cvc5', ['cvc5', '--tlimit=%d' % (T * 1000), f2]),
                          ('cvc5', ['cvc5', '--tlimit=%d' % (T * 1000), '--full-saturate-quant', f2])] + ([
                          ('z3', ['z3-new', '-T:%d' % T, 'smt.mbqi=false', 'smt.random_seed=%d' % k, fn]) for k in (11, 23, 42)]
                          if retry else []):
            try:
                procs.append((name, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=limit_memory)))
            except FileNotFoundError:
                pass
        end = time.time() + timeout + 5
        live = list(procs)
        while live and time.time() < end:
            for x in list(live):
                if x[1].poll() is not None:
                    live.remove(x)
                    o = (x[1].stdout.read() or '').strip().splitlines()
                    if o and o[-1] == 'unsat':
                        return 'unsat', x[0]
                    if o and o[-1] == 'sat' and x[0] == 'z3':
                        return 'sat', x[0]
            time.sleep(.02)
        return 'unknown', ''
    finally:
        for _, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        shutil.rmtree(d, ignore_errors=True)


def val(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError('no value for %s' % t)


def arr_val(m, a, kind, nan=False):
    shp = tuple(a._shape)
    if not all(isinst(d, real_int) for d in shp):
        shp = tuple(d if isinst(d, real_int) else val(m, d) for d in shp)
        if any(d > 12 for d in shp):
            raise ValueError('model dimension too large')
    inv = {v: k for k, v in core.STRINGS.items()}
    out = np.empty(shp, dtype=object)
    for idx in np.ndindex(*shp):
        t, n = a.f0(idx) if hasattr(a, 'f0') else (a.fn(*[z3.IntVal(i) for i in idx]) if shp else a.at(), None)
        v = val(m, t)
        if kind == 's':
            v = inv.get(v, 'str%s' % v)
        if nan and a.nanfn is not None and val(m, a.nanfn(*[z3.IntVal(i) for i in idx])):
            v = float('nan')
        out[idx] = v
    return out.tolist()


def extract(c, m):
    """counter-model -> tape of inputs and draws"""
    tape = {}
    for inp in c.inputs:
        name, kind = inp[0], inp[1]
        if kind == 'dim':
            tape[name] = inp[2] if isinst(inp[2], int) else val(m, inp[2])
        elif kind in ('int', 'real', 'bool', 'time', 'datetime', 'timedelta'):
            tape[name] = val(m, inp[2])
        elif kind == 'arr':
            tape[name] = arr_val(m, inp[2], inp[3], inp[4])
    draws = []
    for nm, a in c.draws:
        k = a.kind
        if a.ndim == 0:
            draws.append((nm, val(m, a.at())))
        else:
            draws.append((nm, arr_val(m, a, k)))
    return tape, draws


# ---------------------------------------------------------------------- concrete
class Outcome:
    def __init__(self, status, label='', detail='', checked=0, log=None, skipped=None, draws=None, labels=()):
        self.status, self.label, self.detail = status, label, detail
        self.checked, self.log, self.skipped, self.draws, self.labels = checked, log, skipped, draws, labels


class TimeUp(BaseException):
    pass


CPU_LIMIT = 60      # processor seconds of one concrete run (they take about a second)


def time_up(*a):
    raise TimeUp()


def run_concrete(contract, seed, tape=None, draws=None):
    realload.setup()
    S = ConS(seed, tape, draws)
    S.only = contract.only
    core.STRINGS  # noqa
    import warnings
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            with S.patched():
                with open(os.devnull, 'w') as dn:
                    old = sys.stdout
                    sys.stdout = dn
                    signal.signal(signal.SIGPROF, time_up)
                    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
                    try:
                        contract.fn(S)
                    finally:
                        signal.setitimer(signal.ITIMER_PROF, 0)
                        sys.stdout = old
        st = Outcome('ok')
    except Reject:
        st = Outcome('reject')
    except TimeUp as e:
        tb = traceback.extract_tb(e.__traceback__)
        st = Outcome('fail', 'the code under contract ends', 'still running after %d processor seconds: %s' % (
            CPU_LIMIT, ' < '.join('%s:%d:%s' % (f.filename.replace(realload.REPO + '/', ''), f.lineno, f.name)
                                  for f in reversed(tb[-5:]))))
    except SkipClause as e:
        st = Outcome('ok', skipped=str(e))
    except ClauseFailed as e:
        st = Outcome('fail', e.label, e.detail)
    except RecursionError as e:
        st = Outcome('fail', 'no unexpected exception: RecursionError', '')
    except Exception as e:
        if foreign(S, e) or contract.only is not None:
            st = Outcome('ok', skipped='representation: %s' % e)
            S.close()
            st.checked, st.log, st.draws, st.labels = S.checked, S.log, S.draw_log, S.labels
            return st
        tb = traceback.extract_tb(e.__traceback__)
        # an exception raised by the harness itself while it prepares inputs is still an
        # observation about the code under contract unless the code was never entered
        st = Outcome('fail', 'no unexpected exception: %s: %s' % (type(e).__name__, str(e)[:200]),
                     ' < '.join('%s:%d:%s' % (f.filename.replace(realload.REPO + '/', ''), f.lineno, f.name)
                                for f in reversed(tb[-5:])))
    finally:
        S.close()
    st.checked, st.log, st.draws, st.labels = S.checked, S.log, S.draw_log, S.labels
    return st


def jsonable(x):
    if isinst(x, np.ndarray):
        return jsonable(x.tolist())
    if isinst(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinst(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinst(x, _dt.datetime):
        return dt.td_us(x - dt.EPOCH)
    if isinst(x, _dt.timedelta):
        return dt.td_us(x)
    if isinst(x, (np.integer,)):
        return int(x)
    if isinst(x, (np.floating,)):
        return float(x)
    if isinst(x, (np.bool_,)):
        return bool(x)
    return x


def fuzz(contract, n, budget, seed0=1, stop_first=True):
    """-> dict(ok, rejects, fails=[Outcome], checked, labels)"""
    t0 = time.time()
    res = dict(ok=0, reject=0, checked=0, labels=set(), fails=[], skipped=0, time=0.0)
    i = 0
    while res['ok'] < n and i < n * 12:
        if time.time() - t0 > budget:
            break
        seed = seed0 * 1000003 + i
        o = run_concrete(contract, seed)
        i += 1
        if o.status == 'reject':
            res['reject'] += 1
            continue
        res['checked'] += o.checked
        res['labels'] |= o.labels
        if o.skipped:
            res['skipped'] += 1
            if 'representation' in o.skipped:
                res['foreign'] = o.skipped
        if o.status == 'fail':
            o.seed = seed
            res['fails'].append(o)
            if stop_first:
                break
        else:
            res['ok'] += 1
    res['time'] = time.time() - t0
    return res
