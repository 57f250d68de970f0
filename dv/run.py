"""Check one property: `python -m dv.run C01 quick|thorough`.

Exit 0: every obligation discharged / every bounded execution agreed with its contract.
Exit 1: VIOLATION line(s).  Exit 2: the check itself is broken (no verdict)."""
from __future__ import annotations
import importlib
import itertools
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)

from dv import realload  # noqa: E402
realload.setup()
import z3  # noqa: E402
from dv import engine, harness, core  # noqa: E402
from dv.core import Unsupported, real_isinstance as isinst  # noqa: E402


def load_contracts(prop):
    harness.CONTRACTS.clear()
    m = 'contracts.' + prop.lower()
    if m in sys.modules:
        del sys.modules[m]
    importlib.import_module(m)
    return [c for c in harness.CONTRACTS if c.prop == prop]


def dim_combos(names, hi, limit, rng):
    ranges = []
    for nm, lo, h in names:
        ranges.append(list(range(lo, min(h, lo + hi) + 1)))
    if not ranges:
        return [{}]
    tot = 1
    for r in ranges:
        tot *= len(r)
    if tot <= limit:
        combos = list(itertools.product(*ranges))
    else:
        combos = list({tuple(rng.choice(r) for r in ranges) for _ in range(limit * 3)})[:limit]
    # non-degenerate shapes first
    combos.sort(key=lambda c: (any(v == 0 for v in c), sum(c)))
    return [dict(zip([n[0] for n in names], c)) for c in combos]


def probe_dims(c):
    """dimension names of a contract (from a concrete run)"""
    names = {}
    for seed in range(40):
        S = harness.ConS(seed)
        orig = S.dim

        def dim(name, lo=0, hi=4, orig=orig):
            names[name] = (lo, hi)
            return orig(name, lo, hi)
        S.dim = dim
        try:
            with S.patched():
                old = sys.stdout
                sys.stdout = open(os.devnull, 'w')
                try:
                    c.fn(S)
                finally:
                    sys.stdout = old
        except BaseException as e:
            if isinst(e, KeyboardInterrupt):
                raise
        finally:
            S.close()
    return [(n, lo, hi) for n, (lo, hi) in names.items()]


def replay_tape(c, tape, draws):
    o = engine.run_concrete(c, 1, tape, draws)
    return o if o.status == 'fail' else None


def try_model(c, ctx, model):
    try:
        tape, draws = engine.extract(ctx, model)
    except Exception:
        return None
    o = replay_tape(c, tape, draws)
    if o is None:
        o2 = replay_tape(c, tape, None)
        if o2 is None:
            return None
        return dict(mode='tape', tape=engine.jsonable(tape), draws=None, label=o2.label, detail=o2.detail)
    return dict(mode='tape', tape=engine.jsonable(tape), draws=engine.jsonable(draws), label=o.label, detail=o.detail)


def fixed_search(c, budget, stats, label=None, limit=24):
    """bounded: all values for small dimensions; -> (verdict, counterexample or None, n obligations)"""
    t0 = time.time()
    rng = random.Random(7)
    names = probe_dims(c)
    nob = nok = 0
    done = []
    for dv in dim_combos(names, c.dims_hi, limit, rng):
        if time.time() - t0 > budget:
            break
        try:
            paths = engine.explore(c, dv, deadline=t0 + budget, stats=stats, depth=40, cut=True)
        except Unsupported as e:
            stats.setdefault('fixed_unsupported', str(e)[:300])
            continue
        except Exception as e:
            stats.setdefault('fixed_unsupported', 'crash %s' % e)
            continue
        ok = True
        for ctx in paths:
            for lb, pc, goal in ctx.obligs:
                if time.time() - t0 > budget:
                    ok = False
                    break
                if z3.is_true(z3.simplify(goal)):
                    nob += 1
                    nok += 1
                    continue
                nob += 1
                r, s = engine.check_z3(pc, goal, 4)
                if r == z3.unsat:
                    nok += 1
                elif r == z3.sat:
                    ce = try_model(c, ctx, s.model())
                    if ce is not None:
                        return 'refuted', ce, (nob, nok, done)
                    ok = False
                else:
                    ok = False
        if ok:
            done.append(dv)
    return 'ok', None, (nob, nok, done)


def worker(args):
    prop, idx, tier, seed, budget, retry = args
    t0 = time.time()
    res = dict(idx=idx, status='ok', stats={}, obligations=0, discharged=0, backends={}, labels=[],
               viol=None, failed=[], proved=False, trusted=[], fuzz={}, bounded=None, note='')
    try:
        c = load_contracts(prop)[idx]
        res['name'] = c.name
        quick = tier != 'thorough'
        # ---- 1. run-time checking of the contract on the real code
        n = c.quick_runs if quick else c.runs * 4
        fz = engine.fuzz(c, n, (25 if quick else 120), seed)
        res['fuzz'] = dict(ok=fz['ok'], rejected=fz['reject'], clauses=fz['checked'], skipped=fz['skipped'],
                           labels=sorted(fz['labels']), time=round(fz['time'], 2))
        res['foreign'] = fz.get('foreign')
        found = None
        if fz['fails'] and not os.environ.get('DV_NOFUZZ'):
            o = fz['fails'][0]
            found = dict(mode='seed', seed=o.seed, label=o.label, detail=o.detail, inputs=engine.jsonable(o.log))
        elif fz['ok'] == 0:
            res.update(status='error', note='no accepted concrete input (vacuous precondition?)')
            return res
        elif fz['checked'] == 0:
            res.update(status='error', note='no clause evaluated')
            return res
        if not c.proof:
            if found:
                res.update(status='violation', viol=found)
                return res
            res['bounded'] = 'run-time contract checking on generated inputs only'
            if c.note:
                res['bounded'] += ' (' + c.note + ')'
            return res
        # ---- 2. obligations for all inputs
        stats = res['stats']
        try:
            paths = engine.explore(c, None, deadline=t0 + budget * .4, stats=stats)
        except Unsupported as e:
            res['note'] = 'outside the verifier: ' + str(e)[:400]
            paths = None
        trusted = set()
        failed = []
        models = []
        if paths is not None:
            nens = 0
            completed = 0
            for ctx in paths:
                trusted |= ctx.trusted
                if ctx.ended is None:
                    completed += 1
                for lb, pc, goal in ctx.obligs:
                    for g in engine.split_goal(goal):
                        if time.time() - t0 > budget:
                            res['obligations'] += 1
                            failed.append((lb, 'time budget exhausted'))
                            continue
                        hurry = found or len(failed) >= 3
                        v, be, m = engine.discharge(pc, g, 3 if hurry else c.timeout * (4 if retry else 1), stats, hurry, ctx, retry)
                        res['obligations'] += 1
                        if not lb.startswith('safety:'):
                            nens += 1
                        if v == 'proved':
                            res['discharged'] += 1
                            res['backends'][be] = res['backends'].get(be, 0) + 1
                        else:
                            failed.append((lb, v + ' (' + str(be) + ')'))
                            if m is not None:
                                models.append((ctx, m, lb))
                            res.setdefault('smt', []).append((lb, v, dump(pc, g)))
                res['labels'] = sorted(set(res['labels']) | {o[0] for o in ctx.obligs})
            res['trusted'] = sorted(trusted)
            res['npaths'] = len(paths)
            if completed == 0 or nens == 0:
                res.update(status='error', note='vacuous: no path reaches a clause')
                return res
            if not failed and not found:
                res['proved'] = True
                return res
        if found:
            found['failed_obligations'] = [list(f) for f in failed]
            if paths is not None and not failed:
                found['note'] = 'observed on the real code although every obligation was discharged (outside the real-arithmetic model)'
            res.update(status='violation', viol=found, failed=failed)
            return res
        if failed and not models and not retry and not found:
            res.update(status='retry', failed=failed)      # alone on the machine, with more time
            return res
        # ---- 3. failed or unsupported: search for a failing input
        for ctx, m, lb in models:
            ce = try_model(c, ctx, m)
            if ce:
                res.update(status='violation', viol=ce)
                return res
        left = max(30, budget - (time.time() - t0))
        v, ce, info = fixed_search(c, min(left * .6, 150), stats)
        if ce:
            res.update(status='violation', viol=ce)
            return res
        fz2 = engine.fuzz(c, n * 8, min(left * .3, 80), seed + 17)
        res['fuzz']['extra_ok'] = fz2['ok']
        if fz2['fails'] and not os.environ.get('DV_NOFUZZ'):
            o = fz2['fails'][0]
            res.update(status='violation', viol=dict(mode='seed', seed=o.seed, label=o.label, detail=o.detail,
                                                     inputs=engine.jsonable(o.log)))
            return res
        res['bounded'] = 'bounded: all values for dimensions %s (%d of %d obligations discharged); %d concrete runs' % (
            info[2][:6], info[1], info[0], fz['ok'] + fz2['ok'])
        if paths is None:
            return res       # outside reach: labelled bounded, never counted as proved
        hard = [f for f in failed if not f[0].startswith('no unexpected exception')]
        if hard:
            res.update(status='unproved', failed=failed)
        else:
            res['note'] = 'exception path not replayable: outside the verifier: ' + str(failed[0][0])[:300]
        return res
    except BaseException as e:
        res.update(status='error', note='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
        return res
    finally:
        res['wall'] = round(time.time() - t0, 2)


def dump(pc, g):
    try:
        s = z3.Solver()
        for p in pc:
            s.add(p)
        s.add(z3.Not(g))
        t = s.to_smt2()
        return t if len(t) < 200000 else t[:200000]
    except Exception:
        return ''


def known_findings(prop):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)) if k.get('property') == prop and k.get('status') == 'open']


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = argv[2] if len(argv) > 2 else None
    t0 = time.time()
    cs = load_contracts(prop)
    if not cs:
        print('no contracts for', prop)
        return 2
    budget = 420 if tier != 'thorough' else 1500
    jobs = [(prop, i, tier, seed, budget, False) for i, c in enumerate(cs) if only is None or only in c.name]
    nproc = min(int(os.environ.get('DV_PROC', '8')), len(jobs))
    with mp.get_context('fork').Pool(nproc, maxtasksperchild=1) as pool:
        results = pool.map(worker, jobs, chunksize=1)
    for k, r in enumerate(results):
        if r['status'] == 'retry':
            left = (820 if tier != 'thorough' else 3000) - (time.time() - t0)
            print('  contract %s: %d obligations undecided in the first pass, alone with more time' % (r.get('name'), len(r['failed'])))
            with mp.get_context('fork').Pool(1) as pool:
                results[k] = pool.map(worker, [jobs[k][:4] + (min(budget, max(60, left * .6)), True)])[0]
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    errors = 0
    kf = known_findings(prop)
    for r in results:
        c = cs[r['idx']]
        if only or os.environ.get('DV_VERBOSE'):
            print('--', r['name'], r['status'], 'proved' if r['proved'] else '', 'oblig %d/%d' % (r['discharged'], r['obligations']),
                  r['backends'], 'paths', r.get('npaths'), 'wall', r['wall'], 'solver %.1f' % r['stats'].get('solver_time', 0),
                  'fuzz', r['fuzz'].get('ok'), '/rej', r['fuzz'].get('rejected'), 'skip', r['fuzz'].get('skipped'), r['note'])
            for f in list(dict.fromkeys(map(tuple, r['failed'])))[:8]:
                print('     FAILED', f)
            if os.environ.get('DV_VERBOSE') == '2' and r.get('bounded'):
                print('     ', r['bounded'])
        if r.get('foreign'):
            print('NOTE: contract %s does not apply to this representation: %s' % (r.get('name'), r['foreign']))
        if r['status'] == 'error':
            errors += 1
            print('CHECK-ERROR property=%s contract=%s: %s' % (prop, r.get('name'), r['note']))
        elif r['status'] in ('violation', 'unproved'):
            fn = os.path.join(rdir, '%s-%s.json' % (prop, c.name))
            d = dict(property=prop, contract=c.name, functions=c.funcs)
            if r['status'] == 'violation':
                d.update(r['viol'])
                d['how'] = 'cd /verif && ./check replay %s' % fn
                tail = ''
                what = d['label']
            else:
                d['failed_obligations'] = [list(f) for f in r['failed']]
                d['verifier_output'] = [dict(label=a, verdict=b, smt2=s) for a, b, s in r.get('smt', [])[:3]]
                tail = ' no-failing-input-found'
                what = '; '.join(f[0] + ': ' + f[1] for f in r['failed'][:3])
            hit = [k for k in kf if k['contract'] == c.name and k['label'] == d.get('label')]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]['what']))
                continue
            json.dump(d, open(fn, 'w'), indent=1, default=str)
            print('  contract %s: %s' % (c.name, what))
            print('VIOLATION property=%s replay=%s%s' % (prop, fn, tail))
            nviol += 1
    write_evidence(prop, tier, seed, cs, results, nviol, time.time() - t0)
    if errors and not nviol:
        return 2
    return 1 if nviol else 0


def write_evidence(prop, tier, seed, cs, results, nviol, wall):
    ob = sum(r['obligations'] for r in results)
    di = sum(r['discharged'] for r in results)
    be = {}
    tb = set()
    for r in results:
        for k, v in r['backends'].items():
            be[k] = be.get(k, 0) + v
        tb |= set(r['trusted'])
    tb = ['numpy primitive theory: ' + t for t in sorted(tb)]
    tb += ['floating point treated as exact real arithmetic; int64 as unbounded integers',
           'extraction (dv/twin.py): numpy/datetime shims, builtins table, loop hook; otherwise the source as written',
           'z3 / cvc5 soundness; the symbolic array engine dv/ (differentially tested by dv/selftest.py)']
    fu = {}
    for r in results:
        c = cs[r['idx']]
        for f in c.funcs:
            lv = 'proved' if r['proved'] else ('bounded' if r['status'] == 'ok' else r['status'])
            fu.setdefault(f, []).append('%s: %s' % (c.name, lv))
    samples = []
    for r in results[:4]:
        samples.append(dict(contract=r.get('name'), clauses=r['fuzz'].get('labels')))
    proved = [r for r in results if r['proved']]
    bounded = [dict(contract=r.get('name'), bound=r['bounded'], reason=r['note']) for r in results
               if not r['proved'] and r['bounded'] and not cs[r['idx']].extra]
    extra = [dict(contract=r.get('name'), bound=r['bounded']) for r in results if cs[r['idx']].extra]
    level = json.load(open(os.path.join(VERIF, 'levels.json'))).get(prop, 'proof') if os.path.exists(
        os.path.join(VERIF, 'levels.json')) else 'proof'
    cov = dict(
        obligations=ob, discharged=di, checker_cmd='./check %s %s' % (prop, tier), trusted_base=tb,
        backends=be, solver_time_s=round(sum(r['stats'].get('solver_time', 0) for r in results), 1),
        functions_under_contract=fu, contracts=len(results) - len(extra), contracts_proved=len(proved),
        bounded_stand_ins=bounded, bounded_in_addition=extra, paths=sum(r.get('npaths') or 0 for r in results),
        evaluations=sum(r['fuzz'].get('ok', 0) + r['fuzz'].get('extra_ok', 0) for r in results),
        distinct_nontrivial=sum(r['fuzz'].get('ok', 0) for r in results if r['fuzz'].get('clauses')),
        rule='contract executed on the real code with a generated input that satisfies its precondition; '
             'non-trivial when at least one clause of the postcondition was evaluated',
        samples=samples,
        explanation='obligations generated from /repo source on this run by executing it over symbolic values; '
                    'contracts listed under bounded_stand_ins are not counted as proved')
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level,
              coverage=cov, assumptions=sorted({c.note for c in cs if c.note}), wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)


def replay(fn):
    d = json.load(open(fn))
    c = [c for c in load_contracts(d['property']) if c.name == d['contract']][0]
    if d.get('mode') == 'seed':
        o = engine.run_concrete(c, d['seed'])
    elif d.get('mode') == 'tape':
        dr = d['draws']
        o = engine.run_concrete(c, 1, d['tape'], [(a, b) for a, b in dr] if dr is not None else None)
    else:
        print('failed obligations (no failing input):')
        for f in d['failed_obligations']:
            print('  ', f)
        return 1
    print(o.status, o.label, o.detail)
    print('inputs:', json.dumps(engine.jsonable(o.log), default=str)[:4000])
    return 1 if o.status == 'fail' else 0


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1:]))
