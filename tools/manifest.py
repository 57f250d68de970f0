"""writes MANIFEST.json and levels.json from contracts/ and the claims table below"""
import json, os, sys
sys.path.insert(0, '/verif')
os.chdir('/verif')
props = [json.loads(l) for l in open('properties.jsonl')]
NA = json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else {}
checks, na, levels = [], [], {}
from dv import run
for p in props:
    pid = p['id']
    if pid in NA or not os.path.exists('contracts/%s.py' % pid.lower()):
        na.append(dict(property=pid, reason=NA.get(pid, 'no contract built yet')))
        continue
    cs = [c for c in run.load_contracts(pid) if not c.extra]
    pr = [c for c in cs if c.proof]
    lv = 'proof' if len(pr) == len(cs) else ('other' if pr else 'exploration')
    ev = 'evidence/%s.json' % pid
    proved = None
    if os.path.exists(ev):
        e = json.load(open(ev))
        proved = e['coverage'].get('contracts_proved')
        if proved is not None and e['coverage'].get('contracts') == len(cs):
            lv = 'proof' if proved == len(cs) else ('other' if proved else 'exploration')
    levels[pid] = lv
    what = {'proof': 'contracts on the real functions, every obligation discharged by z3/cvc5 for all inputs',
            'other': 'contracts on the real functions: part of them discharged by z3/cvc5 for all inputs, the others bounded (run-time contract checking), see evidence',
            'exploration': 'run-time checking of the contracts on the real functions (bounded stand-in for the proof)'}[lv]
    note = '%d of %d contracts proved for all inputs (numpy/datetime primitives by their stated theory, floats as reals)' % (
        proved if proved is not None else len(pr), len(cs))
    if lv != 'proof':
        note += '; the remaining contracts are bounded: executed on generated inputs, never counted as proved'
    checks.append(dict(property=pid, quick_cmd='./check %s quick' % pid, thorough_cmd='./check %s thorough' % pid,
                       technique='contract-based deductive verification: ' + what, level=lv, level_note=note))
json.dump(levels, open('levels.json', 'w'), indent=1)
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', levels)
