"""fills DESIGN.md from tools/design_in.md: the tables of contracts (evidence), fixes (known_findings.json), seeds"""
import json, glob, os, re, subprocess, sys
os.chdir('/verif'); sys.path.insert(0, '/verif')
from dv import run
t = open('tools/design_in.md').read()
notes = dict(re.findall(r'^(C\d\d): (.*)$', open('tools/design_notes.md').read(), re.M))
o = []
for l in open('properties.jsonl'):
    p = json.loads(l); i = p['id']
    e = json.load(open('evidence/%s.json' % i)); c = e['coverage']
    b = [x['contract'] for x in c['bounded_stand_ins']]
    cs = run.load_contracts(i)
    pr = [x.name for x in cs if x.name not in b]
    o.append('### %s  %s\n' % (i, p['title']))
    o.append('Functions under contract: ' + ', '.join('`%s`' % f.replace('demod.', '') for f in sorted(c['functions_under_contract'])) + '.\n')
    o.append('Proved (%d obligations): %s.' % (c['obligations'], ', '.join(pr) or 'none'))
    o.append('Bounded: %s.\n' % (', '.join(b) or 'none'))
    if notes.get(i): o.append(notes[i] + '\n')
t = t.replace('@@TABLE@@', '\n'.join(o))
t = t.replace('@@FIXES@@', '\n'.join('* ' + k['record'] for k in json.load(open('known_findings.json')) if k['status'] == 'fixed'))
s = ['| id | property | needs | caught by |', '|---|---|---|---|']
cb = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[1]
    s.append('| %s | %s | %s | %s |' % (n, m['property'], m['needs'], cb.get(n, 'missed')))
t = t.replace('@@SEEDS@@', '\n'.join(s))
t = t.replace('@@OBS@@', open('tools/design_obs.md').read())
open('DESIGN.md', 'w').write(t)
