"""mkseed.py ID PROP FILE: reads old/new text and demo from stdin separated by lines '=====' ; writes /verif/seeded/ID
stdin: needs ===== what_it_breaks ===== old ===== new [===== old ===== new]* ===== DEMO python"""
import json, os, subprocess, sys, tempfile, shutil
sid, prop, fn = sys.argv[1:4]
parts = sys.stdin.read().split('\n=====\n')
needs, breaks, demo = parts[0].strip(), parts[1].strip(), parts[-1]
edits = parts[2:-1]
w = tempfile.mkdtemp(prefix='mk')
subprocess.check_call(['git', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'], cwd='/repo')
try:
    p = os.path.join(w, 'r', fn)
    s = open(p, newline='').read()
    nl = '\r\n' if '\r\n' in s else '\n'
    for o, n in zip(edits[::2], edits[1::2]):
        o, n = o.replace('\n', nl), n.replace('\n', nl)
        assert s.count(o) == 1, (s.count(o), o)
        s = s.replace(o, n)
    open(p, 'w', newline='').write(s)
    d = subprocess.check_output(['git', 'diff'], cwd=w + '/r')
finally:
    subprocess.call(['git', 'worktree', 'remove', '--force', w + '/r'], cwd='/repo')
    shutil.rmtree(w, ignore_errors=True)
o = '/verif/seeded/' + sid
os.makedirs(o, exist_ok=True)
open(o + '/patch.diff', 'wb').write(d)
open(o + '/demo.py', 'w').write(demo.strip() + '\n')
open(o + '/demo.sh', 'w').write('''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
''')
os.chmod(o + '/demo.sh', 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
