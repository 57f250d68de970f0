"""caught.py LOGDIR: tools/caught.json from the logs of tools/seedtest.sh"""
import glob, json, os, re, sys
out = json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    n = d.split('/')[3]
    f = '/tmp/seed_%s.log' % n
    if not os.path.exists(f):
        continue
    t = open(f).read()
    p = json.load(open(d))['property']
    cs = re.findall(r'^  contract ([^:\n]+): ([^\n]*)\nVIOLATION[^\n]*', t, re.M)
    if not cs:
        out[n] = 'missed'
        continue
    s = '; '.join('%s/%s: %s' % (p, c, l[:70]) for c, l in cs[:2])
    if len(cs) > 2:
        s += ' (and %d more)' % (len(cs) - 2)
    out[n] = s
json.dump(out, open('/verif/tools/caught.json', 'w'), indent=1, sort_keys=True)
