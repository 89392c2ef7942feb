#!/usr/bin/env python3
"""Rewrites the generated section of DESIGN.md: per property, its harnesses and their bounds, from the harness sources."""
import glob, json, os, re
T = {}
exec(open('/verif/tools/design_notes.py').read())
hs = {}
for f in sorted(glob.glob('/verif/harness/h*/*.go')):
    s = open(f).read()
    for m in re.finditer(r'((?://[^\n]*\n)+)func (H\w+)\(\)', s):
        c, name = m.groups()
        g = lambda k: (re.search(r'^//verif:%s (.*)$' % k, c, re.M) or [None, ''])[1]
        doc = ' '.join(l[2:].strip() for l in c.splitlines() if not l.startswith('//verif:')).strip()
        doc = re.sub(r'^%s: ' % name, '', doc)
        mode = {'': 'inputs', '1': 'schedules', 'on': 'schedules', 'one': 'one schedule'}.get((re.search(r'sched=(\w+)', g('opt')) or [0, ''])[1], 'schedules')
        for p in g('props').split():
            hs.setdefault(p, []).append((os.path.basename(os.path.dirname(f)) + '.' + name, doc, g('bound'), mode))
seeds = {}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    j = json.load(open(d))
    seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(d)), j['what_it_breaks'], j['needs']))
out = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(T.get(i, '').strip() + '\n')
    for n, d, b, m in hs[i]:
        out.append('* `%s` (%s): %s Bound: %s.' % (n, m, d, b.rstrip('.')))
    for n, w, need in seeds.get(i, []):
        out.append('* planted: `%s`: %s; needs: %s. Caught.' % (n, w.rstrip('.'), need.rstrip('.')))
    out.append('')
s = open('/verif/DESIGN.md').read()
a, b = '<!-- generated -->\n', '<!-- end generated -->\n'
i, j = s.index(a) + len(a), s.index(b)
open('/verif/DESIGN.md', 'w').write(s[:i] + '\n'.join(out) + s[j:])
