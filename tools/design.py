#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (between the markers) from properties.py, known_findings.json, seeded/ and caught.json."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ['meta.py']; sys.path.insert(0, os.path.join(V, 'tools'))
import meta
H = {}
hp = os.path.join(V, 'tools', 'howto.md')
cur = None
if os.path.exists(hp):
    for l in open(hp):
        m = re.match(r'## (\w+)\s*$', l)
        if m: cur = m.group(1); H[cur] = []
        elif cur: H[cur].append(l)
out = []; na = []
for q in meta.P:
    if q['na']: na.append('* **%s %s** — %s' % (q['id'], q['title'], q['na'])); continue
    if not os.path.exists(os.path.join(V, 'props', q['id'] + '.py')): na.append('* **%s %s** — no check built yet.' % (q['id'], q['title'])); continue
    out.append('### %s %s\n*Anchors:* %s.  *Beyond tests:* %s\n\n%s' % (q['id'], q['title'], '; '.join('`%s` (%s)' % (w, n) for n, w in q['mech']), q['why'], ''.join(H.get(q['id'], [])).strip()))
kf = json.load(open(os.path.join(V, 'known_findings.json')))
kf = kf if isinstance(kf, list) else kf['findings']
fx = ['* ' + (k['what'] if k['status'] == 'fixed' else 'KNOWN (not repaired): property=%s %s' % (k['property'], k['what'])) for k in kf]
cp = os.path.join(V, 'tools', 'caught.json'); caught = json.load(open(cp)) if os.path.exists(cp) else {}
sd = []
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    sd.append('* `%s` (%s): %s. Needs: %s. %s' % (s, m['property'], m['what_it_breaks'], m['needs'], 'Caught by %s.' % caught[s] if caught.get(s) else 'NOT caught.'))
t = open(os.path.join(V, 'tools', 'design.in.md')).read()
for k, v in (('PROPS', '\n\n'.join(out)), ('NA', '\n'.join(na) or 'none'), ('FIXED', '\n'.join(fx)), ('SEEDS', '\n'.join(sd))): t = t.replace('@@%s@@' % k, v)
open(os.path.join(V, 'DESIGN.md'), 'w').write(t)
