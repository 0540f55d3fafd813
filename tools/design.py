#!/usr/bin/env python3
"""Refreshes the Bounds/Assumes/Outside/Catches lines of DESIGN.md from tools/props.py and seeded/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools'); import props
seeds = {}
for k in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % k)); seeds.setdefault(m['property'], []).append((k, m['needs']))
out, cur = [], None
for l in open(V + '/DESIGN.md').read().split('\n'):
    m = re.match(r'### (C\d\d) ', l)
    if m: cur = m.group(1)
    elif l.startswith('## '): cur = None
    if cur and re.match(r'\* (Bounds|Assumes|Outside|Catches): ', l): continue
    out.append(l)
    if cur and l.startswith('* How: '):
        P = props.PROPS[cur]; out.append('* Bounds: %s.' % P.bound)
        if P.assume: out.append('* Assumes: %s.' % '; '.join(P.assume))
        if P.outside: out.append('* Outside: %s.' % P.outside)
        if cur in seeds: out.append('* Catches: ' + '; '.join('`%s` (needs %s)' % x for x in seeds[cur]) + '.')
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
