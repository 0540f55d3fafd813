#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
title = {json.loads(l)['id']: json.loads(l)['title'] for l in open(V + '/properties.jsonl')}
NA = getattr(props, 'NOT_APPLICABLE', {})
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh build/symir && python3 tools/check.py --setup',
     'hooks': {'guard': 'FRN_VERIF', 'enable': 'the checks compile /repo/src with -DFRN_VERIF (tools/check.py)', 'source_commits': props.HOOK_COMMITS},
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]; thr = ' with preemption-bounded thread schedules as symbolic choices' if any(j.threads for j in p.jobs) else ''
        m['checks'].append({'property': i, 'quick_cmd': 'python3 tools/check.py ' + i, 'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                            'technique': 'symbolic execution of the LLVM IR of the real code%s; z3 decides every assertion on every path; counterexamples replayed natively' % thr,
                            'level': 'model_checking',
                            'level_note': 'Bounded: %s. Trusted: clang/LLVM as translator, the engine (engine/), the runtime models (rt/, shim/), z3.%s%s' % (p.bound or 'see the bounds in the evidence', ' Assumes: ' + '; '.join(p.assume) + '.' if p.assume else '', ' Outside: ' + p.outside + '.' if p.outside else '')})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check has been built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'claimed')
