#!/usr/bin/env python3
"""one.py HARNESS [-Ddef...] [key=value...]: build one harness and run the engine on it (for development)."""
import sys, subprocess, json, os, time
sys.path.insert(0, os.path.dirname(__file__)); import check, props
a = sys.argv[1:]; h = a.pop(0); defs = [x for x in a if x[0] == '-']; kv = [x for x in a if x[0] != '-']
check.ensure_engine(); b = check.Builder(); j = props.J('one', h, defs=[d for d in defs if not d.startswith('-R')], rdefs=['-D' + d[2:] for d in defs if d.startswith('-R')])
b.start_ir(j); bc = b.ir(j); out = '/tmp/one.%d.json' % os.getpid()
print(bc)
subprocess.run([check.ENGINE, 'run', bc, out, 'repo=' + b.src + '/'] + kv, env=dict(os.environ))
d = json.load(open(out)); os.remove(out)
print({k: d[k] for k in ('paths', 'paths_error', 'asserts', 'assert_trivial', 'assert_solver', 'assert_unknown', 'queries', 'solver_time', 'wall', 'reach', 'notes', 'unsupported', 'incomplete', 'instructions')})
for v in d['violations'][:5]: print(v['kind'], v['msg'], v['where'], v['modelOk'], v['model'][:20], v['sched'][:80])
