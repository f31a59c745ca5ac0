#!/usr/bin/env python3-vt
"""replay.py <replay.json>: run the recorded inputs of a refuted contract natively against the real code"""
import json, os, sys, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT + '/engine'); sys.path.insert(0, ROOT)
from build import Build
import groups
r = json.load(open(sys.argv[1]))
print('property %s, contract %s, obligation %s (%s)' % (r['property'], r['contract'], r['obligation'], r['detail']))
for w in r['where']: print('  at', w)
b = Build(); rc = 0
try:
    for g in groups.PROPS[r['property']]['groups']:
        G = groups.GROUPS[g]; src = G['contracts'] + G.get('models', []) + G.get('repo', [])
        if not any(r['contract'] in open(b.path(s)).read() or r['contract'].split('_', 2)[2] in open(b.path(s)).read() for s in G['contracts']): continue
        exe = b.native(src)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', VQ_VERBOSE='1')
        rc = subprocess.run([exe, 'replay', r['contract']] + [str(t[2]) for t in r['inputs']], env=env).returncode
finally: b.close()
sys.exit(rc)
