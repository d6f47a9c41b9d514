#!/usr/bin/env python3
"""allprops.py [TREE] [LIMIT]: runs every analysis once and decides every property (for development)"""
import os
import subprocess
import sys
import tempfile
import json
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.argv[1:] = sys.argv[1:] or ['/repo']
tree = sys.argv[1]
limit = float(sys.argv[2]) if len(sys.argv) > 2 else 300
import check
import props
t0 = time.time()
fd, dump = tempfile.mkstemp(suffix='.json', dir=os.path.join(V, '.build'))
os.close(fd)
r = subprocess.run([os.path.join(V, 'tools', 'dump.sh'), dump, tree], capture_output=True, text=True)
if r.returncode:
    print('DUMP FAILS', (r.stdout + r.stderr)[-1500:])
    sys.exit(3)
names = sorted({n for p in props.PROPS.values() for n in p.analyses})
res = {}
check.run_all(dump, names, limit, res)
ext = sorted({n for p in props.PROPS.values() if p.more for n in p.more(res)} - set(names))
check.run_all(dump, ext, limit, res)
os.unlink(dump)
for n in names + ext:
    x = res[n]
    if x.get('timeout'):
        print('TIMEOUT', n)
    if x.get('unsupported'):
        print('UNSUPPORTED', n, len(x['unsupported']), str(x['unsupported'][0])[:160])
    if x.get('wall', 0) > 60:
        print('SLOW', n, round(x['wall']))
bad = 0
for i, p in sorted(props.PROPS.items()):
    found = p.decide(res, 'quick')
    f = {check.key_of(v): v for v in found if check.finding(i, v) is None}
    for n in p.analyses:
        if res[n].get('missing'):
            f['missing ' + res[n]['missing']] = None
    if f:
        bad += 1
        print('VIOLATION', i, len(f), ' || '.join(sorted(f)[:2])[:330])
print('%d properties violated, %d s' % (bad, time.time() - t0))
