#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]

Extracts the MIR of /repo's current working tree, runs the analyses the property needs and
reports what they find.  Nothing in /repo is executed."""
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor, as_completed

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')

import props  # noqa: E402


def one(dump, name, limit):
    import analyses
    t0 = time.time()
    try:
        return name, analyses.run(dump, name, limit)
    except analyses.h1run.Missing as e:
        return name, {'violations': [{'kind': 'missing', 'msg': 'analysis anchor not found: %s' % e, 'fn': '-', 'grp': None,
                                      'pstate': None}], 'missing': str(e), 'unsupported': [], 'timeout': False,
                      'wall': time.time() - t0, 'events': [], 'functions': []}


def run_all(dump, names, limit, res):
    if len(names) == 1:
        res[names[0]] = one(dump, names[0], limit)[1]
    elif names:
        with ProcessPoolExecutor(min(8, len(names))) as ex:
            for f in as_completed([ex.submit(one, dump, n, limit) for n in names]):
                n, x = f.result()
                res[n] = x


def key_of(v):
    return '%s | %s | %s | %s%s' % (v['kind'], v['msg'], v['fn'], v.get('grp') or '-',
                                    ' | ' + v['pstate'] if v.get('pstate') else '')


def finding(prop, v):
    """the entry of known-findings.json that describes this violation, if any"""
    kf = os.path.join(V, 'known-findings.json')
    for e in json.load(open(kf))['findings'] if os.path.exists(kf) else []:
        if prop not in e['properties']:
            continue
        if 'key' in e:
            # the state of the parser is not part of it
            if e['key'] == key_of(dict(v, pstate=None)) and (v.get('analysis') or '').startswith(e['analysis']):
                return e
        elif e['group'] == v.get('grp') and v['kind'] in props.FUNC[:5]:
            return e
    return None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = props.PROPS[prop]
    ev = os.path.join(V, 'evidence')
    os.makedirs(ev, exist_ok=True)
    os.makedirs(os.path.join(V, '.build'), exist_ok=True)
    fd, dump = tempfile.mkstemp(suffix='.json', dir=os.path.join(V, '.build'))
    os.close(fd)
    try:
        r = subprocess.run([os.path.join(V, 'tools', 'dump.sh'), dump, REPO], capture_output=True, text=True)
        if r.returncode:
            print('cannot extract the program from %s:\n%s%s' % (REPO, r.stdout[-3000:], r.stderr[-3000:]))
            sys.exit(3)
        names = list(P.analyses)
        if tier == 'thorough':
            names += [n for n in P.thorough if n not in names]
        limit = 300 if tier == 'quick' else 1500
        res = {}
        run_all(dump, names, limit, res)
        if P.more:
            extra = [n for n in P.more(res) if n not in names]
            run_all(dump, extra, limit, res)
            names += extra
    finally:
        os.unlink(dump)
    found = P.decide(res, tier)
    # an anchor that is gone leaves nothing decided
    for n in names:
        if res[n].get('missing'):
            found = [dict(v, analysis=n) for v in res[n]['violations']] + found
    seen = {}
    for v in found:
        # a new violation comes before a known finding with the same key
        seen.setdefault((finding(prop, v) is None, key_of(v)), v)
    undecided = []
    for n in names:
        x = res[n]
        if x.get('timeout'):
            undecided.append('%s: not finished in time' % n)
        for u in x.get('unsupported', []):
            undecided.append('%s: %s: %s' % (n, u[0], u[1]))
    fresh = []
    said = set()
    for (_, k), v in sorted(seen.items(), key=lambda x: x[0]):
        e = finding(prop, v)
        if e is not None:
            if e['what'] not in said:
                said.add(e['what'])
                print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
        else:
            fresh.append((k, v))
    replay = 'evidence/%s.violation.json' % prop
    rp = os.path.join(V, replay)
    if os.path.exists(rp):
        os.unlink(rp)
    if fresh:
        json.dump([{'key': k, 'analysis': v.get('analysis'), 'rule': v['kind'], 'what': v['msg'], 'function': v['fn'],
                    'line': v.get('line'), 'parser steps of the analysed call': v.get('from'), 'parser state': v.get('pstate'),
                    'statement group': v.get('grp'), 'specification state': v.get('ctrl'), 'detail': v.get('state')}
                   for k, v in fresh], open(rp, 'w'), indent=1)
        for k, v in fresh[:12]:
            print('%s: %s: %s in %s%s%s' % (prop, v['kind'], v['msg'], v['fn'] if v['fn'] != '-' else ' / '.join(v.get('from') or []) or '-',
                                            ' (%s)' % v['line'] if v.get('line') else '',
                                            ' [%s]' % v['analysis'] if v.get('analysis') else ''))
        if len(fresh) > 12:
            print('... %d more' % (len(fresh) - 12))
    for u in undecided[:10]:
        print('UNDECIDED: property=%s %s' % (prop, u))
    cov = P.coverage(res, names, len(seen), len(undecided))
    cov['undecided'] = undecided[:50]
    if P.level == 'proof':
        cov.setdefault('checker_cmd', 'python3 check.py %s %s' % (prop, tier))
        cov.setdefault('trusted_base', props.TRUSTED)
    e = {'property': prop, 'tier': tier, 'seed': seed, 'level': P.level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
         'assumptions': P.assumptions, 'violations': len(fresh)}
    json.dump(e, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    if fresh:
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        sys.exit(1)
    print('ok: %s (%s)' % (prop, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))


if __name__ == '__main__':
    main()
