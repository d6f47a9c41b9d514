"""Named analyses; each returns a plain dict."""
import signal
import sys
import time
sys.setrecursionlimit(20000)
from interp import Program
from product import *
import h1run
import h2run
import utilrun
import funs
import effects as fx


def summary(m, t0, timeout):
    prog = m.prog
    if m.ahead:
        # a loop reads bytes that the stream index has yet to reach: nothing is concluded from a mismatch
        for k in m.violations:
            m.unsupported.setdefault((k[2], 'a loop looks further ahead than is followed'), None)
        m.violations.clear()
    cyc = [] if timeout or m.ahead else [[prog.fns[r.S.fn]['full'] + ' at ' + str(r.S.ctrl) for r in c if r.S.fn is not None]
                              for c in m.nonprogress_cycles()]
    sites = {}
    for (k, f, b), n in m.chk.items():
        x = sites.setdefault(k, [0, 0])
        x[0] += 1
        x[1] += n
    return {'sites': sites, 'grp': {str(k): v for k, v in m.grpobl.items()}, 'violations': list(m.violations.values()), 'unsupported': [list(k) for k in m.unsupported], 'timeout': timeout,
            'records': len(m.order), 'paths': m.paths, 'steps': m.steps, 'obl': dict(m.obl), 'exits': dict(m.exit_kinds),
            'events': sorted([list(x) for x in m.event_sites]), 'cycles': cyc, 'wall': time.time() - t0,
            'functions': sorted({prog.fns[r.S.fn]['full'] for r in m.order if r.S.fn is not None})}


def solve(m, sts, t0, limit):
    m.deadline = t0 + limit
    m.soft = t0 + limit / 4

    def tick(*_):
        if m.late():
            raise TimeoutError()
    # between two steps the deadline is looked at anyway; this ends a step that takes too long
    old = signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 3, 3)
    try:
        m.solve(sts)
        return False
    except TimeoutError:
        return True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        m.deadline = None


def h1(p, which, mode, split, limit=400):
    t0 = time.time()
    m, sts = h1run.build(p, which, mode, split)
    r = summary(m, t0, solve(m, sts, t0, limit))
    r['states'] = m.state_report()
    return r


def h1dirty(p, which, how, limit=400):
    limit = min(limit, 120)
    t0 = time.time()
    m, sts = h1run.build(p, which, 'true', 'any', how)
    return summary(m, t0, solve(m, sts, t0, limit))


def h1reset(p, limit=400):
    t0 = time.time()
    f, n, u = h1run.reset_check(p)
    return {'left': f, 'fields': n, 'unsupported': u, 'wall': time.time() - t0, 'violations': [], 'events': [], 'functions': []}


def h2(p, which, mode, split, limit=400):
    t0 = time.time()
    m, sts = h2run.build(p, which, mode, split)
    r = summary(m, t0, solve(m, sts, t0, limit))
    r['states'] = m.state_report()
    return r


def h2dirty(p, limit=400):
    t0 = time.time()
    m, sts = h2run.build(p, 'h2', 'true', 'any', True)
    return summary(m, t0, solve(m, sts, t0, min(limit, 120)))


def h2reset(p, limit=400):
    t0 = time.time()
    f, n, u = h2run.reset_check(p)
    return {'left': f, 'fields': n, 'unsupported': u, 'wall': time.time() - t0, 'violations': [], 'events': [], 'functions': []}


def util(p, which, *a, limit=400):
    t0 = time.time()
    m, sts = utilrun.build(p, which, *a)
    return summary(m, t0, solve(m, sts, t0, limit))


def fun(p, what, limit=400):
    t0 = time.time()
    m = funs.run(p, what)
    return {'violations': list(m.violations.values()), 'unsupported': [list(k) for k in m.unsupported], 'timeout': False,
            'values': m.done, 'paths': m.paths, 'steps': m.steps, 'events': [], 'functions': sorted(set(m.looked)), 'wall': time.time() - t0}


def effects(p, limit=400):
    return dict(fx.effects(p), unsupported=[], timeout=False, events=[])


def memory(p, limit=400):
    return dict(fx.memory(p), unsupported=[], timeout=False, events=[])


def run(dump, name, limit=400):
    p = Program(dump)
    a = name.split(':')
    return globals()[a[0]](p, *a[1:], limit=limit)


if __name__ == '__main__':
    import json
    r = run(sys.argv[1], sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else 400)
    v = r.pop('violations')
    r.pop('events'), print(len(r.pop('functions')))
    print(json.dumps(r))
    for x in v:
        print(x['kind'], '|', x['msg'], '|', x['fn'], '|', x['grp'], x['pstate'], x['line'], (x.get('state') or '')[:200])
