"""Analyses of the HTTP/2 parser."""
from product import *
import h2spec
from h1run import Missing, method, getter_field, dirty, same

TY = 'http2::parser::Parser::<'


def regs():
    return (ZERO,) * h2spec.NREG


def build(p, which, mode='true', split='any', soil=None):
    spec = h2spec.h2(which == 'fixed')
    m = ParserProduct(p, spec, cbmode=mode, split=split)
    m.word_types = ('u8', 'u16', 'u32', 'u64')
    m.resume_fn = method(p, 'resume', TY)
    m.state_fn = method(p, 'state', TY)
    new = method(p, 'new', TY)
    S0 = m.start_state(regs(), (ZERO,))
    st = m.exec(S0, (new, [], 'parser'))
    m.bc_field = getter_field(p, m, method(p, 'byte_count', TY), st[0].mem['parser'], m.start_state(regs(), (ZERO,)))
    if m.bc_field is None:
        raise Missing('byte_count() does not return a field')
    S0 = m.start_state(regs(), (ZERO,))
    script = [(new, [], 'parser')]
    if soil:
        T = m.exec(S0, (new, [], 'parser'))[0]
        dirty(m, T)
        S0 = T
        script = [(method(p, 'reset', TY), [lambda S: ('R', 'parser', ())], None)]
    return m, m.setup(S0, script)


def reset_check(p):
    found = []
    P = lambda S: ('R', 'parser', ())
    m, sts = build(p, 'h2')
    new = method(p, 'new', TY)
    names = m.prog.types[sts[0].mem['parser'][1]]['v'][0]['f']
    clean = m.exec(m.start_state(regs(), (ZERO,)), (new, [], 'parser'))[0]
    S = m.exec(m.start_state(regs(), (ZERO,)), (new, [], 'parser'))[0]
    dirty(m, S)
    outs = m.exec(S, (method(p, 'reset', TY), [P], None))
    done = 0
    if not outs:
        found.append(('reset()', '(no result)'))
    for T in outs:
        diff = []
        same(T, T.mem['parser'], clean.mem['parser'], clean, (), diff)
        done += len(T.mem['parser'][2])
        for d in diff:
            found.append(('reset()', names[d[0]]['n'] if d else '(all)'))
    return sorted(set(found)), done, sorted(m.unsupported) + sorted((k[0], k[1]) for k in m.violations)
