"""Analyses of the HTTP/1 parser."""
from product import *
import h1spec

TY = 'http1::parser::Parser::<'
INIT = {'head': 'init_head', 'chunked': 'init_chunked', 'multipart': 'init_multipart', 'urlencoded': 'init_url_encoded',
        'new': None}


class Missing(Exception):
    pass


def method(p, name, pre=TY):
    r = [f for f in p.fns if f['crate'] == 'http_box' and f['full'].startswith(pre) and f['full'].endswith('>::' + name)]
    if len(r) != 1:
        raise Missing('%s...>::%s' % (pre, name))
    return r[0]['id']


def getter_field(p, m, meth, struct, S=None):
    """index of the field that a getter returns: the getter is analysed on a value with distinct symbols"""
    S = S or m.start_state(m_regs(), (ZERO,))
    S.mem['parser'] = struct
    fs = list(struct[2])
    y = {}
    for i, x in enumerate(fs):
        if type(x) is N:
            fs[i] = wsym(S.env.neww(0, 1 << 20))
            y[fs[i]] = i
    S.mem['parser'] = struct[:2] + (tuple(fs),) + struct[3:]
    out = m.exec(S, (meth, [lambda T: ('R', 'parser', ())], 'r'))
    r = {y.get(T.mem['r']) for T in out}
    return r.pop() if len(r) == 1 else None


def m_regs():
    return (ZERO,) * h1spec.NREG


def build(p, which, mode='true', split='any', soil=None):
    spec = getattr(h1spec, 'head' if which == 'new' else which)()
    m = ParserProduct(p, spec, cbmode=mode, split=split)
    m.resume_fn = method(p, 'resume')
    m.state_fn = method(p, 'state')
    m.boundary_base = ('sy', 'boundary', FULL & ~(1 << 10 | 1 << 13))
    P = lambda S: ('R', 'parser', ())
    new = method(p, 'new')
    S0 = m.start_state(m_regs(), (ZERO,))
    st = m.exec(S0, (new, [], 'parser'))
    m.bc_field = getter_field(p, m, method(p, 'byte_count'), st[0].mem['parser'])
    if m.bc_field is None:
        raise Missing('byte_count() does not return a field')
    script = [(new, [], 'parser')]
    if INIT[which]:
        script.append((method(p, INIT[which]), [P], None))
    S0 = m.start_state(m_regs(), (ZERO,))
    if soil:
        # a parser with arbitrary contents, re-initialised
        T = m.exec(S0, (new, [], 'parser'))[0]
        if soil == 'reset':
            T = m.exec(T, (method(p, INIT[which]), [P], None))[0]
        keep = kept(m, T) if soil == 'reset' else []
        dirty(m, T, keep + [m.bc_field])
        S0 = T
        script = [(method(p, 'reset' if soil == 'reset' else INIT[which]), [P], None)]
    if which == 'multipart':
        S0.extra = (S0.extra[0], wsym(S0.env.neww(1, 16383)))
        script.append((method(p, 'set_boundary'), [P, lambda S: ('SL', m.boundary_base, ZERO, S.extra[1])], None))
    if which == 'urlencoded':
        r = list(S0.regs)
        r[h1spec.REM] = wsym(S0.env.neww(0, MAXLEN))
        S0.regs = tuple(r)
        script.append((method(p, 'set_length'), [P, lambda S: S.regs[h1spec.REM]], None))
    return m, m.setup(S0, script)


def kept(m, S):
    """the fields reset() may keep: the kind of message"""
    v = S.mem['parser']
    names = m.prog.types[v[1]]['v'][0]['f']
    return [i for i, x in enumerate(v[2]) if type(x) is tuple and x[0] == 'E' and not names[i]['n'] == 'state' and
            m.prog.types[x[1]].get('path', '').endswith('ParserType')]


def dirty(m, S, keep=()):
    """replace every field of the parser by an unknown value"""
    v = S.mem['parser']
    t = m.prog.types[v[1]]['v'][0]['f']
    out = []
    for i, (x, f) in enumerate(zip(v[2], t)):
        if i in keep:
            out.append(x)
            continue
        ft = m.prog.types[f['t']]
        if ft.get('n') in ('usize', 'u64', 'u32', 'u16', 'u8'):
            w = {'usize': 64}.get(ft['n']) or int(ft['n'][1:])
            out.append(bsym(S.env.newb(FULL)) if w == 8 else wsym(S.env.neww(0, (1 << w) - 1 if w < 64 else 1 << 61)))
        else:
            out.append(('O', 'old ' + f['n']))
    S.mem['parser'] = v[:2] + (tuple(out),) + v[3:]


def same(S, a, b, T, path, out):
    """fields of a (in S) that differ from b (in T)"""
    if type(a) is N or type(b) is N:
        ok = type(a) is N and type(b) is N and (a == b or (S.env.const(a) is not None and S.env.const(a) == T.env.const(b)))
        if not ok:
            out.append(path)
    elif type(a) is tuple and a and a[0] in ('S', 'E') and type(b) is tuple and a[0] == b[0] and a[1] == b[1] and \
            len(a[2]) == len(b[2]) and a[3:] == b[3:]:
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            same(S, x, y, T, path + (i,), out)
    elif a != b:
        out.append(path)


def reset_check(p):
    """fields that survive an initialiser: [(initialiser, field)]"""
    found = []
    done = 0
    P = lambda S: ('R', 'parser', ())
    m, sts = build(p, 'head')
    new = method(p, 'new')
    names = m.prog.types[sts[0].mem['parser'][1]]['v'][0]['f']
    for which in ('head', 'chunked', 'multipart', 'urlencoded'):
        ini = method(p, INIT[which])
        clean = m.exec(m.start_state(m_regs(), (ZERO,)), (new, [], 'parser'))[0]
        clean = m.exec(clean, (ini, [P], None))[0]
        variants = []
        S = m.start_state(m_regs(), (ZERO,))
        S = m.exec(S, (new, [], 'parser'))[0]
        dirty(m, S)
        variants.append((INIT[which], m.exec(S, (ini, [P], None)), None))
        # reset() keeps what the initialiser chose and nothing else
        S = m.start_state(m_regs(), (ZERO,))
        S = m.exec(S, (new, [], 'parser'))[0]
        S = m.exec(S, (ini, [P], None))[0]
        dirty(m, S, kept(m, S))
        variants.append(('reset() after ' + INIT[which], m.exec(S, (method(p, 'reset'), [P], None)), None))
        for name, outs, _ in variants:
            if not outs:
                found.append((name, '(no result)'))
            for T in outs:
                diff = []
                same(T, T.mem['parser'], clean.mem['parser'], clean, (), diff)
                done += len(T.mem['parser'][2])
                for d in diff:
                    if d and d[0] == m.bc_field:
                        continue
                    found.append((name, names[d[0]]['n'] if d else '(all)'))
    return sorted(set(found)), done, sorted(m.unsupported) + sorted((k[0], k[1]) for k in m.violations)
