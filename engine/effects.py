"""What the code reachable from the public interface may do, over the call graph and the types."""
import re
from h1run import Missing

# std itself (core and alloc are separate crates): only these are free of effects on the outside
STD_OK = re.compile(r'^(<.*as )?std::(ascii|rt::(begin_panic|panic|unwrap)|panicking|error|cmp|mem|num|ops|option|result|slice|str|char|iter|marker|convert|'
                    r'default|clone|fmt|hint|ptr|cell|borrow|any|array|hash)\b')
PARSERS = ('http1::parser::Parser', 'http2::parser::Parser')


def refs(f, types):
    """functions a body mentions: (function id or None, unresolved callee or None, line)"""
    out = []

    def ty(t, line):
        k = types[t]
        if k['k'] == 'fndef':
            if 'fn' in k:
                out.append((k['fn'], None, line))
        elif k['k'] == 'closure':
            out.append((k['fn'], None, line))

    def walk(x, line):
        if isinstance(x, dict):
            if x.get('o') == 'const':
                ty(x['t'], line)
            if x.get('k') == 'fn' and 'fn' in x:
                out.append((x['fn'], None, line))
            if x.get('k') == 'static':
                out.append((None, ('static', x['name'], x.get('mut')), line))
            if x.get('r') == 'tls':
                out.append((None, ('tls', x['n']), line))
            for v in x.values():
                walk(v, line)
        elif isinstance(x, list):
            if len(x) == 2 and x[0] == 'closure' and isinstance(x[1], int):
                out.append((x[1], None, line))
            for v in x:
                walk(v, line)
    for b in f['body']['blocks']:
        for s in b['s']:
            line = s[3] if s[0] == '=' and len(s) > 3 else None
            walk(s, line)
        t = b['t']
        line = t[5] if t[0] == 'call' else None
        walk(t[1:], line)
        if t[0] == 'call':
            c = t[1]
            if c[0] == 'fn':
                out.append((c[1], None, line))
            elif c[0] == 'trait':
                out.append((None, ('trait', c[1]['trait'], c[1]['method'], c[1]['self']), line))
        elif t[0] == 'other':
            out.append((None, ('asm',), line))
    return out


def allocating(p):
    """functions of alloc that may take memory from the heap"""
    direct = set()
    calls = {}
    for f in p.fns:
        if f['crate'] in ('core', 'alloc', 'std'):
            b = f.get('body')
            calls[f['id']] = {r[0] for r in refs(f, p.types) if r[0] is not None} if b else set()
            if f['crate'] != 'core' and (not b or f.get('skipped')) and 'precondition' not in f['full'] and 'drop' not in f['full'] and \
                    'dealloc' not in f['full'] and not f['full'].endswith('handle_alloc_error'):
                direct.add(f['id'])
    res = set(direct)
    while True:
        more = {i for i, c in calls.items() if i not in res and c & res}
        if not more:
            break
        res |= more
    return {i for i in res if p.fns[i]['crate'] in ('alloc', 'std')}


def effects(p):
    out = {}
    seen = {}
    n = 0

    def bad(fn, line, msg):
        out[(fn, msg)] = {'kind': 'effect', 'msg': msg, 'fn': fn, 'grp': None, 'pstate': None, 'line': line}

    statics = {s['name']: s for s in p.statics}
    roots = [f for f in p.fns if f['crate'] == 'http_box' and f.get('body') and f['kind'] == 'item' and
             (f['full'].startswith(PARSERS) or f['full'].startswith('util::') or '<util::' in f['full']) and f.get('reach') and
             not f.get('impl_trait', '').startswith('std::fmt')]
    work = [(f['id'], None) for f in roots]
    for i, _ in work:
        seen[i] = None
    alloc = allocating(p)
    asites = set()
    while work:
        i, frm = work.pop()
        f = p.fns[i]
        here = f
        while here['crate'] != 'http_box' and seen[here['id']] is not None:
            here = p.fns[seen[here['id']]]
        if not f.get('body'):
            if f['crate'] == 'http_box' and f['kind'] == 'item':
                bad(here['full'], f['span'], 'calls foreign function ' + f['full'])
            continue
        for t, x, line in refs(f, p.types):
            n += 1
            if x is not None:
                if x[0] == 'asm':
                    bad(here['full'], line, 'contains inline assembly or an unknown operation')
                elif x[0] == 'tls':
                    bad(here['full'], line, 'uses thread-local ' + x[1])
                elif x[0] == 'static':
                    s = statics.get(x[1])
                    if x[2] or (s is not None and (s['mut'] or not s['freeze'])):
                        bad(here['full'], line, 'uses mutable static ' + x[1])
                elif x[0] == 'trait' and f['crate'] == 'http_box' and 'HttpHandler' not in x[1] and not x[1].startswith(('std::', 'core::', 'alloc::')):
                    bad(here['full'], line, 'calls %s::%s of an unknown type' % (x[1], x[2]))
                continue
            g = p.fns[t]
            if g['crate'] in ('std', 'libc') and not STD_OK.search(g['full']):
                bad(here['full'], line, 'calls %s' % g['full'])
                continue
            if g['crate'] not in ('std', 'core', 'alloc', 'http_box', 'byte_slice'):
                bad(here['full'], line, 'calls %s of crate %s' % (g['full'], g['crate']))
                continue
            if g['id'] in alloc and f['crate'] == 'http_box':
                asites.add((f['full'], g['full']))
            if t not in seen:
                seen[t] = i
                work.append((t, i))
    # HTTP/2 parsing takes no memory at all
    for a, b in sorted(asites):
        if a.startswith('http2::') or 'http2::' in a.split(' as ')[0]:
            bad(a, None, 'takes memory from the heap: ' + b)
    return {'violations': list(out.values()), 'calls': n, 'reachable': len(seen), 'alloc sites': sorted(map(list, asites)),
            'functions': sorted({p.fns[i]['full'] for i in seen if p.fns[i]['crate'] == 'http_box'}), 'roots': len(roots)}


OWNING = re.compile(r'^(std|alloc)::(vec|string|boxed|collections|rc|sync|borrow|ffi|path|io|thread)\b')


def memory(p):
    """I03: what a parser owns"""
    out = []
    done = 0
    for name in PARSERS:
        ss = [s for s in p.raw['structs'] if s['name'] == name]
        if not ss:
            raise Missing(name)

        def walk(t, where, seen, owned):
            nonlocal done
            done += 1
            ty = p.types[t]
            k = ty['k']
            if t in seen:
                return
            seen = seen | {t}
            if k == 'ref':
                if ty['mut']:
                    bad(where, 'holds %s, through which it could grow' % ty['n'])
                elif p.types[ty['e']]['k'] not in ('slice', 'str', 'array', 'int', 'bool'):
                    bad(where, 'holds %s' % ty['n'])
                return
            if k == 'ptr':
                bad(where, 'holds raw pointer %s' % ty['n'])
            elif k in ('array', 'slice'):
                walk(ty['e'], where, seen, owned)
            elif k == 'tuple':
                for x in ty['f']:
                    walk(x, where, seen, owned)
            elif k == 'adt':
                if ty.get('box') or OWNING.search(ty['path']):
                    bad(where, 'owns %s, which is on the heap' % ty['n'])
                    return
                for v in ty['v']:
                    for x in v['f']:
                        walk(x['t'], where if where.count('.') > 1 else where + '.' + x['n'], seen, owned)
            elif k in ('dyn', 'param', 'closure', 'other', 'fndef'):
                bad(where, 'holds %s, whose size is not known' % ty['n'])

        def bad(where, msg):
            out.append({'kind': 'memory', 'msg': '%s %s' % (where, msg), 'fn': name, 'grp': None, 'pstate': None, 'line': None})
        walk(ss[0]['ty'], name, frozenset(), True)
    return {'violations': out, 'values': done, 'functions': list(PARSERS)}
