"""Which analyses decide which property, and which of their findings count against it."""
import re

H1 = ('head', 'chunked', 'multipart', 'urlencoded')
TRUE = ['h1:%s:true:any' % w for w in H1]
ANY = ['h1:%s:any:any' % w for w in H1]
ONE = ['h1:%s:true:one' % w for w in H1]
NEW = 'h1:new:true:any'
H2A = 'h2:h2:any:any'
H2T = 'h2:h2:true:any'
H2O = 'h2:h2:true:one'
H2F = 'h2:fixed:true:any'
BOTH = ANY + [NEW, H2A]

TRUSTED = ['rustc (MIR construction and the -C overflow-checks lowering)', 'driver/main.rs (MIR extraction)',
           'engine/ (numeric domain, abstract machine, models of the slice and integer functions of core, fixpoint, product)',
           'engine/*spec.py (reference automata, written from the property statements)']
BASE = ['slices are shorter than 2^62 bytes and a parser consumes fewer than 2^61 bytes in its life (usize counters)',
        'a callback neither panics nor reaches the parser (the borrow checker forbids the latter)']


class Prop:
    level = 'proof'
    thorough = ()
    floors = ()

    def __init__(self, analyses, decide, technique, note, groups=None, sites=None, level=None, thorough=(), assumptions=(),
                 count=None, more=None, deep=None):
        self.analyses = analyses
        self._decide = decide
        self.technique = technique
        self.note = note
        self.groups = groups
        self.site_kinds = sites
        if level:
            self.level = level
        self.thorough = thorough
        self.assumptions = BASE + list(assumptions)
        self.count = count
        self.more = more
        self._deep = deep        # decides the thorough tier, if its analyses are others

    def decide(self, res, tier):
        return (self._deep if self._deep and tier == 'thorough' else self._decide)(res)

    def coverage(self, res, names, nviol, nund):
        c = {'analyses': {}}
        ob = 0
        for n in names:
            x = res[n]
            d = {k: x[k] for k in ('records', 'paths', 'steps') if k in x}
            if 'functions' in x:
                d['functions'] = len(x['functions'])
            if x.get('obl'):
                d['obligations'] = x['obl']
            if 'exits' in x:
                d['returns matched by result'] = x['exits']
            if 'events' in x:
                d['callback sites'] = len(x['events'])
            if self.site_kinds and 'sites' in x:
                for k in self.site_kinds:
                    s = x['sites'].get(k, [0, 0])
                    d['%s sites' % k] = s[0]
                    ob += s[1]
            if self.groups and 'grp' in x:
                ob += sum(k for g, k in x['grp'].items() if ingroup(g, self.groups))
            if self.count:
                ob += self.count(x)
            if not self.site_kinds and not self.groups and not self.count and 'obl' in x:
                ob += sum(x['obl'].values())
            c['analyses'][n] = d
        c['rule'] = self.technique
        if self.level == 'proof':
            c['obligations'] = ob + nviol + nund
            c['discharged'] = ob
        else:
            c['explanation'] = self.note
            c['obligations'] = ob
        c['functions analysed'] = sorted({f for n in names for f in res[n].get('functions', [])})[:200]
        return c


def tag(res, n):
    return [dict(v, analysis=n) for v in res[n].get('violations', [])]


def kinds(names, *ks):
    def f(res):
        return [v for n in names for v in tag(res, n) if v['kind'] in ks]
    return f


def groups(names, *gs, **kw):
    def f(res):
        out = [v for n in names for v in tag(res, n) if ingroup(v['grp'], gs) and v['kind'] in FUNC and
               (kw.get('kinds') is None or v['kind'] in kw['kinds'])]
        for n in names:
            out += floor(res, n)
        return out
    return f


def ingroup(g, gs):
    return g is not None and any(x.split(' ')[0] in gs for x in g.split('/'))


# a path ends where it leaves the input or panics, so these count against what is parsed there, too
FUNC = ('data', 'event', 'value', 'error', 'finish', 'item', 'stop', 'oob', 'panic', 'ub', 'offset')

# every callback of the protocol part has to be met by the analysis at least once
FLOOR = {
    'head': ('on_method', 'on_url', 'on_version', 'on_status_code', 'on_status', 'on_initial_finished', 'on_header_name',
             'on_header_value', 'on_headers_finished'),
    'new': ('on_method', 'on_url', 'on_version', 'on_status_code', 'on_status', 'on_initial_finished', 'on_header_name',
            'on_header_value', 'on_headers_finished'),
    'chunked': ('on_chunk_begin', 'on_chunk_length', 'on_chunk_extension_name', 'on_chunk_extension_value',
                'on_chunk_extension_finished', 'on_chunk_extensions_finished', 'on_chunk_data', 'on_header_name',
                'on_header_value', 'on_headers_finished', 'on_body_finished'),
    'multipart': ('on_multipart_begin', 'on_header_name', 'on_header_value', 'on_headers_finished', 'content_length',
                  'on_multipart_data', 'on_body_finished'),
    'h2': ('on_frame_format', 'on_data', 'on_headers', 'on_headers_fragment', 'on_priority', 'on_rst_stream', 'on_settings',
           'on_push_promise', 'on_ping', 'on_go_away', 'on_go_away_debug_data', 'on_window_update', 'on_unsupported'),
    'urlencoded': ('on_url_encoded_begin', 'on_url_encoded_name', 'on_url_encoded_value', 'on_body_finished'),
}


UTILS = ['util:decode', 'util:query', 'util:field:0:59', 'util:field:1:59', 'util:field:1:44'] + \
    ['util:field:%d:%d' % (n, d) for d in (88, 32, 34, 47, 61, 92, 97) for n in (0, 1)]
# thorough: the field iterator with every delimiter byte
EVERY = ['util:field:%d:%d' % (n, d) for d in range(256) for n in (0, 1)]
UFLOOR = {'decode': ('text',), 'query': ('name', 'value', 'error'), 'field': ('name', 'value', 'error')}


def floor(res, n):
    """the analysis met every callback, or says why not"""
    x = res[n]
    if x.get('timeout') or x.get('unsupported') or x.get('missing'):
        return []
    if n.startswith('util:'):
        have = {e[1] for e in x['events']}
        return [{'kind': 'event', 'msg': 'no path delivers a %s' % r, 'fn': '-', 'grp': 'floor', 'pstate': None, 'analysis': n}
                for r in UFLOOR[n.split(':')[1]] if r not in have]
    if n.startswith(('h1:', 'h2:h2')) and ':one' not in n:
        have = {e[1] for e in x['events']}
        return [{'kind': 'event', 'msg': 'no path delivers %s' % cb, 'fn': '-', 'grp': 'floor', 'pstate': None, 'analysis': n}
                for cb in FLOOR[n.split(':')[1]] if cb not in have]
    return []


def vkey(v):
    return v['kind'], v['msg'], v['fn'], v['grp'], v['pstate']


def minus(pairs):
    """findings of the first analysis of each pair that the second does not have"""
    def f(res):
        out = []
        for a, b in pairs:
            have = {vkey(v) for v in res[b].get('violations', [])}
            out += [v for v in tag(res, a) if vkey(v) not in have]
        return out
    return f


def plus(*fs):
    return lambda res: [v for f in fs for v in f(res)]


def cycles(names):
    def f(res):
        return [{'kind': 'cycle', 'msg': 'a cycle of steps consumes no input: ' + ' -> '.join(sorted(set(s.split(' at ')[0] for s in c))), 'fn': '-',
                 'grp': None, 'pstate': None, 'analysis': n} for n in names for c in res[n].get('cycles', [])]
    return f


def states(names):
    def f(res):
        return [{'kind': 'state', 'msg': 'state %s is reported for different parsing steps: %s' % (s, ' / '.join(' '.join(w) for w in ws)),
                 'fn': '-', 'grp': None, 'pstate': None, 'analysis': n}
                for n in names for s, ws in sorted(res[n].get('states', {}).items()) if len(ws) > 1]
    return f


def ctrl(*cs):
    return lambda names: lambda res: [v for n in names for v in tag(res, n) if v.get('ctrl') in cs]


def dead(names):
    def f(res):
        return [v for n in names for v in tag(res, n) if v['kind'] == 'dead' or
                (v.get('ctrl') == 'dead' and v['kind'] in FUNC + ('count', 'eos') and v.get('grp') == 'B10')]
    return f


def finished(names):
    def f(res):
        return [v for n in names for v in tag(res, n) if v.get('ctrl') == 'final' or
                (v['kind'] == 'finish' and v['msg'].startswith('state()'))]
    return f


def resets(res):
    out = []
    for n, k in (('h1reset', 8), ('h2reset', 4)):
        if not res[n].get('missing') and res[n].get('fields', 0) < k:
            out.append({'kind': 'missing', 'msg': 'no fields compared', 'fn': '-', 'grp': None, 'pstate': None, 'analysis': n})
    for a, b in res['h2reset'].get('left', ()):
        if b == 'state' or '(' in b:
            out.append({'kind': 'reset', 'msg': 'http2: %s leaves %s behind' % (a, b), 'fn': a, 'grp': None, 'pstate': None, 'analysis': 'h2reset'})
    if 'h2dirty' in res:
        clean = {vkey(v) for v in res[H2T].get('violations', [])}
        for v in tag(res, 'h2dirty'):
            if vkey(v) not in clean:
                out.append(dict(v, msg='after http2 reset() on a used parser: %s (fields left behind: %s)' % (
                    v['msg'], ', '.join(sorted({b for a, b in res['h2reset']['left']})))))
        for u in res['h2dirty'].get('unsupported', []):
            out.append({'kind': 'reset', 'msg': 'a field left behind is used: %s' % u[1], 'fn': u[0], 'grp': None, 'pstate': None, 'analysis': 'h2dirty'})
    x = res['h1reset']
    if x.get('missing'):
        return out
    for a, b in x['left']:
        if b == 'state' or '(' in b:
            out.append({'kind': 'reset', 'msg': '%s leaves %s behind' % (a, b), 'fn': a, 'grp': None, 'pstate': None, 'analysis': 'h1reset'})
    # fields that are left behind count if the parser depends on them
    for w in H1:
        clean = {vkey(v) for v in res.get('h1:%s:true:any' % w, {}).get('violations', [])}
        for h in ('init', 'reset'):
            n = 'h1dirty:%s:%s' % (w, h)
            if n not in res:
                continue
            for v in tag(res, n):
                if vkey(v) not in clean:
                    out.append(dict(v, msg='after %s on a used parser: %s (fields left behind: %s)' % (
                        'reset()' if h == 'reset' else 'init_' + w, v['msg'], ', '.join(sorted({b for a, b in x['left']})))))
            for u in res[n].get('unsupported', []):
                out.append({'kind': 'reset', 'msg': 'a field left behind is used: %s' % u[1], 'fn': u[0], 'grp': None, 'pstate': None, 'analysis': n})
    return out


def reset_more(res):
    out = []
    if res['h2reset'].get('left'):
        out += ['h2dirty', H2T]
    if not res['h1reset'].get('left'):
        return out
    for w in H1:
        hs = {('reset' if a.startswith('reset') else 'init') for a, b in res['h1reset']['left'] if w.replace('urlencoded', 'url_encoded') in a}
        out += ['h1dirty:%s:%s' % (w, h) for h in sorted(hs)]
        if hs:
            out.append('h1:%s:true:any' % w)
    return out


def about(names, own, *more):
    """own: the statement's own groups; more: (what, ...) from which other groups' findings count as well"""
    return plus(groups(names, *own), *[lambda res, m=m: [
        v for n in m.get('names', names) for v in tag(res, n)
        if v['kind'] in m.get('kinds', FUNC) and ('grps' not in m or ingroup(v['grp'], m['grps'])) and
        ('ctrl' not in m or v.get('ctrl') in m['ctrl']) and
        ('cb' not in m or any(re.search(r'\b%s\b' % c, v['msg']) for c in m['cb']))] for m in more])


def cb(*names):
    """findings that name one of the callbacks the statement is about"""
    return {'cb': ['on_' + n for n in names]}


AI = 'abstract interpretation of MIR'
PROD = AI + ' in product with a reference automaton'
N_AI = ('Sound over all inputs, fragmentations and %s within the abstract machine: every path of resume() from every reachable '
        'abstract parser state is followed to a fixpoint. Trusts the MIR extraction, the models of core functions and the '
        'numeric domain; a construct the machine does not know is reported as undecided.')
ALLCB = 'callback answers'

PROPS = {}


def P(i, *a, **k):
    PROPS[i] = Prop(*a, **k)


P('A01', ANY + [NEW], kinds(ANY + [NEW], 'oob', 'ub'), AI + ': every unchecked read is within bounds', N_AI % ALLCB, sites=('read',))
P('A02', ANY + [NEW], kinds(ANY + [NEW], 'panic'), AI + ': no MIR assert, bounds check or panic call can fail', N_AI % ALLCB, sites=('assert',))
P('A05', BOTH, cycles(BOTH), AI + ': every cycle of the dispatch loop consumes input',
  N_AI % ALLCB + ' Cycles of the transition graph that do not raise the stream index are reported.',
  count=lambda x: x.get('records', 0))
P('B01', BOTH, kinds(BOTH, 'eos'), PROD + ': length reported by every return', N_AI % ALLCB,
  count=lambda x: sum(x.get('exits', {}).values()))
P('B02', BOTH, kinds(BOTH, 'count'), PROD + ': byte_count() against consumed bytes at every return', N_AI % ALLCB,
  count=lambda x: sum(x.get('exits', {}).values()))
P('A03', [H2A], kinds([H2A], 'oob', 'ub', 'panic'), AI + ': no MIR assert, bounds check, slice range or panic call can fail', N_AI % ALLCB,
  sites=('assert', 'read'))
P('B07', [H2T, H2O], plus(minus([(H2T, H2O)]), lambda res: floor(res, H2T)), PROD + ', cut at every point against uncut',
  'The reference automaton is deterministic and sees only the concatenated input; the parser matches it for every cut. '
  'A finding counts here if it needs a cut. ' + N_AI % 'cuts')
P('B09', [H2A, H2T], plus(kinds([H2A], 'abort', 'offset'), minus([(H2A, H2T)])), PROD + ', every callback may return false',
  'A callback that returns false must be the last one of the call, and the resumed call must deliver what the automaton is owed. ' + N_AI % ALLCB,
  count=lambda x: x.get('exits', {}).get('Callback', 0))
H2 = [H2A]
for i, t, f in (
        ('G01', 'frame header', [cb('frame_format')]),
        ('G02', 'fields', [cb('headers', 'priority', 'rst_stream', 'settings', 'push_promise', 'go_away', 'window_update')]),
        ('G04', 'payload', [cb('data', 'headers_fragment', 'ping', 'go_away_debug_data', 'unsupported')]),
        ('G05', 'padding', [])):
    P(i, H2, about(H2, (i,), *f), PROD + ' (%s)' % t, N_AI % ALLCB, groups=(i,))
P('G03', H2, kinds(H2, 'reserved'), PROD + ' (upper bound of identifiers)', N_AI % ALLCB, count=lambda x: x.get('obl', {}).get('events', 0))
P('G06', [H2F], groups([H2F], 'G06'), PROD + ' (fixed-size frames)', N_AI % 'cuts', groups=('G06',))
P('G07', H2, plus(kinds(H2, 'event', 'offset'), groups(H2, 'G07')), PROD + ' (dispatch and order)', N_AI % ALLCB,
  count=lambda x: sum(x['obl'].values()) if 'obl' in x else 0)
for i, w in zip(('B03', 'B04', 'B05', 'B06'), H1):
    P(i, ['h1:%s:true:any' % w, 'h1:%s:true:one' % w],
      plus(minus([('h1:%s:true:any' % w, 'h1:%s:true:one' % w)]), lambda res, n='h1:%s:true:any' % w: floor(res, n)),
      PROD + ', cut at every point against uncut',
      'The reference automaton is deterministic and sees only the concatenated input; the parser matches it for every cut. '
      'A finding counts here if it needs a cut. ' + N_AI % 'cuts')
P('B08', ANY + TRUE, plus(kinds(ANY, 'abort', 'offset'), minus(list(zip(ANY, TRUE)))), PROD + ', every callback may return false',
  'A callback that returns false must be the last one of the call, and the resumed call must deliver what the automaton is owed. ' + N_AI % ALLCB,
  count=lambda x: x.get('exits', {}).get('Callback', 0) + sum(v for k, v in x.get('exits', {}).items() if k not in ('Eos', 'Dead', 'Finished')))
P('B10', BOTH, dead(BOTH), PROD + ': calls after an error', N_AI % ALLCB, count=lambda x: x.get('exits', {}).get('Dead', 0))
P('B11', ANY + [NEW], finished(ANY + [NEW]), PROD + ': calls after completion', N_AI % ALLCB, count=lambda x: x.get('exits', {}).get('Finished', 0))
P('B12', BOTH, states(BOTH), AI + ': reported state against the step functions held between calls',
  N_AI % ALLCB, count=lambda x: len(x.get('states', {})))
P('B13', ['h1reset', 'h2reset'], resets, AI + ' of the initialisers on a parser with unknown fields',
  'Every field of a parser with arbitrary contents equals the field of a fresh parser after init_*()/reset(); if one does not, the '
  'whole product is run from that parser and the field counts if the parser then behaves differently. Trusts the extraction and the machine.', more=reset_more,
  thorough=['h1dirty:%s:%s' % (w, h) for w in H1 for h in ('init', 'reset')] + ['h2dirty', H2T] + TRUE,
  count=lambda x: x.get('fields', 0) + x.get('records', 0))

HD = ['h1:head:any:any']
CH = ['h1:chunked:any:any']
MP = ['h1:multipart:any:any']
UE = ['h1:urlencoded:any:any']


ORDER = {'kinds': ('event', 'offset')}
for i, ns, t, f in (
        ('C01', HD + [NEW], 'leading whitespace and detection', [{'grps': ('C02',), 'ctrl': ('dH', 'dHT', 'dHTT', 'dHTTP', 'sv')}]),
        ('C02', HD + [NEW], 'method', [{'names': HD, 'grps': ('C01',)}, cb('method')]),
        ('C03', HD, 'URL', [cb('url')]), ('C04', HD, 'version', [cb('version')]),
        ('C05', HD, 'status line', [cb('status_code', 'status')]),
        ('C06', HD + CH + MP, 'header names', [cb('header_name')]),
        ('C07', HD + CH + MP, 'header values', [cb('header_value'), {'ctrl': ('hs',), 'grps': ('C06',)}]),
        ('C09', HD, 'end of head', [cb('headers_finished')]),
        ('D01', CH, 'chunk lengths', [cb('chunk_length')]), ('D02', CH, 'chunk data', [cb('chunk_data')]),
        ('D03', CH, 'chunk extensions', [cb('chunk_extension_name', 'chunk_extension_value', 'chunk_extension_finished',
                                            'chunk_extensions_finished'), {'grps': ('D05',)}]),
        ('D04', CH, 'last chunk and trailers', [cb('body_finished', 'headers_finished')]),
        ('E01', MP, 'part data', [{'grps': ('E02',)}, cb('multipart_data')]),
        ('E02', MP, 'boundary recognition', [{'grps': ('E01',)}, {'grps': ('E04',), 'ctrl': ('bcr', 'bend')}, cb('multipart_data')]),
        ('E03', MP, 'declared length', [{'grps': ('E04',), 'ctrl': ('ih1', 'ih2', 'ib')}]),
        ('E04', MP, 'boundary lines', [{'grps': ('E02',)}, {'grps': ('E03',), 'ctrl': ('mlcr', 'mllf')}, cb('multipart_begin', 'body_finished')]),
        ('F01', UE, 'decoding', [cb('url_encoded_name', 'url_encoded_value')]),
        ('F02', UE, 'pairs', [dict(cb('url_encoded_name', 'url_encoded_value'), kinds=('event', 'data')), ORDER]),
        ('F03', UE, 'declared length', [{'kinds': ('finish', 'eos')}, cb('body_finished')])):
    P(i, ns, about(ns, (i,), *f), PROD + ' (%s)' % t, N_AI % 'cuts', groups=(i,))
P('C08', HD + CH + MP, about(HD + CH + MP, ('C07',), cb('header_value')), PROD + ' (bytes of header values)', N_AI % 'cuts', groups=('C07',))
P('C10', HD, plus(kinds(HD, 'event', 'offset'), lambda res: floor(res, HD[0])), PROD + ' (order of callbacks)', N_AI % 'cuts',
  count=lambda x: x['obl']['events'] + x['obl']['data'] if 'obl' in x else 0)
P('D05', CH, plus(kinds(CH, 'event', 'offset'), lambda res: floor(res, CH[0])), PROD + ' (order of callbacks)', N_AI % 'cuts',
  count=lambda x: x['obl']['events'] + x['obl']['data'] if 'obl' in x else 0)
P('C11', ANY + [NEW], kinds(ANY + [NEW], 'error'), PROD + ' (kind and byte of errors)', N_AI % 'cuts',
  count=lambda x: sum(v for k, v in x.get('exits', {}).items() if k not in ('Eos', 'Dead', 'Finished', 'Callback')))

N_UT = ('Sound over all inputs of every length and, for the iterators, every number of calls to next(), within the abstract machine: every '
        'path from every reachable abstract state is followed to a fixpoint. Trusts the MIR extraction, the models of core and alloc '
        'functions and the numeric domain; a construct the machine does not know is reported as undecided.')
PRODU = AI + ' in product with a reference automaton that reads the same input'
FLD = UTILS[2:]


def ufloor(names):
    return lambda res: [v for n in names for v in floor(res, n)]


def U(i, names, f, technique, **kw):
    """names: quick analyses; f: analyses -> what counts"""
    deep = [n for n in EVERY if n not in names] if any('field' in n for n in names) else []
    P(i, names, f(names), technique, N_UT, thorough=deep, deep=f(names + deep), **kw)


U('A04', UTILS, lambda ns: plus(kinds(ns, 'oob', 'ub', 'panic'), ufloor(ns)),
  AI + ': no MIR assert, bounds check, slice range, unwrap or unchecked read can fail', sites=('assert', 'read'))
U('A06', UTILS, lambda ns: plus(cycles(ns), ufloor(ns)),
  AI + ': every cycle of every loop, and of next() called again and again, consumes input or ends', count=lambda x: x.get('records', 0))
U('H01', UTILS[:1], lambda ns: groups(ns, 'H01'), PRODU + ' (decoder)', groups=('H01',))
U('H02', UTILS, lambda ns: plus(kinds(ns, 'utf8'), ufloor(ns)),
  AI + ': every string is built by a checked or lossy conversion or of bytes known to be ASCII', count=lambda x: x.get('obl', {}).get('text', 0))
U('H03', UTILS[1:], lambda ns: plus(groups(ns, 'H03'), kinds(ns, 'stop')), PRODU + ' (after an error or the end)',
  count=lambda x: x.get('exits', {}).get('None', 0))
U('H04', FLD, lambda ns: groups(ns, 'H04'), PRODU + ' (field grammar)', groups=('H04',))
U('H05', UTILS[1:2], lambda ns: groups(ns, 'H05'), PRODU + ' (query grammar)', groups=('H05',))

N_FN = ('Every path of each function is followed with arguments that stand for all values (byte sets, intervals, every variant), so the result '
        'is a function of the argument that is compared with the specification for every value. Trusts the MIR extraction and the machine.')
cnt = lambda x: x.get('values', 0)
FUNS = ['fun:classes', 'fun:codes', 'fun:flags', 'fun:defaults']


def every(ns):
    return lambda res: [v for n in ns for v in tag(res, n)]


P('I01', FUNS[:1], every(FUNS[:1]), AI + ': value function of the classifiers against RFC 7230 classes', N_FN, count=cnt)
P('G08', FUNS[1:2], every(FUNS[1:2]), AI + ': value functions of the conversions and queries against RFC 7540', N_FN, count=cnt)
P('G09', FUNS[2:3], every(FUNS[2:3]), AI + ': value functions of flags and frame descriptions against RFC 7540', N_FN, count=cnt)
P('I02', FUNS[3:], every(FUNS[3:]), AI + ': result and effects of every default method', N_FN, count=cnt)
P('A07', ['effects'] + BOTH, plus(every(['effects']), kinds(BOTH, 'heap')),
  'effect analysis over the call graph (MIR), and ' + AI + ' for heap use',
  'Every function reachable from the public parsers, decoder and iterators (calls, function pointers, closures, drop code) may only call core, '
  'alloc and this crate, and use no mutable static, thread-local, foreign function or assembly; no path of the abstract interpretation takes '
  'heap memory, except multipart boundary matching, which takes at most 8 bytes more than the boundary. Trusts that core does no I/O.',
  count=lambda x: x.get('calls', 0) + x.get('sites', {}).get('heap', [0, 0])[1] + x.get('records', 0))
P('I03', ['memory'], every(['memory']), 'ownership analysis of the types reachable from the parser structs',
  'The parsers hold integers, enumerations, function pointers and shared references to bytes only; nothing they own or can write through '
  'can grow. That they cannot keep a reference into the stream follows from the lifetimes the borrow checker enforces.', count=cnt)
