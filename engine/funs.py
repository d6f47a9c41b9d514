"""Analyses of loop-free public functions: every path is followed with arguments that stand for all values."""
from terms import *
from interp import *
from machine import Machine
from h1run import Missing
import h1spec


class Fun(Machine):
    def __init__(self, prog):
        Machine.__init__(self, prog)
        self.done = 0
        self.looked = []
        self.cur_fn = None

    def violation(self, S, e):
        loc = self.location(S)
        self.bad(loc['full'] if loc else self.cur_fn, e.msg, e.kind, loc['span'] if loc else None)

    def bad(self, fn, msg, kind='value', line=None):
        line = line or next((f['span'] for f in self.prog.fns if f['full'] == fn), None)
        self.violations[(kind, fn, msg)] = {'kind': kind, 'msg': msg, 'fn': fn, 'grp': None, 'pstate': None, 'line': line}

    def find(self, full):
        r = [f for f in self.prog.fns if f['full'] == full and f['crate'] == 'http_box']
        if len(r) != 1:
            raise Missing(full)
        return r[0]

    def outs(self, full, args, S=None):
        """[(final state, result)] of all paths"""
        f = self.find(full)
        self.cur_fn = full
        self.looked.append(full)
        S = S.copy() if S is not None else St()
        S.mem['self'] = args[0] if args and type(args[0]) is not str else ('O', 'self')
        out = []

        def ex(T):
            out.append((T, T.mem.pop('ret')))
            T.fn = None
            T.stack = ()
            T.base = 0
            T.bb = 0

        def hd(T):
            raise Unsupported('loop')
        b = f.get('body')
        if not b:
            raise Missing(full)
        ar = []
        for i, a in enumerate(args):
            t = self.prog.types[b['locals'][1 + i]]
            if t['k'] == 'ref':
                S.mem['arg%d' % i] = a
                a = ('R', 'arg%d' % i, ())
            ar.append(a)
        self.push(S, f['id'], ar)
        self.run(S, hd, ex)
        if not out and not self.violations and not self.unsupported:
            self.bad(full, 'never returns')
        return out

    # ------------------------------------------------------------ results
    def boolean(self, full, T, v, y, want):
        """v as a function of byte symbol y equals the table want"""
        if type(v) is tuple:
            for val in (True, False):
                X = T.copy()
                # undecided comparison: both outcomes with what they imply
                if assume(X, v if v[0] == 'P' else v[1], val if v[0] == 'P' else not val):
                    self.boolean(full, X, C(1 if val else 0), y, want)
            return
        mask = T.env.syms[y][1]
        for i in bits(mask):
            self.done += 1
            if any(c[0] != y or c[1] != 0 for c in v.m):
                self.bad(full, 'the answer for byte 0x%02x depends on something else' % i)
                return
            r = T.env.pt(v, i)
            if r != want[i]:
                self.bad(full, 'answers %s for byte 0x%02x' % ('true' if r else 'false', i) if want[i] in (0, 1) and r in (0, 1) else
                         'gives 0x%x for byte 0x%02x' % (r, i))
                return

    def enum(self, v):
        return self.prog.types[v[1]]['v'][v[3]]['n']

    def variants(self, path):
        t = [t for t in self.prog.types if t['k'] == 'adt' and t['path'] == path and t['enum']]
        if not t:
            raise Missing(path)
        return t[0]['id'], t[0]['v']

    def const(self, full, T, v, want, about):
        self.done += 1
        if type(v) is tuple and v and v[0] in ('P', 'NP'):
            b = implied(T, v if v[0] == 'P' else v[1])
            v = C(int(b if v[0] == 'P' else not b)) if b is not None else v
        c = T.env.const(v) if type(v) is N else None
        if c is None or c != want:
            self.bad(full, '%s: expected %s' % (about, want if want > 1 else bool(want) if 'is_' in full.rsplit('::', 1)[1] or 'on_' in full.rsplit('::', 1)[1] else want))

    def same(self, full, T, v, want, about):
        self.done += 1
        if type(v) is not N or not (v == want or T.env.eq(v, want)):
            self.bad(full, '%s is not what it was created with' % about)


def classes(m):
    """I01"""
    for fn, mask in (('is_header_field', h1spec.FIELD), ('is_quoted_header_field', h1spec.QUOTED), ('is_token', h1spec.TOKEN)):
        S = St()
        y = S.env.newb(FULL)
        want = [mask >> i & 1 for i in range(256)]
        full = 'byte::' + fn
        got = 0
        for T, v in m.outs(full, [bsym(y)], S):
            got |= T.env.syms[y][1]
            m.boolean(full, T, v, y, want)
        cover(m, full, got)


def cover(m, full, got, want=FULL):
    if got != want and not m.unsupported:
        m.bad(full, 'does not return for byte 0x%02x' % bits(want & ~got)[0])


FRAMES = {0: 'Data', 1: 'Headers', 2: 'Priority', 3: 'RstStream', 4: 'Settings', 5: 'PushPromise', 6: 'Ping', 7: 'GoAway',
          8: 'WindowUpdate', 9: 'Continuation'}
ERRORS = {0: 'NoError', 1: 'Protocol', 2: 'Internal', 3: 'FlowControl', 4: 'SettingsTimeout', 5: 'StreamClosed', 6: 'FrameSize',
          7: 'RefusedStream', 8: 'Cancel', 9: 'Compression', 10: 'Connect', 11: 'EnhanceYourCalm', 12: 'InadequateSecurity',
          13: 'Http11Required'}
SETTINGS = {1: 'HeaderTableSize', 2: 'EnablePush', 3: 'MaxConcurrentStreams', 4: 'InitialWindowSize', 5: 'MaxFrameSize',
            6: 'MaxHeaderListSize'}
QUERY = {'Ping': 'is_push_ping', 'Http11Required': 'is_http_1_1_required'}


def snake(s):
    out = ''
    for i, c in enumerate(s):
        out += ('_' if i and (c.isupper() or c.isdigit() and not s[i - 1].isdigit()) else '') + c.lower()
    return out


def queries(m, path, tid, vs, mk):
    ty = path
    for k, v in enumerate(vs):
        for w in vs:
            q = ty + '::' + QUERY.get(w['n'], 'is_' + snake(w['n']))
            if not any(f['full'] == q for f in m.prog.fns):
                continue
            S = St()
            for T, r in m.outs(q, [mk(S, k)], S):
                m.const(q, T, r, int(v['n'] == w['n']), 'asked about %s' % v['n'])
    have = [f['full'] for f in m.prog.fns if f['crate'] == 'http_box' and f['full'].startswith(ty + '::is_')]
    known = {ty + '::' + QUERY.get(w['n'], 'is_' + snake(w['n'])) for w in vs}
    for h in have:
        if h not in known:
            m.unsupported[(h, 'a query without a variant')] = None
    if len(have) < len(vs) // 2:
        raise Missing(ty + '::is_*')


def codes(m):
    """G08"""
    for path, table in (('http2::frame_type::FrameType', FRAMES), ('http2::error_code::ErrorCode', ERRORS)):
        tid, vs = m.variants(path)
        S = St()
        y = S.env.newb(FULL)
        full = path + '::from_u8'
        got = 0
        for T, v in m.outs(full, [bsym(y)], S):
            mask = T.env.syms[y][1]
            got |= mask
            for i in bits(mask):
                m.done += 1
                want = table.get(i, 'Unsupported')
                if v[0] != 'E' or m.enum(v) != want:
                    m.bad(full, '0x%02x becomes %s instead of %s' % (i, m.enum(v) if v[0] == 'E' else '?', want))
        cover(m, full, got)
        back = {v: k for k, v in table.items()}
        back['Unsupported'] = 0xff
        full = path + '::as_byte'
        for k, v in enumerate(vs):
            if v['n'] not in back:
                m.bad(full, 'no number is known for %s' % v['n'])
                continue
            for T, r in m.outs(full, [('E', tid, (), k)]):
                m.const(full, T, r, back[v['n']], v['n'])
        queries(m, path, tid, vs, lambda S, k: ('E', tid, (), k))
    path = 'http2::setting::Setting'
    tid, vs = m.variants(path)
    S = St()
    n, x = S.env.neww(0, 65535), S.env.neww(0, (1 << 32) - 1)
    full = path + '::new'
    seen = set()
    rest = []
    for T, v in m.outs(full, [('O', 'self'), wsym(n), wsym(x)], S):
        name = m.enum(v) if v[0] == 'E' else '?'
        num = T.env.const(wsym(n))
        m.done += 1
        if num is None:
            # a path for a set of numbers
            nums = [k for k in SETTINGS if maybe(T, wsym(n), k)]
            if nums:
                if name != SETTINGS.get(nums[0]) or len(nums) > 1:
                    m.bad(full, 'setting %d becomes %s' % (nums[0], name))
            elif name != 'Unsupported':
                m.bad(full, 'an unknown setting becomes %s' % name)
        else:
            seen.add(num)
            if name != SETTINGS.get(num, 'Unsupported'):
                m.bad(full, 'setting %d becomes %s' % (num, name))
        if v[0] == 'E':
            if len(v[2]) != 1:
                m.bad(full, 'the value is lost')
            else:
                m.same(full, T, v[2][0], wsym(x), 'the value of %s' % name)
    full = path + '::value'
    for k, v in enumerate(vs):
        S = St()
        x = S.env.neww(0, (1 << 32) - 1)
        for T, r in m.outs(full, [('E', tid, (wsym(x),), k)], S):
            m.same(full, T, r, wsym(x), 'the value of %s' % v['n'])
    queries(m, path, tid, vs, lambda S, k: ('E', tid, (wsym(S.env.neww(0, (1 << 32) - 1)),), k))


def maybe(T, v, k):
    p = compare(T, 'eq', v, C(k))
    if type(p) is N:
        return p.m or p.c
    return implied(T, p) is not False


FLAGS = {'is_ack': 1, 'is_end_headers': 4, 'is_end_stream': 1, 'is_padded': 8, 'is_priority': 0x20}


def flags(m):
    """G09"""
    path = 'http2::flags::Flags'
    for fn in ['is_empty', 'as_byte'] + sorted(FLAGS):
        full = path + '::' + fn
        want = [int(i == 0) if fn == 'is_empty' else i if fn == 'as_byte' else int(i & FLAGS[fn] != 0) for i in range(256)]
        S = St()
        y = S.env.newb(FULL)
        got = 0
        for T, v in m.outs(path + '::from_u8', [bsym(y)], S):
            for U, r in m.outs(full, [v], T):
                got |= U.env.syms[y][1]
                m.boolean(full, U, r, y, want)
        cover(m, full, got)
    path = 'http2::frame_format::FrameFormat'
    S = St()
    n, i = wsym(S.env.neww(0, (1 << 24) - 1)), wsym(S.env.neww(0, (1 << 32) - 1))
    t, g = S.env.newb(FULL), S.env.newb(FULL)
    for T, v in m.outs(path + '::new', [('O', 'self'), n, bsym(t), bsym(g), i], S):
        for U, r in m.outs(path + '::payload_length', [v], T):
            m.same(path + '::payload_length', U, r, n, 'the payload length')
        for U, r in m.outs(path + '::stream_id', [v], T):
            m.same(path + '::stream_id', U, r, i, 'the stream identifier')
        full = path + '::flags'
        for U, r in m.outs(full, [v], T):
            for W, q in m.outs('http2::flags::Flags::as_byte', [r], U):
                m.same(full, W, q, bsym(g), 'the set of flags')
        full = path + '::frame_type'
        got = 0
        for U, r in m.outs(full, [v], T):
            mask = U.env.syms[t][1]
            got |= mask
            for k in bits(mask):
                m.done += 1
                want = FRAMES.get(k, 'Unsupported')
                if r[0] != 'E' or m.enum(r) != want:
                    m.bad(full, 'type 0x%02x is reported as %s' % (k, m.enum(r) if r[0] == 'E' else '?'))
                    break
        cover(m, full, got)


class Default(Fun):
    def is_event(self, S, callee):
        raise Violation('effect', 'calls %s::%s' % (callee.get('trait'), callee.get('method')))

    def call(self, S, blk):
        c = blk[1][1]
        if c[0] == 'fn':
            f = self.prog.fns[c[1]]
            if f['crate'] not in ('http_box', 'core'):
                raise Violation('effect', 'calls ' + f['full'])
        return Machine.call(self, S, blk)


def defaults(m):
    """I02"""
    for tr in ('http1::http_handler::HttpHandler', 'http2::http_handler::HttpHandler'):
        t = [x for x in m.prog.raw['traits'] if x['name'] == tr]
        if not t:
            raise Missing(tr)
        for me in t[0]['m']:
            full = '<Self as %s>::%s' % (tr, me['n'])
            if not me['default']:
                continue
            f = m.find(full)
            S = St()
            args = [('O', 'self')]
            for l in f['body']['locals'][2:1 + f['body']['argc']]:
                ty = m.prog.types[l]
                if ty['k'] == 'int':
                    args.append(wsym(S.env.neww(0, (1 << ty['bits']) - 1)))
                elif ty['k'] == 'bool':
                    args.append(bsym(S.env.newb(3)))
                else:
                    args.append(('O', 'argument'))
            for T, r in m.outs(full, args, S):
                m.done += 1
                if r[0] == 'E' if type(r) is tuple else False:
                    if m.enum(r) != 'None':
                        m.bad(full, 'declares a content length')
                else:
                    m.const(full, T, r, 1, 'returned value')
                if T.mem.get('arg0') != ('O', 'self'):
                    m.bad(full, 'changes the handler')


ALL = {'classes': (Fun, classes), 'codes': (Fun, codes), 'flags': (Fun, flags), 'defaults': (Default, defaults)}


def run(p, what):
    cls, f = ALL[what]
    m = cls(p)
    f(m)
    return m
