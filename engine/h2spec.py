"""Reference automaton for the HTTP/2 frame parser, written from the property statements and RFC 7540 sections 4 and 6."""
from terms import *
from product import Spec

LEN, TYPE, FLAGS, SID, PAD, V, E, W, NREG = 0, 1, 2, 3, 4, 5, 6, 7, 8
ID = tuple(range(256))
IDS = 0x7fffffff
DATA, HEADERS, PRIORITY, RST, SETTINGS, PROMISE, PING, GOAWAY, WINDOW, CONT = range(10)
PADDED, PRIO = 0x8, 0x20


def acc(s, name, reg, n, grp, nx, acts=(), after=()):
    """n bytes, big endian, into reg; acts with the first byte, after with the last"""
    for i in range(n):
        a = [('set', reg, 0)] + list(acts) if i == 0 else []
        a.append(('acc', reg, 256, ID))
        if i == n - 1:
            a += list(after)
        s.byte('%s%d' % (name, i + 1), grp, (FULL, a, '%s%d' % (name, i + 2) if i < n - 1 else nx))
    return name + '1'


def payload(s, name, cb, padded, start=None):
    """state name: data up to the padding, then the padding, then the next frame"""
    g = 'G04'
    if padded:
        s.states[name] = ('case', ((LEN, 'lt', ('reg', PAD), name + 'bad'), (None, None, None, name + 'd')), 'G05')
        s.err(name + 'bad', 'Dead', 'G05')
        g = 'G04/G05'
    nm = name + 'd' if padded else name
    s.states[nm] = ('countb', LEN, PAD, cb, 'padding' if padded else 'l1', g)


class H2(Spec):
    def err(self, name, kind, grp):
        self.states[name] = ('eps', (('err', kind, None),), 'dead', False, grp)

    def less(self, name, n, grp, nx, acts=()):
        """the payload must have n more bytes"""
        self.states[name] = ('case', ((LEN, 'lt', n, name + 'bad'), (None, None, None, name + 'ok')), grp)
        self.err(name + 'bad', 'Dead', grp)
        self.states[name + 'ok'] = ('eps', (('sub', LEN, n),) + tuple(acts), nx, False, grp)


def h2(fixed=False):
    """fixed: frames of a fixed size that announce another length (otherwise anything may follow them up to the next frame header)"""
    s = H2('h2')
    s.trait = 'http2::http_handler::HttpHandler'
    s.query = None
    s.nregs = NREG
    s.start = 'l1'
    s.exact = {TYPE, FLAGS, SID, V, E, W}
    acc(s, 'l', LEN, 3, 'G01', 'ty')
    s.byte('ty', 'G01', (FULL, [('set', TYPE, 0), ('acc', TYPE, 256, ID)], 'fl'))
    s.byte('fl', 'G01', (FULL, [('set', FLAGS, 0), ('acc', FLAGS, 256, ID)], 's1'))
    acc(s, 's', SID, 4, 'G01', 'ff')
    # the type and the flags are looked at when the parser acts on them
    s.states['ff'] = ('eps', (('ev', 'on_frame_format', (LEN, TYPE, FLAGS, ('and', SID, IDS))), ('set', PAD, 0)), 'disp', True, 'G01')
    case = []
    for t, n in ((DATA, 'data'), (HEADERS, 'hdr'), (PRIORITY, 'prio'), (RST, 'rst'), (SETTINGS, 'set'), (PROMISE, 'prom'),
                 (PING, 'ping'), (GOAWAY, 'bye'), (WINDOW, 'win'), (CONT, 'cont')):
        case.append((TYPE, 'eq', t, n))
    s.states['disp'] = ('scase', tuple(case) + ((None, None, None, 'unk'),), 'G07')

    def flag(name, bit, yes, no):
        s.states[name] = ('scase', ((FLAGS, 'bit', bit, yes), (None, None, None, no)), 'G07')

    def pad(name, nx):
        s.byte(name, 'G05', (FULL, [('set', PAD, 0), ('acc', PAD, 256, ID)], name + 'l'))
        s.less(name + 'l', 1, 'G05', nx)

    s.states['padding'] = ('count', LEN, None, 'l1', 'G05')
    # DATA, unknown types
    for n, cb in (('data', 'on_data'), ('unk', 'on_unsupported')):
        flag(n, PADDED, n + 'P', n + 'u')
        pad(n + 'P', n + 'p')
        payload(s, n + 'p', cb, True)
        payload(s, n + 'u', cb, False)
    # HEADERS
    flag('hdr', PADDED, 'hdrP', 'hdrU')
    for x in 'PU':
        flag('hdr' + x, PRIO, 'hq' + x if x == 'P' else 'hpU1', 'hm' + x if x == 'P' else 'hnU')
        if x == 'P':
            pad('hqP', 'hpP1')
            pad('hmP', 'hnP')
        acc(s, 'hp' + x, V, 4, 'G02', 'hw' + x)
        s.byte('hw' + x, 'G02', (FULL, [('set', W, 0), ('acc', W, 256, ID)], 'hl' + x))
        s.less('hl' + x, 5, 'G04', 'hf' + x, [('ev', 'on_headers', (('shr', V, 31), ('and', V, IDS), W), 'G02')])
        s.states['hn' + x] = ('eps', (('ev', 'on_headers', (('c', 0), ('c', 0), ('c', 0))),), 'hf' + x, False, 'G07')
        payload(s, 'hf' + x, 'on_headers_fragment', x == 'P')
    # PUSH_PROMISE
    flag('prom', PADDED, 'promP', 'ppU1')
    pad('promP', 'ppP1')
    for x in 'PU':
        acc(s, 'pp' + x, V, 4, 'G02', 'pl' + x)
        s.less('pl' + x, 4, 'G04', 'pf' + x, [('ev', 'on_push_promise', (('and', V, IDS),), 'G02')])
        payload(s, 'pf' + x, 'on_headers_fragment', x == 'P')
    payload(s, 'ping', 'on_ping', False)
    payload(s, 'cont', 'on_headers_fragment', False)
    # GOAWAY
    s.states['bye'] = ('eps', (), acc(s, 'gv', V, 4, 'G02', 'ge1'), False, 'G07')
    acc(s, 'ge', E, 4, 'G02', 'gl')
    s.less('gl', 8, 'G04', 'gd', [('ev', 'on_go_away', (('and', V, IDS), E), 'G02')])
    s.states['gd'] = ('case', ((LEN, 'eq', 0, 'l1'), (None, None, None, 'gdd')), 'G04')
    payload(s, 'gdd', 'on_go_away_debug_data', False)
    # fixed size
    g = 'G02/G06'
    for n, size in (('prio', 5), ('rst', 4), ('win', 4), ('set', 6)):
        s.states[n] = ('case', ((LEN, 'eq', size, n + 'V1'), (None, None, None, n + 'X')), 'G06')
        s.states[n + 'X'] = ('any', 'on_frame_format', 'disp', 'G06')
    if fixed:
        for n, nm in (('prio', 'PRIORITY'), ('rst', 'RST_STREAM'), ('win', 'WINDOW_UPDATE')):
            s.states[n + 'X'] = ('free', 'G06 ' + nm)
        gs = 'G06 SETTINGS'
        s.states['setX'] = ('case', ((LEN, 'eq', 0, 'xl1'), (LEN, 'lt', 6, 'setY'), (None, None, None, 'smI1')), gs)
        s.states['setY'] = ('free', gs)
        acc(s, 'smI', E, 2, gs, 'smV1')
        acc(s, 'smV', V, 4, gs, 'setX', (), [('ev', 'on_settings', (E, V)), ('sub', LEN, 6)])
        # the header that follows
        acc(s, 'xl', LEN, 3, gs, 'xty')
        s.byte('xty', gs, (FULL, [('set', TYPE, 0), ('acc', TYPE, 256, ID)], 'xfl'))
        s.byte('xfl', gs, (FULL, [('set', FLAGS, 0), ('acc', FLAGS, 256, ID)], 'xs1'))
        acc(s, 'xs', SID, 4, gs, 'xff')
        s.states['xff'] = ('eps', s.states['ff'][1], 'disp', True, gs)
    acc(s, 'prioV', V, 4, g, 'prioW')
    s.byte('prioW', g, (FULL, [('set', W, 0), ('acc', W, 256, ID),
                               ('ev', 'on_priority', (('shr', V, 31), ('and', V, IDS), W))], 'l1'))
    acc(s, 'rstV', V, 4, g, 'l1', (), [('ev', 'on_rst_stream', (V,))])
    acc(s, 'winV', V, 4, g, 'l1', (), [('ev', 'on_window_update', (('and', V, IDS),))])
    acc(s, 'setV', E, 2, g, 'setW1')
    acc(s, 'setW', V, 4, g, 'l1', (), [('ev', 'on_settings', (E, V))])
    s.states['final'] = ('final', 'G04')
    s.states['dead'] = ('dead', 'B10')
    s.check()
    return s
