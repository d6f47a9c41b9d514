"""Reference automata for the HTTP/1 parser, written from the property statements."""
from terms import *
from product import Spec


def rng(a, b):
    return mask_of(range(a, b + 1))


def chars(s):
    return mask_of(s.encode('latin1') if isinstance(s, str) else s)


UP = rng(65, 90)
LOW = rng(97, 122)
DIG = rng(48, 57)
HEX = DIG | rng(65, 70) | rng(97, 102)
VIS = rng(0x21, 0x7e)
TOKEN = chars("!#$%&'*+-.^_`|~") | DIG | UP | LOW
FIELD = (rng(0x20, 0x7e) | 1 << 9 | rng(0x80, 0xff)) & ~chars('"')
QUOTED = (rng(0x20, 0x7e) | 1 << 9 | rng(0x80, 0xff)) & ~chars('"\\')
STATUS = rng(0x20, 0xff) & ~(1 << 0x7f)
ESC = rng(0x20, 0x7a)
BLANK = chars(' \t')
SP, CR, LF, COLON = chars(' '), chars('\r'), chars('\n'), chars(':')
QUO, BSL, SEMI, HY = chars('"'), chars('\\'), chars(';'), chars('-')

LOWER = tuple(i + 32 if 65 <= i <= 90 else i for i in range(256))
DIGV = tuple(i - 48 if 48 <= i <= 57 else 0 for i in range(256))
HEXV = tuple(int(chr(i), 16) if chr(i) in '0123456789abcdefABCDEF' else 0 for i in range(256))
HEXV16 = tuple(16 * v for v in HEXV)

MAJ, MIN, CODE, LEN, M, REM, NREG = 0, 1, 2, 3, 4, 5, 6


def raw(cb):
    return ('raw', cb)


def headers(s, end, gl=None, gf=None):
    """header block; 'hs' is the start of a header line; end: (actions, next)"""
    gf = gf or 'C09'
    s.byte('ilf', gf, (LF, [], 'hs'), err='CrlfSequence')
    s.byte('hs', 'C06', (CR, [], 'hlf2'), (BLANK, [], 'hv'), (TOKEN & ~UP, [raw('on_header_name')], 'hn'),
           (UP, [('map', 'on_header_name', LOWER)], 'hn'), (COLON, [], 'hsv'), err='HeaderName')
    s.byte('hn', 'C06', (TOKEN & ~UP, [raw('on_header_name')], 'hn'),
           (UP, [('map', 'on_header_name', LOWER)], 'hn'), (COLON, [], 'hsv'), err='HeaderName')
    s.byte('hsv', 'C07', (BLANK, [], 'hsv'), (QUO, [raw('on_header_value')], 'hq'),
           (VIS & FIELD, [raw('on_header_value')], 'hv'), err='HeaderValue')
    s.byte('hv', 'C07', (CR, [], 'hlf1'), (QUO, [raw('on_header_value')], 'hq'),
           (FIELD, [raw('on_header_value')], 'hv'), err='HeaderValue')
    s.byte('hq', 'C07', (QUO, [raw('on_header_value')], 'hv'), (BSL, [raw('on_header_value')], 'hesc'),
           (QUOTED, [raw('on_header_value')], 'hq'), err='HeaderValue')
    s.byte('hesc', 'C07', (ESC, [raw('on_header_value')], 'hq'), err='HeaderValue')
    s.byte('hlf1', 'C09', (LF, [], 'hs'), err='CrlfSequence')
    s.byte('hlf2', gf, (LF, [('ev', 'on_headers_finished', ())] + list(end[0]), end[1]), err='CrlfSequence')


def common(name):
    s = Spec(name)
    s.trait = 'http1::http_handler::HttpHandler'
    s.query = 'content_length'
    s.query_max = MAXLEN
    s.nregs = NREG
    return s


def head():
    s = common('head')
    s.start = 'strip'
    s.look = {'strip': 4, 'dH': 4, 'dHT': 4, 'dHTT': 4, 'dHTTP': 4}
    ws = chars('\r\n\t ')
    mth = 'on_method'
    s.byte('strip', 'C01', (ws, [], 'strip'), (chars('H'), [], 'dH'), (UP, [raw(mth)], 'method'), err='Method')
    for st, ch, nx, lit in (('dH', 'T', 'dHT', b'H'), ('dHT', 'T', 'dHTT', b'HT'), ('dHTT', 'P', 'dHTTP', b'HTT'),
                            ('dHTTP', '/', 'sv', b'HTTP')):
        s.byte(st, 'C02', (chars(ch), [], nx), (UP | SP, [('litr', mth, lit)], 'method', False), err='Method')
    s.byte('method', 'C02', (UP, [raw(mth)], 'method'), (SP, [], 'url1'), err='Method')
    s.byte('url1', 'C03', (VIS, [raw('on_url')], 'url2'), err='Url')
    s.byte('url2', 'C03', (VIS, [raw('on_url')], 'url2'), (SP, [], 'v0'), err='Url')
    for i, ch in enumerate('HTTP/'):
        s.byte('v%d' % i, 'C04', (chars(ch), [], 'v%d' % (i + 1) if i < 4 else 'qv'), err='Version')
    fin = [('ev', 'on_initial_finished', ())]
    version(s, 'qv', CR, [('ev', 'on_version', (MAJ, MIN))] + fin, 'ilf')
    version(s, 'sv', SP, [('ev', 'on_version', (MAJ, MIN))], 'sc1')
    s.byte('sc1', 'C05', (DIG, [('set', CODE, 0), ('acc', CODE, 10, DIGV)], 'sc2'), err='StatusCode')
    s.byte('sc2', 'C05', (DIG, [('acc', CODE, 10, DIGV)], 'sc3'), err='StatusCode')
    s.byte('sc3', 'C05', (DIG, [('acc', CODE, 10, DIGV)], 'sc4'), err='StatusCode')
    s.byte('sc4', 'C05', (SP, [('ev', 'on_status_code', (CODE,))], 'st1'), err='StatusCode')
    s.byte('st1', 'C05', (STATUS, [raw('on_status')], 'st2'), err='Status')
    s.byte('st2', 'C05', (STATUS, [raw('on_status')], 'st2'), (CR, fin, 'ilf'), err='Status')
    headers(s, ([], 'final'))
    s.states['final'] = ('final', 'C09')
    s.states['dead'] = ('dead', 'B10')
    s.check()
    return s


def version(s, p, endm, acts, nx):
    s.byte(p, 'C04', (DIG, [('set', MAJ, 0), ('acc', MAJ, 10, DIGV)], p + 'M2'), err='Version')
    s.byte(p + 'M2', 'C04', (DIG, [('acc', MAJ, 10, DIGV)], p + 'M3'), (chars('.'), [], p + 'm1'), err='Version')
    s.byte(p + 'M3', 'C04', (DIG, [('acc', MAJ, 10, DIGV)], p + 'M4'), (chars('.'), [], p + 'm1'), err='Version')
    s.byte(p + 'M4', 'C04', (chars('.'), [], p + 'm1'), err='Version')
    s.byte(p + 'm1', 'C04', (DIG, [('set', MIN, 0), ('acc', MIN, 10, DIGV)], p + 'm2'), err='Version')
    s.byte(p + 'm2', 'C04', (DIG, [('acc', MIN, 10, DIGV)], p + 'm3'), (endm, acts, nx), err='Version')
    s.byte(p + 'm3', 'C04', (DIG, [('acc', MIN, 10, DIGV)], p + 'm4'), (endm, acts, nx), err='Version')
    s.byte(p + 'm4', 'C04', (endm, acts, nx), err='Version')


def chunked():
    s = common('chunked')
    s.start = 'c1'
    d = 'D01'
    begin = ('ev', 'on_chunk_begin', ())
    s.byte('c1', d, (chars('0'), [('set', LEN, 0), begin], 'ccr'),
           (HEX, [('set', LEN, 0), ('acc', LEN, 16, HEXV), begin], 'c2'), err='ChunkLength')
    ends = [(CR, [('ev', 'on_chunk_length', (LEN,))], 'clen'), (SEMI, [('ev', 'on_chunk_length', (LEN,))], 'cxs')]
    for i in range(2, 9):
        s.byte('c%d' % i, d, (HEX, [('acc', LEN, 16, HEXV)], 'c%d' % (i + 1) if i < 8 else 'ccr'), *ends,
               err='ChunkLength')
    s.byte('ccr', d, *ends, err='ChunkLength')
    s.states['clen'] = ('case', ((LEN, 'eq', 0, 'ilf'), (None, None, None, 'cef')), 'D04')
    s.states['cef'] = ('eps', (('ev', 'on_chunk_extensions_finished', ()),), 'clf', False, 'D05')
    s.byte('clf', 'D05', (LF, [], 'cdat'), err='CrlfSequence')
    s.states['cdat'] = ('case', ((LEN, 'eq', 0, 'hs'), (None, None, None, 'cdata')), 'D04')
    s.states['cdata'] = ('count', LEN, 'on_chunk_data', 'dcr', 'D02')
    s.byte('dcr', 'D02', (CR, [], 'dlf'), err='CrlfSequence')
    s.byte('dlf', 'D02', (LF, [], 'c1'), err='CrlfSequence')
    # extensions
    e = 'D03'
    nm, vl = 'on_chunk_extension_name', 'on_chunk_extension_value'
    done = ('ev', 'on_chunk_extension_finished', ())
    name = [(TOKEN & ~UP, [raw(nm)], 'cxn'), (UP, [('map', nm, LOWER)], 'cxn'), (chars('='), [], 'cvs'),
            (SEMI, [done], 'cxs')]
    s.byte('cxs', e, (BLANK, [], 'cxs'), *name, err='ChunkExtensionName')
    s.byte('cxn', e, (CR, [done], 'cef'), *name, err='ChunkExtensionName')
    s.byte('cvs', e, (BLANK, [], 'cvs'), (QUO, [], 'cvq'), (SEMI, [done], 'cxs'), (VIS, [raw(vl)], 'cv'),
           err='ChunkExtensionValue')
    s.byte('cv', e, (CR, [done], 'cef'), (SEMI, [done], 'cxs'), (QUO, [], 'cvq'), (FIELD, [raw(vl)], 'cv'),
           err='ChunkExtensionValue')
    s.byte('cvq', e, (QUO, [], 'cv'), (BSL, [], 'cve'), (QUOTED, [raw(vl)], 'cvq'), err='ChunkExtensionValue')
    s.byte('cve', e, (ESC, [raw(vl)], 'cvq'), err='ChunkExtensionValue')
    headers(s, ([('ev', 'on_body_finished', ())], 'final'), 'D04', 'D04')
    s.states['final'] = ('final', 'D04')
    s.states['dead'] = ('dead', 'B10')
    s.check()
    return s


def multipart():
    s = common('multipart')
    s.start = 'ih1'
    dat = 'on_multipart_data'
    b = 'MultipartBoundary'
    s.byte('ih1', 'E04', (HY, [], 'ih2'), err=b)
    s.byte('ih2', 'E04', (HY, [('set', M, 0)], 'ib'), err=b)
    s.states['ib'] = ('bnd', M, 'bcr', (), None, b, 'E04')
    s.byte('bcr', 'E04', (CR, [('ev', 'on_multipart_begin', ())], 'ilf'), (HY, [], 'bend'), err=b)
    s.byte('bend', 'E04', (HY, [('ev', 'on_body_finished', ())], 'final'), err=b)
    headers(s, ([], 'mq'), 'E04', 'E04')
    s.states['mq'] = ('query', 'content_length', REM, 'mcount', 'mdata', 'E03')
    s.states['mcount'] = ('count', REM, dat, 'mlcr', 'E03')
    s.byte('mlcr', 'E03', (CR, [], 'mllf'), err=b)
    s.byte('mllf', 'E03', (LF, [], 'ih1'), err=b)
    s.byte('mdata', 'E01', (CR, [], 'mlf'), (FULL & ~CR, [raw(dat)], 'mdata'))

    def no(*lit):
        return (FULL, list(lit), 'mdata', False)
    s.byte('mlf', 'E02', (LF, [], 'mh1'), no(('lit', dat, b'\r')))
    s.byte('mh1', 'E02', (HY, [], 'mh2'), no(('lit', dat, b'\r\n')))
    s.byte('mh2', 'E02', (HY, [('set', M, 0)], 'mb'), no(('lit', dat, b'\r\n-')))
    s.states['mb'] = ('bnd', M, 'bcr', (('lit', dat, b'\r\n--'), ('pre', dat, M)), 'mdata', b, 'E02')
    s.states['final'] = ('final', 'E04')
    s.states['dead'] = ('dead', 'B10')
    s.check()
    return s


def urlencoded():
    s = common('urlencoded')
    s.start = 'ub'
    nm, vl = 'on_url_encoded_name', 'on_url_encoded_value'
    s.limit, s.limit_next, s.limit_grp = REM, 'ufin', 'F03'
    f = 'F02'
    s.states['ub'] = ('eps', (('ev', 'on_url_encoded_begin', ()),), 'un', 'byte', f)
    amp = chars('&;')
    s.byte('un', 'F01', (chars('%'), [], 'unh1'), (chars('+'), [('lit', nm, b' ')], 'un'), (chars('='), [], 'uv'),
           (amp, [], 'ub'), (VIS, [raw(nm)], 'un'), err='UrlEncodedName')
    s.byte('unh1', 'F01', (HEX, [('set', LEN, 0), ('acc', LEN, 16, HEXV)], 'unh2'), err='UrlEncodedName')
    s.byte('unh2', 'F01', (HEX, [('acc', LEN, 16, HEXV), ('val', nm, LEN)], 'un'), err='UrlEncodedName')
    s.byte('uv', 'F01', (chars('%'), [], 'uvh1'), (chars('+'), [('lit', vl, b' ')], 'uv'),
           (amp, [], 'ub'), (VIS, [raw(vl)], 'uv'), err='UrlEncodedValue')
    s.byte('uvh1', 'F01', (HEX, [('set', LEN, 0), ('acc', LEN, 16, HEXV)], 'uvh2'), err='UrlEncodedValue')
    s.byte('uvh2', 'F01', (HEX, [('acc', LEN, 16, HEXV), ('val', vl, LEN)], 'uv'), err='UrlEncodedValue')
    s.states['ufin'] = ('eps', (('ev', 'on_body_finished', ()),), 'final', False, 'F03')
    s.states['final'] = ('final', 'F03')
    s.states['dead'] = ('dead', 'B10')
    s.check()
    return s
