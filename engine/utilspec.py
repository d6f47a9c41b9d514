"""Reference automata for the percent decoder and the query and field iterators, written from the property statements."""
from terms import *
from product import Spec
from h1spec import *

B, H, NREGS = 0, 1, 2
ID = tuple(range(256))
SEE = [('set', B, 0), ('acc', B, 256, ID)]
ITEM = lambda v: ('ev', 'item', (('c', v),))


class Util(Spec):
    query = None
    trait = '-'
    byteregs = {B}

    def __init__(self, name, roles, start):
        Spec.__init__(self, name)
        self.nregs = NREGS
        self.start = start
        self.roles = roles
        self.eos = {}
        self.ascii = set()

    def at_eos(self, name, acts, nx, reg=None):
        self.eos[name] = (tuple(acts), nx, reg)

    def escape(self, name, role, back, kind, grp):
        """%XX; a truncated escape carries its last byte"""
        s = self
        s.byte(name + '1', grp, (HEX, [('set', H, 0), ('acc', H, 1, HEXV16)] + SEE, name + '2'), err=kind)
        s.byte(name + '2', grp, (HEX, [('acc', H, 1, HEXV), ('val', role, H)], back), err=kind)
        s.at_eos(name + '1', [('err', kind, C(0x25))], 'dead')
        s.at_eos(name + '2', [('err', kind, True)], 'dead', B)

    def close(self, grp):
        self.states['stop'] = ('free', grp)
        self.states['dead'] = ('free', grp)
        # nothing but ASCII is ever part of these
        self.check()


def decode():
    s = Util('decode', ('text',), 'text')
    g = 'H01'
    s.byte('text', g, (VIS & ~chars('%+'), [('raw', 'text')], 'text'), (chars('+'), [('lit', 'text', b' ')], 'text'),
           (chars('%'), [], 'x1'), err='Byte')
    s.escape('x', 'text', 'text', 'HexSequence', g)
    s.at_eos('text', [ITEM(0)], 'stop')
    s.close(g)
    return s


def query():
    s = Util('query', ('name', 'value'), 'first')
    g = 'H05'
    stop = chars('%+=&;')
    name = [(VIS & ~stop, [('raw', 'name')], 'name'), (chars('+'), [('lit', 'name', b' ')], 'name'), (chars('%'), [], 'nx1')]
    s.byte('first', g, *name, err='Name')
    for n in ('next', 'name'):
        s.byte(n, g, *(name + [(chars('='), [], 'value'), (chars('&;'), [ITEM(0)], 'next')]), err='Name')
    s.escape('nx', 'name', 'name', 'Name', g)
    s.byte('value', g, (VIS & ~chars('%+&;'), [('raw', 'value')], 'value'), (chars('+'), [('lit', 'value', b' ')], 'value'),
           (chars('%'), [], 'vx1'), (chars('&;'), [ITEM(1)], 'next'), err='Value')
    s.escape('vx', 'value', 'value', 'Value', g)
    s.at_eos('first', [], 'stop')
    s.at_eos('next', [], 'stop')
    s.at_eos('name', [ITEM(0)], 'stop')
    s.at_eos('value', [ITEM(1)], 'stop')
    s.close('H03')
    return s


def field(norm, delim):
    s = Util('field', ('name', 'value'), 'lead')
    g = 'H04'
    D = 1 << delim
    tok = TOKEN & ~UP if norm else TOKEN
    name = [(tok & ~D, [('raw', 'name')], 'name')]
    if norm:
        name.append((UP & ~D, [('map', 'name', LOWER)], 'name'))
    name += [(chars('/'), [('raw', 'name')], 'name'), (chars('='), [], 'eq'), (D, [ITEM(0)], 'lead')]
    s.byte('lead', g, (BLANK, [], 'lead'), *name, err='Name')
    s.byte('name', g, *name, err='Name')
    s.byte('eq', g, (BLANK, [], 'eq'), (QUO, SEE, 'q'), (D, [ITEM(1)], 'lead'), (FIELD, [('raw', 'value')], 'value'), err='Value')
    s.byte('value', g, (D, [ITEM(1)], 'lead'), (FIELD, [('raw', 'value')], 'value'), err='Value')
    s.byte('q', g, (QUOTED, [('raw', 'value')] + SEE, 'q'), (QUO, [], 'qe'), (BSL, [], 'qx'), err='Value')
    s.byte('qx', g, (FULL, [('raw', 'value')] + SEE, 'q'))
    s.byte('qe', g, (BLANK, [], 'qe'), (D, [ITEM(1)], 'lead'), err='Value')
    s.at_eos('lead', [], 'stop')
    s.at_eos('name', [ITEM(0)], 'stop')
    s.at_eos('eq', [ITEM(0)], 'stop')
    s.at_eos('value', [ITEM(1)], 'stop')
    s.at_eos('q', [('err', 'Value', True)], 'dead', B)
    s.at_eos('qx', [('err', 'Value', C(0x5c))], 'dead')
    s.at_eos('qe', [ITEM(1)], 'stop')
    s.ascii = {'name'}
    s.close('H03')
    return s
