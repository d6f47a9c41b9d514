"""Abstract interpreter over the extracted MIR.

Executes one basic block at a time on an abstract state (class St).  Memory cells hold immutable
abstract values; numbers are terms of terms.py over the state's environment.  Nothing is executed
concretely: every branch that the environment does not decide is followed both ways, and states are
joined at loop heads (fixpoint.py).

Values
  N                       number / bool / char
  ('P', op, a, b)         undecided comparison (op in lt, le, eq)          ('NP', p) its negation
  ('S', ty, fields)       struct, tuple, closure      ('E', ty, fields, variant) enum
  ('A', None, elems)      array
  ('R', key, path)        reference to a memory place ('RV', value) reference to a constant value
  ('RE', base, index)     reference to one element of a slice base
  ('SL', base, start, n)  slice (str) reference; base: ('st',) the input, ('k', elems) constants,
                          ('m', key, path) array in memory, ('sy', name) symbolic array, ('v', segs)
  ('V', segs)             Vec<u8>/String contents; segs: ('b', N) | ('r', base, from, to)
  ('IT', base, from, to, rev)  slice iterator
  ('F', fn)  ('FT', callee) function / trait method     ('O', name) opaque
"""
import json
from terms import *

DEPTH = 8192


class Unsupported(Exception):
    pass


class Fork(Exception):
    """alternatives: functions applied to a copy of the state, after which the step is re-executed"""
    def __init__(self, alts):
        self.alts = alts


class Violation(Exception):
    def __init__(self, kind, msg, **kw):
        self.kind = kind
        self.msg = msg
        self.kw = kw


class Dead(Exception):
    pass


UNIT = ('S', None, ())


class St:
    __slots__ = ('mem', 'env', 'cells', 'sym', 'rel', 'cmps', 'stack', 'fn', 'bb', 'base', 'choice',
                 'L', 'spec', 'ctrl', 'regs', 'queue', 'sp', 'aborted', 'extra', 'origin', 'trail', 'evs', 'oidx', 'si', 'unr')

    def __init__(self):
        self.mem = {}
        self.env = Env()
        self.cells = {}
        self.sym = {}
        self.rel = {}
        self.cmps = {}
        self.stack = ()
        self.fn = None
        self.bb = 0
        self.base = 0
        self.choice = None
        self.L = None
        self.spec = None
        self.ctrl = None
        self.regs = ()
        self.queue = ()
        self.sp = None
        self.aborted = False
        self.extra = ()
        self.origin = None
        self.oidx = None
        self.trail = ()
        self.evs = 0
        self.si = -1
        self.unr = ()

    def copy(self):
        s = St.__new__(St)
        s.mem = self.mem.copy()
        s.env = self.env.copy()
        s.cells = self.cells.copy()
        s.sym = self.sym.copy()
        s.rel = self.rel.copy()
        s.cmps = self.cmps.copy()
        s.stack = self.stack
        s.fn = self.fn
        s.bb = self.bb
        s.base = self.base
        s.choice = self.choice
        s.L = self.L
        s.spec = self.spec
        s.ctrl = self.ctrl
        s.regs = self.regs
        s.queue = self.queue
        s.sp = self.sp
        s.aborted = self.aborted
        s.extra = self.extra
        s.origin = self.origin
        s.oidx = self.oidx
        s.trail = self.trail
        s.evs = self.evs
        s.si = self.si
        s.unr = self.unr
        return s


# ------------------------------------------------------------------ decisions
def p_not(v):
    if type(v) is N:
        if not v.m:
            return C(1 - v.c)
        return sub(ONE, v)
    if v[0] == 'NP':
        return v[1]
    return ('NP', v)


def compare(S, op, a, b):
    """op in lt, le, eq on numbers; N 0/1 or a lazy predicate"""
    env = S.env
    if not a.m and not b.m:
        x, y = a.c, b.c
        return C(1 if (x < y if op == 'lt' else x <= y if op == 'le' else x == y) else 0)
    if a == b:
        return C(0 if op == 'lt' else 1)
    y = env.single(a, b)
    if y is not None:
        if op == 'lt':
            return env.tabulate(y, lambda p, q: 1 if p < q else 0, a, b)
        if op == 'le':
            return env.tabulate(y, lambda p, q: 1 if p <= q else 0, a, b)
        return env.tabulate(y, lambda p, q: 1 if p == q else 0, a, b)
    return ('P', op, a, b)


def implied(S, p):
    """truth value of predicate p if the environment decides it, else None"""
    op, a, b = p[1], p[2], p[3]
    env = S.env
    d = sub(b, a)
    if op == 'eq':
        r = rel_get(S, a, b)
        if r is not None:
            return r
        lo, hi = env.bounds(d)
        if lo == 0 and hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        y = (len(a.m) == 1 and len(b.m) == 1 and a.c == 0 and b.c == 0 and a.m[0][1:] == (0, IDT) and b.m[0][1:] == (0, IDT))
        if y and not (env.syms[a.m[0][0]][1] & env.syms[b.m[0][0]][1]):
            return False
        return None
    lo, hi = env.bounds(d)
    if op == 'lt':
        if lo >= 1:
            return True
        if hi <= 0:
            return False
        return None
    if lo >= 0:
        return True
    if hi < 0:
        return False
    return None


def rel_key(a, b):
    ka, kb = (a.c, a.m), (b.c, b.m)
    return (a, b) if repr(ka) <= repr(kb) else (b, a)


def rel_get(S, a, b):
    if not S.rel:
        return None
    return S.rel.get(rel_key(a, b))


def assume(S, p, val):
    """record predicate p == val; False if infeasible"""
    op, a, b = p[1], p[2], p[3]
    env = S.env
    if op == 'lt':
        return env.add_fact(N(b.c - a.c - 1, sub(b, a).m)) if val else env.add_fact(sub(a, b))
    if op == 'le':
        if val:
            return env.add_fact(sub(b, a))
        d = sub(a, b)
        return env.add_fact(N(d.c - 1, d.m))
    S.rel[rel_key(a, b)] = val
    if val:
        if len(a.m) == 1 and len(b.m) == 1 and a.m[0][1] == 0 and b.m[0][1] == 0 and a.c == 0 and b.c == 0 \
                and a.m[0][2] == IDT and b.m[0][2] == IDT:
            m = env.syms[a.m[0][0]][1] & env.syms[b.m[0][0]][1]
            env.syms[a.m[0][0]] = ('b', m)
            env.syms[b.m[0][0]] = ('b', m)
            if not m:
                return False
        return env.add_fact(sub(a, b)) and env.add_fact(sub(b, a))
    d = sub(a, b)
    lo, hi = env.bounds(d)
    if lo == 0 and hi == 0:
        return False
    if lo == 0:
        return env.add_fact(N(d.c - 1, d.m))
    if hi == 0:
        return env.add_fact(N(-d.c - 1, scale_neg(d).m))
    return True


def _alt_pred(p, val):
    def f(S):
        return assume(S, p, val)
    return f


def _alt_mask(y, m):
    def f(S):
        S.env.syms[y] = ('b', S.env.syms[y][1] & m)
        return True
    return f


def decide(S, v):
    """boolean value of v; forks if undecided"""
    if type(v) is N:
        if not v.m:
            return v.c != 0
        env = S.env
        y = env.single(v)
        if y is not None:
            t = env.syms[y][1]
            m1 = 0
            tabs = [TABS[c[2]] for c in v.m]
            c0 = v.c
            if len(tabs) == 1:
                tb = tabs[0]
                for i in bits(t):
                    if tb[i] + c0:
                        m1 |= 1 << i
            else:
                for i in bits(t):
                    if c0 + sum(tb[i] for tb in tabs):
                        m1 |= 1 << i
            if m1 == t:
                return True
            if m1 == 0:
                return False
            raise Fork([_alt_mask(y, m1), _alt_mask(y, t & ~m1)])
        lo, hi = env.bounds(v)
        if lo == hi:
            return lo != 0
        if lo > 0:
            return True
        r = S.rel.get(v)
        if r is not None:
            return r

        def t1(S):
            S.rel[v] = True
            return S.env.add_fact(sub(v, ONE))

        def t0(S):
            S.rel[v] = False
            return S.env.add_fact(sub(ZERO, v))
        raise Fork([t1, t0])
    if v[0] == 'NP':
        return not decide(S, v[1])
    if v[0] == 'P':
        r = implied(S, v)
        if r is None:
            raise Fork([_alt_pred(v, True), _alt_pred(v, False)])
        return r
    raise Unsupported('decide %r' % (v,))


def choose(S, n, key=None):
    if S.choice is not None:
        c = S.choice
        S.choice = None
        return c

    def mk(i):
        def f(S):
            S.choice = i
            return True
        return f
    raise Fork([mk(i) for i in range(n)])


# ------------------------------------------------------------------ memory
def load(S, key, path):
    try:
        v = S.mem[key]
    except KeyError:
        raise Unsupported('read of unset %r' % (key,))
    for p in path:
        v = elem(S, v, p)
    return v


def it_field(v, i):
    """the pointers a slice iterator consists of"""
    if i == 0:
        return ('RE', v[1], v[2])
    if i == 1:
        return ('RE', v[1], v[3])
    return UNIT


def elem(S, v, p):
    if type(p) is int:
        if v is None:
            raise Unsupported('read of uninitialised value')
        if v[0] == 'X':       # unknown aggregate
            raise Unsupported('field of unknown')
        if v[0] == 'IT':
            return it_field(v, p)
        return v[2][p]
    # array index (N)
    i = S.env.const(p)
    els = v[2]
    if i is not None:
        return els[i]
    return index_const(S, els, p)


def index_const(S, els, p):
    """els[p] for symbolic p over a constant table"""
    env = S.env
    y = env.single(p)
    if y is not None and all(type(e) is N and not e.m for e in els):
        n = len(els)
        return env.tabulate(y, lambda i: els[i].c if 0 <= i < n else 0, p)
    if all(type(e) is N for e in els):
        lo = min(env.bounds(e)[0] for e in els)
        hi = max(env.bounds(e)[1] for e in els)
        return env.havoc(lo, hi)
    raise Unsupported('symbolic array index')


def store(S, key, path, val):
    if not path:
        S.mem[key] = val
    else:
        S.mem[key] = upd(S, S.mem.get(key), path, 0, val)


def upd(S, v, path, i, val):
    p = path[i]
    if type(v) is tuple and v[0] == 'IT':
        if p > 1 or i + 1 < len(path) or val[0] != 'RE' or val[1] != v[1]:
            raise Unsupported('store into an iterator')
        return ('IT', v[1], val[2], v[3]) if p == 0 else ('IT', v[1], v[2], val[2])
    if type(p) is not int:
        c = S.env.const(p)
        if c is None:
            raise Unsupported('store at symbolic index')
        p = c
    if v is None:
        els = ()
        tag = ('S', None)
    else:
        els = v[2]
        tag = None
    if p >= len(els):
        els = els + (None,) * (p + 1 - len(els))
    nv = val if i + 1 == len(path) else upd(S, els[p], path, i + 1, val)
    els = els[:p] + (nv,) + els[p + 1:]
    if tag:
        return ('S', None, els)
    if v[0] == 'E':
        return ('E', v[1], els, v[3])
    return (v[0], v[1], els)


def deref(S, r):
    """value behind a reference"""
    k = r[0]
    if k == 'R':
        return load(S, r[1], r[2])
    if k == 'RV':
        return r[1]
    if k == 'RE':
        return read_base(S, r[1], r[2])
    if k == 'O':
        return r
    raise Unsupported('deref %r' % (r,))


def cell(S, pos):
    """byte symbol term at stream position pos"""
    s = S.cells.get(pos)
    if s is None:
        if pos.m:
            for q, t in S.cells.items():
                if S.env.eq(q, pos):
                    S.cells[pos] = t
                    return t
            for q, t in list(S.cells.items()):
                # a position close to one already read: the same or not?
                lo, hi = S.env.bounds(sub(pos, q))
                if lo <= 0 <= hi and hi - lo <= 2 and decide(S, compare(S, 'eq', pos, q)):
                    S.cells[pos] = t
                    return t
        s = bsym(S.env.newb(S.spec.stream_mask if S.spec is not None else FULL))
        S.cells[pos] = s
    return s


def read_base(S, base, idx):
    k = base[0]
    if k == 'st':
        return cell(S, idx)
    if k == 'k':
        i = S.env.const(idx)
        if i is not None:
            return base[1][i]
        return index_const(S, base[1], idx)
    if k == 'm':
        return elem(S, load(S, base[1], base[2]), idx)
    if k == 'sy':
        key = (base[1], idx)
        s = S.sym.get(key)
        if s is None:
            for (nm, q), t in S.sym.items():
                if nm == base[1] and S.env.eq(q, idx):
                    S.sym[key] = t
                    return t
            s = bsym(S.env.newb(base[2]))
            S.sym[key] = s
        return s
    if k == 'v':
        i = S.env.const(idx)
        n = 0
        for sg in base[1]:
            if sg[0] == 'b':
                if i == n:
                    return sg[1]
                n += 1
            else:
                break
        return bsym(S.env.newb())
    raise Unsupported('read base %r' % (base,))


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = d['types']
        self.fns = d['fns']
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f['full'], f['id'])
        self.code = {}
        self.heads = {}
        self.loops = {}
        self.live = {}
        self.borrowed = {}
        self.statics = d['statics']
        self.consts = {}
        self.unsup = {}
        self.called = set()
        self.bs_ty = {}
        for t in self.types:
            if t['k'] == 'adt' and t['path'] == 'byte_slice::ByteStream':
                fl = [f['n'] for f in t['v'][0]['f']]
                self.bs_ty[t['id']] = {n: i for i, n in enumerate(fl)}

    def find(self, suffix, crate=None):
        return [f for f in self.fns if f['full'].endswith(suffix) and (crate is None or f['crate'] == crate)]

    def ty(self, i):
        return self.types[i]

    def place_ty(self, f, p):
        t = f['body']['locals'][p['l']]
        for e in p['p']:
            k = e[0]
            tt = self.types[t]
            if k == '*':
                t = tt.get('e', -1)
            elif k == 'f':
                t = e[2]
            elif k in ('i', 'c'):
                t = tt.get('e')
            elif k == 's':
                pass
            elif k == 'd':
                pass
            if t is None or t < 0:
                return None
        return t

    def const_value(self, c, t):
        k = c['k']
        if k == 'int':
            return C(c['v'] if type(c['v']) is int else int(c['v']))
        if k == 'arr':
            return ('A', None, tuple(self.const_value(x, None) for x in c['v']))
        if k == 'tuple':
            return ('S', t, tuple(self.const_value(x, None) for x in c['v']))
        if k == 'adt':
            f = tuple(self.const_value(x, None) for x in c['v'])
            tt = self.types[t] if t is not None else None
            if tt is None or (tt['k'] == 'adt' and tt['enum']):
                return ('E', t, f, c['vi'])
            return ('S', t, f)
        if k == 'ref':
            v = self.const_value(c['v'], None)
            if c['v']['k'] == 'static':
                return v
            if t is not None:
                tt = self.types[t]
                to = tt.get('e')
                if to is not None and self.types[to]['k'] in ('slice', 'str') and v[0] == 'A':
                    return ('SL', ('k', v[2]), ZERO, C(len(v[2])))
            return ('RV', v)
        if k == 'static':
            key = ('static', c['name'])
            v = self.consts.get(key)
            if v is None:
                v = ('RV', self.const_value(c['v'], None)) if not c.get('mut') and c.get('v') is not None else ('O', c['name'])
                self.consts[key] = v
            return v
        if k == 'fn':
            return ('F', c['fn'])
        if k == 'zst':
            if t is not None:
                tt = self.types[t]
                if tt['k'] == 'fndef':
                    if tt.get('fn') is not None and tt['fn'] >= 0:
                        return ('F', tt['fn'])
                    return ('FT', json.dumps(tt.get('callee')))
                if tt['k'] == 'closure':
                    return ('S', t, ())
                if tt['k'] == 'adt' and tt['enum']:
                    return ('E', t, (), 0)
            return UNIT
        return ('O', 'const')

    # -------------------------------------------------------------- static info
    def loop(self, fid, bb):
        """the blocks of the loop with head bb; whether it can be left without a call"""
        r = self.loops.get((fid, bb))
        if r is None:
            blocks = self.fns[fid]['body']['blocks']
            n = len(blocks)
            fw, st = set(), [bb]
            while st:
                x = st.pop()
                for y in succs(blocks[x]['t']):
                    if y not in fw:
                        fw.add(y)
                        st.append(y)
            pred = {}
            for x in range(n):
                for y in succs(blocks[x]['t']):
                    pred.setdefault(y, []).append(x)
            bw, st = {bb}, [bb]
            while st:
                for y in pred.get(st.pop(), ()):
                    if y not in bw:
                        bw.add(y)
                        st.append(y)
            loop = fw & bw | {bb}
            seen, st, out = {bb}, [bb], False
            while st and not out:
                t = blocks[st.pop()]['t']
                if t[0] not in ('goto', 'switch', 'drop'):
                    continue
                for y in succs(t):
                    if y not in loop:
                        out = True
                    elif y not in seen:
                        seen.add(y)
                        st.append(y)
            r = self.loops[(fid, bb)] = (loop, out)
        return r

    def body_info(self, fid):
        """loop heads and live-in sets of a function"""
        if fid in self.heads:
            return
        b = self.fns[fid]['body']
        n = len(b['blocks'])
        succ = [succs(bb['t']) for bb in b['blocks']]
        # back edges by DFS
        heads = set()
        color = [0] * n
        st = [(0, iter(succ[0]))]
        color[0] = 1
        while st:
            x, it = st[-1]
            for y in it:
                if color[y] == 0:
                    color[y] = 1
                    st.append((y, iter(succ[y])))
                    break
                if color[y] == 1:
                    heads.add(y)
            else:
                color[x] = 2
                st.pop()
        # liveness (of whole locals)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        borrowed = set()
        for i, bb in enumerate(b['blocks']):
            u, dd = use[i], dfn[i]

            def rd(l):
                if l not in dd:
                    u.add(l)

            def rdp(p):
                rd(p['l'])
                for e in p['p']:
                    if e[0] == 'i':
                        rd(e[1])

            def rdo(o):
                if o['o'] in ('copy', 'move'):
                    rdp(o['p'])

            def wr(p):
                if p['p']:
                    rdp(p)
                else:
                    dd.add(p['l'])
            for s in bb['s']:
                if s[0] == '=':
                    r = s[2]
                    rk = r['r']
                    if rk in ('ref', 'rawptr', 'reborrow'):
                        rdp(r['p'])
                        if not any(e[0] == '*' for e in r['p']['p']):
                            borrowed.add(r['p']['l'])
                    elif 'p' in r:
                        rdp(r['p'])
                    if 'a' in r:
                        rdo(r['a'])
                    if 'b' in r:
                        rdo(r['b'])
                    if rk == 'agg':
                        for o in r['v']:
                            rdo(o)
                    wr(s[1])
                elif s[0] in ('sl', 'sx'):
                    dd.add(s[1])
                elif s[0] == 'sd':
                    rdp(s[1])
                elif s[0] == 'assume':
                    rdo(s[1])
                elif s[0] == 'cno':
                    rdo(s[1])
                    rdo(s[2])
                    rdo(s[3])
            t = bb['t']
            if t[0] == 'switch' or t[0] == 'assert':
                rdo(t[1])
            elif t[0] == 'call':
                if t[1][0] == 'ptr':
                    rdo(t[1][1])
                for o in t[2]:
                    rdo(o)
                wr(t[3])
            elif t[0] == 'return':
                rd(0)
            elif t[0] == 'drop':
                rdp(t[1])
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for y in succ[i]:
                    o |= live[y]
                v = use[i] | (o - dfn[i])
                if v != live[i]:
                    live[i] = v
                    ch = True
        self.heads[fid] = heads
        self.live[fid] = live
        self.borrowed[fid] = borrowed

    def get_code(self, fid):
        c = self.code.get(fid)
        if c is None:
            f = self.fns[fid]
            if not f.get('body'):
                raise Unsupported('no body: ' + f['full'])
            self.body_info(fid)
            c = [None] * len(f['body']['blocks'])
            self.code[fid] = c
        return c

    def get_block(self, fid, bb):
        c = self.get_code(fid)
        r = c[bb]
        if r is None:
            r = self.compile_block(self.fns[fid], bb)
            c[bb] = r
        return r

    # -------------------------------------------------------------- compilation to closures
    def c_resolve(self, p):
        """closure returning ('m', key, path) or ('e', base, idx) or ('c', value)"""
        l = p['l']
        proj = [e for e in p['p'] if e[0] != 'd']
        if not proj:
            return lambda S: ('m', S.base + l, ())
        if all(e[0] == 'f' for e in proj):
            path = tuple(e[1] for e in proj)
            return lambda S: ('m', S.base + l, path)

        def f(S):
            kind = 'm'
            a, b = S.base + l, ()
            for e in proj:
                k = e[0]
                if k == '*':
                    v = load(S, a, b) if kind == 'm' else (read_base(S, a, b) if kind == 'e' else a)
                    if v is None:
                        raise Unsupported('deref of uninitialised')
                    t = v[0]
                    if t == 'R':
                        kind, a, b = 'm', v[1], v[2]
                    elif t == 'RV':
                        kind, a, b = 'c', v[1], None
                    elif t == 'RE':
                        kind, a, b = 'e', v[1], v[2]
                    elif t == 'SL':
                        kind, a, b = 'sl', v, None
                    elif t == 'O':
                        kind, a, b = 'c', v, None
                    elif t == 'BX':
                        kind, a, b = 'c', v[1], None
                    else:
                        raise Unsupported('deref of %r' % (v,))
                elif k == 'f':
                    if kind == 'm':
                        b = b + (e[1],)
                    else:
                        v = a if kind == 'c' else read_base(S, a, b)
                        if v[0] == 'O':
                            kind, a = 'c', ('O', v[1] + '.%s' % e[1])
                        else:
                            kind, a, b = 'c', v[2][e[1]], None
                elif k in ('i', 'c'):
                    if k == 'i':
                        i = S.mem[S.base + e[1]]
                    else:
                        i = C(e[1])
                        if e[3]:
                            if kind == 'sl':
                                i = sub(a[3], i)
                            elif kind == 'm':
                                i = C(len(load(S, a, b)[2]) - e[1])
                            else:
                                i = C(len(a[2]) - e[1])
                    if kind == 'sl':
                        kind, a, b = 'e', a[1], add(a[2], i)
                    elif kind == 'm':
                        b = b + (i,)
                    elif kind == 'c':
                        a = elem(S, a, i)
                    else:
                        raise Unsupported('index')
                else:
                    raise Unsupported('projection %s' % k)
            return (kind, a, b)
        return f

    def c_read(self, p):
        l = p['l']
        proj = [e for e in p['p'] if e[0] != 'd']
        if not proj:
            def f0(S):
                try:
                    return S.mem[S.base + l]
                except KeyError:
                    raise Unsupported('read of unset local %d' % l)
            return f0
        if len(proj) == 1 and proj[0][0] == 'f':
            i = proj[0][1]

            def ff(S):
                v = S.mem[S.base + l]
                if v[0] == 'O':
                    return ('O', v[1] + '.%d' % i)
                if v[0] == 'IT':
                    return it_field(v, i)
                return v[2][i]
            return ff
        if len(proj) == 2 and proj[0][0] == '*' and proj[1][0] == 'f':
            i = proj[1][1]

            def f1(S):
                r = S.mem[S.base + l]
                if r[0] == 'R':
                    v = S.mem[r[1]]
                    for q in r[2]:
                        v = v[2][q] if type(q) is int else elem(S, v, q)
                    if v is None:
                        raise Unsupported('uninit')
                    if v[0] == 'O':
                        return ('O', v[1] + '.%d' % i)
                    if v[0] == 'IT':
                        return it_field(v, i)
                    return v[2][i]
                v = deref(S, r)
                if v[0] == 'O':
                    return ('O', v[1] + '.%d' % i)
                return v[2][i]
            return f1
        res = self.c_resolve(p)

        def f(S):
            k, a, b = res(S)
            if k == 'm':
                v = load(S, a, b)
                return v
            if k == 'c':
                return a
            if k == 'e':
                return read_base(S, a, b)
            return a
        return f

    def c_write(self, p):
        l = p['l']
        proj = [e for e in p['p'] if e[0] != 'd']
        if not proj:
            def f0(S, v):
                S.mem[S.base + l] = v
            return f0
        res = self.c_resolve(p)

        def f(S, v):
            k, a, b = res(S)
            if k == 'm':
                store(S, a, b, v)
            elif k == 'e' and a[0] == 'm':
                store(S, a[1], a[2] + (b,), v)
            else:
                raise Unsupported('store to %s' % k)
        return f

    def c_op(self, o):
        k = o['o']
        if k in ('copy', 'move'):
            return self.c_read(o['p'])
        if k == 'const':
            v = self.const_value(o['c'], o['t'])
            return lambda S: v
        v = C(1 if o['v'] is True else 0)
        return lambda S: v

    def op_ty(self, f, o):
        if o['o'] in ('copy', 'move'):
            return self.place_ty(f, o['p'])
        if o['o'] == 'const':
            return o['t']
        return None

    def int_info(self, t):
        if t is None:
            return (64, False)
        tt = self.types[t]
        if tt['k'] == 'int':
            return (tt['bits'], tt['signed'])
        if tt['k'] == 'bool':
            return (1, False)
        if tt['k'] == 'char':
            return (32, False)
        return None

    def c_rvalue(self, f, r, dty):
        k = r['r']
        types = self.types
        if k == 'use':
            return self.c_op(r['a'])
        if k == 'ref' or k == 'reborrow' or k == 'rawptr':
            return self.c_ref(r['p'], f)
        if k == 'bin':
            return self.c_bin(f, r, dty)
        if k == 'un':
            a = self.c_op(r['a'])
            op = r['op']
            if op == 'Not':
                ii = self.int_info(dty)
                if dty is not None and types[dty]['k'] == 'bool':
                    return lambda S: p_not(a(S))
                full = (1 << ii[0]) - 1

                def fnot(S):
                    return sub(C(full), a(S))
                return fnot
            if op == 'Neg':
                return lambda S: sub(ZERO, a(S))
            if op == 'PtrMetadata':
                def meta(S):
                    v = a(S)
                    if v[0] == 'SL':
                        return v[3]
                    if v[0] == 'R':
                        w = deref(S, v)
                        if w[0] == 'A':
                            return C(len(w[2]))
                    if v[0] == 'RV' and v[1][0] == 'A':
                        return C(len(v[1][2]))
                    raise Unsupported('metadata of %r' % (v,))
                return meta
            raise Unsupported('unop ' + op)
        if k == 'len':
            rd = self.c_resolve(r['p'])

            def ln(S):
                kk, a_, b_ = rd(S)
                if kk == 'sl':
                    return a_[3]
                v = load(S, a_, b_) if kk == 'm' else a_
                return C(len(v[2]))
            return ln
        if k == 'discr':
            rd = self.c_read(r['p'])
            pt = self.place_ty(f, r['p'])
            dv = None
            if pt is not None and types[pt]['k'] == 'adt' and types[pt]['enum']:
                dv = [v['d'] for v in types[pt]['v']]

            def fd(S):
                v = rd(S)
                if v is None:
                    raise Unsupported('discriminant of uninit')
                if v[0] == 'E':
                    return C(dv[v[3]] if dv else v[3])
                raise Unsupported('discriminant of %r' % (v,))
            return fd
        if k == 'cast':
            return self.c_cast(f, r, dty)
        if k == 'agg':
            ops = [self.c_op(o) for o in r['v']]
            ak = r['k']
            if ak == 'array':
                return lambda S: ('A', None, tuple([o(S) for o in ops]))
            if ak == 'tuple':
                return lambda S: ('S', dty, tuple([o(S) for o in ops]))
            if ak == 'rawptr':
                def rp(S):
                    raise Unsupported('raw pointer aggregate')
                return rp
            if ak[0] == 'adt':
                ty, vi = ak[1], ak[2]
                if types[ty]['enum']:
                    if not ops:
                        cv = ('E', ty, (), vi)
                        return lambda S: cv
                    return lambda S: ('E', ty, tuple([o(S) for o in ops]), vi)
                return lambda S: ('S', ty, tuple([o(S) for o in ops]))
            if ak[0] == 'closure':
                fnid = ak[1]
                return lambda S: ('S', ('closure', fnid), tuple([o(S) for o in ops]))
            raise Unsupported('aggregate')
        if k == 'repeat':
            a = self.c_op(r['a'])
            n = r['n']
            return lambda S: ('A', None, (a(S),) * n)

        def uns(S):
            raise Unsupported('rvalue ' + k)
        return uns

    def c_ref(self, p, f):
        res = self.c_resolve(p)

        def g(S):
            k, a, b = res(S)
            if k == 'm':
                return ('R', a, b)
            if k == 'sl':
                return a
            if k == 'e':
                return ('RE', a, b)
            if type(a) is tuple and a[0] == 'O':
                return a
            return ('RV', a)
        return g

    def c_cast(self, f, r, dty):
        a = self.c_op(r['a'])
        ck = r['k']
        types = self.types
        if ck.startswith('IntToInt'):
            w, sg = self.int_info(r['t'])
            sw, ssg = self.int_info(self.op_ty(f, r['a'])) or (64, False)
            full = (1 << w) - 1

            def fi(S):
                v = a(S)
                if type(v) is tuple:
                    v = C(1 if decide(S, v) else 0)
                if not v.m and 0 <= v.c <= (full >> 1 if sg else full):
                    return v
                if not sg and not ssg and w >= sw:
                    return v
                if sg:
                    lo, hi = S.env.bounds(v)
                    if lo >= -(1 << (w - 1)) and hi <= full >> 1:
                        return v
                    return S.env.havoc(-(1 << (w - 1)), full >> 1)
                return S.env.wrap(v, w)
            return fi
        if ck.startswith('PointerCoercion(Unsize'):
            tt = types[r['t']]

            def fu(S):
                v = a(S)
                if v[0] == 'RV' and v[1][0] == 'A':
                    return ('SL', ('k', v[1][2]), ZERO, C(len(v[1][2])))
                if v[0] == 'R':
                    w = deref(S, v)
                    if w is not None and w[0] == 'A':
                        return ('SL', ('m', v[1], v[2]), ZERO, C(len(w[2])))
                return v
            return fu
        if ck.startswith('PointerCoercion') or ck.startswith('PtrToPtr') or ck.startswith('FnPtr'):
            return a
        if ck.startswith('Transmute') or ck.startswith('BoxDeref') or ck.startswith('Subtype'):
            st = self.op_ty(f, r['a'])
            tt = types[r['t']]
            en = tt['k'] == 'adt' and tt['enum']

            def ft(S):
                v = a(S)
                if en and type(v) is N:
                    # transmute of an integer to a field-less enum
                    ds = [x['d'] for x in tt['v']]
                    if any(x['f'] for x in tt['v']):
                        raise Unsupported('transmute to data enum')
                    for i, d in enumerate(ds):
                        if decide(S, compare(S, 'eq', v, C(d))):
                            return ('E', r['t'], (), i)
                    raise Violation('ub', 'transmute produces an invalid %s' % tt['n'])
                if type(v) is N and tt['k'] not in ('int', 'bool', 'char') or type(v) is not N and v[0] == 'A' and tt['k'] == 'int':
                    raise Unsupported('transmute')
                if type(v) is tuple and v[0] == 'E' and tt['k'] == 'int':
                    return C(types[v[1]]['v'][v[3]]['d'])
                return v
            return ft

        def uns(S):
            raise Unsupported('cast ' + ck)
        return uns

    def c_bin(self, f, r, dty):
        op = r['op']
        a = self.c_op(r['a'])
        b = self.c_op(r['b'])
        ot = self.op_ty(f, r['a'])
        ii = self.int_info(ot) if ot is not None else (64, False)
        if ii is None:
            tk = self.types[ot]['k']
            if op in ('Eq', 'Ne') and tk in ('ref', 'ptr', 'fnptr'):
                def fe(S):
                    x, y = a(S), b(S)
                    if x == y:
                        return C(1 if op == 'Eq' else 0)
                    if x[0] == 'RE' and y[0] == 'RE' and x[1] == y[1]:
                        v = compare(S, 'eq', x[2], y[2])
                        return v if op == 'Eq' else p_not(v)
                    raise Unsupported('pointer comparison')
                return fe
            if op == 'Offset':
                def fo(S):
                    x, y = a(S), b(S)
                    if x[0] != 'RE':
                        raise Unsupported('pointer arithmetic')
                    return ('RE', x[1], add(x[2], y))
                return fo

            def uns(S):
                raise Unsupported('binop %s on %s' % (op, tk))
            return uns
        w, sg = ii
        full = (1 << w) - 1
        lo_, hi_ = (-(1 << (w - 1)), full >> 1) if sg else (0, full)
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            def fc(S):
                x, y = a(S), b(S)
                if type(x) is tuple:
                    if x[0] not in ('P', 'NP'):
                        raise Unsupported('compare %r' % (x,))
                    x = C(1 if decide(S, x) else 0)
                if type(y) is tuple:
                    if y[0] not in ('P', 'NP'):
                        raise Unsupported('compare %r' % (y,))
                    y = C(1 if decide(S, y) else 0)
                if op == 'Lt':
                    return compare(S, 'lt', x, y)
                if op == 'Gt':
                    return compare(S, 'lt', y, x)
                if op == 'Le':
                    return compare(S, 'le', x, y)
                if op == 'Ge':
                    return compare(S, 'le', y, x)
                v = compare(S, 'eq', x, y)
                return v if op == 'Eq' else p_not(v)
            return fc
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        wo = op.endswith('WithOverflow')
        unck = op.endswith('Unchecked')
        if base in ('Add', 'Sub', 'Mul'):
            def fa(S):
                x, y = a(S), b(S)
                if base == 'Add':
                    v = add(x, y)
                elif base == 'Sub':
                    v = sub(x, y)
                else:
                    v = mul(S, x, y)
                env = S.env
                if wo:
                    blo, bhi = env.base(v)
                    if blo >= lo_ and bhi <= hi_:
                        return ('S', None, (v, ZERO))
                    q = env.single(v)
                    if q is not None:
                        return ('S', None, (v, env.tabulate(q, lambda t: 0 if lo_ <= t <= hi_ else 1, v)))
                    blo, bhi = env.bounds(v)
                    if blo >= lo_ and bhi <= hi_:
                        return ('S', None, (v, ZERO))
                    if base == 'Sub' and not sg:
                        return ('S', None, (v, ('P', 'lt', x, y)))
                    if blo >= lo_:
                        return ('S', None, (v, ('P', 'lt', C(hi_), v)))
                    if bhi <= hi_:
                        return ('S', None, (v, ('P', 'lt', v, C(lo_))))
                    raise Unsupported('overflow both ways')
                blo, bhi = env.bounds(v)
                if blo >= lo_ and bhi <= hi_:
                    return v
                if unck:
                    return v
                if sg:
                    return env.havoc(lo_, hi_)
                if blo < 0:
                    q = env.single(v)
                    if q is not None:
                        return env.tabulate(q, lambda t: t & full, v)
                    if decide(S, ('P', 'lt', v, ZERO)):
                        return add(v, C(full + 1)) if bhi - blo <= full else env.havoc(0, full)
                    return v
                return env.wrap(v, w)
            return fa
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            isb = ot is not None and self.types[ot]['k'] == 'bool'

            def fb(S):
                x, y = a(S), b(S)
                if isb:
                    if type(x) is tuple or type(y) is tuple:
                        p, q = decide(S, x), decide(S, y)
                        v = (p and q) if base == 'BitAnd' else (p or q) if base == 'BitOr' else p != q
                        return C(1 if v else 0)
                e = S.env
                return e.band(x, y, w) if base == 'BitAnd' else e.bor(x, y, w) if base == 'BitOr' else e.bxor(x, y, w)
            return fb
        if base in ('Shl', 'Shr'):
            def fs(S):
                x, y = a(S), b(S)
                kk = S.env.const(y)
                if kk is None:
                    q = S.env.single(x, y)
                    if q is not None and not sg:
                        if base == 'Shl':
                            return S.env.tabulate(q, lambda s, t: (s << (t % w)) & full, x, y)
                        return S.env.tabulate(q, lambda s, t: s >> (t % w), x, y)
                    return S.env.havoc(lo_, hi_)
                kk %= w
                if sg:
                    return S.env.havoc(lo_, hi_)
                return S.env.shl(x, kk, w) if base == 'Shl' else S.env.shr(x, kk, w)
            return fs
        if base in ('Div', 'Rem'):
            def fdv(S):
                x, y = a(S), b(S)
                e = S.env
                q = e.single(x, y)
                if not x.m and not y.m and y.c:
                    return C(x.c // y.c if base == 'Div' else x.c % y.c)
                if q is not None:
                    return e.tabulate(q, (lambda s, t: s // t if t else 0) if base == 'Div' else (lambda s, t: s % t if t else 0), x, y)
                d = e.const(y)
                xl, xh = e.bounds(x)
                if d and xl >= 0:
                    if d & (d - 1) == 0:
                        return e.shr(x, d.bit_length() - 1, w) if base == 'Div' else e.band(x, C(d - 1), w)
                    return e.havoc(xl // d, xh // d) if base == 'Div' else e.havoc(0, min(xh, d - 1))
                return e.havoc(lo_, hi_)
            return fdv

        def uns(S):
            raise Unsupported('binop ' + op)
        return uns

    def compile_block(self, f, bi):
        bb = f['body']['blocks'][bi]
        out = []
        for s in bb['s']:
            k = s[0]
            if k == '=':
                try:
                    w = self.c_write(s[1])
                    r = self.c_rvalue(f, s[2], self.place_ty(f, s[1]))
                except Unsupported as e:
                    out.append(self._uns(str(e)))
                    continue
                if not s[1]['p']:
                    l = s[1]['l']

                    def st(S, l=l, r=r):
                        S.mem[S.base + l] = r(S)
                else:
                    def st(S, w=w, r=r):
                        w(S, r(S))
                out.append(st)
            elif k == 'sx':
                l = s[1]

                def st(S, l=l):
                    S.mem.pop(S.base + l, None)
                out.append(st)
            elif k == 'sd':
                res = self.c_resolve(s[1])
                pt = self.place_ty(f, s[1])

                def st(S, res=res, vi=s[2], pt=pt):
                    kk, a, b = res(S)
                    try:
                        v = load(S, a, b)
                    except Unsupported:
                        v = None
                    store(S, a, b, ('E', pt, v[2] if v else (), vi))
                out.append(st)
            elif k == 'assume':
                o = self.c_op(s[1])

                def st(S, o=o):
                    if not decide(S, o(S)):
                        raise Dead()
                out.append(st)
            elif k == 'cno':
                out.append(self._uns('copy_nonoverlapping'))
        span = None
        t = bb['t']
        return (out, t, self.compile_term(f, bi, t))

    def _uns(self, msg):
        def st(S):
            raise Unsupported(msg)
        return st

    def compile_term(self, f, bi, t):
        k = t[0]
        if k == 'goto':
            return None
        if k == 'switch':
            return self.c_op(t[1])
        if k == 'assert':
            return self.c_op(t[1])
        if k == 'call':
            return ([self.c_op(o) for o in t[2]], self.c_write(t[3]), self.c_resolve(t[3]),
                    self.c_op(t[1][1]) if t[1][0] == 'ptr' else None, self.place_ty(f, t[3]))
        return None


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + ([t[3]] if t[3] is not None and t[3] >= 0 else [])
    if k == 'assert':
        return [t[4]]
    if k == 'call':
        return [t[4]] if t[4] is not None and t[4] >= 0 else []
    if k == 'drop':
        return [t[2]]
    return []


def mul(S, x, y):
    if x.m and not y.m:
        x, y = y, x
    if not x.m:
        r = scale(y, x.c)
        if r is not None:
            return r
    e = S.env
    q = e.single(x, y)
    if q is not None:
        return e.tabulate(q, lambda s, t: s * t, x, y)
    a, b = e.bounds(x)
    c, d = e.bounds(y)
    v = (a * c, a * d, b * c, b * d)
    return e.havoc(min(v), max(v))
