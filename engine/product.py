"""Product of the code (abstract interpreter) with a reference automaton.

The automaton reads the same symbolic input as the code.  It runs ahead of the callbacks: whatever
bytes the code has consumed, the automaton consumes too, and appends what a handler must be told
(data, events, errors) to a queue.  Each callback the code makes must match the front of the queue;
each return must agree with the automaton's position, queue and state.  A mismatch on any abstract
path is a violation.

Automaton states (spec.states[name]):
  ('byte', ((mask, actions, next, consume), ...), grp)
  ('count', reg, cb, next, grp)                consume reg bytes as data of callback cb
  ('eps', actions, next, lazy, grp)            no byte; lazy: only when the code acts on it
  ('case', ((reg, op, const|reg, next), ..., (None, None, None, next)), grp)   first match wins
  ('query', name, reg, next_some, next_none, grp)
  ('bnd', reg, next, mismatch_actions, mismatch_next | None, errkind, grp)
  ('final', grp)   ('dead', grp)
Actions:
  ('raw', cb) ('map', cb, tab) ('lit', cb, bytes) ('ev', name, args) ('set', reg, const)
  ('acc', reg, mul, tab) ('err', kind, withbyte) ('pre', cb, reg)  ('copy', reg, reg2) ('add', reg, term)
"""
from terms import *
from interp import *
from machine import *
from fixpoint import Fix, fvals


class Spec:
    stream_mask = FULL
    hold = ()             # states in which bytes already consumed are still to be delivered
    look = {}             # bytes ahead of the stream index that matter, per state
    limit = None          # register holding the number of bytes that remain before 'limit_next'
    limit_next = None
    exact = None          # registers related to the code's fields bit for bit (None: no bit structure)

    def __init__(self, name):
        self.name = name
        self.states = {'lost': ('lost', None)}
        self.start = None
        self.nregs = 0
        self.data_cbs = {}
        self.init = {}

    def byte(self, name, grp, *trans, **kw):
        rest = FULL
        out = []
        for t in trans:
            m, acts, nx = t[0], t[1], t[2]
            cons = t[3] if len(t) > 3 else True
            m &= rest
            rest &= ~m
            if m:
                out.append((m, tuple(acts), nx, cons))
        if rest:
            e = kw.get('err')
            if e is None:
                raise ValueError('incomplete state ' + name)
            out.append((rest, (('err', e, kw.get('withbyte', True)),), 'dead', True))
        self.states[name] = ('byte', tuple(out), grp)

    def live(self):
        """registers whose value still matters in each state"""
        use, dfn, nxt = {}, {}, {}

        def acts(al):
            u, d = set(), set()
            for a in al:
                r = []
                if a[0] == 'acc':
                    r = [a[1]]
                elif a[0] == 'sub':
                    r = [a[1]] + ([a[2][1]] if type(a[2]) is tuple else [])
                elif a[0] in ('pre', 'val'):
                    r = [a[2]]
                elif a[0] == 'set' and type(a[2]) is tuple:
                    r = [a[2][1]]
                elif a[0] == 'ev':
                    r = [x for x in a[2] if type(x) is int] + [x[1] for x in a[2] if type(x) is tuple and x[0] in ('bit', 'and', 'shr')]
                u |= {x for x in r if x not in d}
                if a[0] == 'set':
                    d.add(a[1])
            return u, d
        paths = {}
        for n, s in self.states.items():
            p = []
            if s[0] == 'byte':
                p = [acts(t[1]) + (t[2],) for t in s[1]]
            elif s[0] == 'count':
                p = [({s[1]}, set(), s[3]), ({s[1]}, set(), n)]
            elif s[0] == 'countb':
                p = [({s[1], s[2]}, set(), s[4]), ({s[1], s[2]}, set(), n)]
            elif s[0] == 'eps':
                p = [acts(s[1]) + (s[2],)]
            elif s[0] in ('case', 'scase'):
                for reg, op, c, nx in s[1]:
                    u = set() if reg is None else {reg}
                    if type(c) is tuple and c and c[0] == 'reg':
                        u.add(c[1])
                    p.append((u, set(), nx))
                allu = set().union(*[x[0] for x in p])
                p = [(allu, d, nx) for _, d, nx in p]
            elif s[0] == 'query':
                p = [(set(), {s[2]}, s[3]), (set(), set(), s[4])]
            elif s[0] == 'bnd':
                p = [({s[1]}, set(), s[2]), ({s[1]}, set(), n)]
                if s[4] is not None:
                    u, d = acts(s[3])
                    p.append((u, {s[1]}, s[4]))
            if self.limit is not None and s[0] not in ('final', 'dead'):
                p.append(({self.limit}, set(), self.limit_next))
            paths[n] = p
        lv = {n: set() for n in self.states}
        ch = True
        while ch:
            ch = False
            for n, p in paths.items():
                v = set()
                for u, d, nx in p:
                    v |= u | (lv[nx] - d)
                if v != lv[n]:
                    lv[n] = v
                    ch = True
        self.livemap = lv

    def check(self):
        self.live()
        for n, s in self.states.items():
            if s[0] == 'byte':
                for t in s[1]:
                    assert t[2] in self.states, (n, t[2])


class Item:
    pass


SPEC_KINDS = ('event', 'data', 'value', 'error', 'finish', 'item', 'stop', 'dead', 'abort', 'eos', 'offset', 'count')


class Product(Fix):
    """callbacks: 'any' (each may return false) or 'true'"""

    def __init__(self, prog, spec, cbmode='any', split='any'):
        Fix.__init__(self, prog)
        self.spec = spec
        self.cbmode = cbmode
        self.split = split
        self.bs_cache = None
        self.grpobl = {}
        self.obl = {'events': 0, 'data': 0, 'exits': 0, 'heads': 0}
        self.exit_kinds = {}
        self.event_sites = set()
        self.api = []

    def holds(self, S):
        return S.ctrl in self.spec.hold

    def lookahead(self, S):
        return self.spec.look.get(S.ctrl, 0)

    def live_regs(self, S):
        return self.spec.livemap[S.ctrl]

    def exact_regs(self):
        return self.spec.exact

    def limit_reg(self):
        return self.spec.limit

    # ------------------------------------------------------------ byte stream
    def find_bs(self, S):
        c = self.bs_cache
        tys = self.prog.bs_ty
        if c is not None:
            v = S.mem.get(c)
            if type(v) is tuple and v[0] == 'S' and v[1] in tys and len(v[2]) >= 4 and v[2][3] is not None:
                return v, v[1]
        for k, v in S.mem.items():
            if type(v) is tuple and v and v[0] == 'S' and v[1] in tys and len(v[2]) >= 4 and all(x is not None for x in v[2]):
                self.bs_cache = k
                return v, v[1]
        for k, v in S.mem.items():
            r = self._nested(v, 0)
            if r is not None:
                return r, r[1]
        return None

    def _nested(self, v, d):
        if type(v) is not tuple or len(v) < 3 or v[0] not in ('S', 'E') or d > 4:
            return None
        if v[0] == 'S' and v[1] in self.prog.bs_ty and len(v[2]) >= 4 and all(x is not None for x in v[2]):
            return v
        for x in v[2]:
            if type(x) is tuple:
                r = self._nested(x, d + 1)
                if r is not None:
                    return r
        return None

    def bs_index(self, S):
        b = self.find_bs(S)
        if b is None:
            return None
        return b[0][2][self.prog.bs_ty[b[1]]['stream_index']]

    # ------------------------------------------------------------ violations
    def violation(self, S, e):
        loc = self.location(S)
        st = self.spec.states.get(S.ctrl)
        grp = e.kw.get('grp') or (st[-1] if st else None)
        ps = self.pstate() if e.kind == 'error' else None
        key = (e.kind, e.msg, loc['full'] if loc else '-', grp, ps)
        if key not in self.violations:
            self.violations[key] = {'kind': e.kind, 'msg': e.msg, 'fn': loc['full'] if loc else '-',
                                    'path': loc['path'] if loc else '-', 'pstate': ps, 'from': self.origin_fns(),
                                    'line': self.line(S), 'ctrl': S.ctrl, 'grp': grp, 'rec': S.origin,
                                    'state': self.describe(S), 'trail': S.trail}

    follow = False       # (parsers: what the automaton knows about a byte seen ahead is needed to see progress)

    def lose(self, S, e):
        """the code and the automaton disagree: from here on the code is followed alone, for what does not need the
        automaton (memory, panics, termination)"""
        if not self.follow or e.kind not in SPEC_KINDS or S.ctrl == 'lost':
            return False
        S.ctrl = 'lost'
        S.queue = ()
        S.choice = None
        S.aborted = False
        S.regs = (ZERO,) * len(S.regs)
        if 'text' in S.mem:
            S.mem['text'] = ('GH',)
        i = self.bs_index(S)
        if i is not None and S.sp is not None:
            S.sp = i
        return True

    def origin_fns(self):
        r = self.cur_rec
        v = r.S.mem.get('parser') if r is not None else None
        return [] if v is None else [self.prog.fns[i]['full'] if type(i) is int else str(i) for i in fvals(v, [])]

    def pstate(self):
        """the parser's state at the loop head the violating path starts from"""
        r = self.cur_rec
        v = r.S.mem.get('parser') if r is not None else None
        if v is None:
            return None
        t = self.prog.types
        for x in v[2]:
            if type(x) is tuple and x and x[0] == 'E' and t[x[1]].get('path', '').endswith('ParserState'):
                return t[x[1]]['v'][x[3]]['n']
        return None

    def line(self, S):
        if S.fn is None:
            return None
        try:
            bb = self.prog.fns[S.fn]['body']['blocks'][S.bb]
            t = bb['t']
            sp = t[-1] if isinstance(t[-1], str) else None
            if sp is None and bb['s']:
                for s in reversed(bb['s']):
                    if isinstance(s[-1], str):
                        return s[-1]
            return sp
        except Exception:
            return None

    def describe(self, S):
        b = self.find_bs(S)
        return 'spec=%s queue=%r sp=%r idx=%r aborted=%s' % (S.ctrl, S.queue, S.sp, self.bs_index(S) if b else None, S.aborted)

    def bad(self, kind, msg, **kw):
        raise Violation(kind, msg, **kw)

    # ------------------------------------------------------------ automaton
    def do_actions(self, S, acts, t, grp, pos):
        self.grpobl[grp] = self.grpobl.get(grp, 0) + 1
        for a in acts:
            k = a[0]
            if k == 'raw':
                self.push_seg(S, a[1], ('r', ('st',), pos, add(pos, ONE)), grp)
            elif k == 'map':
                self.push_seg(S, a[1], ('b', self.tab(S, t, a[2])), grp)
            elif k == 'lit':
                for ch in a[2]:
                    self.push_seg(S, a[1], ('b', C(ch)), grp)
            elif k == 'litr':
                # bytes already consumed: in this slice if they fit, else in an earlier one
                n = len(a[2])
                for j in range(n):
                    q = add(pos, C(j - n))
                    if decide(S, compare(S, 'le', ZERO, q)):
                        self.push_seg(S, a[1], ('h', q, C(a[2][j])), grp)
                    else:
                        self.push_seg(S, a[1], ('b', C(a[2][j])), grp)
            elif k == 'pre':
                r = S.regs[a[2]]
                if not (not r.m and r.c == 0):
                    if decide(S, compare(S, 'lt', ZERO, r)):
                        self.push_seg(S, a[1], ('r', self.boundary_base, ZERO, r), grp)
            elif k == 'ev':
                args = tuple(S.regs[x] if type(x) is int else C(x[1]) if x[0] == 'c' else
                             (x[0], S.regs[x[1]], x[2]) if x[0] in ('and', 'shr') else x for x in a[2])
                S.queue = S.queue + (('e', a[1], args, a[3] if len(a) > 3 else grp),)
            elif k == 'set':
                v = a[2]
                self.setreg(S, a[1], C(v) if type(v) is int else S.regs[v[1]])
            elif k == 'acc':
                r = S.regs[a[1]]
                self.setreg(S, a[1], add(scale(r, a[2]), self.tab(S, t, a[3])))
            elif k == 'sub':
                self.setreg(S, a[1], sub(S.regs[a[1]], C(a[2]) if type(a[2]) is int else S.regs[a[2][1]]))
            elif k == 'err':
                S.queue = S.queue + (('err', a[1], t if a[2] is True else a[2], grp),)
            elif k == 'val':
                self.push_seg(S, a[1], ('b', S.regs[a[2]]), grp)
            elif k == 'fin':
                S.queue = S.queue + (('fin', a[1], grp),)
            else:
                raise ValueError(k)

    def setreg(self, S, i, v):
        r = list(S.regs)
        r[i] = v
        S.regs = tuple(r)

    def tab(self, S, t, f):
        if not t.m:
            return C(f[t.c])
        y = t.m[0][0]
        m = S.env.syms[y][1]
        bs = bits(m)
        v0 = f[bs[0]]
        if all(f[i] == v0 for i in bs):
            return C(v0)
        if all(f[i] == i for i in bs):
            return t
        return bsym(y, tab_intern(tuple(f)))

    def push_seg(self, S, cb, seg, grp):
        q = S.queue
        if q and q[-1][0] == 'd' and q[-1][1] == cb:
            segs = q[-1][2]
            l = segs[-1]
            if seg[0] == 'r' and l[0] == 'r' and l[1] == seg[1] and (l[3] == seg[2] or S.env.eq(l[3], seg[2])):
                segs = segs[:-1] + (('r', seg[1], l[2], seg[3]),)
            else:
                segs = segs + (seg,)
                if len(segs) > 24:
                    self.bad('data', 'data for %s is not delivered' % cb, grp=grp)
            S.queue = q[:-1] + (('d', cb, segs, q[-1][3]),)
        else:
            S.queue = q + (('d', cb, (seg,), grp),)
            if len(S.queue) > 24:
                self.bad('event', 'events are not delivered', grp=grp)

    def eager(self, S, force=False):
        """transitions that need no byte"""
        for _ in range(50):
            st = self.spec.states[S.ctrl]
            k = st[0]
            if k == 'eps' and not st[3]:
                S.ctrl = st[2]
                self.do_actions(S, st[1], None, st[-1], S.sp)
            elif k == 'case' or k == 'scase':
                if k == 'scase' and not force:
                    # only if it is already decided
                    try:
                        self.take_case(S, st)
                    except Fork:
                        return
                    continue
                self.take_case(S, st)
            elif k == 'count':
                r = S.regs[st[1]]
                if decide(S, compare(S, 'eq', r, ZERO)):
                    S.ctrl = st[3]
                else:
                    return
            elif k == 'countb':
                if decide(S, compare(S, 'le', S.regs[st[1]], S.regs[st[2]])):
                    self.do_actions(S, (('fin', st[3]),), None, 'G04', S.sp)
                    S.ctrl = st[4]
                else:
                    return
            elif k == 'bnd':
                if decide(S, compare(S, 'eq', S.regs[st[1]], self.blen(S))):
                    S.ctrl = st[2]
                else:
                    return
            else:
                return
        raise Unsupported('automaton loops')

    def take_case(self, S, st):
        for reg, op, c, nx in st[1]:
            if reg is None:
                S.ctrl = nx
                return
            if op == 'in':
                r = any(decide(S, compare(S, 'eq', S.regs[reg], C(x))) for x in c)
            elif op == 'bit':
                r = decide(S, S.env.band(S.regs[reg], C(c), 8))
            else:
                r = decide(S, compare(S, op, S.regs[reg], C(c) if type(c) is int else S.regs[c[1]]))
            if r:
                S.ctrl = nx
                return

    def advance(self, S, to):
        spec = self.spec
        env = S.env
        steps = 0
        first = spec.states[S.ctrl][-1]
        while True:
            self.eager(S)
            sp = S.sp
            steps += 1
            if steps > 80:
                g = spec.states[S.ctrl][-1]
                self.bad('data', 'bytes are consumed as a block where each byte matters', grp=g if g == first else first + '/' + g)
            if sp == to:
                return
            d = sub(to, sp)
            if not d.m:
                if d.c <= 0:
                    return
            elif not decide(S, compare(S, 'lt', sp, to)):
                return
            st = spec.states[S.ctrl]
            k = st[0]
            if k == 'eps':
                S.ctrl = st[2]
                self.do_actions(S, st[1], None, st[-1], S.sp)
                continue
            if k == 'scase':
                self.eager(S, True)
                continue
            if k == 'byte':
                t = cell(S, sp)
                y = t.m[0][0] if t.m else None
                if y is None:
                    m = 1 << t.c
                else:
                    m = S.env.syms[y][1]
                hit = [x for x in st[1] if x[0] & m]
                if len(hit) > 1:
                    raise Fork([_mask_alt(y, x[0]) for x in hit])
                tr = hit[0]
                S.ctrl = tr[2]
                self.do_actions(S, tr[1], t, st[-1], sp)
                if tr[3]:
                    S.sp = add(sp, ONE)
                continue
            if k == 'count':
                r = S.regs[st[1]]
                if decide(S, compare(S, 'le', r, sub(to, sp))):
                    n = r
                    self.setreg(S, st[1], ZERO)
                    S.ctrl = st[3]
                else:
                    n = sub(to, sp)
                    self.setreg(S, st[1], sub(r, n))
                if st[2] is not None:
                    self.push_seg(S, st[2], ('r', ('st',), sp, add(sp, n)), st[-1])
                S.sp = add(sp, n)
                self.grpobl[st[-1]] = self.grpobl.get(st[-1], 0) + 1
                continue
            if k == 'countb':
                r = sub(S.regs[st[1]], S.regs[st[2]])
                if decide(S, compare(S, 'le', r, sub(to, sp))):
                    n = r
                    self.setreg(S, st[1], S.regs[st[2]])
                else:
                    n = sub(to, sp)
                    self.setreg(S, st[1], sub(S.regs[st[1]], n))
                self.push_seg(S, st[3], ('r', ('st',), sp, add(sp, n)), st[-1])
                S.sp = add(sp, n)
                self.grpobl[st[-1]] = self.grpobl.get(st[-1], 0) + 1
                continue
            if k in ('free', 'any', 'lost'):
                S.sp = to
                continue
            if k == 'bnd':
                self.step_bnd(S, st, sp, to)
                continue
            if k == 'query':
                self.bad('event', 'bytes consumed before %s() is asked' % st[1], grp=st[-1])
            if k == 'final':
                self.bad('finish', 'bytes consumed after the message ended', grp=st[-1])
            if k == 'dead':
                q = S.queue
                if q and q[0][0] == 'err':
                    self.bad('error', 'input continues past a byte that must be reported as an error (%s)' % q[0][1], grp=q[0][3])
                self.bad('dead', 'bytes consumed after an error', grp=st[-1])
            raise Unsupported('automaton state ' + k)

    def step_bnd(self, S, st, sp, to):
        env = S.env
        m = S.regs[st[1]]
        hit = other = None
        for (p, b, n), v in S.cmps.items():
            if n != ZERO and env.eq(p, sp):
                if env.eq(b, m):
                    hit = (n, v)
                elif n.m and v:
                    other = b
        if hit is None and other is not None and not decide(S, compare(S, 'eq', other, m)):
            self.bad('data', 'bytes are compared with the wrong part of the boundary', grp=st[-1])
        if hit is not None:
            n, v = hit
            if v:
                # do not run past what the code has consumed
                if decide(S, compare(S, 'le', n, sub(to, sp))):
                    self.setreg(S, st[1], add(m, n))
                    S.sp = add(sp, n)
                    return
            else:
                self.mismatch(S, st, sp, None)
                return
        t = cell(S, sp)
        bt = read_base(S, self.boundary_base, m)
        if decide(S, compare(S, 'eq', t, bt)):
            self.setreg(S, st[1], add(m, ONE))
            S.sp = add(sp, ONE)
        else:
            self.mismatch(S, st, sp, t)

    def mismatch(self, S, st, sp, t):
        if st[4] is None:
            S.ctrl = 'dead'
            S.queue = S.queue + (('err', st[5], None, st[-1], True),)
            S.sp = add(sp, ONE)
        else:
            self.do_actions(S, st[3], t, st[-1], sp)
            S.ctrl = st[4]
            self.setreg(S, st[1], ZERO)

    def blen(self, S):
        return S.extra[1]

    # ------------------------------------------------------------ matching
    def sync(self, S):
        i = self.bs_index(S)
        if i is not None:
            self.advance(S, i)
        else:
            self.eager(S)

    def is_event(self, S, c):
        if self.spec.trait in c.get('trait', ''):
            return c.get('method')
        return None

    def event(self, S, name, args, dty):
        if S.ctrl == 'lost' and S.choice is None:
            if name == self.spec.query:
                raise Fork([_set_choice(('len', opt_some(dty, wsym(S.env.neww(0, self.spec.query_max))))),
                            _set_choice(('len', opt_none(dty)))])
            if self.cbmode == 'any':
                raise Fork([_set_choice(('cb', 1)), _set_choice(('cb', 0))])
            return ONE
        if S.choice is not None and S.choice[0] == 'cb':
            # the callback was matched; take its result
            v = S.choice[1]
            S.choice = None
            if not v:
                S.aborted = True
            return C(v)
        if S.choice is not None and S.choice[0] == 'len':
            v = S.choice[1]
            S.choice = None
            return v
        snap = (S.queue, S.ctrl, S.regs, S.sp, S.extra)
        try:
            self.sync(S)
        except Fork:
            S.queue, S.ctrl, S.regs, S.sp, S.extra = snap
            raise
        self.event_sites.add((self.location(S)['full'], name))
        if S.aborted:
            self.bad('abort', '%s called after a callback returned false' % name)
        args = args[1:]
        if name == self.spec.query:
            return self.do_query(S, name, dty)
        # (state is copied: matching forks re-execute)
        snap = (S.queue, S.ctrl, S.regs, S.sp, S.extra)
        try:
            self.match(S, name, args)
        except Fork:
            S.queue, S.ctrl, S.regs, S.sp, S.extra = snap
            raise
        if self.cbmode == 'any':
            raise Fork([_set_choice(('cb', 1)), _set_choice(('cb', 0))])
        return ONE

    def match(self, S, name, args):
        st = self.spec.states[S.ctrl]
        if st[0] == 'any':
            self.obl['events'] += 1
            if name == st[1]:
                # the automaton takes part again
                for i, a in enumerate(args):
                    self.setreg(S, i, a)
                for i in range(len(args), self.spec.nregs):
                    self.setreg(S, i, ZERO)
                S.ctrl = st[2]
        elif args and type(args[0]) is tuple and args[0][0] not in ('P', 'NP', 'E', 'S'):
            self.match_data(S, name, args)
            self.obl['data'] += 1
        else:
            self.match_event(S, name, args)
            self.obl['events'] += 1

    def do_query(self, S, name, dty):
        st = self.spec.states[S.ctrl]
        if st[0] != 'query' or S.queue:
            self.bad('event', '%s() asked at the wrong point' % name, grp=st[-1])

        def some(T):
            v = wsym(T.env.neww(0, self.spec.query_max))
            self.setreg(T, st[2], v)
            T.ctrl = st[3]
            T.choice = ('len', opt_some(dty, v))
            return True

        def none(T):
            T.ctrl = st[4]
            T.choice = ('len', opt_none(dty))
            return True
        raise Fork([some, none])

    def front(self, S, name, kind):
        """bring the automaton to its next output if it has none yet"""
        for _ in range(8):
            if S.queue:
                return S.queue[0]
            st = self.spec.states[S.ctrl]
            if st[0] == 'eps' and (st[3] != 'byte' or self.more(S)):
                S.ctrl = st[2]
                self.do_actions(S, st[1], None, st[-1], S.sp)
                self.eager(S)
                continue
            if self.spec.limit is not None and S.ctrl not in ('final', 'dead') and \
                    decide(S, compare(S, 'eq', S.sp, S.regs[self.spec.limit])):
                S.ctrl = self.spec.limit_next
                self.eager(S)
                continue
            if st[0] == 'scase':
                self.eager(S, True)
                continue
            # a byte the code has seen but not consumed, where it decides without being consumed
            if st[0] == 'byte' and any(not x[3] for x in st[1]) and S.sp in S.cells:
                t = S.cells[S.sp]
                y = t.m[0][0] if t.m else None
                m = 1 << t.c if y is None else S.env.syms[y][1]
                hit = [x for x in st[1] if x[0] & m]
                if len(hit) > 1:
                    raise Fork([_mask_alt(y, x[0]) for x in hit])
                if not hit[0][3]:
                    S.ctrl = hit[0][2]
                    self.do_actions(S, hit[0][1], t, st[-1], S.sp)
                    self.eager(S)
                    continue
            if st[0] == 'bnd' and st[4] is not None:
                for (p, b, n), v in S.cmps.items():
                    if not v and n != ZERO and S.env.eq(p, S.sp) and S.env.eq(b, S.regs[st[1]]):
                        self.mismatch(S, st, S.sp, None)
                        break
                else:
                    return None
                continue
            return None
        return None

    def more(self, S):
        """a byte follows in this slice"""
        if S.L is None or not decide(S, compare(S, 'lt', S.sp, S.L)):
            return False
        l = self.spec.limit
        return l is None or decide(S, compare(S, 'lt', S.sp, S.regs[l]))

    def match_event(self, S, name, args):
        f = self.front(S, name, 'e')
        if f is None:
            self.bad('event', 'unexpected %s()' % name)
        if f[0] != 'e' or f[1] != name:
            what = {'e': f[1] + '()' if f[0] == 'e' else '', 'd': 'data for %s' % f[1], 'err': 'error %s' % f[1],
                    'fin': 'end of %s' % f[1]}[f[0]]
            self.bad('event', '%s() called where %s is due' % (name, what), grp=f[3] if f[0] != 'fin' else f[2])
        if len(args) != len(f[2]):
            self.bad('event', '%s(): argument count' % name, grp=f[3])
        for i, (a, b) in enumerate(zip(args, f[2])):
            if type(a) is tuple:
                a = C(1 if decide(S, a) else 0)
            if type(b) is tuple and b[0] == 'and':
                if S.env.ub(a) > b[2]:
                    self.violation(S, Violation('reserved', '%s(): argument %d may have its reserved bit set' % (name, i + 1), grp=f[3]))
                b = S.env.band(b[1], C(b[2]), 32)
            elif type(b) is tuple and b[0] == 'shr':
                b = S.env.shr(b[1], b[2], 32)
            if type(b) is tuple:
                if b[0] == 'bit':
                    v = S.env.band(S.regs[b[1]], C(b[2]), 32)
                    b = C(1 if decide(S, v) else 0)
            if not S.env.eq(a, b):
                if S.env.single(a, b) is not None or decide(S, compare(S, 'eq', a, b)) is False:
                    self.bad('value', '%s(): argument %d is not the value the bytes denote' % (name, i + 1), grp=f[3])
        S.queue = S.queue[1:]
        self.eager(S)

    def match_data(self, S, name, args):
        sl = as_slice(S, args[0])
        if not sl[3].m and sl[3].c == 0 or not decide(S, compare(S, 'lt', ZERO, sl[3])):
            return self.match_empty(S, name, args)
        segs = slice_segs(S, sl)
        # the automaton may be behind if the code delivers before it advances its index
        for s in segs:
            if s[0] == 'r' and s[1][0] == 'st':
                self.advance(S, s[3])
        env = S.env
        grp = None
        i = 0
        segs = list(segs)
        while i < len(segs):
            cs = segs[i]
            if cs[0] == 'r' and decide(S, compare(S, 'eq', cs[2], cs[3])):
                i += 1
                continue
            f = self.front(S, name, 'd')
            if f is None:
                self.bad('data', '%s() is given bytes it must not get' % name, grp=grp)
            if f[0] == 'fin' and grp is not None:
                self.bad('data', '%s() is given bytes it must not get' % name, grp=grp)
            if f[0] != 'd' or f[1] != name:
                self.bad('event' if grp is None else 'data', '%s() called where %s is due' % (name, f[1]), grp=grp or (f[3] if f[0] != 'fin' else f[2]))
            if grp is not None and f is not cur:
                if len(S.queue) and f[2] is not curseg:
                    pass
            grp = f[3]
            cur = f
            curseg = f[2]
            ss = f[2][0]
            rest = f[2][1:]
            if ss[0] == 'r' and cs[0] == 'r':
                if ss[1][0] != cs[1][0] or (ss[1][0] == 'sy' and ss[1][1] != cs[1][1]):
                    self.bad('data', '%s() gets bytes from the wrong place' % name, grp=grp)
                if not env.eq(ss[2], cs[2]):
                    if not decide(S, compare(S, 'eq', ss[2], cs[2])):
                        self.bad('data', '%s() skips or repeats bytes' % name, grp=grp)
                sl_, cl_ = sub(ss[3], ss[2]), sub(cs[3], cs[2])
                if decide(S, compare(S, 'le', cl_, sl_)):
                    i += 1
                    ns = () if env.eq(cl_, sl_) or decide(S, compare(S, 'eq', cl_, sl_)) else (('r', ss[1], add(ss[2], cl_), ss[3]),)
                else:
                    segs[i] = ('r', cs[1], add(cs[2], sl_), cs[3])
                    ns = ()
            else:
                if ss[0] == 'b':
                    a, ns = ss[1], ()
                elif ss[0] == 'h':
                    a, ns = ss[2], ()
                    if cs[0] == 'r' and cs[1][0] == 'st' and env.eq(cs[2], ss[1]):
                        cs = ('r', cs[1], add(cs[2], ONE), cs[3])
                        segs[i] = cs
                        nsegs = ns + rest
                        S.queue = ((('d', f[1], nsegs, f[3]),) if nsegs else ()) + S.queue[1:]
                        continue
                else:
                    a = read_base(S, ss[1], ss[2])
                    n2 = add(ss[2], ONE)
                    ns = () if decide(S, compare(S, 'eq', n2, ss[3])) else (('r', ss[1], n2, ss[3]),)
                if cs[0] == 'b':
                    b = cs[1]
                    i += 1
                else:
                    b = read_base(S, cs[1], cs[2])
                    segs[i] = ('r', cs[1], add(cs[2], ONE), cs[3])
                if not env.eq(a, b):
                    self.bad('data', '%s() gets a byte that is not the one due' % name, grp=grp)
            nsegs = ns + rest
            if nsegs:
                S.queue = (('d', f[1], nsegs, f[3]),) + S.queue[1:]
            else:
                S.queue = S.queue[1:]
        if len(args) > 1:
            self.match_finish(S, name, args[1], grp)

    def match_empty(self, S, name, args):
        if len(args) > 1:
            self.match_finish(S, name, args[1], None)
        else:
            self.bad('data', '%s() called without data' % name)

    def match_finish(self, S, name, a, grp):
        f = S.queue[0] if S.queue else None
        due = f is not None and f[0] == 'fin' and f[1] == name
        if type(a) is tuple:
            a = C(1 if decide(S, a) else 0)
        v = decide(S, a)
        if v != due:
            self.bad('finish', '%s(): finished flag is %s at the wrong place' % (name, 'true' if v else 'false'), grp=grp or (f[2] if f and f[0] == 'fin' else None))
        if due:
            S.queue = S.queue[1:]

    # ------------------------------------------------------------ heads and exits
    def before_head(self, S):
        self.obl['heads'] += 1

    def at_head(self, S):
        # consumption by the automaton may fork: run as a small worklist
        self.forked(S, self._head, self.submit)

    def forked(self, S, f, g):
        """run f on S; on a fork the automaton part is rolled back and f re-executed on each alternative"""
        work = [S]
        while work:
            T = work.pop()
            snap = (T.queue, T.ctrl, T.regs, T.sp, T.extra)
            try:
                f(T)
            except Fork as fk:
                T.queue, T.ctrl, T.regs, T.sp, T.extra = snap
                for a in fk.alts[1:]:
                    U = T.copy()
                    if a(U):
                        work.append(U)
                if fk.alts[0](T):
                    work.append(T)
                continue
            except Violation as e:
                self.violation(T, e)
                if self.lose(T, e):
                    work.append(T)
                continue
            except Dead:
                continue
            g(T)

    def _head(self, S):
        i = self.bs_index(S)
        if i is not None and S.L is not None:
            if S.env.lb(sub(S.L, i)) < 0:
                if not decide(S, compare(S, 'le', i, S.L)):
                    self.bad('oob', 'the stream index passes the end of the input')
        self.sync(S)
        if i is not None:
            self.run_ahead(S, i)

    def run_ahead(self, S, idx):
        """a loop that looks at bytes before the stream index moves: the automaton takes part in the loop"""
        env = S.env
        n = S.sp
        if self.spec.states[S.ctrl][0] != 'byte' or env.lb(sub(n, idx)) < 0:
            return
        to = at = None
        for _ in range(8):
            q = n if n in S.cells else next((p for p in S.cells if env.eq(p, n)), None)
            if q is None:
                break
            if at is None:
                at = self.scanned(S, idx, q)
            n = add(n, ONE)
            for x, exact in at:
                if n == x or env.eq(n, x):
                    to = n
                    if not exact:
                        # a counter is followed as far as it goes, but nothing is concluded from a mismatch
                        self.ahead = True
        while to is not None and self.spec.states[S.ctrl][0] == 'byte' and not env.eq(S.sp, to):
            self.advance(S, add(S.sp, ONE))

    def scanned(self, S, idx, q):
        """positions a loop variable of the current function has reached; q: where the loop has read"""
        out = []
        turn = self.turn(S, idx)
        R = self.order[S.origin].S.mem if turn else {}
        f = self.prog.fns[S.fn]['body']

        def num(v, o):
            # the variable counts from the stream index, or is a position itself
            if type(o) is not N:
                return
            d = sub(q, o)
            c = S.env.const(d)
            if c is not None:
                out.append((add(v, C(c)), False))
            c = S.env.const(sub(d, idx))
            if c is not None:
                out.append((add(add(v, idx), C(c)), False))

        def it(v, o, depth):
            if type(v) is not tuple or not v or depth > 3:
                return
            if v[0] == 'IT':
                if v[1] == ('st',):
                    out.append((v[2], True))
            elif v[0] == 'R' and not v[2] and v[1] in S.mem:
                it(S.mem[v[1]], R.get(v[1]), depth + 1)
            elif v[0] == 'S':
                t = self.prog.types[v[1]].get('path', '') if type(v[1]) is int else ''
                same = type(o) is tuple and o and o[0] == 'S' and o[1] == v[1] and len(o[2]) == len(v[2])
                for i, x in enumerate(v[2]):
                    y = o[2][i] if same else None
                    if type(x) is N:
                        if t.startswith(('std::', 'core::')):
                            num(x, y)
                    else:
                        it(x, y, depth + 1)
        for l in self.prog.live[S.fn][S.bb]:
            v = S.mem.get(S.base + l)
            if type(v) is N:
                if self.prog.types[f['locals'][l]].get('n') == 'usize':
                    num(v, R.get(S.base + l))
            else:
                it(v, R.get(S.base + l), 0)
        return out

    def at_exit(self, S):
        try:
            self.forked(S, self._exit, self.after_exit)
        except Unsupported as e:
            loc = self.location(S)
            self.unsupported.setdefault((loc['full'] if loc else 'exit', str(e)), S.copy())


def _set_choice(v):
    def f(S):
        S.choice = v
        return True
    return f


def _mask_alt(y, m):
    def f(S):
        S.env.syms[y] = ('b', S.env.syms[y][1] & m)
        return True
    return f


class ParserProduct(Product):
    """product for Parser::resume()"""

    def start_state(self, regs, extra):
        S = St()
        S.spec = self.spec
        S.ctrl = self.spec.start
        S.regs = regs
        S.extra = extra
        S.sp = ZERO
        return S

    def setup(self, S, script):
        """initial API states: run the constructor/initialiser calls abstractly"""
        states = [S]
        for step in script:
            nxt = []
            for T in states:
                nxt.extend(self.exec(T, step))
            states = nxt
        for T in states:
            self.post_setup(T)
        return states

    def post_setup(self, S):
        pass

    # ------------------------------------------------------------ the heap
    heap_reg = None

    def heap(self, S, f, args):
        """only what is needed to replay a boundary is taken from the heap"""
        self.site(S, 'heap')
        b = self.heap_bound(S)
        if b is None:
            self.violation(S, Violation('heap', 'takes memory from the heap: ' + f['full']))
        elif 'with_capacity' in f['full'] and args and type(args[0]) is N:
            self.bounded(S, f, args[0], b)
        elif re.search(r'vec::Vec::<.*>::reserve', f['full']):
            self.bounded(S, f, args[1], b)

    def heap_bound(self, S):
        return add(S.extra[1], C(8)) if len(S.extra) > 1 else None

    def bounded(self, S, f, n, b):
        if S.env.lb(sub(b, n)) < 0:
            self.violation(S, Violation('heap', 'takes more memory from the heap than a boundary needs' + (': ' + f['full'] if f else '')))

    def vec_append(self, S, segs, more):
        out = Machine.vec_append(self, S, segs, more)
        b = self.heap_bound(S)
        if b is not None:
            self.bounded(S, None, segs_len(out), b)
        return out

    def exec(self, S, step):
        fid, args, dest = step
        out = []
        args = [a(S) if callable(a) else a for a in args]

        def ex(T):
            v = T.mem.pop('ret')
            if dest is not None:
                T.mem[dest] = v
            out.append(T)

        def hd(T):
            raise Unsupported('loop in initialiser')
        self.push(S, fid, args)
        self.run(S, hd, ex)
        return out

    def begin_call(self, S):
        S.aborted = False
        S.cmps = {}
        S.sp = ZERO
        if self.split == 'one':
            n = S.env.neww(0, MAXLEN)
        else:
            n = S.env.neww(0, MAXLEN)
        S.L = wsym(n)
        # fewer than 2^62 bytes in total
        tot = S.extra[0]
        for x in (tot, self.byte_count(S)):
            if x is None or not x.m:
                continue
            if len(x.m) == 1 and x.m[0][1] == 1 and x.m[0][2] == 1 and x.c == 0:
                y = x.m[0][0]
                v = S.env.syms[y]
                S.env.syms[y] = ('w', v[1], min(v[2], 1 << 62))
            S.env.add_fact(sub(C(1 << 62), add(x, S.L)))
        work = []
        self.forked(S, self.eager, work.append)
        for T in work:
            sl = ('SL', ('st',), ZERO, T.L)
            self.push(T, self.resume_fn, [('R', 'parser', ()), ('O', 'handler'), sl])
        return work

    def _exit(self, S):
        self.obl['exits'] += 1
        if S.ctrl == 'lost':
            return
        ret = S.mem['ret']
        kind, val, nm = self.decode(S, ret)
        how = None
        q = S.queue
        if kind == 'err':
            how = self.exit_err(S, nm, val)
        else:
            if type(val) is not N:
                raise Unsupported('result value')
            if S.ctrl == 'dead' and not q:
                self.bad('dead', 'a dead parser returns %s' % nm)
            if nm == 'Eos':
                self.exit_eos(S, val)
            elif nm == 'Callback':
                self.exit_callback(S, val)
            elif nm == 'Finished':
                self.exit_finished(S, val)
        self.exit_kinds[nm] = self.exit_kinds.get(nm, 0) + 1
        if self.state_fn is not None:
            if kind == 'err' or nm == 'Finished':
                v = self.reported(S)
                want = 'Dead' if kind == 'err' else 'Finished'
                if v != want:
                    self.bad('dead' if kind == 'err' else 'finish', 'state() is %s after %s' % (v, nm))
        self.check_count(S, kind, nm, how)

    state_fn = None

    def reported(self, S):
        """what the state getter reports"""
        T = S.copy()
        T.mem = {'parser': S.mem['parser']}
        T.stack = ()
        T.base = 0
        T.choice = None
        T.ctrl = self.spec.start
        T.regs = tuple([ZERO] * len(T.regs))
        T.queue = ()
        out = self.exec(T, (self.state_fn, [lambda S: ('R', 'parser', ())], 'r'))
        r = set()
        for U in out:
            v = U.mem['r']
            if v[0] != 'E':
                raise Unsupported('state getter')
            r.add(self.prog.types[v[1]]['v'][v[3]]['n'])
        return '/'.join(sorted(r))

    def state_report(self):
        """between calls: reported state -> the steps the parser continues with"""
        out = {}
        for r in self.order:
            if r.S.fn is None and 'parser' in r.S.mem:
                fs = fvals(r.S.mem['parser'], [])
                out.setdefault(self.reported(r.S), set()).add(
                    tuple(self.prog.fns[i]['full'] if type(i) is int else str(i) for i in fs))
        return {k: sorted(v) for k, v in out.items()}

    def decode(self, S, ret):
        ty = self.prog.types
        if ret[0] != 'E':
            raise Unsupported('result')
        inner = ret[2][0]
        if inner[0] != 'E':
            raise Unsupported('result payload')
        vn = ty[inner[1]]['v'][inner[3]]['n']
        if ty[ret[1]]['v'][ret[3]]['n'] == 'Err':
            return 'err', inner[2], vn
        return 'ok', inner[2][0], vn

    def limit_reached(self, S):
        sp = self.spec
        return sp.limit is not None and S.ctrl not in ('final', 'dead') and \
            decide(S, compare(S, 'eq', S.sp, S.regs[sp.limit]))

    def force(self, S):
        """take the steps that wait for the code to act"""
        for _ in range(8):
            st = self.spec.states[S.ctrl]
            if not S.queue and st[0] == 'scase':
                self.eager(S, True)
                continue
            if S.queue or st[0] != 'eps' or st[3] is not True:
                return
            S.ctrl = st[2]
            self.do_actions(S, st[1], None, st[-1], S.sp)
            self.eager(S)

    def exit_eos(self, S, n):
        if self.split == 'one':
            return
        if S.aborted:
            self.bad('abort', 'Eos returned after a callback returned false')
        if not S.env.eq(n, S.L) and not decide(S, compare(S, 'eq', n, S.L)):
            self.bad('eos', 'Eos reports a length that is not the length of the slice')
        self.advance(S, n)
        if not S.env.eq(S.sp, n):
            self.bad('eos', 'Eos without consuming the slice')
        self.force(S)
        if S.queue:
            f = S.queue[0]
            if f[0] == 'd':
                self.bad('data', 'end of slice reached but bytes for %s were not delivered' % f[1], grp=f[3])
            if f[0] == 'err':
                self.bad('error', 'end of slice reached but error %s was not reported' % f[1], grp=f[3])
            self.bad('event' if f[0] == 'e' else 'finish', 'end of slice reached but %s was not delivered' % f[1], grp=f[3] if f[0] != 'fin' else f[2])
        if S.ctrl == 'final':
            self.bad('finish', 'Eos returned although the message is complete')
        if self.spec.states[S.ctrl][0] == 'query':
            self.bad('event', 'Eos returned before %s() is asked' % self.spec.query)
        if self.limit_reached(S):
            self.bad('finish', 'Eos returned although the declared length is reached', grp=self.spec.limit_grp)

    def exit_callback(self, S, n):
        if not S.aborted:
            self.bad('abort', 'Callback returned although no callback returned false')
        self.advance(S, n)
        if not S.env.eq(S.sp, n) and not decide(S, compare(S, 'eq', S.sp, n)):
            self.bad('offset', 'Callback reports an offset that does not match what was consumed')
        if not S.env.lb(sub(S.L, n)) >= 0:
            self.bad('abort', 'Callback reports more bytes than the slice has')
        for f in S.queue:
            if f[0] == 'd' and any(s[0] == 'r' and s[1][0] == 'st' for s in f[2]):
                self.bad('offset', 'bytes for %s are lost when a callback returns false' % f[1], grp=f[3])
            if f[0] == 'err' and f[2] is not None and False:
                pass

    def exit_finished(self, S, n):
        if S.aborted:
            self.bad('abort', 'Finished returned after a callback returned false')
        if S.ctrl not in ('final', 'dead'):
            self.advance(S, n)
            self.front(S, '', '')
        if S.queue:
            f = S.queue[0]
            self.bad('finish', 'Finished returned but %s was not delivered' % f[1], grp=f[3] if f[0] != 'fin' else f[2])
        if S.ctrl != 'final':
            self.bad('finish', 'Finished returned before the end of the message')
        if not S.env.eq(S.sp, n) and not decide(S, compare(S, 'eq', S.sp, n)):
            self.bad('finish', 'Finished reports an offset that is not the end of the message')

    def exit_err(self, S, nm, val):
        if S.aborted:
            self.bad('abort', 'an error is returned although a callback returned false')
        if S.ctrl == 'dead' and not S.queue:
            if nm != 'Dead':
                self.bad('dead', 'a dead parser returns error %s' % nm)
            return 'dead'
        if self.spec.states[S.ctrl][0] in ('free', 'any') and not S.queue:
            S.ctrl = 'dead'
            return 'free'
        self.force(S)
        # the offending byte may not have been seen by the automaton yet
        for _ in range(3):
            if any(x[0] == 'err' for x in S.queue) or S.ctrl in ('final', 'dead'):
                break
            st = self.spec.states[S.ctrl]
            if st[0] in ('byte', 'eps', 'bnd'):
                if S.sp in S.cells or any(S.env.eq(p, S.sp) for p in S.cells) or \
                        any(S.env.eq(p[0], S.sp) for p in S.cmps):
                    self.advance(S, add(S.sp, ONE))
                    continue
            break
        q = S.queue
        if not q:
            self.bad('error', 'error %s is returned for acceptable input' % nm)
        # bytes of the element in which the error was found need not be delivered
        if q[0][0] == 'd' and len(q) > 1 and q[1][0] == 'err':
            q = q[1:]
        f = q[0]
        if f[0] != 'err':
            self.bad('error', 'error %s is returned where %s is due' % (nm, f[1]), grp=f[3] if f[0] != 'fin' else f[2])
        if f[1] != nm:
            self.bad('error', 'error %s is returned where %s is due' % (nm, f[1]), grp=f[3])
        if f[2] is not None and f[2] is not False:
            if not val or type(val[0]) is not N or not S.env.eq(val[0], f[2]):
                self.bad('error', 'error %s does not carry the offending byte' % nm, grp=f[3])
        S.queue = ()
        return 'first'

    def check_count(self, S, kind, nm, how):
        bc = self.byte_count(S)
        if bc is None:
            return
        tot = S.extra[0]
        new = tot if how == 'dead' else add(tot, S.sp)
        if how == 'free' or (self.split == 'one' and nm == 'Eos'):
            return
        if not S.env.eq(bc, new):
            if not decide(S, compare(S, 'eq', bc, new)):
                self.bad('count', 'byte_count() is not the number of bytes consumed (%s)' % nm)

    def byte_count(self, S):
        return S.mem['parser'][2][self.bc_field]

    def after_exit(self, S):
        """the state between two calls"""
        del S.mem['ret']
        if self.split == 'one' and not S.aborted and S.ctrl not in ('final', 'dead'):
            return
        for k in [k for k in S.mem if k != 'parser' and type(k) is not int]:
            if k not in ('parser',):
                del S.mem[k]
        dead = S.ctrl == 'dead'
        bc = self.byte_count(S)
        if self.spec.limit is not None and S.ctrl not in ('final', 'dead', 'lost'):
            self.setreg(S, self.spec.limit, sub(S.regs[self.spec.limit], S.sp))
        S.extra = (bc,) + S.extra[1:] if bc is not None else S.extra
        # the input continues with the byte the parser has seen already, if it has
        t = None
        for q, x in S.cells.items():
            if q == S.sp or S.env.eq(q, S.sp):
                t = x
        S.cells = {} if t is None else {ZERO: t}
        S.sp = ZERO
        S.L = None
        S.cmps = {}
        S.aborted = False
        S.evs = 0
        S.stack = ()
        S.base = 0
        S.bb = 0
        self.submit(S, False)
