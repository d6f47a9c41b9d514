"""Analyses of the percent decoder and the query and field iterators.

What the code appends to a vector is matched with what the automaton says is part of the name or value being
read; a vector then only remembers which of them it holds (and how much)."""
from product import *
import utilspec
from h1run import Missing


class UtilProduct(Product):
    iterator = True
    follow = True

    def byte_regs(self):
        return self.spec.byteregs

    def start_state(self):
        S = St()
        S.spec = self.spec
        S.ctrl = self.spec.start
        S.regs = (ZERO,) * self.spec.nregs
        S.extra = ()
        S.sp = ZERO
        S.L = wsym(S.env.neww(0, MAXLEN))
        S.mem['text'] = ('GH',)
        return S

    def sync(self, S):
        if self.bs_index(S) is not None:
            return Product.sync(self, S)
        # no stream: whatever has been read is parsed
        self.eager(S)
        while self.spec.states[S.ctrl][0] == 'byte' and (S.sp in S.cells or any(S.env.eq(p, S.sp) for p in S.cells)):
            self.advance(S, add(S.sp, ONE))

    # ------------------------------------------------------------ vectors
    def snap(self, S):
        return (S.queue, S.ctrl, S.regs, S.sp, S.extra, S.mem['text'])

    def heap(self, S, f, args):
        pass

    def undo(self, S, s):
        S.queue, S.ctrl, S.regs, S.sp, S.extra, S.mem['text'] = s

    def vec_append(self, S, segs, more):
        if not more:
            return segs
        snap = self.snap(S)
        try:
            return self.append(S, segs, more)
        except Fork:
            self.undo(S, snap)
            raise

    def append(self, S, segs, more):
        if len(more) == 1 and more[0][0] == 'r' and decide(S, compare(S, 'eq', more[0][2], more[0][3])):
            return segs
        if any(s[0] == 'g' for s in more):
            if segs:
                raise Unsupported('joined texts')
            return more
        if S.ctrl == 'lost':
            return (('g', 'old', wsym(S.env.neww(1, MAXLEN))),)
        self.sync(S)
        if segs and segs[0][0] == 'g':
            role = segs[0][1]
            if role == 'old':
                self.bad('data', 'text of an earlier item is kept')
            n = segs[0][2]
        else:
            more = norm_append(S, segs, more)
            f = self.front(S, '', 'd')
            if f is None or f[0] != 'd':
                self.bad('data', 'bytes that are not due are taken over')
            role = f[1]
            n = ZERO
            if role in S.mem['text'][1:]:
                self.bad('data', 'part of the %s is lost' % role)
        self.event_sites.add((self.location(S)['full'], role))
        self.obl['data'] += 1
        self.match_data(S, role, [('SL', ('v', more), ZERO, segs_len(more))])
        S.mem['text'] = ('GH',) + tuple(sorted(set(S.mem['text'][1:]) | {role}))
        return (('g', role, wsym(S.env.neww(1, MAXLEN))),)

    def string_append(self, S, segs):
        """without a check"""
        if S.ctrl == 'lost':
            return
        self.obl['text'] = self.obl.get('text', 0) + 1
        for s in segs:
            if s[0] == 'g' and s[1] in self.spec.ascii:
                continue
            if s[0] == 'b' and not s[1].m and s[1].c < 128:
                continue
            if s[0] == 'b' and S.env.ub(s[1]) < 128:
                continue
            self.violation(S, Violation('utf8', 'a string is made of bytes that need not be UTF-8', grp='H02'))
            return

    def utf8(self, S, v, dty, f, checked):
        sl = as_slice(S, v)
        segs = slice_segs(S, sl) if sl[3] != ZERO else ()
        ty = self.prog.types
        if not checked:
            self.string_append(S, segs)
            return ('S', dty, (('V', segs),)) if 'String' in f['full'] else v
        self.obl['text'] = self.obl.get('text', 0) + 1
        if S.choice is not None and S.choice[0] == 'utf8':
            ok = S.choice[1]
            S.choice = None
        elif not segs or all(s[0] == 'g' and s[1] in self.spec.ascii for s in segs):
            ok = True
        else:
            raise Fork([_choose(True), _choose(False)])
        if not ok:
            return ('E', dty, (('O', 'utf8error'),), 1)
        if 'String' in f['full']:
            it = ty[dty]['v'][0]['f'][0]['t']
            return ('E', dty, (('S', it, (('V', segs),)),), 0)
        return ('E', dty, (v,), 0)

    def lossy(self, S, v):
        sl = as_slice(S, v)
        self.obl['text'] = self.obl.get('text', 0) + 1
        return ('COW', ('V', slice_segs(S, sl) if sl[3] != ZERO else ()))

    # ------------------------------------------------------------ the automaton at the end of the input
    def front(self, S, name, kind):
        for _ in range(4):
            f = Product.front(self, S, name, kind)
            e = self.spec.eos.get(S.ctrl)
            if f is not None or e is None or not decide(S, compare(S, 'eq', S.sp, S.L)):
                return f
            st = self.spec.states[S.ctrl]
            S.ctrl = e[1]
            self.do_actions(S, e[0], None if e[2] is None else S.regs[e[2]], st[-1], S.sp)
        return None

    # ------------------------------------------------------------ errors
    def virtual(self, S, f, args, dty):
        if 'FnMut' not in f['full'] or len(args) != 2:
            return Product.virtual(self, S, f, args, dty)
        snap = self.snap(S)
        if S.ctrl == 'lost':
            return UNIT
        try:
            self.sync(S)
            v = args[1]
            if v[0] == 'S':
                v = v[2][0]
            self.event_sites.add((self.location(S)['full'], 'error'))
            self.obl['events'] += 1
            self.error(S, v)
        except Fork:
            self.undo(S, snap)
            raise
        return UNIT

    def error(self, S, v):
        if v[0] != 'E':
            raise Unsupported('error value')
        nm = self.prog.types[v[1]]['v'][v[3]]['n']
        for _ in range(3):
            if any(x[0] in ('err', 'e') for x in S.queue) or self.spec.states[S.ctrl][0] != 'byte':
                break
            if S.sp in S.cells or any(decide(S, compare(S, 'eq', p, S.sp)) if self.nostream else S.env.eq(p, S.sp) for p in list(S.cells)):
                self.advance(S, add(S.sp, ONE))
                continue
            break
        if not any(x[0] in ('err', 'e') for x in S.queue):
            # bytes of the item in which the error is found are not handed out
            S.queue = ()
        while S.queue and S.queue[0][0] == 'd':
            S.queue = S.queue[1:]
        q = self.front(S, '', 'err')
        if q is None:
            g = None
            if self.spec.states[S.ctrl][0] == 'free':
                self.bad('stop', 'error %s is reported after the end' % nm, grp=g)
            self.bad('error', 'error %s is reported for acceptable input' % nm, grp=g)
        if q[0] != 'err':
            self.bad('error', 'error %s is reported where %s is due' % (nm, q[1]), grp=q[3])
        if q[1] != nm:
            self.bad('error', 'error %s is reported where %s is due' % (nm, q[1]), grp=q[3])
        if q[2] is not None and q[2] is not False:
            if not v[2] or type(v[2][0]) is not N or not S.env.eq(v[2][0], q[2]):
                self.bad('error', 'error %s does not carry the offending byte' % nm, grp=q[3])
        S.queue = S.queue[1:]

    # ------------------------------------------------------------ calls
    def begin_call(self, S):
        if not self.iterator:
            self.push(S, self.entry, [('SL', ('st',), ZERO, S.L)])
            return [S]
        r = self.cur_rec
        S.origin = r.id
        S.oidx = (self.bs_index(S), S.sp if r.ahead else self.bs_index(S))
        self.push(S, self.entry, [('R', 'parser', ())])
        return [S]

    def content(self, S, v, role):
        """the text a returned string holds"""
        if v[0] != 'S' or not v[2] or v[2][0][0] != 'V':
            raise Unsupported('string %r' % (v[0],))
        segs = v[2][0][1]
        have = role in S.mem['text'][1:]
        if segs and segs[0][0] != 'g' and not all(s[0] == 'r' and decide(S, compare(S, 'eq', s[2], s[3])) for s in segs):
            if have:
                self.bad('data', 'part of the %s is lost' % role)
            self.match_data(S, role, [('SL', ('v', segs), ZERO, segs_len(segs))])
            S.mem['text'] = ('GH',) + tuple(sorted(set(S.mem['text'][1:]) | {role}))
        elif segs and segs[0][0] == 'g':
            if segs[0][1] != role:
                self.bad('data', 'the %s returned is not the %s of this item' % (role, role))
        elif have:
            self.bad('data', 'the %s returned is empty' % role)

    def finish(self, S, flag):
        f = self.front(S, '', 'e')
        if f is None:
            if self.spec.states[S.ctrl][0] == 'free':
                self.bad('stop', 'an item is returned after the end')
            self.bad('item', 'an item is returned before its end')
        if f[0] == 'd':
            self.bad('data', 'the item returned lacks bytes of its %s' % f[1], grp=f[3])
        if f[0] == 'err':
            self.bad('error', 'an item is returned where error %s is due' % f[1], grp=f[3])
        if f[2][0] != C(flag):
            self.bad('item', 'the item is returned %s value' % ('with a' if flag else 'without a'), grp=f[3])
        S.queue = S.queue[1:]

    def _exit(self, S):
        self.obl['exits'] += 1
        if S.ctrl == 'lost':
            return
        ret = S.mem['ret']
        snap = self.snap(S)
        try:
            (self.exit_iter if self.iterator else self.exit_decode)(S, ret)
        except Fork:
            self.undo(S, snap)
            raise

    def exit_decode(self, S, ret):
        if ret[0] != 'E':
            raise Unsupported('result')
        nm = self.prog.types[ret[1]]['v'][ret[3]]['n']
        self.exit_kinds[nm] = self.exit_kinds.get(nm, 0) + 1
        if nm == 'Err':
            return self.error(S, ret[2][0])
        self.advance(S, S.L)
        self.content(S, ret[2][0], 'text')
        self.finish(S, 0)

    def exit_iter(self, S, ret):
        if ret[0] != 'E':
            raise Unsupported('result')
        nm = self.prog.types[ret[1]]['v'][ret[3]]['n']
        self.exit_kinds[nm] = self.exit_kinds.get(nm, 0) + 1
        self.sync(S)
        if nm == 'None':
            if not any(x[0] != 'd' for x in S.queue):
                S.queue = ()
            while S.queue and S.queue[0][0] == 'd':
                S.queue = S.queue[1:]
            f = self.front(S, '', '')
            if f is not None:
                if f[0] == 'err':
                    self.bad('error', 'error %s is not reported' % f[1], grp=f[3])
                self.bad('item', 'the iteration ends although an item is due', grp=f[3])
            if self.spec.states[S.ctrl][0] != 'free':
                self.bad('item', 'the iteration ends before the end of the input')
            self.ended = True
            return
        t = ret[2][0]
        if t[0] != 'S' or len(t[2]) != 2:
            raise Unsupported('item')
        name, val = t[2]
        if val[0] != 'E':
            raise Unsupported('item value')
        self.content(S, name, 'name')
        some = self.prog.types[val[1]]['v'][val[3]]['n'] == 'Some'
        if some:
            self.content(S, val[2][0], 'value')
        elif 'value' in S.mem['text'][1:]:
            self.bad('item', 'the value read is not returned')
        self.finish(S, 1 if some else 0)

    def after_exit(self, S):
        some = S.mem['ret'][0] == 'E' and self.prog.types[S.mem['ret'][1]]['v'][S.mem['ret'][3]]['n'] == 'Some'
        del S.mem['ret']
        if not self.iterator:
            return
        for k in [k for k in S.mem if k not in ('parser', 'text')]:
            del S.mem[k]
        S.mem['text'] = ('GH',)
        S.mem['parser'] = stale(S.mem['parser'])
        S.queue = ()
        S.cmps = {}
        S.stack = ()
        S.base = 0
        S.bb = 0
        # every item takes input; nothing at all happens after the end
        self.submit(S, some)


def _choose(v):
    def f(S):
        S.choice = ('utf8', v)
        return True
    return f


def stale(v):
    if type(v) is tuple and v:
        if v[0] == 'g' and len(v) == 3:
            return ('g', 'old', v[2])
        return tuple([stale(x) if type(x) is tuple else x for x in v])
    return v


def find(p, full):
    r = [f for f in p.fns if f['crate'] == 'http_box' and f['full'] == full]
    if len(r) != 1:
        raise Missing(full)
    return r[0]['id']


def build(p, which, norm=0, delim=59):
    norm, delim = int(norm), int(delim)
    if which == 'decode':
        m = UtilProduct(p, utilspec.decode())
        m.iterator = False
        m.nostream = True
        m.entry = find(p, 'util::decode::decode')
        return m, [m.start_state()]
    if which == 'query':
        m = UtilProduct(p, utilspec.query())
        ty = 'util::query::QueryIterator'
        args = []
    else:
        m = UtilProduct(p, utilspec.field(norm, delim))
        ty = 'util::field::FieldIterator'
        args = [C(delim), C(norm)]
    m.entry = find(p, "<%s<'_> as std::iter::Iterator>::next" % ty)
    new = find(p, "%s::<'_>::new" % ty)
    S = m.start_state()
    out = []

    def ex(T):
        T.mem['parser'] = T.mem.pop('ret')
        out.append(T)

    def hd(T):
        raise Unsupported('loop in constructor')
    m.push(S, new, [('SL', ('st',), ZERO, S.L)] + args)
    m.run(S, hd, ex)
    for T in out:
        # whichever callback is set
        p_ = T.mem['parser']
        T.mem['parser'] = p_[:2] + (tuple([('O', 'callback') if type(x) is tuple and x[0] == 'BX' else x for x in p_[2]]),) + p_[3:]
        T.stack = ()
        T.base = 0
        T.bb = 0
        T.fn = None
    if not out:
        raise Missing('constructor')
    return m, out
