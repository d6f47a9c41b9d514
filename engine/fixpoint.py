"""Fixpoint over loop heads: canonical forms of abstract states, joins with widening, worklist.

A state that reaches a loop head is canonicalised: dead locals are dropped, symbols are renamed in
order of encounter, and every compound number becomes a "slot" (a fresh wide symbol).  States with
the same canonical memory, control and specification state share one record; their byte sets,
intervals and pairwise difference bounds are joined (and widened), and a record whose join grew is
explored again."""
import heapq
import time
from terms import *
from interp import *
from machine import Machine

HI_T = sorted([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 24, 31, 63, 99, 127, 255, 511, 999, 4095, 16383, 65535,
               (1 << 24) - 1, (1 << 28) - 1, (1 << 31) - 1, (1 << 32) - 1, MAXLEN, 1 << 41, 1 << 62, (1 << 63) - 1,
               (1 << 64) - 1, 1 << 66])
LO_T = sorted([-(1 << 66), -(1 << 40), -1, 0, 1, 2, 3, 4, 8])


def widen_hi(v):
    for t in HI_T:
        if v <= t:
            return t
    return v


def widen_lo(v):
    r = None
    for t in LO_T:
        if t <= v:
            r = t
    return v if r is None else r


class Rec:
    __slots__ = ('S', 'n', 'key', 'id', 'dd', 'done', 'lims', 'ahead')


def fvals(v, out):
    """functions a value refers to"""
    if type(v) is tuple and v:
        if v[0] == 'F' and len(v) == 2:
            out.append(v[1])
        else:
            for x in v:
                fvals(x, out)
    return out


def tags(v, out):
    """functions and variants in a value"""
    if type(v) is tuple and v:
        if v[0] == 'F' and len(v) == 2:
            out.append(v[1])
        else:
            if v[0] == 'E' and len(v) > 3:
                out.append(v[3])
            for x in v:
                tags(x, out)
    return out


class Fix(Machine):
    def __init__(self, prog):
        Machine.__init__(self, prog)
        self.recs = {}
        self.ahead = False
        self.nostream = False
        self.order = []
        self.queue = []
        self.inq = set()
        self.edges = {}
        self.cur_rec = None
        self.joins = 0
        self.exits = 0
        self.sites = set()
        self.templates = {}

    # ---------------------------------------------------------------- garbage collection
    def roots(self, S):
        prog = self.prog
        keep = set()
        if S.fn is not None:
            for l in prog.live[S.fn][S.bb]:
                keep.add(S.base + l)
        for fn, bb, base in S.stack:
            if fn is None:
                continue
            prog.body_info(fn)
            t = prog.fns[fn]['body']['blocks'][bb]['t']
            lv = prog.live[fn][t[4]] if t[4] is not None and t[4] >= 0 else ()
            d = t[3]
            for l in lv:
                if l != d['l'] or d['p']:
                    keep.add(base + l)
            if d['p']:
                keep.add(base + d['l'])
                for e in d['p']:
                    if e[0] == 'i':
                        keep.add(base + e[1])
        for k in S.mem:
            if type(k) is str:
                keep.add(k)
        return keep

    def gc(self, S):
        mem = S.mem
        keep = self.roots(S)
        work = [k for k in keep if k in mem]
        seen = set(work)
        while work:
            k = work.pop()
            _refs(mem[k], mem, seen, work)
        for k in [k for k in mem if k not in seen]:
            del mem[k]

    # ---------------------------------------------------------------- canonical form
    def canon(self, S):
        """canonicalise S in place; returns (key, slot list) where S.env is the new environment"""
        self.gc(S)
        env = S.env
        plain = set()
        mem = S.mem
        keys = sorted(mem, key=lambda k: (0, k, '') if type(k) is int else (1, 0, k))
        bs = self.find_bs(S)
        idx = mark = None
        if bs is not None:
            fi = self.prog.bs_ty[bs[1]]
            v = bs[0]
            idx = v[2][fi['stream_index']]
            mark = v[2][fi['mark_index']]
        bare = bs is None and self.nostream and S.fn is not None and S.sp is not None
        if bare:
            idx = mark = S.sp
        vals = [mem[k] for k in keys]
        for v in vals:
            _plain(v, plain)
        for v in S.regs:
            _plain(v, plain)
        for q in S.queue:
            _plain(q, plain)
        # cells worth keeping
        cells = {}
        # the byte read last may be read again (after the index is moved back)
        cur = bs[0][2][self.prog.bs_ty[bs[1]]['byte']] if bs is not None else None
        low = idx if idx is not None else ZERO if S.fn is None else None
        look = self.lookahead(S)
        turn = not self.ahead and S.sp is not None and idx is not None and self.turn(S, idx)
        for p, t in S.cells.items():
            if low is None:
                continue
            d = sub(p, low)
            c = d.c if not d.m else None
            if c is None:
                lo, hi = env.bounds(d)
                if lo == hi:
                    c = lo
            if c is not None:
                if 0 <= c <= look:
                    cells[c] = t
                elif -8 <= c < 0 and self.holds(S) and env.lb(sub(p, mark)) >= 0 and \
                        env.const(t) is not None:
                    cells[c] = t
                elif c == -1 and cur is not None and t == cur:
                    cells[c] = t
            if turn and (c is None or c not in cells) and not env.lb(sub(S.sp, p)) > 0:
                # a loop forgets what it knows about a byte the automaton has yet to take
                self.ahead = True
                turn = False
        for c in cells:
            _plain(cells[c], plain)
        again = [None] if -1 in cells and cells[-1] == cur else []
        ne = Env()
        syms = {}
        slots = []
        slotmap = {}
        cslots = []
        cache = {}
        posn = set()

        def bidx(y):
            r = syms.get(y)
            if r is None:
                r = ne.nxt
                ne.nxt = r + 1
                syms[y] = r
                ne.syms[r] = env.syms[y]
            return r

        def slot(t):
            r = slotmap.get(t)
            if r is not None:
                return r
            lo, hi = env.bounds(t)
            if lo == hi:
                return C(lo)
            for i, (t2, s2, lo2, hi2) in enumerate(slots):
                if lo2 == lo and hi2 == hi and i not in own and t2 not in posn and env.eq(t, t2):
                    slotmap[t] = s2
                    return s2
            r = ne.nxt
            ne.nxt = r + 1
            ne.syms[r] = ('w', lo, hi)
            s = wsym(r)
            slots.append((t, s, lo, hi))
            slotmap[t] = s
            return s

        def num(n):
            r = cache.get(n)
            if r is not None:
                return r
            r = num0(n)
            cache[n] = r
            return r

        def num0(n):
            if not n.m:
                return n
            if ahead is not None and n.m[0][1] == 1:
                r = track(n)
                if r is not None:
                    return r
            if len(n.m) == 1:
                y, k, v = n.m[0]
                if k == 0:
                    lo, hi = env.base(n)
                    if lo == hi:
                        return C(lo)
                    if v == IDT and n.c == 0:
                        return N(0, ((bidx(y), 0, IDT),))
                    if (lo >= 0 and hi <= 1) or y in plain:
                        return N(n.c, ((bidx(y), 0, v),))
                elif k == 1 and v == 1:
                    return slot(n)
            c = env.const(n)
            if c is not None:
                return C(c)
            # bit structure
            if n.c < 0 or any(k != 1 or v != 1 for _, k, v in n.m):
                cl = env.clusters(n) if env.lb(n) >= 0 else None
                if cl and len(cl) > 1:
                    return parts(n, cl)
                if cl:
                    return parts(n, cl)
            return slot(n)

        def parts(n, cl):
            out = ZERO
            for mk, p in sorted(cl, key=lambda x: x[0]):
                out = add(out, part(p, mk))
            return out

        def field(n, tp, width):
            """an integer struct field: one slot per bit field; bit fields start at the shifts the code uses"""
            sh = self.templates.setdefault(tp, set())
            grps = {}
            cl = env.clusters(n) if (n.m or n.c) and env.lb(n) >= 0 else None
            if cl is None:
                grps[1] = n
            else:
                for mk, p in cl:
                    if not mk:
                        continue
                    g = mk & -mk
                    for h in self.shifts():
                        if h <= g:
                            g = h
                            break
                    q = exact_div(p, g)
                    if q is None:
                        grps = {1: n}
                        break
                    grps[g] = add(grps[g], q) if g in grps else q
            if cl is not None and n.m:
                sh |= set(grps)
            ks = sorted(sh | set(grps) | {1})
            out = ZERO
            if xr is not None and cl is not None:
                ks, out = runs(grps, ks)
            for i, k in enumerate(ks):
                q = grps.get(k, ZERO)
                if q.m:
                    r = multiple(q)
                    if r is None:
                        r = shared(q)
                    if r is not None:
                        out = add(out, scale(r, k))
                        continue
                lo, hi = env.bounds(q)
                hi = min(hi, ((1 << width) - 1) // k)
                lo = min(max(lo, 0), hi)
                grp[len(slots)] = 2
                own.add(len(slots))
                t = newslot(q if lo < hi else C(lo), lo, hi)
                lims[t.m[0][0]] = (ks[i + 1] if i + 1 < len(ks) else 1 << width) // k - 1
                out = add(out, scale(t, k))
            return out
        lims = {}
        def part(p, mk):
            if not p.m:
                return p
            if len(p.m) == 1 and p.m[0][1] == 0:
                y, k, v = p.m[0]
                lo, hi = env.base(p)
                if lo == hi:
                    return C(lo)
                if (p.c == 0 and v == IDT) or y in plain:
                    return N(p.c, ((bidx(y), 0, v),))
            r = linear(p)
            if r is None:
                r = shared(p)
            if r is not None:
                return r
            g = mk & -mk
            if g > 1:
                for h in self.shifts():
                    if h <= g:
                        g = h
                        break
                q = exact_div(p, g)
                if q is not None:
                    r = scale(slot(q), g)
                    if r is not None:
                        return r
            return slot(p)

        def newslot(t, lo, hi):
            r = ne.nxt
            ne.nxt = r + 1
            ne.syms[r] = ('w', lo, hi)
            s = wsym(r)
            slots.append((t, s, lo, hi))
            return s

        poss = []

        def multiple(p):
            """a register or a larger multiple of it"""
            for (t2, s2) in rslots:
                if t2.m:
                    if xr is not None and env.eq(p, t2) and env.const(p) is None:
                        return s2
                    r = ratio(env, p, t2)
                    if r is not None and r[0] > 1:
                        q = scale(s2, r[0])
                        return add(q, C(r[1])) if r[1] else q
            return None

        def runs(grps, ks):
            """adjacent bit fields that together hold a register"""
            out = ZERO
            i = 0
            while i < len(ks):
                q = grps.get(ks[i], ZERO)
                if q.m:
                    for j in range(len(ks) - 1, i, -1):
                        q = ZERO
                        for k in ks[i:j + 1]:
                            if k in grps:
                                q = add(q, scale(grps[k], k // ks[i]))
                        s = None
                        for t2, s2 in rslots:
                            if t2.m:
                                r = ratio(env, q, t2)
                                if r is not None and r[1] == 0:
                                    s = scale(s2, r[0] * ks[i])
                                    break
                        if s is not None:
                            out = add(out, s)
                            ks = ks[:i] + ks[j + 1:]
                            i -= 1
                            break
                i += 1
            return ks, out

        def shared(p):
            """a byte of a register"""
            for (t2, s2) in cslots:
                if t2.m:
                    r = ratio(env, p, t2)
                    if r is not None:
                        q = scale(s2, r[0])
                        return add(q, C(r[1])) if r[1] else q
            return None

        def xreg(n, exact):
            """a register assembled from bytes: one slot per byte"""
            cl = env.clusters(n) if n.m and env.lb(n) >= 0 else None
            cl = cl and [x for x in cl if x[0]]
            if not exact:
                cl = None
            if exact and n.m:
                for t2, s2 in rslots:
                    if t2.m and env.eq(n, t2):
                        return s2
            if cl is None or len(cl) < 2:
                if exact and n.m:
                    s = shared(n)
                    if s is not None:
                        return s
                s = fresh(n)
                if exact:
                    cslots.append((n, s))
                return s
            out = ZERO
            new = []
            for mk, p in sorted(cl, key=lambda x: x[0]):
                g = mk & -mk
                for h in self.shifts():
                    if h <= g:
                        g = h
                        break
                q = exact_div(p, g)
                if q is None:
                    return fresh(n)
                new.append((g, q, (mk // g)))
            for g, q, mx in new:
                s = shared(q)
                if s is None:
                    lo, hi = env.bounds(q)
                    grp[len(slots)] = 2
                    own.add(len(slots))
                    s = newslot(q if lo < hi else C(lo), lo, hi)
                    lims[s.m[0][0]] = (1 << mx.bit_length()) - 1
                    cslots.append((q, s))
                out = add(out, scale(s, g))
            return out

        def linear(p):
            """p as a multiple of a number already met"""
            for i, (t2, s2, lo2, hi2) in enumerate(slots):
                if t2 in posn or not t2.m or i in own:
                    continue
                r = ratio(env, p, t2)
                if r is not None:
                    q = scale(s2, r[0])
                    return add(q, C(r[1])) if r[1] else q
            return None

        def track(n):
            """a number that says how far the automaton is"""
            if env.eq(n, ahead):
                return sub(pos(S.sp, True), pos(idx))
            if env.eq(n, S.sp):
                return pos(S.sp, True)
            return None

        def pos(n, exact=False):
            """stream positions: related to the positions already met, never to other numbers"""
            r = posmap.get(n)
            if r is not None:
                return r
            for (t2, s2) in poss:
                d = sub(n, t2)
                if not d.m:
                    c = d.c
                elif len(d.m) <= 3:
                    c = env.const(d)
                else:
                    c = None
                if c is not None and (c == 0 if exact else -4 <= c <= 4):
                    r = add(s2, C(c))
                    posmap[n] = r
                    return r
            lo, hi = env.bounds(n)
            grp[len(slots)] = 1
            s = newslot(n, lo, hi)
            posn.add(n)
            poss.append((n, s))
            posmap[n] = s
            return s
        posmap = {}
        grp = {}
        own = set()

        def mp(v):
            t = type(v)
            if t is N:
                return num(v)
            if t is tuple:
                if v and v[0] == 'SL' and v[1] == ('st',):
                    st = pos(v[2]) if v[2].m or v[2].c else ZERO
                    if S.L is not None and not v[2].m and v[2].c == 0 and env.eq(v[3], S.L):
                        return ('SL', v[1], st, Lslot)
                    return ('SL', v[1], st, sub(pos(add(v[2], v[3])), st))
                if v and v[0] == 'r' and len(v) == 4 and v[1] == ('st',):
                    return ('r', v[1], pos(v[2]), pos(v[3]))
                if v and v[0] == 'IT' and v[1] == ('st',):
                    return ('IT', v[1], pos(v[2]), pos(v[3]))
                return tuple([mp(x) if type(x) is tuple or type(x) is N else x for x in v])
            return v

        def mpp(v):
            t = type(v)
            if t is N:
                if any(c[1] == 0 for c in v.m):
                    return num(v)
                return pos(v)
            if t is tuple:
                return tuple([mpp(x) if type(x) is tuple or type(x) is N else x for x in v])
            return v
        def mpc(v):
            return mp(v)

        def mpq(v):
            if v[0] == 'd':
                return ('d', v[1], tuple([('b', num(g[1])) if g[0] == 'b' else ('h', pos(g[1]), g[2]) if g[0] == 'h' else
                                          ('r', g[1], pos(g[2]), pos(g[3])) if g[1][0] == 'st' else mpc_t(g) for g in v[2]]), v[3])
            return mpc_t(v)

        def mpe(x):
            if type(x) is N:
                return xreg(x, True)
            return tuple([mpe(y) for y in x]) if type(x) is tuple else x

        def mpc_t(v):
            if type(v) is N:
                return mpc(v)
            if type(v) is tuple:
                return tuple([mpc_t(x) for x in v])
            return v

        def fresh(n, share=False):
            """usize fields: the value of a constant is joined instead of being part of the key"""
            lo, hi = env.bounds(n)
            grp[len(slots)] = 2 if self.limit_reg() is None else 3
            own.add(len(slots))
            s = newslot(n if lo < hi else C(lo), lo, hi)
            if share and n.m:
                slotmap.setdefault(n, s)
            return s

        def freshb(n):
            """the current byte of the stream: its value set is joined"""
            if type(n) is not N:
                return mp(n)
            y = n.m[0][0] if len(n.m) == 1 and n.m[0][1] == 0 and n.m[0][2] == IDT and n.c == 0 else None
            if y is not None and y in syms:
                return num(n)
            r = ne.nxt
            ne.nxt = r + 1
            ne.syms[r] = env.syms[y] if y is not None else ('b', 1 << n.c) if not n.m else ('b', FULL)
            if again and n is cur:
                again.append(bsym(r))
                if y is not None:
                    syms[y] = r
            return bsym(r)

        prog = self.prog
        types = prog.types

        def mps(v):
            """memory values; usize fields of structs are joined even when constant"""
            if type(v) is not tuple or not v:
                return mp(v)
            if v[0] in ('S', 'E') and type(v[1]) is int:
                if v[0] == 'S' and v[1] in prog.bs_ty:
                    fi = prog.bs_ty[v[1]]
                    ix = (fi['stream_index'], fi['mark_index'])
                    return ('S', v[1], tuple([pos(x) if i in ix and type(x) is N else freshb(x) if i == fi['byte'] else mp(x)
                                              for i, x in enumerate(v[2])]))
                us = self.usize_fields(v)
                fs = self.u32_fields(v)
                if ahead is not None and us and types[v[1]].get('path', '').startswith(('std::', 'core::')):
                    rs = [track(x) if type(x) is N and i in us else None for i, x in enumerate(v[2])]
                    if any(r is not None for r in rs):
                        return v[:2] + (tuple([mps(x) if r is None else r for r, x in zip(rs, v[2])]),) + v[3:]
                if fs:
                    out = []
                    for i, x in enumerate(v[2]):
                        if type(x) is N and i in fs:
                            out.append(field(x, (v[1], i), fs[i]))
                        else:
                            out.append(fresh(x) if type(x) is N and i in us else mps(x))
                    return v[:2] + (tuple(out),) + v[3:]
                return v[:2] + (tuple([fresh(x) if type(x) is N and i in us else mps(x)
                                       for i, x in enumerate(v[2])]),) + v[3:]
            return mp(v)
        # bytes the automaton has taken before the stream index moves
        ahead = sub(S.sp, idx) if idx is not None and S.sp is not None and env.lb(sub(S.sp, idx)) > 1 else None
        Lslot = fresh(S.L) if S.L is not None else None
        if grp:
            grp[0] = 1
        if idx is not None:
            pos(idx)
            if ahead is not None:
                pos(S.sp, True)
            pos(mark, True)
        lv = self.live_regs(S)
        nrs = len(slots)
        rslots = []
        xr = self.exact_regs()
        br = self.byte_regs()
        regs = tuple([None if v is None else num(v) if i in br else (fresh(v) if xr is None else xreg(v, i in xr)) if lv is None or i in lv else ZERO
                      for i, v in enumerate(S.regs)])
        qe = {} if xr is None else {i: q[:2] + (tuple([mpe(x) for x in q[2]]),) + q[3:] for i, q in enumerate(S.queue) if q[0] == 'e'}
        lr = self.limit_reg()
        if lr is not None and regs[lr] is not None and regs[lr].m:
            for i in range(nrs, len(slots)):
                if slots[i][1] == regs[lr]:
                    grp[i] = 3
        rslots = [(x[0], x[1]) for x in slots[nrs:]]
        extra = tuple([None if v is None else fresh(v, i > 0) for i, v in enumerate(S.extra)])
        nm = {}
        for k, v in zip(keys, vals):
            if ahead is not None and type(v) is N and type(k) is int and S.fn is not None and k >= S.base and \
                    types[prog.fns[S.fn]['body']['locals'][k - S.base]].get('n') == 'usize':
                r = track(v)
                if r is not None:
                    nm[k] = r
                    continue
            if bare and type(v) is N and type(k) is int and k >= S.base and \
                    types[prog.fns[S.fn]['body']['locals'][k - S.base]].get('n') == 'usize' and env.eq(v, S.sp):
                nm[k] = pos(S.sp)
                continue
            nm[k] = mps(v)
        L = Lslot
        sp = pos(S.sp) if S.sp is not None else None
        queue = tuple([qe[i] if i in qe else mpq(q) for i, q in enumerate(S.queue)])
        ncells = {}
        kc = []
        if cells:
            ni = pos(idx) if idx is not None else ZERO
            for c in sorted(cells):
                t = again[-1] if c == -1 and len(again) > 1 else num(cells[c]) if c <= 0 else freshb(cells[c])
                ncells[add(ni, C(c))] = t
                kc.append((c, t))
        cm = []
        ncmps = {}
        for (p, b, m), v in S.cmps.items():
            if idx is not None and env.eq(p, idx):
                kk = (mpp(p), mpp(b), mpp(m))
                ncmps[kk] = v
                cm.append((kk, v))
        key = (S.fn, S.bb, S.stack, tuple(nm.items()), S.ctrl, regs, queue, sp, L, S.aborted, extra, tuple(kc), tuple(cm))
        S.mem = nm
        S.L = L
        S.regs = regs
        S.sp = sp
        S.queue = queue
        S.extra = extra
        S.cells = ncells
        S.sym = {}
        S.rel = {}
        S.cmps = ncmps
        S.si = -1
        # difference bounds between the slots
        dd = {}
        n = len(slots)
        for i in range(n):
            ti, si, li, hi = slots[i]
            for j in range(n):
                if i == j:
                    continue
                tj, sj, lj, hj = slots[j]
                g = grp.get(i, 0) & grp.get(j, 0)
                if hi <= 600 and hj <= 600 and not g:
                    continue
                d = sub(ti, tj)
                lb = d.c if not d.m else env.lb(d)
                if lb > li - hj or g:
                    dd[(si.m[0][0], sj.m[0][0])] = lb
        self.lims = lims
        ne.dd = dd
        ne.facts = ()
        S.env = ne
        return key

    def holds(self, S):
        return False

    def lookahead(self, S):
        return 0
    _us = None

    def live_regs(self, S):
        return None

    def exact_regs(self):
        return None

    def limit_reg(self):
        return None

    def byte_regs(self):
        return ()

    def usize_fields(self, v):
        if self._us is None:
            self._us = {}
        k = (v[1], v[3] if v[0] == 'E' else 0)
        r = self._us.get(k)
        if r is None:
            t = self.prog.types[v[1]]
            r = set()
            if t['k'] == 'adt' and k[1] < len(t['v']):
                for i, f in enumerate(t['v'][k[1]]['f']):
                    ft = self.prog.types[f['t']] if f['t'] >= 0 else {}
                    if ft.get('n') == 'usize':
                        r.add(i)
            self._us[k] = r
        return r

    _sh = None

    def shifts(self):
        """constant shift distances in the program: where bit fields may start"""
        if self._sh is None:
            r = {0}
            for f in self.prog.fns:
                if f['crate'] != 'http_box' or not f.get('body'):
                    continue
                _shl(f['body'], r)
            self._sh = sorted((1 << k for k in r), reverse=True)
        return self._sh

    word_types = ('u32', 'u64')

    def u32_fields(self, v):
        k = (v[1], v[3] if v[0] == 'E' else 0, 32)
        r = self._us.get(k)
        if r is None:
            t = self.prog.types[v[1]]
            r = {}
            if t['k'] == 'adt' and v[0] == 'S':
                for i, f in enumerate(t['v'][0]['f']):
                    ft = self.prog.types[f['t']] if f['t'] >= 0 else {}
                    if ft.get('n') in self.word_types:
                        r[i] = int(ft['n'][1:])
            self._us[k] = r
        return r

    def find_bs(self, S):
        return None

    # ---------------------------------------------------------------- records
    def at_head(self, S):
        self.before_head(S)
        self.submit(S)

    def before_head(self, S):
        pass

    def submit(self, S, edge=True):
        if self.late():
            raise TimeoutError()
        org, oenv, oidx = S.origin, S.env, S.oidx
        delta = None
        if edge and org is not None:
            bs = self.find_bs(S)
            if bs is not None and oidx is not None:
                i = bs[0][2][self.prog.bs_ty[bs[1]]['stream_index']]
                delta = [None if x is None else oenv.lb(sub(x, oidx[1])) for x in (i, S.sp)]
        key = self.canon(S)
        r = self.recs.get(key)
        if r is None:
            r = Rec()
            r.key = key
            r.id = len(self.order)
            r.n = 0
            r.done = False
            r.lims = self.lims
            S.origin = S.oidx = None
            S.unr = ()
            S.trail = S.trail[-6:]
            r.S = S
            bs = self.find_bs(S)
            r.ahead = bs is not None and self.is_ahead(S, bs)
            self.recs[key] = r
            self.order.append(r)
            self.enq(r)
        else:
            if self.join(r, S.env):
                self.enq(r)
        if edge and org is not None:
            if delta is not None:
                k = (org, r.id)
                delta = delta[1 if r.ahead else 0]
                o = self.edges.get(k)
                if o is None or delta < o:
                    self.edges[k] = delta
        return r

    def turn(self, S, idx):
        """S has gone around a loop, other than the one that calls the state functions, without consuming"""
        if S.fn is None or S.origin is None or S.oidx is None:
            return False
        R = self.order[S.origin].S
        return R.fn == S.fn and R.bb == S.bb and R.base == S.base and not S.env.lb(sub(idx, S.oidx[0])) > 0 and \
            tags(R.mem.get('parser'), []) == tags(S.mem.get('parser'), [])

    def is_ahead(self, S, bs):
        """whether it is the position of the automaton that says how much was consumed (else the stream index);
        for all states of a record alike"""
        if S.sp is None:
            return False
        d = sub(S.sp, bs[0][2][self.prog.bs_ty[bs[1]]['stream_index']])
        return not d.m and d.c >= 0

    def enq(self, r):
        if r.id not in self.inq:
            self.inq.add(r.id)
            heapq.heappush(self.queue, r.id)

    def join(self, r, e):
        self.joins += 1
        a = r.S.env
        ch = False
        wid = r.n >= 3
        osy = a.syms
        ns = None
        for y, v in osy.items():
            w = e.syms[y]
            if v == w:
                continue
            if v[0] == 'b':
                m = v[1] | w[1]
                if m != v[1]:
                    if ns is None:
                        ns = osy.copy()
                    ns[y] = ('b', m)
                    ch = True
            else:
                lo, hi = min(v[1], w[1]), max(v[2], w[2])
                if lo < v[1] or hi > v[2]:
                    if wid:
                        if lo < v[1]:
                            lo = widen_lo(lo)
                        if hi > v[2]:
                            lm = r.lims.get(y)
                            hi = widen_hi(hi) if lm is None else min(widen_hi(hi), lm) if hi <= lm else max(hi, (1 << 64) - 1)
                    if ns is None:
                        ns = osy.copy()
                    ns[y] = ('w', lo, hi)
                    ch = True
        # difference bounds
        nd = {}
        dch = False
        asy, esy = a.syms, e.syms
        fin = ns or osy
        for k, d in a.dd.items():
            d2 = e.dd.get(k)
            if d2 is None:
                d2 = esy[k[0]][1] - esy[k[1]][2]
            if d2 < d:
                dch = True
                if wid:
                    if r.n >= 60:
                        continue
                    d2 = widen_lo(d2)
                if d2 > -(1 << 39) if k in e.dd else d2 > fin[k[0]][1] - fin[k[1]][2]:
                    nd[k] = d2
            else:
                nd[k] = d
        for k, d in e.dd.items() if not wid else ():
            if k not in a.dd:
                d2 = asy[k[0]][1] - asy[k[1]][2]
                d2 = min(d, d2)
                if ns is not None and d2 > fin[k[0]][1] - fin[k[1]][2]:
                    nd[k] = d2
        if ch or dch:
            ne = a.copy()
            if ns is not None:
                ne.syms = ns
            ne.dd = nd
            r.S.env = ne
            r.n += 1
            return True
        return False

    # ---------------------------------------------------------------- exploration
    def solve(self, starts):
        for S in starts:
            self.submit(S, False)
        i = 0
        while self.queue:
            # lowest record first: keeps related states together
            r = self.order[heapq.heappop(self.queue)]
            self.inq.discard(r.id)
            S = r.S.copy()
            S.env.close()
            S.origin = r.id
            self.cur_rec = r
            r.done = True
            if S.fn is None:
                S.oidx = None
                S.origin = None
                for T in self.begin_call(S):
                    self.run(T, self.at_head, self.at_exit)
            else:
                bs = self.find_bs(S)
                if bs is not None:
                    i = bs[0][2][self.prog.bs_ty[bs[1]]['stream_index']]
                    S.oidx = (i, S.sp if r.ahead else i)
                self.run(S, self.at_head, self.at_exit, resume=True)

    def begin_call(self, S):
        raise NotImplementedError

    def at_exit(self, S):
        raise NotImplementedError

    # ---------------------------------------------------------------- termination
    def nonprogress_cycles(self):
        """cycles of loop heads along which the stream index does not grow"""
        out = []
        adj = {}
        for (a, b), d in self.edges.items():
            adj.setdefault(a, []).append((b, d))
        # strongly connected components
        n = len(self.order)
        index = [None] * n
        low = [0] * n
        onst = [False] * n
        st = []
        cnt = [0]
        comp = [None] * n
        for root in range(n):
            if index[root] is not None:
                continue
            call = [(root, iter(adj.get(root, ())))]
            index[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            onst[root] = True
            while call:
                v, it = call[-1]
                for (w, d) in it:
                    if index[w] is None:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        onst[w] = True
                        call.append((w, iter(adj.get(w, ()))))
                        break
                    elif onst[w]:
                        low[v] = min(low[v], index[w])
                else:
                    call.pop()
                    if call:
                        low[call[-1][0]] = min(low[call[-1][0]], low[v])
                    if low[v] == index[v]:
                        c = []
                        while True:
                            w = st.pop()
                            onst[w] = False
                            comp[w] = v
                            c.append(w)
                            if w == v:
                                break
                        out.append(c)
        bad = []
        for c in out:
            cs = set(c)
            ed = [(a, b, d) for a in c for (b, d) in adj.get(a, ()) if b in cs]
            if not ed:
                continue
            # a cycle with total <= 0 is negative under d*(n+1)-1
            k = len(c) + 1
            dist = {x: 0 for x in c}
            pred = {}
            last = None
            for it in range(len(c) + 1):
                last = None
                for a, b, d in ed:
                    w = dist[a] + d * k - 1
                    if w < dist[b]:
                        dist[b] = w
                        pred[b] = a
                        last = b
                if last is None:
                    break
            if last is not None:
                x = last
                for _ in range(len(c)):
                    x = pred[x]
                cyc = [x]
                y = pred[x]
                while y != x:
                    cyc.append(y)
                    y = pred[y]
                bad.append([self.order[i] for i in reversed(cyc)])
        return bad


def _shl(x, out):
    if type(x) is dict:
        if x.get('op') in ('Shl', 'ShlUnchecked', 'ShlWithOverflow') and type(x.get('b')) is dict:
            c = x['b'].get('c')
            v = c.get('v') if type(c) is dict else c
            if type(v) is str and v.isdigit():
                v = int(v)
            if type(v) is int and 0 <= v < 64:
                out.add(v)
        for y in x.values():
            if type(y) in (dict, list):
                _shl(y, out)
    elif type(x) is list:
        for y in x:
            if type(y) in (dict, list):
                _shl(y, out)


def _refs(v, mem, seen, work):
    if type(v) is not tuple or not v:
        return
    if v[0] == 'R':
        k = v[1]
        if k not in seen and k in mem:
            seen.add(k)
            work.append(k)
        return
    if v[0] == 'm' and len(v) == 3:
        k = v[1]
        if k not in seen and k in mem:
            seen.add(k)
            work.append(k)
        return
    for x in v:
        if type(x) is tuple:
            _refs(x, mem, seen, work)


def _plain(v, out):
    t = type(v)
    if t is N:
        if len(v.m) == 1 and v.m[0][1] == 0 and v.m[0][2] == IDT and v.c == 0:
            out.add(v.m[0][0])
    elif t is tuple:
        for x in v:
            if type(x) is tuple or type(x) is N:
                _plain(x, out)
