"""Numeric abstract domain.

A term N denotes an exact integer  c + sum of components, each component being a function of one
symbol:
   (sym, 0, tab)          TABS[tab][sym]            sym is a byte symbol (value set: 256-bit mask)
   (sym, 1, k)            k * sym                   sym is a wide symbol (value range: interval)
   (sym, 2, (lo, n, sh))  ((sym >> lo) & (2^n-1)) << sh
The environment (class Env) maps symbols to their value set / interval and holds a short list of
linear facts (terms known to be >= 0).  Everything that cannot be represented becomes a fresh
symbol bounded by its type, so every operation over-approximates.
"""
FULL = (1 << 256) - 1
MAXLEN = 1 << 40          # assumed bound on the length of one slice / of the bytes of one session

TABS = []
_TABIDX = {}


def tab_intern(t):
    i = _TABIDX.get(t)
    if i is None:
        i = len(TABS)
        TABS.append(t)
        _TABIDX[t] = i
    return i


IDT = tab_intern(tuple(range(256)))
_memo = {}


def bits(mask):
    """values in a byte-set mask"""
    r = _memo.get(('b', mask))
    if r is None:
        r = tuple(i for i in range(256) if mask >> i & 1)
        _memo[('b', mask)] = r
    return r


def mask_of(vals):
    m = 0
    for v in vals:
        m |= 1 << v
    return m


class N:
    __slots__ = ('c', 'm', 'h')

    def __init__(self, c, m=()):
        self.c = c
        self.m = m
        self.h = None

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.c, self.m))
        return self.h

    def __eq__(self, o):
        return self is o or (type(o) is N and self.c == o.c and self.m == o.m)

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        s = []
        if self.c or not self.m:
            s.append(str(self.c))
        for y, k, d in self.m:
            if k == 0:
                s.append('b%d' % y if d == IDT else 'T%d(b%d)' % (d, y))
            elif k == 1:
                s.append('w%d' % y if d == 1 else '%d*w%d' % (d, y))
            else:
                s.append(('-' if k == 3 else '') + 'w%d[%d+:%d]<<%d' % ((y,) + d))
        return '+'.join(s)


_consts = {}


def C(v):
    r = _consts.get(v)
    if r is None:
        r = N(v)
        if -1000 < v < 1000:
            _consts[v] = r
    return r


ZERO, ONE = C(0), C(1)


def wsym(s):
    return N(0, ((s, 1, 1),))


def bsym(s, t=IDT):
    return N(0, ((s, 0, t),))


def _tadd(t, u, sg):
    k = ('+', t, u, sg)
    r = _memo.get(k)
    if r is None:
        a, b = TABS[t], TABS[u]
        v = tuple(x + sg * y for x, y in zip(a, b))
        r = None if not any(v) else tab_intern(v)
        r = (r,)
        _memo[k] = r
    return r[0]


def tmap(t, key, f):
    k = (key, t)
    r = _memo.get(k)
    if r is None:
        r = tab_intern(tuple(f(x) for x in TABS[t]))
        _memo[k] = r
    return r


def add(a, b, sg=1):
    if not b.m:
        if not b.c:
            return a
        return N(a.c + sg * b.c, a.m)
    if not a.m and sg == 1:
        return N(a.c + b.c, b.m) if a.c else b
    # bit-slices carry an implicit coefficient of 1 (kind 2) or -1 (kind 3)
    out2 = [x for x in a.m if x[1] >= 2]
    d = {(y, k): v for y, k, v in a.m if k < 2}
    for y, k, v in b.m:
        if k >= 2:
            if sg != 1:
                k = 5 - k
            if (y, 5 - k, v) in out2:
                out2.remove((y, 5 - k, v))
            else:
                out2.append((y, k, v))
        elif (y, k) in d:
            if k == 0:
                t = _tadd(d[(y, k)], v, sg)
                if t is None:
                    del d[(y, k)]
                else:
                    d[(y, k)] = t
            else:
                s = d[(y, k)] + sg * v
                if s:
                    d[(y, k)] = s
                else:
                    del d[(y, k)]
        else:
            if sg == 1:
                d[(y, k)] = v
            elif k == 0:
                d[(y, k)] = tmap(v, 'neg', lambda x: -x)
            else:
                d[(y, k)] = -v
    m = [(y, k, v) for (y, k), v in d.items()] + out2
    m.sort(key=_ck)
    return N(a.c + sg * b.c, tuple(m))


def _ck(x):
    return (x[0], x[1], x[2] if type(x[2]) is tuple else (x[2],))


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return ZERO
    m = []
    for y, kd, v in a.m:
        if kd == 0:
            m.append((y, 0, tmap(v, ('*', k), lambda x: x * k)))
        elif kd == 1:
            m.append((y, 1, v * k))
        elif kd == 2 and k > 0 and k & (k - 1) == 0:
            m.append((y, 2, (v[0], v[1], v[2] + k.bit_length() - 1)))
        else:
            return None
    m.sort(key=_ck)
    return N(a.c * k, tuple(m))


def exact_div(a, k):
    """a / k if every part is divisible by k (k a power of two), else None"""
    sh = k.bit_length() - 1
    if a.c % k:
        return None
    m = []
    for y, kd, v in a.m:
        if kd == 0:
            if any(x % k for x in TABS[v]):
                return None
            m.append((y, 0, tmap(v, ('/', k), lambda x: x // k)))
        elif kd == 1:
            if v % k:
                return None
            m.append((y, 1, v // k))
        elif kd == 2:
            if v[2] < sh:
                return None
            m.append((y, 2, (v[0], v[1], v[2] - sh)))
        else:
            return None
    return N(a.c // k, tuple(m))


class Env:
    """symbol environment: sym -> ('b', mask) | ('w', lo, hi); facts: tuple of N (>= 0)"""
    __slots__ = ('syms', 'facts', 'nxt', 'dd')

    def __init__(self):
        self.syms = {}
        self.facts = ()
        self.nxt = 0
        self.dd = {}

    def copy(self):
        e = Env.__new__(Env)
        e.syms = self.syms.copy()
        e.facts = self.facts
        e.nxt = self.nxt
        e.dd = self.dd
        return e

    def newb(self, mask=FULL):
        s = self.nxt
        self.nxt = s + 1
        self.syms[s] = ('b', mask)
        return s

    def neww(self, lo, hi):
        s = self.nxt
        self.nxt = s + 1
        self.syms[s] = ('w', lo, hi)
        return s

    # -------------------------------------------------------------- bounds
    def cb(self, comp):
        y, k, v = comp
        s = self.syms[y]
        if k == 0:
            key = ('mm', v, s[1])
            r = _memo.get(key)
            if r is None:
                t = TABS[v]
                vals = [t[i] for i in bits(s[1])]
                r = (min(vals), max(vals)) if vals else (0, 0)
                _memo[key] = r
            return r
        if k == 1:
            return (v * s[1], v * s[2]) if v > 0 else (v * s[2], v * s[1])
        lo, n, sh = v
        top = (1 << n) - 1
        if s[0] == 'w' and s[2] >> lo <= top:
            r = ((s[1] >> lo) << sh, (s[2] >> lo) << sh)
        else:
            r = (0, top << sh)
        return r if k == 2 else (-r[1], -r[0])

    def base(self, e):
        lo = hi = e.c
        for cmp_ in e.m:
            a, b = self.cb(cmp_)
            lo += a
            hi += b
        return lo, hi

    def bounds(self, e):
        lo, hi = self.base(e)
        if lo == hi or not e.m or not (self.facts or self.dd):
            return lo, hi
        lo2 = self._lb(e, lo)
        hi2 = -self._lb(scale_neg(e), -hi)
        return lo2, hi2

    def ddlb(self, e):
        """lower bound by intervals and the difference bounds of the loop head"""
        lo = e.c
        dd = self.dd
        P = Q = None
        for c in e.m:
            a, b = self.cb(c)
            lo += a
            if c[1] == 1 and dd:
                if c[2] > 0:
                    if P is None:
                        P = []
                    P.append(c)
                else:
                    if Q is None:
                        Q = []
                    Q.append(c)
        if P is None or Q is None:
            return lo
        best = 0
        if len(P) == 1 and len(Q) == 1:
            p, q = P[0], Q[0]
            d = dd.get((p[0], q[0]))
            if d is not None:
                k = min(p[2], -q[2])
                return lo + max(0, k * (d - self.syms[p[0]][1] + self.syms[q[0]][2]))
            return lo
        used = 0
        gains = []
        for p in P:
            for q in Q:
                d = dd.get((p[0], q[0]))
                if d is not None:
                    g = min(p[2], -q[2]) * (d - self.syms[p[0]][1] + self.syms[q[0]][2])
                    if g > 0:
                        gains.append((g, p[0], q[0]))
        if gains:
            gains.sort(reverse=True)
            up, uq = set(), set()
            for g, a, b in gains:
                if a not in up and b not in uq:
                    up.add(a)
                    uq.add(b)
                    lo += g
        return lo

    def _lb(self, e, best):
        if e is None:
            return best
        l = self.ddlb(e)
        if l > best:
            best = l
        if not self.facts:
            return best
        ys = {c[0] for c in e.m}
        fs = [f for f in self.facts if any(c[0] in ys for c in f.m)]
        seconds = []
        for f in fs:
            for k in _ratios(e, f):
                g = sub(e, scale(f, k)) if k != 1 else sub(e, f)
                l = self.ddlb(g)
                if l > best:
                    best = l
                seconds.append(g)
        for g in seconds:
            ys2 = {c[0] for c in g.m}
            for f in self.facts:
                if any(c[0] in ys2 for c in f.m):
                    l = self.ddlb(sub(g, f))
                    if l > best:
                        best = l
        return best

    def lb(self, e):
        lo, hi = self.base(e)
        if lo == hi or not e.m or not (self.facts or self.dd):
            return lo
        return self._lb(e, lo)

    def ub(self, e):
        lo, hi = self.base(e)
        if lo == hi or not e.m or not (self.facts or self.dd):
            return hi
        return -self._lb(scale_neg(e), -hi)

    def const(self, e):
        """the constant value of e, or None"""
        if not e.m:
            return e.c
        lo, hi = self.base(e)
        if lo == hi:
            return lo
        if self.facts or self.dd:
            lo, hi = self.bounds(e)
            if lo == hi:
                return lo
        return None

    def eq(self, a, b):
        """True if a == b in every concretisation"""
        if a == b:
            return True
        d = sub(a, b)
        return self.const(d) == 0

    def narrow(self, y, lo, hi):
        """restrict a symbol; its difference bounds restrict the others"""
        work = [(y, lo, hi)]
        syms, dd = self.syms, self.dd
        while work:
            y, lo, hi = work.pop()
            s = syms[y]
            if lo <= s[1] and hi >= s[2]:
                continue
            lo, hi = max(lo, s[1]), min(hi, s[2])
            if lo > hi:
                return False
            syms[y] = ('w', lo, hi)
            for (a, b), d in dd.items():
                if a == y:
                    if syms[b][2] > hi - d:
                        work.append((b, syms[b][1], hi - d))
                elif b == y:
                    if syms[a][1] < lo + d:
                        work.append((a, lo + d, syms[a][2]))
        return True

    def feasible(self):
        """False if the bounds of the symbols contradict a fact"""
        for f in self.facts:
            hi = f.c
            for c in f.m:
                hi += self.cb(c)[1]
            if hi < 0:
                return False
        return True

    def add_fact(self, f):
        """assume f >= 0; False if infeasible"""
        lo, hi = self.bounds(f)
        if hi < 0:
            return False
        if lo >= 0:
            return True
        if len(f.m) == 1:
            y, k, v = f.m[0]
            s = self.syms[y]
            if k == 1:
                # v*y + c >= 0
                if v > 0:
                    n = -(f.c // v) if f.c % v == 0 else -(f.c // v)
                    n = -((f.c) // v)
                    nl = max(s[1], n)
                    return self.narrow(y, nl, s[2]) and self.feasible()
                nh = min(s[2], f.c // (-v))
                return self.narrow(y, s[1], nh) and self.feasible()
            if k == 0:
                t = TABS[v]
                m = mask_of(i for i in bits(s[1]) if t[i] + f.c >= 0)
                self.syms[y] = ('b', m)
                return m != 0
            if k == 2 or k == 3:
                # the bit slice is a multiple of its lowest bit
                u = 1 << v[2]
                if f.c % u:
                    f = N(f.c - f.c % u, f.m)
        elif f.c + sum([self.cb(x)[1] for x in f.m]) < (1 << 40):
            # interval propagation
            tot = f.c
            hs = []
            for x in f.m:
                h = self.cb(x)[1]
                hs.append(h)
                tot += h
            for x, h in zip(f.m, hs):
                y, k, v = x
                need = h - tot          # this component must be at least that
                if k == 1:
                    s = self.syms[y]
                    if v > 0:
                        if v * s[1] < need and not self.narrow(y, -(-need // v), s[2]):
                            return False
                    elif v * s[2] < need and not self.narrow(y, s[1], need // v):
                        return False
                elif k == 0:
                    s = self.syms[y]
                    tb = TABS[v]
                    m = mask_of(i for i in bits(s[1]) if tb[i] >= need)
                    if m == 0:
                        return False
                    if m != s[1]:
                        self.syms[y] = ('b', m)
        self.facts = self.facts + (f,)
        if len(self.facts) > 40:
            self.facts = self.facts[-40:]
        return self.feasible()

    def close(self):
        """the difference bounds that follow from others"""
        dd = self.dd
        if not dd:
            return
        row = {}
        for (a, b), d in dd.items():
            row.setdefault(a, {})[b] = d
        syms = self.syms
        for k, rk in list(row.items()):
            for a, ra in row.items():
                d = ra.get(k)
                if d is None or a == k:
                    continue
                for b, e in rk.items():
                    if b != a and d + e > ra.get(b, syms[a][1] - syms[b][2]):
                        ra[b] = d + e
        self.dd = {(a, b): d for a, ra in row.items() for b, d in ra.items()}
        for (a, b), d in self.dd.items():
            x, y = syms[a], syms[b]
            if y[2] > x[2] - d:
                syms[b] = y = ('w', y[1], x[2] - d)
            if x[1] < y[1] + d:
                syms[a] = ('w', y[1] + d, x[2])

    # -------------------------------------------------------------- bit structure
    def clusters(self, a):
        """split a (assumed >= 0) into parts with pairwise disjoint bit masks: [(mask, N)] or None"""
        a = self.simp(a)
        if a.c < 0 or any((k == 1 and v < 0) or k == 3 for _, k, v in a.m) or \
                any(k == 0 and self.cb((y, k, v))[0] < 0 for y, k, v in a.m):
            pos = [x for x in a.m if x[1] == 2 or (x[1] == 0 and self.cb(x)[0] >= 0 and False)]
            rest = [x for x in a.m if x not in pos]
            parts = [N(0, (x,)) for x in pos]
            # high parts and low parts of the remainder are separated by divisibility where possible
            parts.extend(self._split_div(N(a.c, tuple(rest))))
        else:
            parts = []
            for x in a.m:
                if x[1] == 1 and x[2] & (x[2] - 1):
                    parts.extend(self._split_coef(x))
                else:
                    parts.append(N(0, (x,)))
            if a.c:
                b = a.c
                # split the constant into its maximal runs of bits
                while b:
                    low = b & -b
                    run = low
                    while b & (run << 1):
                        run <<= 1
                    msk = (run << 1) - low
                    parts.append(C(b & msk))
                    b &= ~msk
        work = []
        for p in parts:
            mk = self.gmask(p)
            if mk is None:
                return None
            work.append((mk, p))
        # merge overlapping
        changed = True
        while changed:
            changed = False
            for i in range(len(work)):
                for j in range(i + 1, len(work)):
                    if work[i][0] & work[j][0]:
                        p = add(work[i][1], work[j][1])
                        mk = self.gmask(p)
                        if mk is None:
                            return None
                        work = [w for n, w in enumerate(work) if n not in (i, j)] + [(mk, p)]
                        changed = True
                        break
                if changed:
                    break
        return work

    def _split_coef(self, x):
        """257*w (w a byte) as 256*w + w"""
        M = self.syms[x[0]][2]
        v = x[2]
        out = []
        for sh in (48, 40, 32, 24, 16, 8):
            k = 1 << sh
            if v > k and v % k and v % k * M < k:
                out.append(N(0, ((x[0], 1, v - v % k),)))
                v %= k
        out.append(N(0, ((x[0], 1, v),)))
        return out

    def _split_div(self, a):
        """split a mixed-sign term into the part divisible by 2^8/2^16.. and a non-negative rest"""
        for sh in (8, 16, 18, 4, 12, 14, 24):
            k = 1 << sh
            hi_m = [x for x in a.m if (x[1] == 1 and x[2] % k == 0) or
                    (x[1] == 0 and all(v % k == 0 for v in TABS[x[2]])) or (x[1] == 2 and x[2][2] >= sh)]
            lo_m = []
            for x in a.m:
                if x in hi_m:
                    continue
                if x[1] == 1 and x[2] > k:
                    hi_m.append((x[0], 1, x[2] - x[2] % k))
                    x = (x[0], 1, x[2] % k)
                lo_m.append(x)
            if not hi_m or not (lo_m or a.c % k):
                continue
            for c0 in (a.c % k, a.c % k - k):
                lo = N(c0, tuple(lo_m))
                hi = N(a.c - c0, tuple(hi_m))
                l1, h1 = self.base(lo)
                if l1 >= 0 and h1 < k and self.lb(hi) >= 0:
                    return self._split_div(hi) + self._split_div(lo) if len(hi_m) > 1 else [hi, lo]
        return [a]

    def simp(self, a):
        """replace symbols of known value"""
        c = a.c
        m = None
        for x in a.m:
            if x[1] == 1:
                s = self.syms[x[0]]
                if s[1] == s[2]:
                    if m is None:
                        m = list(a.m)
                    m.remove(x)
                    c += x[2] * s[1]
        return a if m is None else N(c, tuple(m))

    def gmask(self, p):
        """bits that may be set in p"""
        p = self.simp(p)
        if not p.m:
            return p.c if p.c >= 0 else None
        if len(p.m) == 1 and p.c == 0:
            y, k, v = p.m[0]
            if k == 0:
                s = self.syms[y][1]
                key = ('or', v, s)
                r = _memo.get(key)
                if r is None:
                    r = 0
                    t = TABS[v]
                    for i in bits(s):
                        if t[i] < 0:
                            return None
                        r |= t[i]
                    _memo[key] = r
                return r
            if k == 2:
                return ((1 << v[1]) - 1) << v[2]
        lo, hi = self.bounds(p)
        if lo < 0:
            return None
        tz = 400
        for y, k, v in p.m:
            if k == 0:
                key = ('tz', v, self.syms[y][1])
                z = _memo.get(key)
                if z is None:
                    t = TABS[v]
                    z = min([_tz(t[i]) for i in bits(self.syms[y][1])] or [400])
                    _memo[key] = z
            elif k == 1:
                z = _tz(v)
            else:
                z = v[2]
            tz = min(tz, z)
        if p.c:
            tz = min(tz, _tz(p.c))
        return ((1 << hi.bit_length()) - 1) & ~((1 << tz) - 1)

    def single(self, *ns):
        """the only symbol the terms depend on, if it is a byte symbol"""
        y = None
        for n in ns:
            for c in n.m:
                if c[1] != 0:
                    return None
                if y is None:
                    y = c[0]
                elif y != c[0]:
                    return None
        return y

    def tabulate(self, y, f, *ns):
        """term over byte symbol y computed pointwise; values outside the symbol's set are 0"""
        vals = [0] * 256
        for i in bits(self.syms[y][1]):
            a = [n.c + sum(TABS[c[2]][i] for c in n.m) for n in ns]
            vals[i] = f(*a)
        t = tuple(vals)
        if len(set(t[i] for i in bits(self.syms[y][1]))) == 1:
            return C(t[bits(self.syms[y][1])[0]])
        return bsym(y, tab_intern(t))

    def pt(self, n, i):
        return n.c + sum(TABS[c[2]][i] for c in n.m)

    def havoc(self, lo, hi):
        if lo == hi:
            return C(lo)
        return wsym(self.neww(lo, hi))

    def band(self, a, b, w):
        full = (1 << w) - 1
        if not a.m:
            a, b = b, a
        if not b.m:
            if not a.m:
                return C((a.c & full) & (b.c & full))
            m = b.c & full
            y = self.single(a)
            if y is not None:
                return self.tabulate(y, lambda x: x & m, a)
            if m == full:
                return a
            cl = self.clusters(a)
            if cl is not None:
                out = ZERO
                ok = True
                for mk, p in cl:
                    if mk & m == mk:
                        out = add(out, p)
                    elif mk & m == 0:
                        pass
                    else:
                        q = self._mask1(p, m, w)
                        if q is None:
                            ok = False
                            break
                        out = add(out, q)
                if ok:
                    return out
            hi = min(m, max(0, self.ub(a)))
            return self.havoc(0, hi)
        y = self.single(a, b)
        if y is not None:
            return self.tabulate(y, lambda p, q: p & q, a, b)
        return self.havoc(0, max(0, min(self.ub(a), self.ub(b))))

    def _mask1(self, p, m, w):
        if not p.m:
            return C(p.c & m)
        y = self.single(p)
        if y is not None:
            return self.tabulate(y, lambda x: x & m, p)
        if len(p.m) == 1 and p.c == 0:
            y, k, v = p.m[0]
            if k == 1 and v > 0 and v & (v - 1) == 0:
                sh = v.bit_length() - 1
                lo0, n0 = 0, max(1, self.syms[y][2].bit_length())
            elif k == 2:
                lo0, n0, sh = v
            else:
                return None
            # bits of the result: symbol bits [lo0, lo0+n0) placed at sh, and-ed with m
            mm = (m >> sh) & ((1 << n0) - 1)
            if mm == 0:
                return ZERO
            low = _tz(mm)
            run = mm >> low
            if run & (run + 1):
                return None
            n = run.bit_length()
            return N(0, ((y, 2, (lo0 + low, n, sh + low)),))
        return None

    def bor(self, a, b, w):
        if not a.m and not b.m:
            return C(a.c | b.c)
        if not a.m:
            a, b = b, a
        if not b.m and b.c == 0:
            return a
        y = self.single(a, b)
        if y is not None:
            return self.tabulate(y, lambda p, q: p | q, a, b)
        ma, mb = self.fullmask(a), self.fullmask(b)
        if ma is not None and mb is not None and ma & mb == 0:
            return add(a, b)
        return self.havoc(0, (1 << w) - 1)

    def fullmask(self, a):
        cl = self.clusters(a)
        if cl is None:
            return None
        r = 0
        for mk, _ in cl:
            r |= mk
        return r

    def bxor(self, a, b, w):
        if not a.m and not b.m:
            return C(a.c ^ b.c)
        y = self.single(a, b)
        if y is not None:
            return self.tabulate(y, lambda p, q: p ^ q, a, b)
        ma, mb = self.fullmask(a), self.fullmask(b)
        if ma is not None and mb is not None and ma & mb == 0:
            return add(a, b)
        return self.havoc(0, (1 << w) - 1)

    def shl(self, a, k, w):
        r = scale(a, 1 << k)
        full = (1 << w) - 1
        if r is not None and self.lb(r) >= 0 and self.ub(r) <= full:
            return r
        y = self.single(a)
        if y is not None:
            return self.tabulate(y, lambda x: (x << k) & full, a)
        # bits shifted out are lost
        keep = self.band(a, C(full >> k), w)
        r = scale(keep, 1 << k)
        if r is not None and self.lb(r) >= 0 and self.ub(r) <= full:
            return r
        return self.havoc(0, full)

    def shr(self, a, k, w):
        if not a.m:
            return C(a.c >> k)
        if k == 0:
            return a
        y = self.single(a)
        if y is not None:
            return self.tabulate(y, lambda x: x >> k, a)
        cl = self.clusters(a)
        if cl is not None:
            out = ZERO
            for mk, p in cl:
                if mk < (1 << k):
                    continue
                if mk & ((1 << k) - 1):
                    p2 = self._mask1(p, mk & ~((1 << k) - 1), w)
                    if p2 is None:
                        out = None
                        break
                    p = p2
                q = exact_div(p, 1 << k)
                if q is None:
                    out = None
                    break
                out = add(out, q)
            if out is not None:
                return out
        lo, hi = self.bounds(a)
        return self.havoc(max(0, lo) >> k, max(0, hi) >> k)

    def wrap(self, a, w):
        """a modulo 2^w"""
        full = (1 << w) - 1
        lo, hi = self.bounds(a)
        if lo >= 0 and hi <= full:
            return a
        if not a.m:
            return C(a.c & full)
        y = self.single(a)
        if y is not None:
            return self.tabulate(y, lambda x: x & full, a)
        if lo >= 0:
            return self.band(a, C(full), max(w, hi.bit_length()))
        return self.havoc(0, full)


def _tz(v):
    return 400 if v == 0 else (v & -v).bit_length() - 1


def scale_neg(e):
    m = []
    for y, k, v in e.m:
        if k == 0:
            m.append((y, 0, tmap(v, 'neg', lambda x: -x)))
        elif k == 1:
            m.append((y, 1, -v))
        elif k == 2:
            m.append((y, 3, v))
        else:
            m.append((y, 2, v))
    m.sort(key=_ck)
    return N(-e.c, tuple(m))


def _ratios(e, f):
    """multipliers k such that e - k*f cancels a component of e"""
    out = set()
    fd = {(c[0], c[1]): c[2] for c in f.m if c[1] == 1}
    has0 = False
    for c in e.m:
        if c[1] == 1 and (c[0], 1) in fd:
            q, r = divmod(c[2], fd[(c[0], 1)])
            if r == 0 and q > 0:
                out.add(q)
        elif c[1] == 0:
            has0 = True
    if has0 or not out:
        out.add(1)
    return out


def ratio(env, p, t):
    """(k, c) with p == k*t + c in every concretisation, or None"""
    if not t.m or not p.m:
        return None
    y, kd, v = t.m[0]
    k = None
    for y2, kd2, v2 in p.m:
        if y2 == y and kd2 == kd:
            if kd == 1:
                if v2 % v == 0:
                    k = v2 // v
            elif kd == 0:
                bs = bits(env.syms[y][1])
                a, b = TABS[v], TABS[v2]
                for i in bs[1:]:
                    if a[i] != a[bs[0]]:
                        q, r = divmod(b[i] - b[bs[0]], a[i] - a[bs[0]])
                        if r == 0:
                            k = q
                        break
            break
    if k is None or k <= 0:
        return None
    s = scale(t, k)
    if s is None:
        return None
    c = env.const(sub(p, s))
    if c is None:
        return None
    return k, c


def rename(n, mp, cache):
    r = cache.get(n)
    if r is None:
        if n.m:
            m = [(mp[y], k, v) for y, k, v in n.m]
            m.sort(key=_ck)
            r = N(n.c, tuple(m))
        else:
            r = n
        cache[n] = r
    return r


def subst(n, y, e):
    """replace wide symbol y by term e; None if impossible (y occurs in a bit slice)"""
    hit = None
    rest = []
    for c in n.m:
        if c[0] == y:
            if c[1] != 1:
                return None
            hit = c[2]
        else:
            rest.append(c)
    if hit is None:
        return n
    s = scale(e, hit)
    if s is None:
        return None
    return add(N(n.c, tuple(rest)), s)
