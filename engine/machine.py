"""Control: calls (interpreted or modelled), returns, switches.  run() follows one state until every
path reaches a loop head, leaves the entry function, or ends."""
import time
import re
from terms import *
from interp import *

OPT_NONE, OPT_SOME = 0, 1


def opt_none(dty):
    return ('E', dty, (), 0)


def opt_some(dty, v):
    return ('E', dty, (v,), 1)


# ---------------------------------------------------------------- slices
def as_slice(S, v):
    """normalise a (reference to a) slice-like value to ('SL', base, start, len)"""
    for _ in range(6):
        k = v[0]
        if k == 'SL':
            return v
        if k == 'A':
            return ('SL', ('k', v[2]), ZERO, C(len(v[2])))
        if k == 'V':
            return vec_slice(v)
        if k == 'R':
            w = load(S, v[1], v[2])
            if w is None:
                raise Unsupported('slice of uninit')
            if w[0] == 'A':
                return ('SL', ('m', v[1], v[2]), ZERO, C(len(w[2])))
            if w[0] == 'S' and len(w[2]) >= 1 and type(w[2][0]) is tuple and w[2][0] and w[2][0][0] == 'V':
                v = w[2][0]
            else:
                v = w
        elif k == 'RV':
            v = v[1]
        elif k == 'RE':
            v = read_base(S, v[1], v[2])
        elif k == 'S' and len(v[2]) >= 1 and type(v[2][0]) is tuple:
            v = v[2][0]
        else:
            raise Unsupported('not a slice: %r' % (v,))
    raise Unsupported('slice nesting')


def seg_len(sg):
    if sg[0] == 'g':
        return sg[2]
    return ONE if sg[0] == 'b' else sub(sg[3], sg[2])


def segs_len(segs):
    n = ZERO
    for s in segs:
        n = add(n, seg_len(s))
    return n


def vec_slice(v):
    segs = v[1]
    if len(segs) == 1 and segs[0][0] == 'r':
        return ('SL', segs[0][1], segs[0][2], sub(segs[0][3], segs[0][2]))
    if all(s[0] == 'b' for s in segs):
        return ('SL', ('k', tuple(s[1] for s in segs)), ZERO, C(len(segs)))
    return ('SL', ('v', segs), ZERO, segs_len(segs))


def slice_segs(S, sl):
    """contents of a slice as segments"""
    _, base, st, n = sl
    if base[0] == 'v':
        if S.env.const(st) == 0 and S.env.eq(n, segs_len(base[1])):
            return base[1]
        raise Unsupported('part of a mixed vector')
    if base[0] in ('st', 'sy'):
        return (('r', base, st, add(st, n)),)
    c = S.env.const(n)
    if c is None:
        return (('r', base, st, add(st, n)),)
    return tuple(('b', read_base(S, base, add(st, C(i)))) for i in range(c))


def subslice(S, sl, a, b):
    """sl[a..b] with bounds check"""
    if not decide(S, compare(S, 'le', a, b)):
        raise Violation('panic', 'slice index starts after its end')
    if not decide(S, compare(S, 'le', b, sl[3])):
        raise Violation('panic', 'slice end out of range')
    return ('SL', sl[1], add(sl[2], a), sub(b, a))


def slices_equal(S, x, y):
    nx, ny = x[3], y[3]
    if not decide(S, compare(S, 'eq', nx, ny)):
        return False
    n = S.env.const(nx)
    if n is None:
        n = S.env.const(ny)
    symb = [z for z in (x, y) if z[1][0] == 'sy']
    if n is None or (len(symb) == 1 and n > 0):
        if len(symb) == 1:
            z = symb[0]
            o = y if z is x else x
            if o[1][0] == 'st':
                if decide(S, compare(S, 'eq', nx, ZERO)):
                    return True
                return cmp_decide(S, o[2], z[2], nx)
        if n is None:
            raise Unsupported('comparison of slices of unknown length')
    for i in range(n):
        a = read_base(S, x[1], add(x[2], C(i)))
        b = read_base(S, y[1], add(y[2], C(i)))
        if not decide(S, compare(S, 'eq', a, b)):
            return False
    return True


def cmp_decide(S, pos, bpos, n):
    """does stream[pos..pos+n] equal boundary[bpos..bpos+n]?  undecided comparisons fork"""
    for (p, b, m), v in S.cmps.items():
        if S.env.eq(p, pos) and S.env.eq(b, bpos) and S.env.eq(m, n):
            return v
    k = (pos, bpos, n)

    def mk(v):
        def f(S):
            S.cmps[k] = v
            return True
        return f
    raise Fork([mk(True), mk(False)])


# ---------------------------------------------------------------- models of library functions
def get_range(S, r, sl, f):
    """(from, to) of a range value given its type name"""
    t = r[1]
    nm = f
    if 'RangeFull' in nm:
        return ZERO, sl[3]
    if 'RangeFrom' in nm:
        return r[2][0], sl[3]
    if 'RangeToInclusive' in nm:
        return ZERO, add(r[2][0], ONE)
    if 'RangeTo' in nm:
        return ZERO, r[2][0]
    if 'RangeInclusive' in nm:
        return r[2][0], add(r[2][1], ONE)
    return r[2][0], r[2][1]


MODELS = []


def model(rx):
    def d(fn):
        MODELS.append((re.compile(rx), fn))
        return fn
    return d


@model(r'^(core|std)::slice::<impl \[.*\]>::len$|^(std|alloc)::vec::Vec::<.*>::len$|^(std|core)::str::<impl str>::len$|^(std|alloc)::string::String::len$')
def m_len(M, S, a, dty, f):
    return as_slice(S, a[0])[3]


@model(r'slice::<impl \[.*\]>::is_empty$|vec::Vec::<.*>::is_empty$|<impl str>::is_empty$|String::is_empty$')
def m_is_empty(M, S, a, dty, f):
    return compare(S, 'eq', as_slice(S, a[0])[3], ZERO)


@model(r'slice::<impl \[.*\]>::get_unchecked(_mut)?::<usize>$')
def m_getu(M, S, a, dty, f):
    sl = as_slice(S, a[0])
    M.site(S, 'read')
    if not decide(S, compare(S, 'lt', a[1], sl[3])):
        raise Violation('oob', 'unchecked read past the end of a slice')
    if not decide(S, compare(S, 'le', ZERO, a[1])):
        raise Violation('oob', 'unchecked read before a slice')
    return ('RE', sl[1], add(sl[2], a[1]))


@model(r'slice::<impl \[.*\]>::get_unchecked(_mut)?::<.*Range.*>$')
def m_getur(M, S, a, dty, f):
    sl = as_slice(S, a[0])
    x, y = get_range(S, a[1], sl, f['full'].rsplit('::<', 1)[-1])
    M.site(S, 'read')
    if not (decide(S, compare(S, 'le', x, y)) and decide(S, compare(S, 'le', y, sl[3]))):
        raise Violation('oob', 'unchecked slicing past the end of a slice')
    return ('SL', sl[1], add(sl[2], x), sub(y, x))


@model(r'slice::<impl \[.*\]>::get::<usize>$')
def m_get(M, S, a, dty, f):
    sl = as_slice(S, a[0])
    if decide(S, compare(S, 'lt', a[1], sl[3])):
        return opt_some(dty, ('RE', sl[1], add(sl[2], a[1])))
    return opt_none(dty)


@model(r'slice::<impl \[.*\]>::get::<.*Range.*>$')
def m_getr(M, S, a, dty, f):
    sl = as_slice(S, a[0])
    x, y = get_range(S, a[1], sl, f['full'].rsplit('::<', 1)[-1])
    if decide(S, compare(S, 'le', x, y)) and decide(S, compare(S, 'le', y, sl[3])):
        return opt_some(dty, ('SL', sl[1], add(sl[2], x), sub(y, x)))
    return opt_none(dty)


@model(r'slice::<impl \[.*\]>::(first|last)$')
def m_first(M, S, a, dty, f):
    sl = as_slice(S, a[0])
    if decide(S, compare(S, 'eq', sl[3], ZERO)):
        return opt_none(dty)
    i = ZERO if f['full'].endswith('first') else sub(sl[3], ONE)
    return opt_some(dty, ('RE', sl[1], add(sl[2], i)))


@model(r'Index(Mut)?<.*usize>> for (\[.*\]|str|.*Vec<.*>)>::index(_mut)?$|^<std::vec::Vec<.*> as std::ops::Index<.*Range.*>>::index$|as std::slice::SliceIndex<\[.*\]>>::index$|Index<.*RangeFull> for')
def m_index(M, S, a, dty, f):
    if 'SliceIndex' in f['full']:
        r, s = a[0], a[1]
    else:
        s, r = a[0], a[1]
    sl = as_slice(S, s)
    M.site(S, 'assert')
    if type(r) is N:
        if not decide(S, compare(S, 'lt', r, sl[3])):
            raise Violation('panic', 'index out of bounds')
        return ('RE', sl[1], add(sl[2], r))
    x, y = get_range(S, r, sl, f['full'])
    return subslice(S, sl, x, y)


@model(r'^<std::vec::Vec<.*> as std::ops::Index<usize>>::index$')
def m_vindex(M, S, a, dty, f):
    sl = as_slice(S, a[0])
    M.site(S, 'assert')
    if not decide(S, compare(S, 'lt', a[1], sl[3])):
        raise Violation('panic', 'index out of bounds')
    return ('RE', sl[1], add(sl[2], a[1]))


@model(r'PartialEq.*for (&)*\[.*\]>::(eq|ne)$|^<\[.*\] as .*PartialEq.*>::(eq|ne)$|<std::vec::Vec<.*> as .*PartialEq.*>::(eq|ne)$|PartialEq<.*> for std::vec::Vec<.*>>::(eq|ne)$|PartialEq for str>::(eq|ne)$|PartialEq for &str>::(eq|ne)$|PartialEq<\[.*\]> for|PartialEq<&.*\[.*\]> for')
def m_sliceeq(M, S, a, dty, f):
    r = slices_equal(S, as_slice(S, a[0]), as_slice(S, a[1]))
    if f['full'].endswith('ne'):
        r = not r
    return C(1 if r else 0)


@model(r'slice::<impl \[.*\]>::starts_with$|slice::<impl \[.*\]>::ends_with$')
def m_starts(M, S, a, dty, f):
    x, y = as_slice(S, a[0]), as_slice(S, a[1])
    if not decide(S, compare(S, 'le', y[3], x[3])):
        return ZERO
    o = ZERO if f['full'].endswith('starts_with') else sub(x[3], y[3])
    return C(1 if slices_equal(S, ('SL', x[1], add(x[2], o), y[3]), y) else 0)


@model(r'slice::<impl \[.*\]>::contains$')
def m_contains(M, S, a, dty, f):
    x = as_slice(S, a[0])
    n = S.env.const(x[3])
    v = deref(S, a[1])
    if n is None:
        raise Unsupported('contains on a slice of unknown length')
    for i in range(n):
        if decide(S, compare(S, 'eq', read_base(S, x[1], add(x[2], C(i))), v)):
            return ONE
    return ZERO


@model(r'slice::<impl \[.*\]>::split_at$')
def m_splitat(M, S, a, dty, f):
    x = as_slice(S, a[0])
    return ('S', dty, (subslice(S, x, ZERO, a[1]), subslice(S, x, a[1], x[3])))


@model(r'slice::<impl \[.*\]>::iter$|<&.*\[.*\] as std::iter::IntoIterator>::into_iter$|IntoIterator for &.*\[.*\]>::into_iter$|<&.*Vec<.*> as std::iter::IntoIterator>::into_iter$')
def m_iter(M, S, a, dty, f):
    x = as_slice(S, a[0])
    return ('IT', x[1], x[2], add(x[2], x[3]))


@model(r'intrinsics::ptr_offset_from_unsigned::<')
def m_ptrdiff(M, S, a, dty, f):
    x, y = a
    if x[0] != 'RE' or y[0] != 'RE' or x[1] != y[1]:
        raise Unsupported('pointer difference')
    return sub(x[2], y[2])


@model(r'^<std::slice::Iter<.*> as std::iter::Iterator>::next$|std::slice::Iter<.*>>::next$')
def m_iternext(M, S, a, dty, f):
    r = a[0]
    it = deref(S, r)
    if it[0] != 'IT':
        raise Unsupported('iterator %r' % (it,))
    if decide(S, compare(S, 'lt', it[2], it[3])):
        store(S, r[1], r[2], ('IT', it[1], add(it[2], ONE), it[3]))
        return opt_some(dty, ('RE', it[1], it[2]))
    return opt_none(dty)


@model(r'^<std::ops::Range<.*> as std::iter::Iterator>::next$|for std::ops::Range<.*>>::next$|Range<A> as.*Iterator>::next|RangeIteratorImpl>::spec_next$')
def m_rangenext(M, S, a, dty, f):
    r = a[0]
    v = deref(S, r)
    lo, hi = v[2]
    if decide(S, compare(S, 'lt', lo, hi)):
        store(S, r[1], r[2], (v[0], v[1], (add(lo, ONE), hi)))
        return opt_some(dty, lo)
    return opt_none(dty)


@model(r'^<.* as std::iter::IntoIterator>::into_iter$')
def m_intoiter(M, S, a, dty, f):
    return a[0]


@model(r'^std::mem::(replace|take|swap)::')
def m_replace(M, S, a, dty, f):
    r = a[0]
    v = deref(S, r)
    nm = f['full']
    if '::swap::' in nm:
        w = deref(S, a[1])
        store(S, r[1], r[2], w)
        store(S, a[1][1], a[1][2], v)
        return UNIT
    if '::take::' in nm:
        if v[0] == 'V':
            w = ('V', ())
        elif v[0] == 'S' and len(v[2]) == 1 and v[2][0][0] == 'V':
            w = v[:2] + ((('V', ()),),)
        else:
            raise Unsupported('mem::take')
        store(S, r[1], r[2], w)
        return v
    store(S, r[1], r[2], a[1])
    return v


# Vec<u8> / String
@model(r'vec::Vec::<.*>::new$|vec::Vec::<.*>::with_capacity$')
def m_vnew(M, S, a, dty, f):
    return ('V', ())


@model(r'String::new$|String::with_capacity$')
def m_snew(M, S, a, dty, f):
    return ('S', dty, (('V', ()),))


@model(r'String::as_mut_vec$|String::as_mut_string$')
def m_asmutvec(M, S, a, dty, f):
    r = a[0]
    if r[0] != 'R':
        raise Unsupported('as_mut_vec')
    return ('R', r[1], r[2] + (0,))


def vec_ref(S, r):
    if r[0] != 'R':
        raise Unsupported('vector reference')
    v = load(S, r[1], r[2])
    if v[0] == 'S':
        return ('R', r[1], r[2] + (0,)), v[2][0]
    return r, v


def is_string(M, S, r):
    if not r[2] or r[2][-1] != 0:
        return False
    v = load(S, r[1], r[2][:-1])
    return v[0] == 'S' and M.prog.types[v[1]].get('path', '').endswith('string::String')


def norm_append(S, segs, more):
    out = list(segs)
    for s in more:
        if out and s[0] == 'r' and out[-1][0] == 'r' and out[-1][1] == s[1] and S.env.eq(out[-1][3], s[2]):
            out[-1] = ('r', s[1], out[-1][2], s[3])
        else:
            out.append(s)
    return tuple(out)


@model(r'vec::Vec::<.*>::push$|vec::Vec::<.*>::push_mut$')
def m_push(M, S, a, dty, f):
    r, v = vec_ref(S, a[0])
    w = M.vec_append(S, v[1], (('b', a[1]),))
    if is_string(M, S, r):
        M.string_append(S, (('b', a[1]),))
    store(S, r[1], r[2], ('V', w))
    return UNIT


@model(r'vec::Vec::<.*>::extend_from_slice$|String::push_str$|Extend<&.*for std::vec::Vec.*::extend|<std::vec::Vec<u8> as std::iter::Extend<&.*>>::extend')
def m_extend(M, S, a, dty, f):
    r, v = vec_ref(S, a[0])
    sl = iter_slice(S, a[1])
    more = slice_segs(S, sl)
    w = M.vec_append(S, v[1], more)
    if is_string(M, S, r) and not f['full'].endswith('push_str'):
        M.string_append(S, more)
    store(S, r[1], r[2], ('V', w))
    return UNIT


def iter_slice(S, v):
    """the slice an iterator (or a reference to a slice) runs over"""
    if type(v) is tuple and v[0] == 'IT':
        return ('SL', v[1], v[2], sub(v[3], v[2]))
    if type(v) is tuple and v[0] == 'S' and len(v[2]) == 2 and type(v[2][0]) is tuple and v[2][0][0] == 'IT' and type(v[2][1]) is N:
        sl = iter_slice(S, v[2][0])
        return sl[:3] + (v[2][1] if decide(S, compare(S, 'le', v[2][1], sl[3])) else sl[3],)
    return as_slice(S, v)


@model(r'vec::Vec::<.*>::truncate$')
def m_truncate(M, S, a, dty, f):
    r, v = vec_ref(S, a[0])
    if not decide(S, compare(S, 'eq', a[1], ZERO)):
        raise Unsupported('truncate')
    store(S, r[1], r[2], ('V', ()))
    return UNIT


@model(r'vec::Vec::<.*>::clear$|String::clear$')
def m_clear(M, S, a, dty, f):
    r, v = vec_ref(S, a[0])
    store(S, r[1], r[2], ('V', ()))
    return UNIT


@model(r'<std::vec::Vec<.*> as std::ops::Deref>::deref$|vec::Vec::<.*>::as_slice$|<std::string::String as std::ops::Deref>::deref$|String::as_bytes$|str::<impl str>::as_bytes$|as std::convert::AsRef<\[.*\]>>::as_ref$|slice::<impl \[.*\]>::as_ref$|<std::vec::Vec<.*> as std::borrow::Borrow|String::as_str$|as std::borrow::Borrow<\[.*\]>>::borrow$')
def m_deref(M, S, a, dty, f):
    return as_slice(S, a[0])


@model(r'slice::<impl \[.*\]>::to_vec$|slice::<impl \[.*\]>::into_vec|<\[.*\] as .*ToOwned>::to_owned$|^<.*Vec<.*> as std::convert::From<&.*\[.*\]>>::from$')
def m_tovec(M, S, a, dty, f):
    return ('V', slice_segs(S, as_slice(S, a[0])))


@model(r'slice::<impl \[.*\]>::concat(::<.*>)?$')
def m_concat(M, S, a, dty, f):
    sl = as_slice(S, a[0])
    c = S.env.const(sl[3])
    if c is None or c > 8:
        raise Unsupported('concat of a slice of unknown length')
    w = ()
    for i in range(c):
        w = M.vec_append(S, w, slice_segs(S, as_slice(S, read_base(S, sl[1], add(sl[2], C(i))))))
    return ('V', w)


@model(r'vec::Vec::<.*>::reserve$|String::reserve$|vec::Vec::<.*>::shrink_to_fit$')
def m_noop(M, S, a, dty, f):
    return UNIT


@model(r'^std::mem::drop|ptr::drop_glue|drop_in_place')
def m_drop(M, S, a, dty, f):
    return UNIT


@model(r'Box::<.*>::new$')
def m_box(M, S, a, dty, f):
    return ('BX', a[0])


@model(r'slice::<impl \[.*\]>::(copy|clone)_from_slice$')
def m_copy_from(M, S, a, dty, f):
    d, s = as_slice(S, a[0]), as_slice(S, a[1])
    M.site(S, 'assert')
    if not decide(S, compare(S, 'eq', d[3], s[3])):
        raise Violation('panic', 'slices of different lengths are copied')
    n, st = S.env.const(d[3]), S.env.const(d[2])
    if n is None:
        n = S.env.const(s[3])
    if n is None or n > 64 or st is None or d[1][0] != 'm':
        raise Unsupported('copy into a slice')
    vs = [read_base(S, s[1], add(s[2], C(i))) for i in range(n)]
    for i, v in enumerate(vs):
        store(S, d[1][1], d[1][2] + (st + i,), v)
    return UNIT


def int_width(f):
    return int(re.search(r'impl [ui](\d+)>', f['full']).group(1))


@model(r'num::<impl u(16|32|64|128)>::from_(be|le|ne)_bytes$')
def m_from_bytes(M, S, a, dty, f):
    v = a[0]
    if v[0] != 'A' or any(type(x) is not N for x in v[2]):
        raise Unsupported('bytes of a number')
    out = ZERO
    for i, x in enumerate(reversed(v[2]) if '_be_' in f['full'] else v[2]):
        out = add(out, scale(x, 1 << 8 * i))
    return out


@model(r'num::<impl u(16|32|64|128)>::to_(be|le|ne)_bytes$')
def m_to_bytes(M, S, a, dty, f):
    w = int_width(f)
    bs = [S.env.band(S.env.shr(a[0], 8 * i, w), C(255), w) for i in range(w // 8)]
    return ('A', None, tuple(reversed(bs)) if '_be_' in f['full'] else tuple(bs))


@model(r'num::<impl u(16|32|64|128)>::(swap_bytes|to_be|from_be)$|intrinsics::bswap::<u')
def m_swap(M, S, a, dty, f):
    m = re.search(r'(?:impl |bswap::<)u(\d+)>', f['full'])
    w = int(m.group(1))
    bs = [S.env.band(S.env.shr(a[0], 8 * i, w), C(255), w) for i in range(w // 8)]
    out = ZERO
    for i, x in enumerate(reversed(bs)):
        out = add(out, scale(x, 1 << 8 * i))
    return out


@model(r'intrinsics::(cold_path|assume)|hint::(assert_unchecked|black_box)')
def m_int(M, S, a, dty, f):
    return UNIT


@model(r'::precondition_check$|ub_checks::')
def m_pre(M, S, a, dty, f):
    return UNIT


@model(r'num::<impl (u8|u16|u32|u64|usize)>::(wrapping_add|wrapping_sub|saturating_add|saturating_sub|wrapping_mul)$|intrinsics::(saturating_add|saturating_sub|wrapping_add|wrapping_sub|wrapping_mul)')
def m_arith(M, S, a, dty, f):
    w = M.prog.int_info(dty)[0]
    full = (1 << w) - 1
    nm = f['full']
    x, y = a
    v = add(x, y) if '_add' in nm else sub(x, y) if '_sub' in nm else mul(S, x, y)
    lo, hi = S.env.bounds(v)
    if lo >= 0 and hi <= full:
        return v
    q = S.env.single(v)
    if 'saturating' in nm:
        if q is not None:
            return S.env.tabulate(q, lambda t: min(max(t, 0), full), v)
        if lo < 0:
            return ZERO if decide(S, ('P', 'lt', v, ZERO)) else v
        return C(full) if decide(S, ('P', 'lt', C(full), v)) else v
    if q is not None:
        return S.env.tabulate(q, lambda t: t & full, v)
    if lo < 0:
        if decide(S, ('P', 'lt', v, ZERO)):
            return add(v, C(full + 1))
        return v
    return S.env.wrap(v, w)


CHARS = {'is_uppercase': str.isupper, 'is_lowercase': str.islower, 'is_alphabetic': str.isalpha, 'is_whitespace': lambda c: c in '\t\n\v\f\r \x85\xa0',
         'is_control': lambda c: c < ' ' or '\x7f' <= c <= '\x9f', 'is_alphanumeric': lambda c: c.isalpha() or c.isnumeric(), 'is_numeric': str.isnumeric}


@model(r'char::methods::<impl char>::(is_uppercase|is_lowercase|is_alphabetic|is_whitespace|is_control|is_alphanumeric|is_numeric)$')
def m_char(M, S, a, dty, f):
    """character classes of one byte (Latin 1)"""
    g = CHARS[f['full'].rsplit('::', 1)[-1]]
    c = S.env.const(a[0])
    q = S.env.single(a[0])
    lo, hi = S.env.bounds(a[0])
    if lo < 0 or hi > 255 or (c is None and q is None):
        raise Unsupported('character class')
    if c is not None:
        return ONE if g(chr(c)) else ZERO
    return S.env.tabulate(q, lambda t: 1 if g(chr(t)) else 0, a[0])


@model(r'num::<impl (u8|u16|u32|u64|usize)>::checked_(add|sub|mul)$')
def m_checked(M, S, a, dty, f):
    nm = f['full']
    w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}[re.search(r'impl (\w+)>', nm).group(1)]
    x, y = a
    v = add(x, y) if '_add' in nm else sub(x, y) if '_sub' in nm else mul(S, x, y)
    ok = decide(S, compare(S, 'le', ZERO, v)) and decide(S, compare(S, 'le', v, C((1 << w) - 1)))
    return opt_some(dty, v) if ok else opt_none(dty)


@model(r'intrinsics::integer_(min|max)::<(u8|u16|u32|u64|usize)>$|std::cmp::(min|max)::<(u8|u16|u32|u64|usize)>$|<(u8|u16|u32|u64|usize) as std::cmp::Ord>::(min|max)$|Ord for (u8|u16|u32|u64|usize)>::(min|max)$')
def m_minmax(M, S, a, dty, f):
    le = decide(S, compare(S, 'le', a[0], a[1]))
    mn = 'min' in f['full'].rsplit('::', 2)[-1] or '::min::' in f['full'] or 'integer_min' in f['full']
    return a[0] if le == mn else a[1]


@model(r'str::<impl str>::from_utf8_unchecked$|std::str::from_utf8_unchecked$|String::from_utf8_unchecked$')
def m_utf8u(M, S, a, dty, f):
    return M.utf8(S, a[0], dty, f, False)


@model(r'str::from_utf8$|String::from_utf8$')
def m_utf8(M, S, a, dty, f):
    return M.utf8(S, a[0], dty, f, True)


@model(r'String::from_utf8_lossy$')
def m_lossy(M, S, a, dty, f):
    return M.lossy(S, a[0])


@model(r'^(<std::borrow::Cow<.*str> as std::string::(ToString|SpecToString)>::(to_string|spec_to_string)|std::borrow::Cow::<.*str>::into_owned|<std::string::String as std::convert::From<std::borrow::Cow<.*str>>>::from|<std::borrow::Cow<.*str> as std::convert::Into<std::string::String>>::into)$')
def m_cow(M, S, a, dty, f):
    v = a[0] if a[0][0] == 'COW' else deref(S, a[0])
    if v[0] != 'COW':
        raise Unsupported('Cow')
    return ('S', dty, (v[1],))


@model(r'^<std::(vec::Vec<.*>|string::String) as std::clone::Clone>::clone$')
def m_vclone(M, S, a, dty, f):
    return deref(S, a[0])


CLOSURE = re.compile(r'\{closure#\d+\}$')
PANIC = re.compile(r'panicking|rt::panic|unwrap_failed|expect_failed|slice_index_fail|rt::begin_panic|'
                   r'slice_(start|end)_index|handle_alloc_error|panic_fmt|len_mismatch_fail|capacity_overflow')
_mcache = {}


def find_model(full):
    r = _mcache.get(full, 0)
    if r == 0:
        r = None
        for rx, fn in MODELS:
            if rx.search(full):
                r = fn
                break
        _mcache[full] = r
    return r


import os
STRICT = bool(os.environ.get('ENGINE_STRICT'))


class Machine:
    deadline = None
    soft = None

    def late(self):
        if self.deadline is None:
            return False
        t = time.time()
        return t > self.deadline or (bool(self.violations) and t > self.soft)

    """Runs states; subclass hooks: event(), observe()"""

    def __init__(self, prog):
        self.prog = prog
        self.violations = {}
        self.steps = 0
        self.blocks = set()
        self.paths = 0
        self.unsupported = {}
        self.chk = {}

    def site(self, S, kind):
        k = (kind, S.fn, S.bb)
        self.chk[k] = self.chk.get(k, 0) + 1

    def allocs(self):
        a = getattr(self.prog, 'alloc_fns', None)
        if a is None:
            import effects
            a = self.prog.alloc_fns = effects.allocating(self.prog)
        return a

    # hooks ------------------------------------------------------
    def heap(self, S, f, args):
        pass

    def event(self, S, name, args, dty):
        raise Unsupported('event')

    def is_event(self, S, callee):
        return None

    def vec_append(self, S, segs, more):
        return norm_append(S, segs, more)

    def string_append(self, S, segs):
        pass

    def lossy(self, S, v):
        raise Unsupported('from_utf8_lossy')

    def utf8(self, S, v, dty, f, checked):
        raise Unsupported('utf8')

    def violation(self, S, e):
        raise NotImplementedError

    def lose(self, S, e):
        """after a violation: whether the path is followed further"""
        return False

    # ------------------------------------------------------------
    def push(self, S, fid, args):
        f = self.prog.fns[fid]
        b = f.get('body')
        if not b:
            raise Unsupported('no body: ' + f['full'])
        self.prog.get_code(fid)
        nb = S.base + DEPTH
        S.stack = S.stack + ((S.fn, S.bb, S.base),)
        if len(S.stack) > 60:
            raise Unsupported('call depth')
        S.base = nb
        S.fn = fid
        S.bb = 0
        S.si = -1
        argc = b['argc']
        sp = b.get('spread')
        if sp is not None and sp >= 0 and sp:
            # the last argument is a tuple that is spread into locals
            lead = args[:sp - 1]
            tail = args[sp - 1]
            for i, a in enumerate(lead):
                S.mem[nb + 1 + i] = a
            S.mem[nb + sp] = tail
        else:
            if CLOSURE.search(f['full']) and len(args) == 2 and type(args[1]) is tuple and args[1][0] == 'S':
                # a closure's body takes the fields of the tuple it is called with
                args = [args[0]] + list(args[1][2])
            if len(args) != argc:
                raise Unsupported('arity of ' + f['full'])
            for i, a in enumerate(args):
                S.mem[nb + 1 + i] = a

    def do_return(self, S):
        """pop a frame; True if the entry function returned (value in S.mem['ret'])"""
        v = S.mem.get(S.base)
        if v is None:
            v = UNIT
        b = S.base
        for k in [k for k in S.mem if type(k) is int and k >= b]:
            del S.mem[k]
        fn, bb, base = S.stack[-1]
        S.stack = S.stack[:-1]
        if fn is None:
            S.fn = None
            S.base = 0
            S.mem['ret'] = v
            return True
        S.fn, S.bb, S.base = fn, bb, base
        blk = self.prog.get_block(fn, bb)
        blk[2][1](S, v)
        S.bb = blk[1][4]
        S.si = -1
        return False

    def call(self, S, blk):
        t = blk[1]
        ops, write, resolve, ptr, dty = blk[2]
        args = [o(S) for o in ops]
        c = t[1]
        fid = None
        if c[0] == 'fn':
            fid = c[1]
        elif c[0] == 'ptr':
            v = ptr(S)
            if v[0] == 'F':
                fid = v[1]
            elif v[0] == 'FT':
                c = ['trait', json.loads(v[1])[1]]
            else:
                raise Unsupported('call through %r' % (v,))
        if fid is None:
            ev = self.is_event(S, c[1])
            if ev is None:
                raise Unsupported('unresolved call %s::%s' % (c[1].get('trait'), c[1].get('method')))
            v = self.event(S, ev, args, dty)
            write(S, v)
            S.bb = t[4]
            S.si = -1
            return
        f = self.prog.fns[fid]
        full = f['full']
        if f['kind'] == 'virtual':
            v = self.virtual(S, f, args, dty)
            write(S, v)
            S.bb = t[4]
            S.si = -1
            return
        if f['crate'] not in ('http_box', 'byte_slice'):
            m = find_model(full)
            if f['crate'] in ('alloc', 'std') and fid in self.allocs():
                self.heap(S, f, args)
            if m is not None:
                v = m(self, S, args, dty, f)
                write(S, v)
                if t[4] < 0:
                    raise Dead()
                S.bb = t[4]
                S.si = -1
                return
            if PANIC.search(full) or t[4] is None or t[4] < 0:
                self.site(S, 'assert')
                raise Violation('panic', 'reaches ' + full)
        elif t[4] < 0 and not f.get('body'):
            self.site(S, 'assert')
            raise Violation('panic', 'reaches ' + full)
        self.prog.called.add(fid)
        self.push(S, fid, args)

    def virtual(self, S, f, args, dty):
        raise Unsupported('virtual call ' + f['full'])

    def location(self, S):
        f = self.prog.fns[S.fn] if S.fn is not None else None
        # report the innermost function of the crate
        fr = [S.fn] + [x[0] for x in reversed(S.stack)]
        for x in fr:
            if x is not None and self.prog.fns[x]['crate'] == 'http_box':
                return self.prog.fns[x]
        return f

    def run(self, S0, at_head, at_exit, resume=False):
        """follow S0; at_head(S) is called when a path reaches a loop head (the path then ends),
        at_exit(S) when the entry function returns"""
        prog = self.prog
        work = [S0]
        first = resume
        while work:
            S = work.pop()
            skip = first
            first = False
            self.paths += 1
            if not self.paths & 63 and self.late():
                raise TimeoutError()
            try:
                while True:
                    fn, bb = S.fn, S.bb
                    if S.si < 0:
                        if not skip and bb in prog.heads[fn] and not self.unroll(S) and not self.leaving(S):
                            self.cur = S
                            at_head(S)
                            break
                        self.blocks.add((fn, bb))
                    skip = False
                    blk = prog.get_block(fn, bb)
                    code = blk[0]
                    i = S.si if S.si > 0 else 0
                    n = len(code)
                    self.steps += n + 1
                    while i < n:
                        S.si = i
                        code[i](S)
                        i += 1
                    S.si = n
                    t = blk[1]
                    k = t[0]
                    if k == 'goto':
                        S.bb = t[1]
                        S.si = -1
                    elif k == 'switch':
                        self.switch(S, t, blk[2](S))
                        S.si = -1
                    elif k == 'call':
                        self.call(S, blk)
                    elif k == 'return':
                        if self.do_return(S):
                            at_exit(S)
                            break
                    elif k == 'assert':
                        self.site(S, 'assert')
                        c = decide(S, blk[2](S))
                        if c != bool(t[2]):
                            kd = t[3][0] if isinstance(t[3], list) else t[3]
                            raise Violation('panic', '%s check fails' % (kd if isinstance(kd, str) else str(kd)), sub=str(kd))
                        S.bb = t[4]
                        S.si = -1
                    elif k == 'drop':
                        S.bb = t[2]
                        S.si = -1
                    elif k == 'unreachable':
                        raise Violation('ub', 'unreachable code reached')
                    else:
                        raise Dead()
            except Fork as fk:
                alts = fk.alts
                for a in alts[1:]:
                    S2 = S.copy()
                    if a(S2):
                        work.append(S2)
                if alts[0](S):
                    work.append(S)
            except Violation as e:
                self.violation(S, e)
                if self.lose(S, e):
                    work.append(S)
            except Dead:
                pass
            except (Unsupported, IndexError, KeyError, TypeError, AttributeError, ValueError) as e:
                if STRICT and not isinstance(e, Unsupported):
                    raise
                loc = self.location(S)
                self.unsupported.setdefault((loc['full'] if loc else '-', str(e)), S.copy())

    def unroll(self, S):
        """a loop over a constant range (or a slice of constant length) is unrolled: its head is no join point"""
        mem, types = S.mem, self.prog.types
        for l in self.prog.live[S.fn][S.bb]:
            v = mem.get(S.base + l)
            if type(v) is not tuple or not v:
                continue
            if v[0] == 'R' and not v[2]:
                v = mem.get(v[1])
                if type(v) is not tuple or not v:
                    continue
            if v[0] == 'IT':
                a, b = v[2], v[3]
            elif v[0] == 'S' and type(v[1]) is int and len(v[2]) == 2 and types[v[1]].get('path') == 'std::ops::Range':
                a, b = v[2]
            else:
                continue
            if type(a) is not N or type(b) is not N:
                continue
            d = sub(b, a)
            if d.m or d.c > 16:
                continue
            k = (S.fn, S.bb, S.base, l, a)
            if k not in S.unr:
                S.unr += (k,)
                return True
        return False

    def leaving(self, S):
        """a path that is certain to leave the loop goes on: it is not joined with those that stay"""
        loop, out = self.prog.loop(S.fn, S.bb)
        if not out:
            return False
        T = S.copy()
        T.spec, T.si = S.spec, 0
        try:
            for _ in range(12):
                blk = self.prog.get_block(T.fn, T.bb)
                for c in blk[0]:
                    c(T)
                t = blk[1]
                if t[0] == 'goto':
                    T.bb = t[1]
                elif t[0] == 'switch':
                    self.switch(T, t, blk[2](T))
                elif t[0] == 'drop':
                    T.bb = t[2]
                else:
                    return False
                if T.bb not in loop:
                    return True
                if T.bb == S.bb:
                    return False
        except (Fork, Violation, Dead, Unsupported):
            pass
        return False

    def switch(self, S, t, v):
        """select the target block(s)"""
        tg = t[2]
        other = t[3]
        if type(v) is tuple:
            b = decide(S, v)
            val = 1 if b else 0
            for x, y in tg:
                if x == val:
                    S.bb = y
                    return
            S.bb = other
            return
        env = S.env
        if not v.m:
            c = v.c
            for x, y in tg:
                if x == c:
                    S.bb = y
                    return
            S.bb = other
            return
        y = env.single(v)
        if y is not None:
            mask = env.syms[y][1]
            by = {}
            rest = mask
            for x, bb in tg:
                m = 0
                for i in bits(mask):
                    if env.pt(v, i) == x:
                        m |= 1 << i
                m &= rest
                if m:
                    by[bb] = by.get(bb, 0) | m
                    rest &= ~m
            if rest:
                by[other] = by.get(other, 0) | rest
            if len(by) == 1:
                S.bb = next(iter(by))
                return
            raise Fork([_mask_alt(y, m) for m in by.values()])
        for x, bb in tg:
            if decide(S, compare(S, 'eq', v, C(x))):
                S.bb = bb
                return
        S.bb = other


def _mask_alt(y, m):
    def f(S):
        S.env.syms[y] = ('b', m)
        return True
    return f
