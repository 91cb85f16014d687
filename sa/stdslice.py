"""Transfer functions for slices, strings, characters and their iterators."""
from terms import *
from engine import Undecided, PathPanic, Infeasible
from models import model, MODELS, NOMODEL, ptr_elem, strip, as_q, seq_len, HANDLED, UMAX
import models

BOUNDS['len_utf8'] = (1, 4)
BOUNDS['char'] = (0, 0x10ffff)


# ---------------------------------------------------------------- views
def as_sl(m, v, ty=None):
    """value of a (fat) reference to slice/str -> ('sl', base, lo, hi)"""
    if v[0] == 'sl':
        return v
    if v[0] in ('s', 'a'):
        return ('sl', v, I(0), A('len', v))
    if v[0] == 'r':
        t = m.load((v[1], v[2]))
        if t[0] in ('g', 's', 'a') and ty is not None:
            e = ptr_elem(m, ty)
            if e is not None and m.T(e)['k'] == 'array':
                return ('sl', ('mem', v[1], v[2]), I(0), I(m.T(e)['n']))
        raise Undecided('slice view of a reference')
    if v[0] == '&':
        return as_sl(m, v[1])
    raise Undecided(f'slice view of {show(v, m.P)}')


def is_str_ref(m, ty):
    e = ptr_elem(m, ty)
    return e is not None and m.T(e)['k'] == 'str'


def slen(s):
    return sub(s[3], s[2])


def norm_empty(s):
    return s


def bkey(m, s, off):
    """term for 'offset off of this text is a character boundary'"""
    return A('bnd', m.sl_content(s[1]), off)


def boundary(m, s, off):
    """is absolute offset off (within the base of text s) a character boundary?  s's own ends are"""
    if m.F.entails_eq(off, s[2]) or m.F.entails_eq(off, s[3]):
        return True
    b = m.sl_content(s[1])
    if b[0] == 'str':
        if off[0] == 'i':
            raw = b[1].encode()
            return off[1] == len(raw) or (off[1] < len(raw) and (raw[off[1]] & 0xC0) != 0x80)
        raise Undecided('symbolic offset into literal')
    k = known_boundary(m, b, off)
    r = m.truth(A('bnd', b, off)) if k is None else k
    if not r:
        # the two ends of a text are boundaries
        m.F.add_ne(off)
        m.F.add_ne(sub(off, A('len', b)))
        m.F.add_ne(sub(off, s[2]))
        m.F.add_ne(sub(off, s[3]))
        for t, v in list(m.F.d.items()):
            if v is True and t[0] == 'a' and t[1] == 'bnd' and m.F.nf(t[2]) == m.F.nf(b):
                m.F.add_ne(sub(off, t[3]))
        if m.F.inconsistent():
            raise Infeasible()
    return r


def known_boundary(m, b, off, seen=()):
    F = m.F
    if off == I(0) or F.entails_eq(off, I(0)) or F.entails_eq(off, A('len', b)):
        return True
    for t, v in list(F.d.items()):
        if t[0] == 'a' and t[1] == 'bnd' and F.nf(t[2]) == F.nf(b) and F.entails_eq(t[3], off):
            return v
    # equal byte ranges agree on the boundary at their ends
    for t, v in list(F.d.items()):
        if v is True and t[0] == 'a' and t[1] == 'sleq' and t not in seen:
            x, y = t[2], t[3]
            for p, q in ((x, y), (y, x)):
                if p[0] == 'sl' and q[0] == 'sl' and F.nf(p[1]) == F.nf(b) and F.entails_eq(p[3], off):
                    r = end_boundary(m, q, seen + (t,))
                    if r is not None:
                        return r
    return None


def end_boundary(m, s, seen=()):
    if s[1][0] == 'str':
        return None
    return known_boundary(m, s[1], s[3], seen)


def set_boundary(m, s, off):
    b = m.sl_content(s[1])
    if b[0] in ('s', 'a') and off[0] != 'i':
        m.F.d[A('bnd', b, off)] = True


def sl_eq(m, x, y):
    """content equality of two slices"""
    if not m.truth(b_eqi(slen(x), slen(y))):
        return FALSE
    if m.truth(b_eqi(slen(x), I(0))):
        return TRUE
    cx, cy = m.content(x), m.content(y)
    if m.F.nf(cx) == m.F.nf(cy) or (m.F.nf(cx[1]) == m.F.nf(cy[1]) and m.F.entails_eq(cx[2], cy[2])):
        return TRUE
    for t, v in m.F.d.items():
        if t[0] == 'a' and t[1] == 'sleq':
            for p, q in ((t[2], t[3]), (t[3], t[2])):
                if same_sl(m, p, cx) and same_sl(m, q, cy):
                    return I(int(v))
    a, b = sorted((cx, cy), key=repr)
    return A('sleq', a, b)


def same_sl(m, p, q):
    return m.F.nf(p[1]) == m.F.nf(q[1]) and m.F.entails_eq(p[2], q[2]) and m.F.entails_eq(p[3], q[3])


def sleq_forced(m, t):
    """is a comparison of byte ranges already settled by what is known about character boundaries?"""
    x, y = t[2], t[3]
    if x[0] != 'sl' or y[0] != 'sl':
        return None
    if ('bytes' in (x[1][0], y[1][0])):
        return None
    a, b = end_boundary(m, x), end_boundary(m, y)
    if a is not None and b is not None and a != b:
        return False
    return None


# ---------------------------------------------------------------- ranges
def range_of(m, v, ty, n):
    """(lo, hi) of an index range over a sequence of length n; None when it is not a range"""
    t = m.T(ty)
    if t['k'] != 'adt' or not t['p'].startswith('core::ops::range::'):
        return None
    k = t['p'].rsplit('::', 1)[-1]
    if k == 'RangeFull':
        return I(0), n
    if k == 'RangeFrom':
        return m.proj(v, 0), n
    if k == 'RangeTo':
        return I(0), m.proj(v, 0)
    if k == 'Range':
        return m.proj(v, 0), m.proj(v, 1)
    if k == 'RangeToInclusive':
        return I(0), add(m.proj(v, 0), I(1))
    if k == 'RangeInclusive':
        return m.proj(v, 0), add(m.proj(v, 1), I(1))
    return None


def subrange(m, s, lo, hi, text):
    """checked sub-slice: None when out of range or not on boundaries"""
    if not m.truth(b_le(lo, hi)):
        return None
    if not m.truth(b_le(hi, slen(s))):
        return None
    return cut(m, s, lo, hi, text)


def cut(m, s, lo, hi, text):
    a, b = add(s[2], lo), add(s[2], hi)
    if text:
        if not boundary(m, s, a) or not boundary(m, s, b):
            return None
        set_boundary(m, s, a)
        set_boundary(m, s, b)
    return ('sl', s[1], a, b)


def some(m, dty, v):
    return m.mk(dty, 1, (v,))


def none(m, dty):
    return ('g', dty, 0, ())


def vec_slice(m, v, ty):
    """contents of a Vec/String place as slice"""
    addr = m.deref(v)
    q = m.load(addr)
    if q[0] == 'q':
        return ('sl', ('mem', addr[0], addr[1]), I(0), seq_len(m, q))
    if q[0] in ('s', 'a'):
        return ('sl', q, I(0), A('len', q))
    raise Undecided('vector view')


def seq_slice_index(m, s):
    return s


def recv(m, v, ty):
    """receiver of an indexing/slice operation -> (slice, is_text)"""
    e = ptr_elem(m, ty)
    if e is None:
        return None
    t = m.T(e)
    if t['k'] == 'str':
        return as_sl(m, v, ty), True
    if t['k'] == 'slice':
        return as_sl(m, v, ty), False
    if t['k'] == 'array':
        return as_sl(m, v, ty), False
    if t['k'] == 'adt' and t['p'] in ('alloc::vec::Vec', 'alloc::string::String'):
        return vec_slice(m, v, ty), t['p'].endswith('String')
    return None


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def index(m, x):
    r = recv(m, x.V[0], x.T[0])
    if r is None:
        return NOMODEL
    s, text = r
    n = slen(s)
    rg = range_of(m, x.V[1], x.T[1], n)
    if rg is not None:
        o = subrange(m, s, rg[0], rg[1], text)
        if o is None:
            raise PathPanic('index out of range')
        return o
    if m.T(x.T[1])['k'] == 'int':
        if not m.truth(b_lt(x.V[1], n)):
            raise PathPanic('index out of range')
        e = ptr_elem(m, x.T[0])
        if e is not None and m.T(e)['k'] == 'adt' and m.T(e)['p'] == 'alloc::vec::Vec':
            a = m.deref(x.V[0])
            return ('r', a[0], a[1] + (('ix', x.V[1]),))
        addr, _ = m.index((('SL', s), ()), elem_ty(m, x.T[0]), x.V[1])
        return ('r', addr[0], addr[1])
    return NOMODEL


def elem_ty(m, ty):
    """the type whose 'e' is the element type, for Machine.index"""
    e = ptr_elem(m, ty)
    t = m.T(e)
    if t['k'] in ('slice', 'array'):
        return e
    return e


@model('core::str::get', 'core::slice::get', 'core::slice::get_mut', 'core::str::get_mut')
def get(m, x):
    r = recv(m, x.V[0], x.T[0])
    if r is None:
        return NOMODEL
    s, text = r
    n = slen(s)
    rg = range_of(m, x.V[1], x.T[1], n)
    if rg is not None:
        o = subrange(m, s, rg[0], rg[1], text)
        return none(m, x.dty) if o is None else some(m, x.dty, o)
    if m.T(x.T[1])['k'] == 'int':
        if not m.truth(b_lt(x.V[1], n)):
            return none(m, x.dty)
        return some(m, x.dty, el_ref(m, s, x.V[1]))
    return NOMODEL


def el_ref(m, s, i):
    b = s[1]
    j = add(s[2], i)
    if b[0] == 'mem':
        base = m.load((b[1], b[2]))
        if base[0] == 'q':
            return ('r', ('K', m.seq_index(base, j)), ())
        if base[0] == 'g' and j[0] == 'i':
            return ('r', b[1], b[2] + (j[1],))
        return ('r', b[1], b[2] + (('ix', j),))
    return ('r', ('K', m.slice_el(b, j)), ())


@model('core::str::get_unchecked', 'core::slice::get_unchecked', 'core::slice::get_unchecked_mut')
def get_unchecked(m, x):
    r = recv(m, x.V[0], x.T[0])
    if r is None:
        return NOMODEL
    s, text = r
    rg = range_of(m, x.V[1], x.T[1], slen(s))
    if rg is not None:
        o = subrange(m, s, rg[0], rg[1], text)
    elif m.T(x.T[1])['k'] == 'int':
        o = el_ref(m, s, x.V[1]) if m.truth(b_lt(x.V[1], slen(s))) else None
    else:
        return NOMODEL
    if o is None:
        raise PathPanic('unchecked access out of range')
    return o


@model('core::str::len', 'core::slice::len')
def s_len(m, x):
    r = recv(m, x.V[0], x.T[0])
    return slen(r[0])


@model('core::str::is_empty', 'core::slice::is_empty')
def s_is_empty(m, x):
    r = recv(m, x.V[0], x.T[0])
    return b_eqi(slen(r[0]), I(0))


@model('core::str::as_bytes', 'core::str::from_utf8_unchecked', 'core::str::converts::from_utf8_unchecked', 'core::slice::as_ref',
       'core::str::as_bytes_mut')
def s_id(m, x):
    return as_sl(m, x.V[0], x.T[0])


@model('core::str::as_ptr', 'core::slice::as_ptr', 'core::slice::as_mut_ptr', 'core::str::as_mut_ptr')
def s_ptr(m, x):
    s = recv(m, x.V[0], x.T[0])[0]
    return ('p', s[1], s[2])


@model('core::slice::as_ptr_range')
def s_ptr_range(m, x):
    s = recv(m, x.V[0], x.T[0])[0]
    return ('g', x.dty, None, (('p', s[1], s[2]), ('p', s[1], s[3])))


@model('core::slice::to_vec', 'alloc::slice::to_vec', 'alloc::slice::to_owned')
def to_vec(m, x):
    s = recv(m, x.V[0], x.T[0])[0]
    return ('q', parts_of(m, s), slen(s))


def parts_of(m, s):
    """elements of a slice as sequence parts"""
    b = s[1]
    if b[0] == 'mem':
        base = m.load((b[1], b[2]))
        if base[0] == 'q':
            if s[2] == I(0) and m.F.entails_eq(s[3], seq_len(m, base)):
                return base[1]
            import rawmem
            st = rawmem.Store(m, (b[1], b[2]))
            i = st.run(s[2], s[3], 'read')[1]
            st.initialised(i, 'read of')
            return tuple(i)
        if base[0] == 'g':
            import rawmem
            st = rawmem.Store(m, (b[1], b[2]))
            i = st.run(s[2], s[3], 'read')[1]
            st.initialised(i, 'read of')
            return tuple(i)
        b = m.content(base)
    if b[0] == 'str' and s[2][0] == 'i' and s[3][0] == 'i':
        return tuple(('e', I(c)) for c in b[1].encode()[s[2][1]:s[3][1]])
    return (('x', b, s[2], s[3]),)


@model('core::str::split_at', 'core::slice::split_at', 'core::slice::split_at_mut')
def split_at(m, x):
    o = split_opt(m, x)
    if o is None:
        raise PathPanic('split_at out of range')
    return m.mk(x.dty, None, o)


def split_opt(m, x):
    s, text = recv(m, x.V[0], x.T[0])
    n = slen(s)
    if not m.truth(b_le(x.V[1], n)):
        return None
    a = cut(m, s, I(0), x.V[1], text)
    if a is None:
        return None
    return a, ('sl', s[1], a[3], s[3])


@model('core::str::split_at_checked', 'core::slice::split_at_checked')
def split_at_checked(m, x):
    o = split_opt(m, x)
    if o is None:
        return none(m, x.dty)
    tt = m.P.field_types(x.dty, 1)[0]
    return some(m, x.dty, m.mk(tt, None, o))


@model('core::str::is_char_boundary')
def is_char_boundary(m, x):
    s = as_sl(m, x.V[0], x.T[0])
    if not m.truth(b_le(x.V[1], slen(s))):
        return FALSE
    return I(int(boundary(m, s, add(s[2], x.V[1]))))


@model('core::slice::first', 'core::slice::last')
def s_first(m, x):
    s = recv(m, x.V[0], x.T[0])[0]
    if m.truth(b_eqi(slen(s), I(0))):
        return none(m, x.dty)
    i = I(0) if x.c['p'].endswith('first') else sub(slen(s), I(1))
    return some(m, x.dty, el_ref(m, s, i))


@model('core::slice::split_first')
def s_split_first(m, x):
    s = recv(m, x.V[0], x.T[0])[0]
    if m.truth(b_eqi(slen(s), I(0))):
        return none(m, x.dty)
    tt = m.P.field_types(x.dty, 1)[0]
    return some(m, x.dty, m.mk(tt, None, (el_ref(m, s, I(0)), ('sl', s[1], add(s[2], I(1)), s[3]))))


@model('core::slice::starts_with', 'core::str::starts_with')
def starts_with(m, x):
    s, text = recv(m, x.V[0], x.T[0])
    if text and m.T(x.T[1])['k'] == 'char':
        return FALSE if m.truth(b_eqi(slen(s), I(0))) else m.eqi(char_at(m, s)[0], x.V[1])
    e = ptr_elem(m, x.T[1])
    if e is None or m.T(e)['k'] not in ('str', 'slice', 'array'):
        return NOMODEL
    p = as_sl(m, x.V[1], x.T[1])
    if not m.truth(b_le(slen(p), slen(s))):
        return FALSE
    return sl_eq(m, ('sl', s[1], s[2], add(s[2], slen(p))), p)


@model('core::str::strip_prefix', 'core::slice::strip_prefix')
def strip_prefix(m, x):
    r = starts_with(m, x)
    if r is NOMODEL:
        return r
    if not m.truth(r):
        return none(m, x.dty)
    s, text = recv(m, x.V[0], x.T[0])
    if m.T(x.T[1])['k'] == 'char':
        return some(m, x.dty, char_at(m, s)[1])
    p = as_sl(m, x.V[1], x.T[1])
    o = cut(m, s, slen(p), slen(s), text)
    if o is None:
        raise Undecided('strip_prefix boundary')
    return some(m, x.dty, o)


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne', 'core::cmp::impls::eq', 'core::cmp::impls::ne')
def partial_eq(m, x):
    a, ta, b, tb = x.V[0], x.T[0], x.V[1], x.T[1]
    ra = rb = None
    while True:
        ra, rb = recv_opt(m, a, ta), recv_opt(m, b, tb)
        if ra is not None and rb is not None:
            r = sl_eq(m, ra[0], rb[0])
            return r if x.c['p'].endswith('eq') else b_not(r)
        ea, eb = ptr_elem(m, ta), ptr_elem(m, tb)
        if ea is None or eb is None or ptr_elem(m, ea) is None or ptr_elem(m, eb) is None:
            break
        a, ta, b, tb = m.load(m.deref(a)), ea, m.load(m.deref(b)), eb
    ea, eb = ptr_elem(m, ta), ptr_elem(m, tb)
    if ea is not None and ea == eb:
        t = m.T(ea)
        if t['k'] in ('int', 'char', 'bool'):
            va, vb = m.load(m.deref(a)), m.load(m.deref(b))
            r = m.eqi(va, vb)
            return r if x.c['p'].endswith('eq') else b_not(r)
        if t['k'] == 'adt' and t['p'].startswith('u::'):
            va, vb = m.content(m.load(m.deref(a))), m.content(m.load(m.deref(b)))
            r = TRUE if va == vb else A('eq', *sorted((va, vb), key=repr))
            return r if x.c['p'].endswith('eq') else b_not(r)
    return NOMODEL


def recv_opt(m, v, ty):
    try:
        return recv(m, v, ty)
    except Undecided:
        return None


# ---------------------------------------------------------------- characters
@model('core::char::methods::len_utf8', 'core::char::len_utf8')
def len_utf8(m, x):
    c = x.V[0]
    if c[0] == 'i':
        return I(len(chr(c[1]).encode()))
    return A('len_utf8', m.F.nf(c))


def char_at(m, s):
    """first character of non-empty text s and the rest"""
    b = m.sl_content(s[1])
    if b[0] == 'str':
        t = b[1].encode()[s[2][1]:].decode()
        return I(ord(t[0])), ('sl', s[1], add(s[2], I(len(t[0].encode()))), s[3])
    c = A('char', b, s[2])
    n = A('len_utf8', c)
    rest = ('sl', s[1], add(s[2], n), s[3])
    m.F.add_le(sub(rest[2], s[3]))
    m.F.d[A('bnd', b, rest[2])] = True
    return c, rest


def char_last(m, s):
    b = m.sl_content(s[1])
    if b[0] == 'str':
        raise Undecided('last char of literal')
    c = A('charend', b, s[3])
    n = A('len_utf8', c)
    rest = ('sl', s[1], s[2], sub(s[3], n))
    m.F.add_le(sub(s[2], rest[3]))
    m.F.d[A('bnd', b, rest[3])] = True
    return c, rest


# ---------------------------------------------------------------- iterators over slices and text
# value of an iterator place: ('g', ty, None, (('sl',..),)) is hidden behind A-terms: ('a','iter:<kind>', sl, extra)
def it(kind, s, *extra):
    return A('iter:' + kind, s, *extra)


@model('core::str::chars')
def chars(m, x):
    return it('chars', as_sl(m, x.V[0], x.T[0]))


@model('core::str::bytes')
def str_bytes(m, x):
    return it('copied', as_sl(m, x.V[0], x.T[0]))


@model('core::str::char_indices')
def char_indices(m, x):
    s = as_sl(m, x.V[0], x.T[0])
    return it('char_indices', s, s[2])


@model('core::slice::iter', 'core::slice::iter_mut')
def slice_iter(m, x):
    return it('slice', recv(m, x.V[0], x.T[0])[0])


@model('core::str::iter::as_str', 'core::slice::iter::as_slice')
def iter_rest(m, x):
    v = m.load(m.deref(x.V[0]))
    if v[0] == 'a' and v[1] in ('iter:chars', 'iter:slice', 'iter:char_indices'):
        return v[2]
    return NOMODEL


def iter_val(m, v, ty):
    """iterator stored behind a reference"""
    return m.load(m.deref(v))


def is_iter(v):
    return v[0] == 'a' and v[1].startswith('iter:')


def iter_next(m, v):
    """-> (item or None, new iterator value)"""
    k = v[1][5:]
    s = v[2]
    if k in ('chars', 'char_indices', 'slice', 'copied'):
        if m.truth(b_eqi(slen(s), I(0))):
            return None, v
        if k == 'chars':
            c, rest = char_at(m, s)
            return c, A(v[1], rest)
        if k == 'char_indices':
            c, rest = char_at(m, s)
            return ('pair', sub(s[2], v[3]), c), A(v[1], rest, v[3])
        r = el_ref(m, s, I(0))
        rest = ('sl', s[1], add(s[2], I(1)), s[3])
        if k == 'copied':
            return m.load((r[1], r[2])), A(v[1], rest)
        return r, A(v[1], rest)
    if k in ('rev',):
        if m.truth(b_eqi(slen(s), I(0))):
            return None, v
        if v[3] == ('str', 'chars'):
            c, rest = char_last(m, s)
            return c, A(v[1], rest, v[3])
        r = el_ref(m, s, sub(slen(s), I(1)))
        return r, A(v[1], ('sl', s[1], s[2], sub(s[3], I(1))), v[3])
    if k == 'peek':
        # v[2] inner iterator, v[3] peeked: ('u',) none, ('none',), or ('e', x)
        if v[3] != U:
            return (None if v[3][0] == 'none' else v[3][1]), A('iter:peek', v[2], U)
        e, n = iter_next(m, v[2])
        return e, A('iter:peek', n, U)
    raise Undecided(f'iterator {k}')


@model('core::iter::traits::iterator::Iterator::next')
def it_next(m, x):
    addr = m.deref(x.V[0])
    v = m.load(addr)
    # &mut I
    n = 0
    while v[0] == 'r':
        addr = (v[1], v[2])
        v = m.load(addr)
    if not is_iter(v):
        return NOMODEL
    if m.flags.get('chars_event') and v[1] == 'iter:chars' and v[2][1][0] in ('s', 'a'):
        # unbounded text is read one character at a time, in step with the other side
        x.commit()
        m.block = ('event', 'next_char', (m.content(v[2]),), x.dty)
        m.pending = ('val', x.dest, x.dty, ((addr, None, 'iter:chars'),))
        return HANDLED
    e, nv = iter_next(m, v)
    m.store(addr, nv)
    if e is None:
        return none(m, x.dty)
    return some(m, x.dty, unpair(m, e, x.dty))


def unpair(m, e, dty):
    if e[0] == 'pair':
        return m.mk(m.P.field_types(dty, 1)[0], None, e[1:])
    return e


@model('core::iter::traits::iterator::Iterator::by_ref')
def it_by_ref(m, x):
    return x.V[0]


@model('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(m, x):
    v = x.V[0]
    if is_iter(v):
        return v
    e = ptr_elem(m, x.T[0])
    if e is not None:
        r = recv_opt(m, v, x.T[0])
        if r is not None and not m.T(x.T[0])['mut']:
            return it('slice', r[0])
    return NOMODEL


@model('core::iter::traits::iterator::Iterator::copied', 'core::iter::traits::iterator::Iterator::cloned')
def it_copied(m, x):
    v = x.V[0]
    if is_iter(v) and v[1] == 'iter:slice':
        if x.c['p'].endswith('cloned') and not plain_item(m, x.dty):
            return NOMODEL
        return it('copied', v[2])
    return NOMODEL


def plain_item(m, ty):
    """are the items of Cloned<Iter<T>> such that a clone is a copy?"""
    ts = [a for a in m.P.types[ty].get('a', ()) if isinstance(a, int)]
    if len(ts) != 1:
        return False
    ts = [a for a in m.P.types[ts[0]].get('a', ()) if isinstance(a, int)]
    return len(ts) == 1 and m.P.types[ts[0]]['k'] in ('int', 'char', 'bool', 'ref', 'ptr', 'float')


@model('core::iter::traits::iterator::Iterator::rev')
def it_rev(m, x):
    v = x.V[0]
    if is_iter(v) and v[1] in ('iter:slice', 'iter:chars'):
        return it('rev', v[2], ('str', v[1][5:]))
    return NOMODEL


@model('core::iter::traits::iterator::Iterator::peekable')
def it_peekable(m, x):
    v = x.V[0]
    if is_iter(v):
        return A('iter:peek', v, U)
    return NOMODEL


@model('core::iter::adapters::peekable::Peekable::peek')
def it_peek(m, x):
    addr = m.deref(x.V[0])
    v = m.load(addr)
    if not (is_iter(v) and v[1] == 'iter:peek'):
        return NOMODEL
    if v[3] == U:
        e, n = iter_next(m, v[2])
        v = A('iter:peek', n, ('none',) if e is None else ('e', e))
        m.store(addr, v)
    if v[3][0] == 'none':
        return none(m, x.dty)
    return some(m, x.dty, ('r', ('K', v[3][1]), ()))


@model('core::iter::traits::iterator::Iterator::count')
def it_count(m, x):
    v = x.V[0]
    if is_iter(v) and v[1] in ('iter:slice', 'iter:copied'):
        return slen(v[2])
    return NOMODEL


# ---------------------------------------------------------------- vectors as slices
@model('alloc::vec::Vec::as_slice', 'alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'alloc::vec::Vec::as_mut_slice',
       'core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow')
def vec_as_slice(m, x):
    e = ptr_elem(m, x.T[0])
    if e is None:
        return NOMODEL
    t = m.T(e)
    if t['k'] == 'adt' and t['p'] in ('alloc::vec::Vec', 'alloc::string::String'):
        return vec_slice(m, x.V[0], x.T[0])
    if models.is_shared(m, e) or (t['k'] == 'adt' and t['p'] == 'alloc::boxed::Box' and not x.c['p'].endswith(('as_ref', 'borrow'))):
        return m.load(m.deref(x.V[0]))
    return NOMODEL


@model('core::array::as_slice', 'core::array::as_mut_slice')
def array_as_slice(m, x):
    return as_sl(m, x.V[0], x.T[0])


# ---------------------------------------------------------------- integers
@model('core::num::min', 'core::cmp::Ord::min', 'core::cmp::min')
def i_min(m, x):
    if m.T(x.T[0])['k'] != 'int':
        return NOMODEL
    return x.V[0] if m.truth(b_le(x.V[0], x.V[1])) else x.V[1]


@model('core::cmp::Ord::max', 'core::cmp::max')
def i_max(m, x):
    if m.T(x.T[0])['k'] != 'int':
        return NOMODEL
    return x.V[1] if m.truth(b_le(x.V[0], x.V[1])) else x.V[0]


@model('core::num::saturating_sub')
def saturating_sub(m, x):
    return sub(x.V[0], x.V[1]) if m.truth(b_le(x.V[1], x.V[0])) else I(0)


@model('core::num::checked_sub')
def checked_sub(m, x):
    return some(m, x.dty, sub(x.V[0], x.V[1])) if m.truth(b_le(x.V[1], x.V[0])) else none(m, x.dty)


@model('core::num::abs_diff')
def abs_diff(m, x):
    return sub(x.V[0], x.V[1]) if m.truth(b_le(x.V[1], x.V[0])) else sub(x.V[1], x.V[0])


def top(m, ty):
    from engine import int_range
    r = int_range(m.T(ty)) if ty is not None else None
    return r[1] if r else UMAX


def ovf(m, a, b, ty=None):
    t = models.overflows(a, b, top(m, ty))
    if t[0] == 'a' and t[1] == 'ovf_add':
        return False
    return m.truth(t)


@model('core::num::saturating_add')
def saturating_add(m, x):
    return I(top(m, x.T[0])) if ovf(m, x.V[0], x.V[1], x.T[0]) else add(x.V[0], x.V[1])


@model('core::num::checked_add')
def checked_add(m, x):
    return none(m, x.dty) if ovf(m, x.V[0], x.V[1], x.T[0]) else some(m, x.dty, add(x.V[0], x.V[1]))


@model('core::num::wrapping_add')
def wrapping_add(m, x):
    s = add(x.V[0], x.V[1])
    return sub(s, I(top(m, x.T[0]) + 1)) if ovf(m, x.V[0], x.V[1], x.T[0]) else s


@model('core::num::wrapping_sub')
def wrapping_sub(m, x):
    d = sub(x.V[0], x.V[1])
    return d if m.truth(b_le(x.V[1], x.V[0])) else add(d, I(top(m, x.T[0]) + 1))


# ---------------------------------------------------------------- pointers
def addr_of(p):
    """integer address of a pointer, in elements"""
    return add(A('addr', p[1]), p[2])


@model('core::ptr::const_ptr::offset_from', 'core::ptr::mut_ptr::offset_from', 'core::ptr::const_ptr::sub_ptr', 'core::ptr::const_ptr::offset_from_unsigned')
def offset_from(m, x):
    a, b = x.V
    e = ptr_elem(m, x.T[0])
    t = m.T(e)
    if zero_sized(m, e):
        raise PathPanic('panic: offset_from on a zero-sized type')
    if a[0] != 'p' or b[0] != 'p':
        raise Undecided('offset_from')
    if m.F.nf(m.sl_content(a[1])) != m.F.nf(m.sl_content(b[1])):
        raise PathPanic('undefined behaviour: offset_from across allocations')
    return ('sdiff', sub(a[2], b[2]))


def zero_sized(m, e):
    t = m.T(e)
    if t['k'] == 'adt' and t['p'].startswith('u::'):
        return not t['v'][0]['f']
    if t['k'] == 'tuple':
        return all(zero_sized(m, f) for f in t['f'])
    return False


@model('core::num::is_negative')
def is_negative(m, x):
    v = x.V[0]
    if v[0] == 'sdiff':
        return b_lt(v[1], I(0))
    return NOMODEL


@model('core::ptr::const_ptr::add', 'core::ptr::mut_ptr::add', 'core::ptr::const_ptr::offset', 'core::ptr::mut_ptr::offset',
       'core::ptr::const_ptr::wrapping_add', 'core::ptr::mut_ptr::wrapping_add')
def p_add(m, x):
    return m.ptr_offset(x.V[0], x.V[1])


@model('core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut', 'core::ptr::slice_from_raw_parts',
       'core::ptr::slice_from_raw_parts_mut')
def from_raw_parts(m, x):
    return m.mk_slice(x.V[0], x.V[1])


for n in ('core::ptr::const_ptr::cast', 'core::ptr::mut_ptr::cast', 'core::ptr::mut_ptr::cast_const', 'core::ptr::const_ptr::cast_mut',
          'core::ptr::non_null::NonNull::cast', 'core::ptr::non_null::NonNull::as_ref', 'core::ptr::non_null::NonNull::as_mut'):
    pass


@model('core::mem::size_of_val', 'core::intrinsics::size_of_val')
def size_of_val(m, x):
    e = ptr_elem(m, x.T[0])
    t = m.T(e)
    if t['k'] == 'str' or t['k'] == 'slice':
        z = 1 if t['k'] == 'str' else m.T(t['e']).get('sz')
        v = x.V[0]
        n = sub(v[3], v[2]) if v[0] == 'sl' else A('len', v)
        return scale(n, z)
    if t.get('sz') is None:
        return NOMODEL
    return I(t['sz'])


@model('core::ptr::const_ptr::addr', 'core::ptr::mut_ptr::addr', 'core::ptr::const_ptr::expose_provenance', 'core::ptr::mut_ptr::expose_provenance')
def ptr_addr(m, x):
    return m.addr_of(x.V[0], x.T[0])
