"""Raw storage: vectors with their spare room, heap blocks, inline arrays, and what pointers do to them.

A storage value is a list of parts covering slots 0..cap: ('e', v) one initialised slot,
('x', base, lo, hi) a run of initialised slots, ('n', k) k slots holding nothing.
A vector or heap block is ('q', parts, cap[, ('q', spare)[, elem size]]): parts are the slots up to its
length (for a heap block: the initialised prefix), spare the slots after them (rest: nothing)."""
from terms import *
from engine import Undecided, PathPanic, Infeasible, Decide
from models import MODELS, NOMODEL, HANDLED, ptr_elem, is_mut_ref, as_q, seq_len
import models
import stdslice
from stdslice import recv, slen, some, none

UB = 'undefined behaviour: '


from models import model


def plen(p):
    return I(1) if p[0] == 'e' else p[1] if p[0] == 'n' else sub(p[3], p[2])


def total(parts):
    n = I(0)
    for p in parts:
        n = add(n, plen(p))
    return n


def at_least_one(m, n):
    if m.F.entails_le(sub(I(1), n)):
        return True
    return not m.truth(b_eqi(n, I(0)))


def split(m, parts, off, what='access'):
    """cut a list of parts at slot off"""
    left, rest, o = [], list(parts), off
    while True:
        if m.F.entails_eq(o, I(0)):
            return left, rest
        if not rest:
            # off lies beyond what is there
            if m.truth(b_eqi(o, I(0))):
                return left, rest
            raise PathPanic(UB + what + ' outside the storage')
        p = rest[0]
        ln = plen(p)
        if m.F.entails_le(sub(ln, o)):
            left.append(p)
            rest.pop(0)
            o = sub(o, ln)
            continue
        if m.F.entails_le(sub(add(o, I(1)), ln)) and m.F.entails_le(sub(I(1), o)):
            a, b = cutpart(p, o)
            return left + [a], [b] + rest[1:]
        if m.truth(b_eqi(o, I(0))):
            return left, rest
        if m.truth(b_le(ln, o)):
            left.append(p)
            rest.pop(0)
            o = sub(o, ln)
            continue
        a, b = cutpart(p, o)
        return left + [a], [b] + rest[1:]


def cutpart(p, o):
    if p[0] == 'n':
        return ('n', o), ('n', sub(p[1], o))
    return ('x', p[1], p[2], add(p[2], o)), ('x', p[1], add(p[2], o), p[3])


def tidy(parts):
    out = []
    for p in parts:
        n = plen(p)
        if n == I(0):
            continue
        if p[0] == 'n' and out and out[-1][0] == 'n':
            out[-1] = ('n', add(out[-1][1], p[1]))
        elif p[0] == 'x' and out and out[-1][0] == 'x' and out[-1][1] == p[1] and out[-1][3] == p[2]:
            out[-1] = ('x', p[1], out[-1][2], p[3])
        else:
            out.append(p)
    return out


def at(m, parts, off):
    left, rest = split(m, parts, off, 'read')
    while rest and not at_least_one(m, plen(rest[0])):
        rest.pop(0)
    if not rest or rest[0][0] == 'n':
        raise PathPanic(UB + 'read of a slot that holds nothing')
    p = rest[0]
    return p[1] if p[0] == 'e' else A('el', p[1], p[2])


class Store:
    """all slots of the storage at an address, and how to put them back"""

    def __init__(self, m, addr):
        self.m, self.addr = m, addr
        v = m.load(addr)
        self.v = v
        a = addr[0]
        if v[0] == 'freed':
            raise PathPanic(UB + 'use of released storage')
        self.heap = a[0] in ('H', 'Z')
        ty = m.mty.get(a) if not addr[1] else None
        if v[0] == 'q' or self.is_vec_ty():
            q = as_q(m, v)
            cap = q[2] if len(q) > 2 else None
            self.len = total(q[1])
            spare = list(q[3][1]) if len(q) > 3 and q[3] else []
            if cap is None:
                cap = A('vcapacity', v) if v[0] in ('s', 'a') else SYMS.fresh(None, 'cap')
                m.F.add_le(sub(add(self.len, total(spare)), cap))
                m.store(addr, ('q', q[1], cap) + tuple(q[3:]))
            elif is_term(cap):
                m.F.add_le(sub(add(self.len, total(spare)), cap))
            self.cap = cap
            self.kind = 'q'
            self.z = q[4] if len(q) > 4 else None
            self.parts = tidy(list(q[1]) + spare + [('n', sub(cap, add(self.len, total(spare))))])
        elif v[0] in ('g', 'u', 'mv'):
            aty = m.addr_ty(addr)
            while aty is not None and m.transparent(aty):
                aty = m.inner(aty)
            if aty is None or m.T(aty)['k'] != 'array':
                raise Undecided('raw access to a non-array')
            self.kind = 'g'
            n = m.T(aty)['n']
            fs = v[3] if v[0] == 'g' else ()
            fs = tuple(fs) + (U,) * (n - len(fs))
            self.ty = aty
            self.parts = [('n', I(1)) if f[0] in ('u', 'mv') else ('e', f) for f in fs]
            self.cap = I(n)
        elif v[0] in ('s', 'a'):
            aty = m.addr_ty(addr)
            while aty is not None and m.transparent(aty):
                aty = m.inner(aty)
            if aty is None or m.T(aty)['k'] != 'array':
                raise Undecided('raw access to a non-array')
            n = m.T(aty)['n']
            self.kind, self.ty, self.cap = 'g', aty, I(n)
            self.parts = [('e', A('el', v, I(i))) for i in range(n)]
        else:
            raise Undecided(f'raw access to {v[0]}')

    def is_vec_ty(self):
        t = self.m.addr_ty(self.addr)
        if t is None or self.v[0] not in ('s', 'a'):
            return False
        t = self.m.T(t)
        return t['k'] == 'adt' and t['p'] == 'alloc::vec::Vec'

    def get(self, off):
        """initialised value in slot off"""
        left, rest = split(self.m, self.parts, off, 'read')
        p = self.head(rest, 'read')
        if p[0] == 'n':
            raise PathPanic(UB + 'read of a slot that holds nothing')
        return p[1] if p[0] == 'e' else A('el', p[1], p[2])

    def head(self, rest, what):
        rest = list(rest)
        while rest:
            if at_least_one(self.m, plen(rest[0])):
                return rest[0]
            rest.pop(0)
        raise PathPanic(UB + what + ' outside the storage')

    def run(self, lo, hi, what='access'):
        """(before, inside, after) for slots lo..hi"""
        l, r = split(self.m, self.parts, lo, what)
        i, r = split(self.m, r, sub(hi, lo), what)
        return l, i, r

    def put(self, lo, hi, parts, what='write'):
        l, i, r = self.run(lo, hi, what)
        self.parts = tidy(l + list(parts) + r)
        self.save()

    def save(self):
        m = self.m
        if self.kind == 'g':
            out = []
            for p in self.parts:
                if p[0] == 'e':
                    out.append(p[1])
                    continue
                n = plen(p)
                if n[0] != 'i':
                    n = next((I(k) for k in range(9) if m.truth(b_eqi(n, I(k)))), n)
                if n[0] != 'i':
                    raise Undecided('run of unknown length in an array')
                for k in range(n[1]):
                    out.append(U if p[0] == 'n' else A('el', p[1], add(p[2], I(k))))
            m.store(self.addr, ('g', self.ty, None, tuple(out)))
            return
        if self.heap:
            parts = list(self.parts)
            init = []
            while parts and parts[0][0] != 'n':
                init.append(parts.pop(0))
        else:
            init, parts = split(m, self.parts, self.len)
        while parts and parts[-1][0] == 'n':
            parts.pop()
        v = ('q', tuple(init), self.cap)
        if parts or self.z is not None:
            v += (('q', tuple(parts)),) if parts else (None,)
        if self.z is not None:
            v += (self.z,)
        m.store(self.addr, v)

    def initialised(self, parts, what):
        for p in parts:
            if p[0] == 'n' and (self.m.F.entails_le(sub(I(1), p[1])) or not self.m.truth(b_eqi(p[1], I(0)))):
                raise PathPanic(UB + what + ' a slot that holds nothing')


def store_of(m, p):
    """pointer value -> (storage, slot)"""
    if p[0] == 'p':
        if p[1][0] == 'mem':
            return Store(m, (p[1][1], p[1][2])), p[2]
        return None, None
    if p[0] == 'r' and p[2] and isinstance(p[2][-1], tuple) and p[2][-1][0] == 'ix':
        return Store(m, (p[1], p[2][:-1])), p[2][-1][1]
    return None, None


def read_ptr(m, p, ty, move):
    """value behind a raw pointer; a value that is not Copy leaves its place"""
    st, off = store_of(m, p)
    if st is not None:
        v = st.get(off)
        if move and m.T(ty).get('mv'):
            st.put(off, add(off, I(1)), [('n', I(1))], 'read')
        return v
    if p[0] == 'p':
        if p[1][0] in ('s', 'a'):
            return A('el', p[1], p[2])
        raise Undecided('read through a pointer')
    if p[0] == 'p?':
        raise PathPanic(UB + 'read through a dangling pointer')
    addr = m.deref(p)
    v = m.load(addr)
    if move and m.T(ty).get('mv') and addr[0][0] not in ('SL', 'K'):
        m.store(addr, MV)
    return v


def write_ptr(m, p, v, ty):
    st, off = store_of(m, p)
    if st is not None:
        st.put(off, add(off, I(1)), [('e', v)])
        return
    if p[0] == 'p':
        raise Undecided('write through a pointer')
    m.store(m.deref(p), v)


@model('core::ptr::read', 'core::ptr::const_ptr::read', 'core::ptr::mut_ptr::read', 'core::intrinsics::read_via_copy',
       'core::ptr::non_null::NonNull::read', 'core::ptr::read_unaligned', 'core::ptr::const_ptr::read_unaligned')
def ptr_read(m, x):
    return read_ptr(m, x.V[0], x.dty, True)


@model('core::mem::maybe_uninit::MaybeUninit::assume_init_read')
def assume_init_read(m, x):
    return read_ptr(m, x.V[0], x.dty, True)


@model('core::mem::manually_drop::ManuallyDrop::take')
def md_take(m, x):
    return read_ptr(m, x.V[0], x.dty, True)


@model('core::ptr::write', 'core::ptr::mut_ptr::write', 'core::intrinsics::write_via_move', 'core::ptr::non_null::NonNull::write',
       'core::ptr::write_unaligned')
def ptr_write(m, x):
    write_ptr(m, x.V[0], x.V[1], x.T[1])
    return m.unit(x.dty)


@model('core::mem::maybe_uninit::MaybeUninit::write')
def mu_write(m, x):
    write_ptr(m, x.V[0], x.V[1], x.T[1])
    return x.V[0]


@model('core::ptr::replace', 'core::ptr::mut_ptr::replace')
def ptr_replace(m, x):
    v = read_ptr(m, x.V[0], x.dty, False)
    write_ptr(m, x.V[0], x.V[1], x.T[1])
    return v


def copy_run(m, src, dst, n, mv):
    if m.F.entails_eq(n, I(0)) or m.truth(b_eqi(n, I(0))):
        return
    st, off = store_of(m, src)
    if st is not None:
        # the copy is untyped: slots that hold nothing may be copied along
        l, i, r = st.run(off, add(off, n), 'copy')
    elif src[0] == 'p' and src[1][0] in ('s', 'a'):
        i = [('x', src[1], src[2], add(src[2], n))]
    elif src[0] == 'p' and src[1][0] == 'seq':
        raise Undecided('copy from a literal')
    elif n == I(1):
        i = [('e', m.load(m.deref(src)))]
    else:
        raise Undecided('copy from an unknown place')
    if st is not None and mv:
        # the bytes are duplicated; only one of the two may be used from now on
        st.put(off, add(off, n), [('n', n)], 'copy')
    dt, do = store_of(m, dst)
    if dt is None:
        raise Undecided('copy to an unknown place')
    dt.put(do, add(do, n), i, 'copy')


@model('core::ptr::copy_nonoverlapping', 'core::intrinsics::copy_nonoverlapping', 'core::ptr::copy', 'core::intrinsics::copy')
def ptr_copy(m, x):
    e = ptr_elem(m, x.T[0])
    copy_run(m, x.V[0], x.V[1], x.V[2], m.T(e).get('mv'))
    return m.unit(x.dty)


@model('core::ptr::const_ptr::copy_to_nonoverlapping', 'core::ptr::mut_ptr::copy_to_nonoverlapping', 'core::ptr::const_ptr::copy_to',
       'core::ptr::mut_ptr::copy_to')
def ptr_copy_to(m, x):
    return ptr_copy(m, x)


@model('core::ptr::mut_ptr::copy_from_nonoverlapping', 'core::ptr::mut_ptr::copy_from')
def ptr_copy_from(m, x):
    e = ptr_elem(m, x.T[1])
    copy_run(m, x.V[1], x.V[0], x.V[2], m.T(e).get('mv'))
    return m.unit(x.dty)


# ---------------------------------------------------------------- release of elements
def part_drops(m, parts, ty):
    """drop actions for initialised slots in order"""
    acts = []
    if not models.drop_relevant(m, ty):
        return acts
    for p in parts:
        if p[0] == 'e':
            a = m.alloc(p[1], ty, 'h')
            models.collect_drops(m, (a, ()), ty, acts)
        else:
            acts.append((('run', ('q', (p,))), ty))
    return acts


@model('core::ptr::drop_in_place', 'core::ptr::mut_ptr::drop_in_place', 'core::ptr::non_null::NonNull::drop_in_place',
       'core::mem::maybe_uninit::MaybeUninit::assume_init_drop', 'core::mem::manually_drop::ManuallyDrop::drop')
def drop_in_place(m, x):
    e = ptr_elem(m, x.T[0])
    t = m.T(e)
    if t['k'] == 'slice':
        s = x.V[0]
        el = t['e']
        if el is not None and m.transparent(el) and not models.drop_relevant(m, el):
            return m.unit(x.dty)
        if s[0] != 'sl' or s[1][0] != 'mem':
            raise Undecided('drop of an unknown slice')
        st = Store(m, (s[1][1], s[1][2]))
        l, i, r = st.run(s[2], s[3], 'drop')
        st.initialised(i, 'drop of')
        st.parts = tidy(l + [('n', slen(s))] + r)
        st.save()
        x.commit()
        models.run_drops(m, tuple(part_drops(m, i, el)))
        return HANDLED
    while m.transparent(e) and t['p'] in ('core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop'):
        e = m.inner(e)
        t = m.T(e)
    st, off = store_of(m, x.V[0])
    if st is not None:
        v = st.get(off)
        st.put(off, add(off, I(1)), [('n', I(1))], 'drop')
        x.commit()
        models.run_drops(m, tuple(part_drops(m, [('e', v)], e)))
        return HANDLED
    addr = m.deref(x.V[0])
    x.commit()
    acts = []
    models.collect_drops(m, addr, e, acts)
    models.run_drops(m, tuple(acts))
    return HANDLED


# ---------------------------------------------------------------- the allocator
@model('core::alloc::layout::Layout::array')
def layout_array(m, x):
    e = [a for a in x.c['a'] if isinstance(a, int)][0]
    z = m.T(e).get('sz')
    if z is None:
        raise Undecided('layout of unknown size')
    return m.mk(x.dty, 0, (A('layout', I(z), x.V[0]),))


@model('core::alloc::layout::Layout::size')
def layout_size(m, x):
    v = m.load(m.deref(x.V[0]))
    if v[0] == 'a' and v[1] == 'layout':
        return scale(v[3], v[2][1])
    return NOMODEL


def layout(m, v):
    if v[0] == 'a' and v[1] == 'layout':
        return v[2][1], v[3]
    raise Undecided('unknown layout')


def new_block(m, z, n):
    if z == 0 or (not m.F.entails_le(sub(I(1), n)) and m.truth(b_eqi(n, I(0)))):
        raise PathPanic(UB + 'allocation of size zero')
    m.n += 1
    a = ('H', m.n)
    m.mem[a] = ('q', (), n, None, z)
    m.mty[a] = None
    return a


def on_alloc(m, n):
    """harnesses may announce that heap storage is not called for"""
    v = m.mem.get(('N', 'fits'))
    if v is not None and not m.flags.get('may_alloc') and m.truth(v):
        raise PathPanic(UB[:0] + 'forbidden: heap storage obtained although the requested capacity fits the inline capacity')


@model('alloc::alloc::alloc', 'alloc::alloc::alloc_zeroed')
def alloc(m, x):
    z, n = layout(m, x.V[0])
    on_alloc(m, n)
    a = new_block(m, z, n)
    return ('p', ('mem', a, ()), I(0))


def block(m, p, z, n, what):
    if p[0] != 'p' or p[1][0] != 'mem' or p[1][1][0] != 'H' or p[1][2]:
        raise PathPanic(UB + f'{what} of something that is not heap storage')
    a = p[1][1]
    v = m.mem.get(a)
    if v is None or v[0] == 'freed':
        raise PathPanic(UB + f'{what} of released storage')
    if not m.F.entails_eq(p[2], I(0)) and not m.truth(b_eqi(p[2], I(0))):
        raise PathPanic(UB + f'{what} of a pointer into storage')
    st = Store(m, (a, ()))
    if st.z != z:
        raise PathPanic(UB + f'{what} with another layout than the storage was obtained with')
    if not m.F.entails_eq(st.cap, n) and not m.truth(b_eqi(st.cap, n)):
        raise PathPanic(UB + f'{what} with another size than the storage was obtained with')
    return a, st


@model('alloc::alloc::realloc')
def realloc(m, x):
    z, n = layout(m, x.V[1])
    on_alloc(m, n)
    a, st = block(m, x.V[0], z, n, 'reallocation')
    size = x.V[2]
    c, d = lin(size)
    if z == 0 or c % z or any(k % z for k in d.values()):
        raise Undecided('size of a reallocation')
    new = unlin(c // z, {t: k // z for t, k in d.items()})
    b = new_block(m, z, new)
    if not m.truth(b_le(st.cap, new)):
        keep, lost = split(m, st.parts, new)
        st.parts = keep
    else:
        st.parts = tidy(st.parts + [('n', sub(new, st.cap))])
    st.addr, st.cap = (b, ()), new
    st.save()
    m.mem[a] = ('freed',)
    return ('p', ('mem', b, ()), I(0))


@model('alloc::alloc::dealloc')
def dealloc(m, x):
    z, n = layout(m, x.V[1])
    a, st = block(m, x.V[0], z, n, 'release')
    m.mem[a] = ('freed',)
    return m.unit(x.dty)


@model('core::ptr::non_null::NonNull::new')
def nn_new(m, x):
    if x.V[0][0] in ('p', 'r', 'sl'):
        return some(m, x.dty, x.V[0])
    return NOMODEL


@model('core::ptr::non_null::NonNull::dangling', 'core::ptr::dangling', 'core::ptr::dangling_mut')
def nn_dangling(m, x):
    e = ptr_elem(m, x.dty)
    if e is None:
        e = next((a for a in m.T(x.dty)['a'] if isinstance(a, int)), None)
    if e is not None and m.T(e).get('sz') == 0:
        # storage for any number of items without a size
        a = ('Z', e)
        if a not in m.mem:
            m.mem[a] = ('q', (), I((1 << 64) - 1), None, 0)
            m.mty[a] = None
        return ('p', ('mem', a, ()), I(0))
    return ('p', ('dangling',), I(0))


@model('core::ptr::non_null::NonNull::slice_from_raw_parts')
def nn_slice(m, x):
    return m.mk_slice(x.V[0], x.V[1])


@model('core::ptr::non_null::NonNull::as_ref', 'core::ptr::non_null::NonNull::as_mut')
def nn_ref(m, x):
    v = m.load(m.deref(x.V[0]))
    if v[0] == 'sl':
        return live_slice(m, v)
    return v


def live_slice(m, v):
    return v


for n in ('cast', 'as_ptr', 'as_mut_ptr'):
    MODELS['core::ptr::non_null::NonNull::' + n] = models.ret0
for n in ('core::ptr::const_ptr::cast', 'core::ptr::mut_ptr::cast', 'core::ptr::mut_ptr::cast_const', 'core::ptr::const_ptr::cast_mut',
          'core::mem::maybe_uninit::MaybeUninit::as_ptr', 'core::mem::maybe_uninit::MaybeUninit::as_mut_ptr'):
    MODELS.setdefault(n, models.ret0)


# ---------------------------------------------------------------- vectors
def vec(m, v):
    return Store(m, m.deref(v))


@model('alloc::vec::Vec::with_capacity')
def with_capacity(m, x):
    n = x.V[0]
    if n == I(0):
        return ('q', (), I(0))
    cap = A('vcap', n)
    m.F.add_le(sub(n, cap))
    return ('q', (), cap)


@model('alloc::vec::Vec::capacity')
def capacity(m, x):
    return vec(m, x.V[0]).cap


@model('alloc::vec::Vec::as_ptr', 'alloc::vec::Vec::as_mut_ptr')
def vec_ptr(m, x):
    a = m.deref(x.V[0])
    return ('p', ('mem', a[0], a[1]), I(0))


@model('alloc::vec::Vec::set_len')
def set_len(m, x):
    st = vec(m, x.V[0])
    n = x.V[1]
    l, r = split(m, st.parts, n, 'length')
    if not m.F.entails_eq(st.len, n):
        st.initialised(l, 'length set past')
    st.len = n
    st.save()
    return m.unit(x.dty)


def cut_off(m, st, n):
    """shorten to n, returns the removed elements"""
    l, r = split(m, st.parts, n)
    gone, _ = split(m, r, sub(st.len, n))
    st.parts = l + [('n', sub(st.cap, n))]
    st.len = n
    st.save()
    return gone


@model('alloc::vec::Vec::truncate', 'alloc::vec::Vec::clear')
def truncate(m, x):
    st = vec(m, x.V[0])
    n = x.V[1] if len(x.V) > 1 else I(0)
    if m.truth(b_le(st.len, n)):
        return m.unit(x.dty)
    gone = cut_off(m, st, n)
    el = elem(m, x.T[0])
    x.commit()
    models.run_drops(m, tuple(part_drops(m, gone, el)))
    return HANDLED


def elem(m, ty):
    e = ptr_elem(m, ty)
    t = m.T(e if e is not None else ty)
    return [a for a in t['a'] if isinstance(a, int)][0]


@model('alloc::vec::Vec::drain')
def drain(m, x):
    st = vec(m, x.V[0])
    rg = stdslice.range_of(m, x.V[1], x.T[1], st.len)
    if rg is None:
        return NOMODEL
    lo, hi = rg
    if not m.truth(b_le(lo, hi)) or not m.truth(b_le(hi, st.len)):
        raise PathPanic('index out of range')
    l, i, r = st.run(lo, hi)
    keep, spare = split(m, r, sub(st.len, hi))
    st.parts = tidy(l + keep + [('n', sub(st.cap, sub(st.len, sub(hi, lo))))])
    st.len = sub(st.len, sub(hi, lo))
    st.save()
    return A('iter:owned', ('q', tuple(i)))


@model('alloc::vec::Vec::extend_from_slice')
def extend_from_slice(m, x):
    s = recv(m, x.V[1], x.T[1])[0]
    return append_parts(m, x, stdslice.parts_of(m, s))


@model('core::iter::traits::collect::Extend::extend')
def extend(m, x):
    t = m.T(models.ptr_elem(m, x.T[0]))
    if t['k'] != 'adt' or t['p'] != 'alloc::vec::Vec':
        return NOMODEL
    q = models.iter_items(m, x.V[1], x.T[1])
    if q is None:
        return NOMODEL
    return append_parts(m, x, q[1] if q[0] == 'q' else stdslice.parts_of(m, q))


def append_parts(m, x, parts):
    addr = m.deref(x.V[0])
    st = Store(m, addr)
    n = add(st.len, total(parts))
    keep = tuple(split(m, st.parts, st.len)[0])
    if m.F.entails_le(sub(n, st.cap)):
        cap = st.cap
    else:
        cap = A('vgrow', st.cap, n)
        m.F.add_le(sub(n, cap))
        m.F.add_le(sub(st.cap, cap))
    m.store(addr, ('q', tuple(tidy(list(keep) + list(parts))), cap))
    return m.unit(x.dty)


@model('alloc::vec::Vec::append')
def append(m, x):
    o = m.deref(x.V[1])
    q = as_q(m, m.load(o))
    m.store(o, ('q', (), q[2] if len(q) > 2 else None))
    return append_parts(m, x, q[1])


@model('alloc::vec::Vec::reserve', 'alloc::vec::Vec::reserve_exact')
def v_reserve(m, x):
    addr = m.deref(x.V[0])
    st = Store(m, addr)
    n = add(st.len, x.V[1])
    if m.truth(b_le(n, st.cap)):
        return m.unit(x.dty)
    cap = A('vgrow', st.cap, n)
    m.F.add_le(sub(n, cap))
    m.F.add_le(sub(st.cap, cap))
    m.store(addr, ('q', tuple(split(m, st.parts, st.len)[0]), cap))
    return m.unit(x.dty)


@model('alloc::vec::Vec::split_off')
def split_off(m, x):
    st = vec(m, x.V[0])
    if not m.truth(b_le(x.V[1], st.len)):
        raise PathPanic('index out of range')
    gone = cut_off(m, st, x.V[1])
    return ('q', tuple(gone), None)


@model('alloc::vec::Vec::spare_capacity_mut')
def spare_capacity_mut(m, x):
    a = m.deref(x.V[0])
    st = Store(m, a)
    return ('sl', ('mem', a[0], a[1]), st.len, st.cap)


# ---------------------------------------------------------------- bytes and text
def plain_parts(m, parts):
    """one spelling for a sequence of initialised slots"""
    out = []
    for p in tidy(parts):
        if p[0] == 'x':
            if m.F.entails_eq(p[2], p[3]):
                continue
            b = m.content(p[1])
            if m.F.entails_le(sub(p[3], p[2])):
                continue
            p = ('x', b, m.F.nf(p[2]), m.F.nf(p[3]))
            for j in range(1, 4):
                if m.F.entails_eq(sub(p[3], p[2]), I(j)):
                    p = ('x', b, p[2], add(p[2], I(j)))
        elif p[0] == 'e':
            p = ('e', m.content(p[1]))
        out.append(p)
    return ('q', spell(tidy(out)))


@model('core::str::converts::from_utf8', 'core::str::from_utf8')
def from_utf8(m, x):
    s = recv(m, x.V[0], x.T[0])[0]
    q = plain_parts(m, stdslice.parts_of(m, s))
    n = slen(s)
    if m.truth(b_eqi(n, I(0))):
        return m.mk(x.dty, 0, (s,))
    if m.truth(A('utf8_ok', q)):
        return m.mk(x.dty, 0, (s,))
    v = A('utf8_valid', q)
    m.F.add_le(sub(add(v, I(1)), n))
    return m.mk(x.dty, 1, (A('utf8_err', q, v),))


@model('core::str::error::Utf8Error::valid_up_to')
def valid_up_to(m, x):
    e = m.load(m.deref(x.V[0]))
    if e[0] == 'a' and e[1] == 'utf8_err':
        return e[3]
    return NOMODEL


@model('core::slice::copy_from_slice', 'core::slice::clone_from_slice')
def copy_from_slice(m, x):
    d = recv(m, x.V[0], x.T[0])[0]
    s = recv(m, x.V[1], x.T[1])[0]
    if not m.truth(b_eqi(slen(d), slen(s))):
        raise PathPanic('slices of different length')
    if d[1][0] != 'mem':
        return NOMODEL
    parts = stdslice.parts_of(m, s)
    Store(m, (d[1][1], d[1][2])).put(d[2], d[3], list(parts))
    return m.unit(x.dty)
