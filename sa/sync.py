"""Shared-state operations: one machine is run alone, its atomic, lock, waiter-list and waker operations are
recorded in program order, and rules over that record decide the protocol."""
from terms import *
from engine import Decide, Undecided, PathPanic, Infeasible
import models
from models import HANDLED, NOMODEL, norm

ATOMIC = 'core::sync::atomic::Atomic::'
RMW = ('fetch_add', 'fetch_sub', 'fetch_or', 'fetch_and', 'fetch_xor', 'fetch_max', 'fetch_min', 'swap')
LISTS = ('list', 'ins', 'nolist', 'rest')


def note(m, kind, *a):
    m.log = m.log + ((kind, m.rline) + a,)


def place_name(addr):
    """an identity for a shared cell: how it is reached from the object that owns it"""
    return repr(addr[1]) if addr[0][0] == 'D' else repr((addr[0], addr[1]))


def ordering(v):
    return ('Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst')[v[2]] if v[0] == 'g' and v[2] is not None else None


def dispatch(m, x, key, rp):
    if key.startswith(ATOMIC):
        return atomic(m, x, key[len(ATOMIC):])
    if m.flags.get('chain'):
        if key == 'std::sync::once_lock::OnceLock::get':
            c, p = m.deref(x.V[0])
            if c[0] != 'D':
                raise Undecided('a block of the chain that is not behind a pointer')
            return event(m, x, 'get', A('place', c[1], A('name:' + repr(p))))
        return NOMODEL
    f = SYNC.get(key)
    if f is not None:
        r = f(m, x)
        if r is not NOMODEL:
            return r
    if m.flags.get('notify'):
        if key == 'parcom_internals::future::notify::Notify::wait':
            return event(m, x, 'wait', A('name:' + place_name(m.deref(x.V[0]))))
        if key == 'parcom_internals::future::notify::Notify::send':
            return event(m, x, 'send', A('name:' + place_name(m.deref(x.V[0]))))
        if key == 'core::future::future::Future::poll' and '::notify::Wait' in rp.split(' as ')[0]:
            w = m.load(m.deref(x.V[0]))
            while w[0] == 'r':
                w = m.load((w[1], w[2]))
            return event(m, x, 'wpoll', w, task_waker(m, x.V[1]))
    return NOMODEL


def event(m, x, name, *args):
    """an operation whose result matters at the moment it is made"""
    x.commit()
    m.block = ('event', name, args, x.dty)
    m.pending = ('val', x.dest, x.dty, ())
    return HANDLED


SYNC = {}


def sync(*names):
    def d(f):
        for n in names:
            SYNC[n] = f
        return f
    return d


def atomic(m, x, op):
    if op == 'new':
        note(m, 'anew', x.V[0], x.dty)
        return NOMODEL
    addr = m.deref(x.V[0])
    p = place_name(addr)
    if op == 'load' and m.flags.get('notify'):
        return event(m, x, 'load', A('name:' + p), A('name:' + str(ordering(x.V[1]))))
    if op == 'load':
        v = SYMS.fresh(x.dty, 'load')
        note(m, 'load', p, v, ordering(x.V[1]), x.dty)
        return v
    if op == 'store':
        note(m, 'store', p, x.V[1], ordering(x.V[2]), x.T[1])
        return m.unit(x.dty)
    if op in RMW:
        v = SYMS.fresh(x.dty, 'old')
        note(m, 'rmw', p, op, x.V[1], v, ordering(x.V[2]), x.dty)
        return v
    raise Undecided('atomic operation ' + op)


# ------------------------------------------------------------------ locks
@sync('std::sync::poison::mutex::Mutex::lock')
def lock(m, x):
    addr = m.deref(x.V[0])
    p = place_name(addr)
    cell = ('N', 'in ' + p)
    m.mem[cell] = A('list', SYMS.fresh(None, 'waiters'))
    inner = [a for a in m.T(m.T(x.T[0])['e'])['a'] if isinstance(a, int)][0]
    m.mty[cell] = inner
    note(m, 'lock', p)
    return m.mk(x.dty, 0, (A('guard', A('name:' + p)),))


@sync('std::sync::poison::mutex::Mutex::try_lock')
def try_lock(m, x):
    n = m.mem.get(('N', 'tries'), I(0))
    t = A('got', A('name:' + A('name:' + place_name(m.deref(x.V[0])))), n)
    got = m.truth(t)
    m.mem[('N', 'tries')] = add(n, I(1))
    if got:
        return lock(m, x)
    return m.mk(x.dty, 1, (SYMS.fresh(None, 'busy'),))


def guarded(v):
    return v[0] == 'a' and v[1] == 'guard'


def guard_cell(v):
    return ('N', 'in ' + v[2][1][5:])


@sync('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def guard_deref(m, x):
    v = m.load(m.deref(x.V[0]))
    if guarded(v):
        return ('r', guard_cell(v), ())
    return NOMODEL


def drop_guard(m, v):
    if guarded(v):
        c = guard_cell(v)
        note(m, 'unlock', v[2][1][5:], m.mem.get(c))
        m.mem.pop(c, None)


def drop_waker(m, v):
    note(m, 'wdrop', m.content(v))


DROPS = {'std::sync::poison::mutex::MutexGuard': drop_guard, 'core::task::wake::Waker': drop_waker}


# ------------------------------------------------------------------ wakers
def task_waker(m, cx):
    while cx[0] == 'r':
        cx = m.load((cx[1], cx[2]))
    if cx[0] == 'a' and cx[1] == 'cxof':
        return cx[2]
    return A('waker_of', m.content(cx))


@sync('core::task::wake::Context::from_waker')
def from_waker(m, x):
    return A('cxof', m.content(m.load(m.deref(x.V[0]))))


@sync('core::task::wake::Context::waker')
def cx_waker(m, x):
    w = task_waker(m, x.V[0])
    return ('r', ('K', w), ())


@sync('core::clone::Clone::clone')
def clone(m, x):
    e = models.ptr_elem(m, x.T[0])
    if e is not None and m.T(e).get('p') == 'core::task::wake::Waker':
        return m.content(m.load(m.deref(x.V[0])))
    return NOMODEL


@sync('core::task::wake::Waker::wake')
def wake(m, x):
    note(m, 'wake', m.content(x.V[0]))
    return m.unit(x.dty)


@sync('core::task::wake::Waker::wake_by_ref')
def wake_by_ref(m, x):
    note(m, 'wake', m.content(m.load(m.deref(x.V[0]))))
    return m.unit(x.dty)


# ------------------------------------------------------------------ lists of waiters
def is_list(v):
    return v[0] == 'a' and v[1] in LISTS


def the_list(m, v):
    """(address, list) of a reference to a list"""
    while v[0] == 'r':
        a = (v[1], v[2])
        v = m.load(a)
        if is_list(v):
            return a, v
        if v == ('q', (), I(0)) or v == ('q', (), None):
            return a, A('nolist')
    return None


def method(*names):
    def d(f):
        def g(m, x):
            r = the_list(m, x.V[0])
            return NOMODEL if r is None else f(m, x, *r)
        for n in names:
            SYNC['slab::Slab::' + n] = SYNC['alloc::vec::Vec::' + n] = SYNC['alloc::collections::vec_deque::VecDeque::' + n] = g
        return g
    return d


@sync('slab::Slab::new', 'slab::Slab::with_capacity')
def slab_new(m, x):
    return A('nolist')


@sync('core::default::Default::default')
def slab_default(m, x):
    return A('nolist') if m.T(x.dty).get('p') == 'slab::Slab' else NOMODEL


@sync('core::mem::take')
def take(m, x):
    r = the_list(m, x.V[0])
    if r is None:
        return NOMODEL
    m.store(r[0], A('nolist'))
    note(m, 'take', r[1])
    return r[1]


@sync('core::mem::replace')
def replace(m, x):
    r = the_list(m, x.V[0])
    if r is None:
        return NOMODEL
    m.store(r[0], x.V[1])
    x.commit()
    note(m, 'take', r[1])
    return r[1]


def shared(a):
    return a[0][0] == 'N' and not a[1]


def grow(m, a, L, kind, *what):
    """a list of the function's own takes in more: only its identity is kept"""
    new = A('list', SYMS.fresh(None, 'own'))
    m.store(a, new)
    note(m, kind, L, new, *what)


@method('insert', 'push', 'push_back')
def insert(m, x, a, L):
    k = SYMS.fresh(x.dty, 'key')
    w = m.content(x.V[1])
    if not shared(a):
        grow(m, a, L, 'put', w)
        return m.unit(x.dty) if m.is_unit(x.dty) else k
    m.store(a, A('ins', L, k, w))
    note(m, 'ins', k, w)
    return m.unit(x.dty) if m.is_unit(x.dty) else k


@method('vacant_entry')
def vacant_entry(m, x, a, L):
    return A('vacant', x.V[0], SYMS.fresh(None, 'key'))


@sync('slab::VacantEntry::key')
def vacant_key(m, x):
    v = m.content(x.V[0]) if x.V[0][0] == 'r' else x.V[0]
    return v[3] if v[:2] == ('a', 'vacant') else NOMODEL


@sync('slab::VacantEntry::insert')
def vacant_insert(m, x):
    e = x.V[0]
    r = the_list(m, e[2]) if e[:2] == ('a', 'vacant') else None
    if r is None or not shared(r[0]):
        return NOMODEL
    w = m.content(x.V[1])
    m.store(r[0], A('ins', r[1], e[3], w))
    note(m, 'ins', e[3], w)
    return x.V[1]


@method('remove', 'swap_remove')
def remove(m, x, a, L):
    if L[1] == 'ins' and L[3] == x.V[1]:
        m.store(a, L[2])
        w = L[4]
    else:
        m.store(a, A('rest', L, x.V[1]))
        w = SYMS.fresh(x.dty, 'waker')
    note(m, 'rem', x.V[1], w)
    return w


@method('try_remove')
def try_remove(m, x, a, L):
    if L[1] == 'ins' and L[3] == x.V[1]:
        m.store(a, L[2])
        note(m, 'rem', x.V[1], L[4])
        return m.mk(x.dty, 1, (L[4],))
    m.store(a, A('rest', L, x.V[1]))
    w = SYMS.fresh(x.dty, 'waker')
    note(m, 'rem', x.V[1], w)
    return w


@method('drain')
def drain(m, x, a, L):
    m.store(a, A('nolist'))
    note(m, 'take', L)
    return A('walk', L)


@method('clear')
def clear(m, x, a, L):
    m.store(a, A('nolist'))
    note(m, 'take', L)
    return m.unit(x.dty)


@method('len')
def length(m, x, a, L):
    return I(0) if L[1] == 'nolist' else A('len', L)


@method('is_empty')
def is_empty(m, x, a, L):
    return TRUE if L[1] == 'nolist' else b_eqi(A('len', L), I(0))


@method('iter', 'iter_mut')
def iter_(m, x, a, L):
    return A('walk', L)


@sync('core::iter::traits::collect::Extend::extend')
def extend(m, x):
    r = the_list(m, x.V[0])
    v = x.V[1]
    if r is None or shared(r[0]):
        return NOMODEL
    if is_list(v):
        note(m, 'take', v)
        v = A('walk', v)
    if v[0] == 'a' and v[1] == 'walk':
        grow(m, r[0], r[1], 'join', v[2])
        return m.unit(x.dty)
    return NOMODEL


@method('append')
def append(m, x, a, L):
    r = the_list(m, x.V[1])
    if r is None or shared(a):
        return NOMODEL
    m.store(r[0], A('nolist'))
    note(m, 'take', r[1])
    grow(m, a, L, 'join', r[1])
    return m.unit(x.dty)


@sync('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(m, x):
    v = x.V[0]
    if v[0] == 'a' and v[1] == 'walk':
        return v
    if is_list(v):
        note(m, 'take', v)
        return A('walk', v)
    if v[0] == 'q' and not v[1] and m.T(x.T[0]).get('p') in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
        return A('walk', A('nolist'))
    r = the_list(m, v) if v[0] == 'r' else None
    return A('walk', r[1]) if r else NOMODEL


@sync('core::iter::traits::iterator::Iterator::collect')
def collect(m, x):
    v = x.V[0]
    if v[0] == 'a' and v[1] == 'walk' and m.T(x.dty).get('p') in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
        return v[2]
    if v[0] == 'g' and m.T(v[1]).get('p') in PARTIAL:
        w, n = m.proj(v, 0), m.proj(v, 1)
        if w[0] == 'a' and w[1] == 'walk' and n[0] in ('i', 'lin', 's', 'a'):
            return A('list', A('part', w[2], n))
    return NOMODEL


PARTIAL = ('core::iter::adapters::take::Take', 'core::iter::adapters::skip::Skip', 'core::iter::adapters::step_by::StepBy')


@sync('core::iter::traits::iterator::Iterator::next')
def next_(m, x):
    v, n = x.V[0], 0
    while v[0] == 'r':
        v = m.load((v[1], v[2]))
    if not (v[0] == 'a' and v[1] == 'walk'):
        return NOMODEL
    L = v[2]
    if L[1] == 'nolist':
        return m.mk(x.dty, 0, ())
    x.commit()
    m.block = ('event', 'next', (L,), x.dty)
    m.pending = ('val', x.dest, x.dty, ())
    return HANDLED


@method('pop', 'pop_front', 'pop_back')
def pop(m, x, a, L):
    if L[1] == 'nolist':
        return m.mk(x.dty, 0, ())
    new = A('list', SYMS.fresh(None, 'own'))
    m.store(a, new)
    x.commit()
    m.block = ('event', 'pop', (L, new), x.dty)
    m.pending = ('val', x.dest, x.dty, ())
    return HANDLED
