"""Transfer functions for calls: the opaque environment (module u of the harness), the standard
library, and everything else by descending into its MIR."""
import re
from terms import *
from engine import Decide, Undecided, PathPanic, Infeasible

HANDLED = ('HANDLED',)
CX = SYMS.fresh(None, 'cx')      # the task context handed to every poll
_norm_cache = {}


def norm(p):
    r = _norm_cache.get(p)
    if r is None:
        r = p
        while True:
            n = re.sub(r'::<[^<>]*>', '', r)
            if n == r:
                # generic arguments nested inside plain paths
                n = re.sub(r'(?<=::)<[^<>]*>::', '', r)
                break
            r = n
        _norm_cache[p] = r
    return r


def meth(p):
    return norm(p).rsplit('::', 1)[-1]


class Ctx:
    __slots__ = ('fr', 'c', 'V', 'T', 'dest', 'dty', 'moves', 'm', 'done')

    def commit(self):
        if not self.done:
            self.done = True
            self.m.do_moves(self.moves)

    def enter(self, inst, args, cont=None, alias=None):
        """push the body of an instance, result goes to the call's destination"""
        self.commit()
        self.m.push(inst, args, self.dest, self.dty, cont, alias)


def call(m, fr, c, vals, atys, dest, dty, moves):
    x = Ctx()
    x.m, x.fr, x.c, x.V, x.T, x.dest, x.dty, x.moves, x.done = m, fr, c, vals, atys, dest, dty, moves, False
    v = dispatch(m, x)
    x.commit()
    if v is HANDLED:
        return
    m.finish_call(dest, v)


def dispatch(m, x):
    c = x.c
    if c.get('ctor'):
        t = m.T(c['cty'])
        if m.transparent(c['cty']):
            return x.V[0]
        return m.mk(c['cty'], c['cvi'] if t['ak'] == 'enum' else None, x.V)
    rp = c.get('rp') or c['p']
    if is_user(c, rp):
        return user_call(m, x, rp)
    f = None
    key = norm(c['p'])
    if m.flags.get('sync'):
        r = sync.dispatch(m, x, key, rp)
        if r is not NOMODEL:
            return r
    f = MODELS.get(key)
    if f is None and c.get('tr') is None:
        f = MODELS.get(norm(rp))
    if f is not None:
        r = f(m, x)
        if r is not NOMODEL:
            return r
    for pre, g in PREFIX:
        if key.startswith(pre):
            return g(m, x)
    if c.get('rk') == 'virtual':
        return virtual(m, x)
    i = c.get('i')
    if i is not None and i >= 0 and 'bb' in m.P.fns[i] and not m.P.fns[i].get('stop'):
        return enter_instance(m, x, i)
    if x.fr.target is None:
        raise PathPanic(key)
    if any(is_mut_ref(m, t) for t in x.T):
        raise Undecided(f'unmodelled function with &mut argument: {c["full"]}')
    return A('std:' + key, *[strip(m, v, t) for v, t in zip(x.V, x.T)])


NOMODEL = ('NOMODEL',)


def enter_instance(m, x, i):
    f = m.P.fns[i]
    if f['kind'] == 'coroutine':
        return poll_coroutine(m, x, i)
    args = list(x.V)
    if f.get('kind') == 'closure' and x.c.get('tr') in FN_TRAITS:
        # Fn*::call(self, (args...)) resolved straight to the closure body
        args = untuple(m, x, args)
    elif f['kind'] != 'shim' and x.c.get('tr') in FN_TRAITS and f['argc'] != len(args):
        args = untuple(m, x, args)[(1 if f['argc'] == len(untuple(m, x, args)) - 1 else 0):]
    x.enter(i, args)
    return HANDLED


FN_TRAITS = ('core::ops::function::Fn', 'core::ops::function::FnMut', 'core::ops::function::FnOnce')


def untuple(m, x, args):
    t = args[-1]
    fs = m.P.field_types(x.T[-1])
    return args[:-1] + [m.proj(t, j) if not m.is_unit(fs[j]) else m.unit(fs[j]) for j in range(len(fs))]


def poll_coroutine(m, x, i):
    cell = m.deref(x.V[0])
    x.commit()
    m.push(i, [None, x.V[1] if len(x.V) > 1 else U], x.dest, x.dty, ('ready', x.dty), cell)
    return HANDLED


def virtual(m, x):
    v = x.V[0]
    raise Undecided('virtual call ' + x.c['full'])


# ---------------------------------------------------------------- the opaque environment
def is_user(c, rp):
    return rp.startswith('u::') or rp.startswith('<u::') or rp.startswith('<&u::')


def is_mut_ref(m, ty):
    if ty is None:
        return False
    t = m.T(ty)
    if t['k'] in ('ref', 'ptr'):
        return t['mut'] or is_mut_ref(m, t['e'])
    if t['k'] == 'adt' and m.transparent(ty):
        return is_mut_ref(m, m.inner(ty))
    return False


def ptr_elem(m, ty):
    t = m.T(ty)
    while t['k'] == 'adt' and m.transparent(ty) and t['p'] != 'alloc::boxed::Box':
        ty = m.inner(ty)
        t = m.T(ty)
    if t['k'] in ('ref', 'ptr'):
        return t['e']
    return None


def strip(m, v, ty):
    """memory-independent identity of an argument: references are replaced by what they point to"""
    n = 0
    while ty is not None:
        e = ptr_elem(m, ty)
        if e is None or m.T(e)['k'] in ('str', 'slice', 'dyn') or v[0] == 'sl':
            break
        v = m.load(m.deref(v))
        ty = e
        n += 1
    if ty is not None and m.is_unit(ty):
        return m.unit(ty)
    return m.content(v)


SAME_NAME = {'parse_once': 'parse', 'parse_iterative_once': 'parse_iterative', 'call_once': 'call', 'call_mut': 'call'}
# user calls that are observable effects (everything else in u is a pure function of its arguments)
EVENTS = {'extend', 'test'}


def user_call(m, x, rp):
    name = SAME_NAME.get(meth(rp), meth(rp))
    f = USER.get(name)
    if f is not None and not rp.startswith('<u::Ev'):
        r = f(m, x)
        if r is not NOMODEL:
            return r
    if name == 'opaque':
        return A('opaque', x.fr.fid)
    if name == 'poll':
        return poll_user(m, x)
    if name.startswith('ev_') or name in EVENTS or rp.startswith('<u::Ev'):
        return event(m, x, name)
    # futures made by user code keep their arguments; they take effect when polled
    muts = tuple(i for i, t in enumerate(x.T) if is_mut_ref(m, t))
    if muts:
        if is_future(m, x.dty):
            args = []
            for i, (v, t) in enumerate(zip(x.V, x.T)):
                args.append(('mref', v, t) if i in muts else strip(m, v, t))
            return A('fut', name, *args)
        return event(m, x, name)
    if is_future(m, x.dty):
        return A('fut', name, *[strip(m, v, t) for v, t in zip(x.V, x.T)])
    return pure(m, name, [strip(m, v, t) for v, t in zip(x.V, x.T)], x.dty)


def pure(m, name, args, dty):
    if m.is_unit(dty):
        return m.unit(dty)
    t = A(name, *args)
    return t


def is_future(m, ty):
    t = m.T(ty)
    return t['k'] == 'adt' and t['p'].startswith('u::') and t['p'][3:].rstrip('0123456789') in FUTURES


FUTURES = ('Fut', 'RewindF', 'AdvF', 'SegF', 'NextText', 'NextItem', 'AdvText', 'AdvItem', 'RewText', 'RewItem')


def u_rewind(m, x):
    return A('fut', 'rewind', strip(m, x.V[0], x.T[0]), strip(m, x.V[1], x.T[1]))


def u_advance(m, x):
    t = m.T(x.dty)
    if t['k'] == 'adt' and t['p'].startswith('u::Adv'):
        s, n = x.V
        return A('fut', 'advance', s, m.content(n))
    return NOMODEL


def rewound(s, a):
    if a[0] == 'a' and a[1] == 'anchor':
        return a[2]
    return A('at', a)


def u_anchor(m, x):
    s = strip(m, x.V[0], x.T[0])
    if s[0] == 'a' and s[1] == 'at':
        return s[2]
    return A('anchor', s)


def advanced(m, s, n):
    n = int_of(m, n)
    if s[0] == 'a' and s[1] == 'adv':
        s, n = s[2], add(s[3], n)
    if n == I(0):
        return s
    return A('adv', s, n)


def int_of(m, v):
    """newtype wrapper around an integer -> integer"""
    while v[0] == 'g' and len(v[3]) == 1:
        v = v[3][0]
    if v[0] in ('s', 'a'):
        ty = m.term_ty(v)
        if ty is not None and m.T(ty)['k'] == 'adt':
            return A('fld', 0, v)
    return v


def u_clone(m, x):
    # Clone of an opaque value is the same value
    return strip(m, x.V[0], x.T[0])


def u_segments(m, x):
    # looking at the upcoming data does not change the stream
    return A('segs', strip(m, x.V[0], x.T[0]))


def u_unspecified(m, x):
    raise Infeasible()


def u_fits(m, x):
    # an announcement to the analyser: may heap storage be obtained from here on?
    m.mem[('N', 'fits')] = x.V[0]
    m.mty[('N', 'fits')] = x.T[0]
    return m.unit(x.dty)


USER = {'ev_fits': u_fits, 'segments': u_segments, 'unspecified': u_unspecified, 'rewind': u_rewind, 'advance': u_advance, 'anchor': u_anchor, 'clone': u_clone}


def poll_user(m, x):
    addr = m.deref(x.V[0])
    f = m.load(addr)
    fty = ptr_elem(m, x.T[0])
    out = m.P.field_types(x.dty, 0)
    in_await = awaiting(m)
    if f[0] == 'a' and f[1] == 'fut':
        name = f[2]
        args = list(f[3:])
        if name == 'rewind' and in_await:
            return m.mk(x.dty, 0, (rewound(args[0], args[1]),))
        if name == 'advance' and in_await:
            return m.mk(x.dty, 0, (advanced(m, args[0], args[1]),))
    else:
        name, args = 'fut', [m.content(f)]
    muts = []
    cont = []
    if name == 'next' and fty is not None and m.T(fty).get('p', '').startswith(('u::Next', 'u::SegF')):
        args = args[:1]         # the size hint is only a hint
    for a in args:
        if a[0] == 'mref':
            muts.append((m.deref(innermost_mut(m, a[1], a[2])[0]), innermost_mut(m, a[1], a[2])[1]))
            cont.append(strip(m, a[1], a[2]))
        else:
            cont.append(m.content(a))
    x.commit()
    if in_await:
        m.block = ('event', name, tuple(cont), out[0])
        m.pending = ('ready', x.dest, x.dty, tuple(muts))
    else:
        muts.append((addr, fty))
        m.block = ('event', 'poll:' + name, tuple(cont), x.dty)
        m.pending = ('val', x.dest, x.dty, tuple(muts))
    return HANDLED


def awaiting(m):
    """is this poll made by an await (possibly through the forwarding polls of Pin/Box/&mut)?"""
    for fr in reversed(m.frames):
        f = m.P.fns[fr.fid]
        if f['kind'] == 'coroutine':
            return True
        if f['crate'] not in ('core', 'alloc', 'std'):
            return False
    return False


def innermost_mut(m, v, ty):
    """follow references to the value that is mutated: returns (pointer value, pointee type)"""
    e = ptr_elem(m, ty)
    while True:
        e2 = ptr_elem(m, e)
        if e2 is None or not is_mut_ref(m, e):
            return v, e
        v = m.load(m.deref(v))
        e = e2


def event(m, x, name, resty=None):
    args, muts = [], []
    for v, t in zip(x.V, x.T):
        if m.is_unit(t):
            continue
        if is_mut_ref(m, t) :
            p, e = innermost_mut(m, v, t)
            if m.T(e)['k'] not in ('slice', 'str', 'dyn'):
                muts.append((m.deref(p), e))
        args.append(norm_arg(m, strip(m, v, t), t, name))
    x.commit()
    m.block = ('event', name, tuple(args), x.dty)
    m.pending = ('val', x.dest, x.dty, tuple(muts))
    return HANDLED


def norm_arg(m, v, t, name):
    """iterables given to extend() are compared by the items they yield"""
    if name != 'extend':
        return v
    q = iter_items(m, v, t)
    return v if q is None else q


def iter_items(m, v, ty):
    """the items an iterable yields, as a sequence term (None: unknown)"""
    t = m.T(ty)
    if v[0] in ('q', 'sl'):
        return v
    if t['k'] == 'adt':
        p = t['p']
        if p == 'core::option::Option':
            if m.variant_of(v, ty) == 0:
                return ('q', ())
            return ('q', (('e', m.proj(v, ('v', 1, 0))),))
        if p in ('core::iter::sources::once::Once', 'core::option::IntoIter', 'core::option::Item'):
            return iter_items(m, m.proj(v, 0), t['v'][0]['f'][0][1])
    if t['k'] == 'array' and v[0] == 'g':
        return ('q', tuple(('e', e) for e in v[3]))
    if t['k'] in ('ref',) and v[0] == '&':
        return iter_items(m, v[1], t['e'])
    return None


def resume(m, sym):
    """continue after an event with its (shared) result"""
    k, dest, dty, muts = m.pending
    m.pending = None
    m.block = None
    for i, e in enumerate(muts):
        addr, ty = e[:2]
        if len(e) > 2:
            b = A('post', i, sym)
            m.store(addr, A(e[2], ('sl', b, I(0), A('len', b))))
        elif not m.is_unit(ty):
            m.store(addr, A('post', i, sym))
    if k == 'drop':
        if m.flags.get('unwinds') and not m.unwinding and m.truth(A('unwinds', sym)):
            # a destructor panics: what else was to be dropped here still is, then the frames unwind
            m.unwinding = True
            return run_drops(m, dest + (UNWIND,))
        return run_drops(m, dest)
    if k == 'ready':
        v = m.mk(dty, 0, (sym,))
    else:
        v = sym
    if v == sym and m.is_unit(dty):
        v = m.unit(dty)
    if dest is None:
        return
    if m.is_unit(dty):
        v = m.unit(dty)
    m.finish_call(dest, v)


# ---------------------------------------------------------------- continuations
CONT = {}


def cont(f):
    CONT[f.__name__] = f
    return f


@cont
def discard(m, fr, value):
    """result ignored; caller proceeds to its pending target"""
    m.finish_call(None, None)


UNWIND = (('unwind', None), None)


def unwind(m):
    """a panic leaves the terminator the topmost frame is at"""
    while m.frames:
        fr = m.frames[-1]
        term = m.P.fns[fr.fid]['bb'][fr.bb][1]
        uw = term[7] if term[0] == 'call' else term[5] if term[0] == 'drop' else None
        if uw is not None:
            fr.bb, fr.ix, fr.target = uw, 0, None
            return
        if unwind_frame(m):
            return
    m.block = ('unwound',)


def unwind_frame(m):
    """leave the topmost frame; True: there is something to run before its caller unwinds"""
    fr = m.pop(None)
    if fr.cont is not None and fr.cont[0] == 'drops':
        run_drops(m, fr.cont[1] + (UNWIND,))
        return True
    if fr.cont is not None and fr.cont[0] != 'ready':
        raise Undecided('unwinding through ' + fr.cont[0])
    return False


@cont
def drops(m, fr, value, rest):
    run_drops(m, rest)


# ---------------------------------------------------------------- drops
def drop_relevant(m, ty):
    memo = m.P.__dict__.setdefault('_drs' if m.flags.get('sync') else '_dr', {})
    r = memo.get(ty)
    if r is not None:
        return r
    memo[ty] = False
    t = m.T(ty)
    r = False
    if t['k'] == 'adt':
        if own_drop(m, ty):
            r = True
        elif t['p'] in DROPMODELS:
            r = DROPMODELS[t['p']] is not None and drop_relevant(m, [a for a in t['a'] if isinstance(a, int)][0])
        elif t['p'] in ('core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit', 'core::marker::PhantomData'):
            r = False
        elif t['ak'] == 'union':
            r = False
        else:
            r = any(drop_relevant(m, f[1]) for v in t['v'] for f in v['f'])
            if t['p'] == 'alloc::boxed::Box':
                r = drop_relevant(m, t['a'][0])
    elif t['k'] in ('tuple', 'closure', 'coroutine'):
        r = any(drop_relevant(m, f) for f in t['f'])
    elif t['k'] in ('array', 'slice'):
        r = drop_relevant(m, t['e'])
    memo[ty] = r
    return r


def vec_drops(m, addr, ty, acts):
    st = rawmem.Store(m, addr)
    parts = rawmem.split(m, st.parts, st.len)[0]
    st.initialised(parts, 'drop of')
    acts.extend(rawmem.part_drops(m, parts, [a for a in m.T(ty)['a'] if isinstance(a, int)][0]))


DROPMODELS = {'alloc::vec::Vec': vec_drops, 'alloc::rcs::arc::Arc': None, 'alloc::rcs::rc::Rc': None, 'alloc::sync::Arc': None, 'alloc::rc::Rc': None}


def own_drop(m, ty):
    """type with a Drop impl that matters: in the analysed crates or in u"""
    t = m.T(ty)
    if t['p'].startswith('u::D'):
        return True
    if m.flags.get('sync') and t['p'] in sync.DROPS:
        return True
    if t['p'].startswith('parcom_'):
        if t['p'] == 'parcom_internals::shortvec::ShortVec' and m.flags.get('abs_shortvec'):
            return False
        d = t.get('drop')
        return isinstance(d, int) and d >= 0
    return False


def drop_place(m, addr, ty):
    acts = []
    if drop_relevant(m, ty):
        collect_drops(m, addr, ty, acts)
    else:
        # the value is gone
        pass
    run_drops(m, tuple(acts))


def collect_drops(m, addr, ty, acts):
    if not drop_relevant(m, ty):
        return
    v = m.load(addr)
    if v[0] in ('mv', 'u'):
        return
    t = m.T(ty)
    if t['k'] == 'adt':
        if own_drop(m, ty):
            acts.append((addr, ty))
            if t['p'].startswith('parcom_') and t['ak'] == 'struct' and any(drop_relevant(m, f[1]) for f in t['v'][0]['f']):
                acts.append((addr, ('fields', ty)))     # after the impl ran
            return
        if t['p'] in DROPMODELS:
            return DROPMODELS[t['p']](m, addr, ty, acts)
        if t['p'] == 'alloc::boxed::Box':
            collect_drops(m, m.deref(v), t['a'][0], acts)
            return
        if t['ak'] == 'enum':
            k = m.variant_of(v, ty)
            for j, f in enumerate(t['v'][k]['f']):
                collect_drops(m, (addr[0], addr[1] + (('v', k, j),)), f[1], acts)
            return
        for j, f in enumerate(t['v'][0]['f']):
            collect_drops(m, (addr[0], addr[1] + (j,)), f[1], acts)
        return
    if t['k'] in ('tuple', 'closure', 'array'):
        for j, f in enumerate(m.P.field_types(ty)):
            collect_drops(m, (addr[0], addr[1] + (j,)), f, acts)
        return
    if t['k'] == 'coroutine':
        # upvars were moved into the body's locals when it ran
        for j, f in enumerate(t['f']):
            if drop_relevant(m, f):
                raise Undecided('drop of suspended coroutine')


def run_drops(m, acts):
    if not acts:
        m.finish_call(None, None)
        return
    (addr, ty), rest = acts[0], acts[1:]
    if addr[0] == 'unwind':
        return unwind(m)
    if addr[0] == 'run':
        ln = seq_len(m, addr[1])
        if m.F.entails_eq(ln, I(0)) or (not m.F.entails_le(sub(I(1), ln)) and m.truth(b_eqi(ln, I(0)))):
            return run_drops(m, rest)
        m.block = ('event', 'drop_all', (m.content(addr[1]),), None)
        m.pending = ('drop', rest, None, ())
        return
    if isinstance(ty, tuple):
        acts = []
        for j, f in enumerate(m.T(ty[1])['v'][0]['f']):
            collect_drops(m, (addr[0], addr[1] + (j,)), f[1], acts)
        return run_drops(m, tuple(acts) + rest)
    t = m.T(ty)
    if m.flags.get('sync') and t['p'] in sync.DROPS:
        sync.DROPS[t['p']](m, m.load(addr))
        return run_drops(m, rest)
    if t['p'].startswith('u::D'):
        m.block = ('event', 'drop', (m.content(m.load(addr)),), None)
        m.pending = ('drop', rest, None, ())
        return
    m.push(t['drop'], [('r', addr[0], addr[1])], None, None, ('drops', rest))


def copy_nonoverlapping(m, src, dst, n):
    rawmem.copy_run(m, src, dst, n, True)


UMAX = (1 << 64) - 1
BOUNDS['precedence'] = (0, UMAX)


def unbounded(t):
    """quantities supplied by the user that may take any value of their type (lengths and counts are
    bounded by memory; adding them does not overflow)"""
    if t[0] == 'a' and t[1] in BOUNDS and BOUNDS[t[1]][1] == UMAX:
        return True
    return any(isinstance(x, tuple) and unbounded(x) for x in t)


def overflows(a, b, mx=UMAX):
    """condition under which a + b does not fit its type"""
    if mx < (1 << 63) - 1:
        return b_lt(I(mx), add(a, b))
    if unbounded(a) or unbounded(b):
        return b_lt(I(UMAX), add(a, b))
    return A('ovf_add', a, b)


def check_overflow(m, c):
    return False


# ---------------------------------------------------------------- standard library
MODELS = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ret0(m, x):
    return x.V[0]


for n in ('core::pin::Pin::new_unchecked', 'core::pin::Pin::new', 'core::pin::Pin::get_unchecked_mut', 'core::pin::Pin::get_mut',
          'core::pin::Pin::get_ref', 'core::future::get_context', 'core::hint::must_use', 'core::hint::black_box', 'core::pin::Pin::as_mut',
          'core::pin::Pin::into_inner', 'core::pin::Pin::into_ref',
          'core::ptr::non_null::NonNull::as_ptr', 'core::ptr::non_null::NonNull::new_unchecked',
          'core::mem::manually_drop::ManuallyDrop::new', 'core::mem::manually_drop::ManuallyDrop::into_inner',
          'core::intrinsics::transmute'):
    MODELS[n] = ret0


@model('core::pin::Pin::as_mut', 'core::pin::Pin::as_ref')
def pin_as_mut(m, x):
    # &mut Pin<P> -> Pin<&mut P::Target>
    v = m.load(m.deref(x.V[0]))
    return v


@model('alloc::boxed::Box::new', 'alloc::boxed::Box::pin')
def box_new(m, x):
    a = m.alloc(x.V[0], x.T[0], 'h')
    return ('r', a, ())


@model('alloc::sync::Arc::new', 'alloc::rc::Rc::new', 'alloc::rcs::arc::Arc::new', 'alloc::rcs::rc::Rc::new')
def arc_new(m, x):
    a = m.alloc(x.V[0], x.T[0], 'h')
    return ('r', a, ())


SHARED = ('alloc::sync::Arc', 'alloc::rc::Rc', 'alloc::rcs::arc::Arc', 'alloc::rcs::rc::Rc')


def is_shared(m, ty):
    t = m.T(ty)
    return t['k'] == 'adt' and t['p'] in SHARED


@model('core::intrinsics::discriminant_value')
def discriminant_value(m, x):
    ty = ptr_elem(m, x.T[0])
    t = m.T(ty)
    if t['k'] != 'adt' or t['ak'] != 'enum':
        return I(0)
    v = m.load(m.deref(x.V[0]))
    return I(t['v'][m.variant_of(v, ty)]['d'])


@model('core::mem::discriminant')
def discriminant(m, x):
    return ('g', x.dty, None, (discriminant_value(m, x),))


@model('core::mem::replace')
def mem_replace(m, x):
    addr = m.deref(x.V[0])
    old = m.load(addr)
    m.store(addr, x.V[1])
    x.commit()
    return old


@model('core::mem::take')
def mem_take(m, x):
    addr = m.deref(x.V[0])
    old = m.load(addr)
    ty = ptr_elem(m, x.T[0])
    d = default_of(m, ty)
    if d is None:
        return NOMODEL
    m.store(addr, d)
    return old


def default_of(m, ty):
    t = m.T(ty)
    if t['k'] == 'int':
        return I(0)
    if t['k'] == 'bool':
        return I(0)
    if t['k'] == 'adt' and t['p'] == 'core::option::Option':
        return ('g', ty, 0, ())
    if t['k'] == 'adt' and t['p'] == 'alloc::vec::Vec':
        return ('q', (), I(0))
    return None


@model('core::default::Default::default')
def default(m, x):
    d = default_of(m, x.dty)
    return NOMODEL if d is None else d


@model('core::mem::swap')
def mem_swap(m, x):
    a, b = m.deref(x.V[0]), m.deref(x.V[1])
    va, vb = m.load(a), m.load(b)
    m.store(a, vb)
    m.store(b, va)
    return m.unit(x.dty)


@model('core::mem::drop')
def mem_drop(m, x):
    a = m.alloc(x.V[0], x.T[0], 'h')
    x.commit()
    drop_place(m, (a, ()), x.T[0])
    return HANDLED


@model('core::mem::forget')
def mem_forget(m, x):
    return m.unit(x.dty)


@model('core::clone::Clone::clone')
def clone(m, x):
    e = ptr_elem(m, x.T[0])
    t = m.T(e)
    if is_shared(m, e):
        return m.load(m.deref(x.V[0]))
    if t['k'] in ('int', 'bool', 'char', 'ref', 'ptr', 'fndef', 'str') or (t['k'] in ('tuple', 'adt') and not t['mv']):
        return m.load(m.deref(x.V[0]))
    return NOMODEL


@model('core::intrinsics::unreachable', 'core::hint::unreachable_unchecked')
def unreachable_i(m, x):
    raise Infeasible()


for n in ('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::unreachable_display', 'core::panicking::panic_explicit',
          'core::panicking::assert_failed', 'std::rt::begin_panic', 'core::option::unwrap_failed', 'core::option::expect_failed',
          'core::result::unwrap_failed', 'alloc::alloc::handle_alloc_error'):
    def _p(m, x, n=n):
        raise PathPanic(n)
    MODELS[n] = _p

# ---- Vec as a sequence term


def seq_len(m, q):
    if q[0] == 'q':
        n = I(0)
        for p in q[1]:
            n = add(n, I(1) if p[0] == 'e' else p[1] if p[0] == 'n' else sub(p[3], p[2]))
        return n
    if q[0] == 'sl':
        return sub(q[3], q[2])
    if q[0] == 'g':
        return I(len(q[3]))
    return A('len', q)


def as_q(m, v):
    """view any vector-like value as parts"""
    if v[0] == 'q':
        return v
    if v[0] in ('s', 'a'):
        return ('q', (('x', v, I(0), A('len', v)),), A('cap', v))
    raise Undecided(f'not a sequence: {show(v, m.P)}')


@model('alloc::vec::Vec::new')
def vec_new(m, x):
    return ('q', (), x.V[0] if x.V else I(0))


@model('alloc::vec::Vec::push')
def vec_push(m, x):
    addr = m.deref(x.V[0])
    q = as_q(m, m.load(addr))
    cap = None
    if len(q) > 2 and q[2] is not None and m.F.entails_le(sub(add(seq_len(m, q), I(1)), q[2])):
        cap = q[2]
    m.store(addr, ('q', q[1] + (('e', x.V[1]),), cap))
    return m.unit(x.dty)


@model('alloc::vec::Vec::len')
def vec_len(m, x):
    return seq_len(m, as_q(m, m.load(m.deref(x.V[0]))))


@model('alloc::vec::Vec::is_empty')
def vec_is_empty(m, x):
    return b_eqi(seq_len(m, as_q(m, m.load(m.deref(x.V[0])))), I(0))


@model('alloc::vec::Vec::pop')
def vec_pop(m, x):
    addr = m.deref(x.V[0])
    q = as_q(m, m.load(addr))
    r, rest = seq_pop(m, q[1])
    if r is None:
        return ('g', x.dty, 0, ())
    m.store(addr, ('q', rest, q[2] if len(q) > 2 else None))
    return m.mk(x.dty, 1, (r,))


def seq_pop(m, parts):
    parts = tuple(parts)
    while parts:
        p = parts[-1]
        if p[0] == 'e':
            return p[1], parts[:-1]
        ln = sub(p[3], p[2])
        if m.truth(b_eqi(ln, I(0))):
            parts = parts[:-1]
            continue
        hi = sub(p[3], I(1))
        return A('el', p[1], hi), parts[:-1] + (('x', p[1], p[2], hi),)
    return None, ()


# ---- the small vector, abstracted as a stack (its own representation is the subject of C16/C17)
SV = 'parcom_internals::shortvec::ShortVec::'


def when_abs(*names):
    def d(f):
        def g(m, x):
            if not m.flags.get('abs_shortvec'):
                return NOMODEL
            return f(m, x)
        for n in names:
            MODELS[SV + n] = g
        return f
    return d


when_abs('new')(vec_new)
when_abs('push')(vec_push)
when_abs('pop')(vec_pop)
when_abs('len')(vec_len)
when_abs('is_empty')(vec_is_empty)

import stdslice  # noqa: E402,F401  (registers its transfer functions)
import sync  # noqa: E402,F401
import rawmem  # noqa: E402,F401


# ---- cells that are set once
def once_cell(m, x):
    addr = m.deref(x.V[0])
    v = m.load(addr)
    if v[0] != 'g' or len(v[3]) != 1:
        raise Undecided(f'state of {show(v, m.P)}')
    return addr, v


@model('std::sync::once_lock::OnceLock::new', 'core::cell::once::OnceCell::new')
def once_new(m, x):
    return ('g', x.dty, None, (U,))


@model('std::sync::once_lock::OnceLock::get', 'core::cell::once::OnceCell::get')
def once_get(m, x):
    addr, v = once_cell(m, x)
    if v[3][0] == U:
        return m.mk(x.dty, 0, ())
    return m.mk(x.dty, 1, (('r', addr[0], addr[1] + (0,)),))


@model('std::sync::once_lock::OnceLock::set', 'core::cell::once::OnceCell::set')
def once_set(m, x):
    addr, v = once_cell(m, x)
    if v[3][0] != U:
        return m.mk(x.dty, 1, (x.V[1],))
    m.store(addr, ('g', v[1], None, (x.V[1],)))
    x.commit()
    return m.mk(x.dty, 0, (m.unit(m.T(x.dty)['a'][0]),))
