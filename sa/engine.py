"""Abstract machine over the extracted MIR.

Values are origin terms; every call into the opaque environment is an observable event or a pure
term; control flow that depends on an unknown value raises Decide, which the product explorer turns
into a fork shared by both sides.
"""
import re
from terms import *


import os
REPO_SRC = os.environ.get('PCX_REPO', '/repo') + '/'


class Decide(Exception):
    def __init__(self, atom, options):
        self.atom = atom
        self.options = options


class Undecided(Exception):
    pass


class PathPanic(Exception):
    def __init__(self, kind):
        self.kind = kind


WIDTH = {'8': 8, '16': 16, '32': 32, '64': 64, '128': 128, 'size': 64}


def int_range(t):
    if t['k'] == 'bool':
        return 0, 1
    if t['k'] == 'char':
        return 0, 0x10ffff
    if t['k'] == 'int':
        w = WIDTH[t['n'][1:]]
        return (0, 2 ** w - 1) if t['n'][0] == 'u' else (-2 ** (w - 1), 2 ** (w - 1) - 1)
    return None


class Infeasible(Exception):
    pass


TRANSPARENT = {
    'core::pin::Pin', 'core::pin::helper::PinHelper', 'core::ptr::non_null::NonNull', 'core::ptr::unique::Unique', 'alloc::boxed::Box',
    'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit',
    'core::mem::maybe_dangling::MaybeDangling', 'core::cell::UnsafeCell',
}


class Frame:
    __slots__ = ('fid', 'bb', 'ix', 'uid', 'alias', 'cont', 'dest', 'destty', 'target')

    def copy(self):
        f = Frame()
        for a in Frame.__slots__:
            setattr(f, a, getattr(self, a))
        return f


class Machine:
    def __init__(self, P, facts, name, rules=None):
        self.P = P
        self.F = facts
        self.name = name
        self.frames = []
        self.mem = {}
        self.mty = {}
        self.n = 0
        self.pending = None
        self.result = None
        self.block = None
        self.steps = 0
        self._line = ''
        self.rline = ''
        self.fork_polls = False
        self.rules = rules      # optional monitor object (rule checks)
        self.log = ()           # internal event log for rule checks
        self.flags = {}
        self.unwinding = False
        self.lost = []          # heap storage no longer reachable and not released

    @property
    def line(self):
        return self._line

    @line.setter
    def line(self, x):
        self._line = x
        # last position inside the repository's own sources
        if x.startswith(REPO_SRC):
            self.rline = x

    def copy(self, facts):
        m = Machine.__new__(Machine)
        m.P = self.P
        m.F = facts
        m.name = self.name
        m.frames = [f.copy() for f in self.frames]
        m.mem = dict(self.mem)
        m.mty = dict(self.mty)
        m.n = self.n
        m.pending = self.pending
        m.result = self.result
        m.block = self.block
        m.steps = self.steps
        m._line = self._line
        m.rline = self.rline
        m.fork_polls = self.fork_polls
        m.rules = self.rules
        m.log = self.log
        m.flags = dict(self.flags)
        m.lost = list(self.lost)
        m.unwinding = self.unwinding
        return m

    # ------------------------------------------------------------ types
    def T(self, i):
        return self.P.types[i]

    def transparent(self, ty):
        t = self.P.types[ty]
        return t['k'] == 'adt' and t['p'] in TRANSPARENT

    def is_unit(self, ty):
        t = self.P.types[ty]
        if t['k'] == 'tuple':
            return not t['f']
        if t['k'] == 'adt' and t['ak'] == 'struct' and t['p'] == 'core::marker::PhantomData':
            return True
        return False

    def unit(self, ty):
        return ('g', ty, None, ())

    def maybe(self, ty):
        t = self.P.types[ty]
        return t['k'] == 'adt' and t['p'] == 'core::mem::maybe_uninit::MaybeUninit'

    def holds(self, ty):
        """does a value of this type need to be initialised to exist?"""
        t = self.P.types[ty]
        return self.maybe(ty) or (t['k'] in ('adt', 'array', 'tuple') and bool(t.get('sz')))

    def zst(self, ty):
        t = self.P.types[ty]
        if t['k'] == 'adt' and t['ak'] == 'struct':
            if self.transparent(ty):
                return self.zst(t['v'][0]['f'][0][1])
            return self.mk(ty, None, tuple(self.zst(f[1]) for f in t['v'][0]['f']))
        if t['k'] in ('tuple', 'closure'):
            return self.mk(ty, None, tuple(self.zst(f) for f in t['f']))
        if t['k'] == 'array':
            return ('g', ty, None, ())
        if t['k'] == 'adt' and t['ak'] == 'enum':
            k = self.only_variant(ty)
            return self.mk(ty, k, tuple(self.zst(f[1]) for f in t['v'][k]['f']))
        return ('g', ty, None, ())

    def mk(self, ty, k, fields):
        """aggregate with eta folding"""
        fields = tuple(fields)
        base = None
        ok = bool(fields)
        for i, f in enumerate(fields):
            if f[0] == 'g' and not f[3] and f[2] is None:
                continue
            b = None
            if f[0] == 'a':
                if k is None and f[1] == 'fld' and f[2] == i:
                    b = f[3]
                elif k is not None and f[1] == 'vf' and f[2] == k and f[3] == i:
                    b = f[4]
            if b is None or (base is not None and b != base):
                ok = False
                break
            base = b
        if ok and base is not None and self.term_ty(base) in (None, ty):
            return base
        return ('g', ty, k, fields)

    def term_ty(self, t):
        """type of a term if determinable"""
        if t[0] == 's':
            return SYMS.ty.get(t[1])
        if t[0] == 'a':
            if t[1] == 'fld':
                b = self.term_ty(t[3])
                if b is None:
                    return None
                fs = self.P.field_types(b)
                return fs[t[2]] if t[2] < len(fs) else None
            if t[1] == 'vf':
                b = self.term_ty(t[4])
                if b is None:
                    return None
                fs = self.P.field_types(b, t[2])
                return fs[t[3]] if t[3] < len(fs) else None
        return None

    # ------------------------------------------------------------ memory
    def alloc(self, v, ty, tag='h'):
        self.n += 1
        a = (tag, self.n)
        self.mem[a] = v
        self.mty[a] = ty
        return a

    def proj(self, v, p, ty=None):
        if v[0] in ('s', 'a'):
            if v[0] == 'a' and v[1].startswith('iter:'):
                raise Undecided('the inside of an iterator over a slice')
            if isinstance(p, int):
                return A('fld', p, v)
            if p[0] == 'v':
                return A('vf', p[1], p[2], v)
            if p[0] == 'ix':
                return A('el', v, p[1])
        if v[0] == 'g':
            if isinstance(p, int):
                if p >= len(v[3]):
                    raise Undecided(f'field {p} of {show(v, self.P)}')
                return v[3][p]
            if p[0] == 'v':
                if v[2] != p[1]:
                    raise Undecided(f'downcast mismatch {show(v, self.P)} {p}')
                return v[3][p[2]]
            if p[0] == 'ix':
                if p[1][0] == 'i':
                    if not 0 <= p[1][1] < len(v[3]):
                        raise PathPanic('undefined behaviour: access outside the storage')
                    return v[3][p[1][1]]
                if any(f[0] in ('u', 'mv') for f in v[3]):
                    import rawmem
                    return rawmem.at(self, [('n', I(1)) if f[0] in ('u', 'mv') else ('e', f) for f in v[3]], p[1])
                return A('el', v, p[1])
        if v[0] == 'un':
            if isinstance(p, int):
                if v[1] == p:
                    return v[2]
                if self.unlike(v[1], p):
                    raise PathPanic('undefined behaviour: reads inline storage where a pointer is stored, or the reverse')
                raise Undecided('union punning')
        if v[0] == 'freed':
            raise PathPanic('undefined behaviour: use of released storage')
        if v[0] in ('u', 'mv'):
            raise Undecided(f'read of {"uninitialised" if v[0]=="u" else "moved-out"} value')
        if v[0] == 'q' and not isinstance(p, int) and p[0] == 'ix':
            return self.seq_index(v, p[1])
        raise Undecided(f'projection {p} of {show(v, self.P)}')

    def unlike(self, p, q):
        """in every union with these two members, one is a pointer and the other storage for items"""
        us = [t['v'][0]['f'] for t in self.P.types if t['k'] == 'adt' and t.get('ak') == 'union' and max(p, q) < len(t['v'][0]['f'])
              and t['p'].startswith('parcom')]
        shape = lambda f: ('ptr' if re.search(r'NonNull<|^\*', self.P.types[f[1]]['s']) and '[' not in self.P.types[f[1]]['s']
                           else 'items' if re.search(r'\[', self.P.types[f[1]]['s']) else None)
        return bool(us) and all({shape(f[p]), shape(f[q])} == {'ptr', 'items'} for f in us)

    def load(self, addr):
        a, path = addr
        v = self.root(a)
        for p in path:
            v = self.proj(v, p)
        return v

    def root(self, a):
        v = self.mem.get(a)
        if v is None:
            if a[0] == 'D':
                return A('deref', a[1])
            if a[0] == 'SL':
                return a[1]
            if a[0] == 'K':
                return a[1]
            raise Undecided(f'no cell {a}')
        return v

    def addr_ty(self, addr):
        a, path = addr
        ty = self.mty.get(a)
        for p in path:
            if ty is None:
                return None
            while self.transparent(ty):
                ty = self.inner(ty)
            t = self.T(ty)
            if isinstance(p, int):
                if t['k'] == 'adt' and t['ak'] == 'union':
                    ty = t['v'][0]['f'][p][1]
                elif t['k'] == 'array':
                    ty = t['e']
                else:
                    fs = self.P.field_types(ty)
                    ty = fs[p] if p < len(fs) else None
            elif p[0] == 'v':
                ty = self.P.field_types(ty, p[1])[p[2]]
            else:
                ty = t.get('e') if t['k'] in ('array', 'slice') else [x for x in t['a'] if isinstance(x, int)][0] if t.get('a') else None
        return ty

    def root_ty(self, a):
        return self.mty.get(a)

    def store(self, addr, x):
        a, path = addr
        if a[0] == 'SL':
            return self.store_slice(addr, x)
        for j, p in enumerate(path):
            if not isinstance(p, int) and p[0] == 'ix':
                import rawmem
                st = rawmem.Store(self, (a, path[:j]))
                if path[j + 1:]:
                    x = self.upd(st.get(p[1]), path[j + 1:], x, None)
                st.put(p[1], add(p[1], I(1)), [('n', I(1))] if x[0] in ('mv', 'u') else [('e', x)])
                return
        if not path:
            self.mem[a] = x
            return
        v = self.mem.get(a)
        if v is None:
            v = self.root(a)
        self.mem[a] = self.upd(v, path, x, self.mty.get(a))

    def store_slice(self, addr, x):
        raise Undecided('store through slice')

    def upd(self, v, path, x, ty):
        if not path:
            return x
        p = path[0]
        if ty is None:
            ty = self.term_ty(v) if v[0] != 'g' else v[1]
        while ty is not None and self.transparent(ty):
            ty = self.inner(ty)
        if v[0] == 'g':
            i = p if isinstance(p, int) else (p[2] if p[0] == 'v' else p[1][1] if p[1][0] == 'i' else None)
            if i is None:
                raise Undecided('store at unknown index')
            fs = list(v[3])
            fts = self.P.field_types(v[1], v[2]) if v[1] is not None else [None] * len(fs)
            fs[i] = self.upd(fs[i], path[1:], x, fts[i] if i < len(fts) else None)
            return self.mk(v[1], v[2], fs) if v[1] is not None else ('g', v[1], v[2], tuple(fs))
        if v[0] in ('s', 'a', 'u', 'mv'):
            if ty is None:
                raise Undecided('store into untyped term')
            t = self.T(ty)
            if t['k'] == 'adt' and t['ak'] == 'union':
                return ('un', p, self.upd(U, path[1:], x, t['v'][0]['f'][p][1]))
            k = None
            if not isinstance(p, int) and p[0] == 'v':
                k = p[1]
                i = p[2]
            else:
                i = p if isinstance(p, int) else p[1][1]
            fts = self.P.field_types(ty, k)
            if v[0] in ('u', 'mv'):
                fs = [U] * len(fts) if v[0] == 'u' else [MV] * len(fts)
            elif k is None:
                fs = [self.unit(ft) if self.is_unit(ft) else A('fld', j, v) for j, ft in enumerate(fts)]
            else:
                fs = [self.unit(ft) if self.is_unit(ft) else A('vf', k, j, v) for j, ft in enumerate(fts)]
            fs[i] = self.upd(fs[i], path[1:], x, fts[i])
            return self.mk(ty, k, fs)
        if v[0] == 'un':
            t = self.T(ty)
            if v[1] == p:
                return ('un', p, self.upd(v[2], path[1:], x, t['v'][0]['f'][p][1]))
            return ('un', p, self.upd(U, path[1:], x, t['v'][0]['f'][p][1]))
        raise Undecided(f'store path {path} into {show(v, self.P)}')

    def inner(self, ty):
        """field type of the non-zero-sized field of a transparent wrapper"""
        t = self.T(ty)
        if t['p'] == 'core::mem::maybe_uninit::MaybeUninit':
            return t['v'][0]['f'][1][1]
        return t['v'][0]['f'][0][1]

    # ------------------------------------------------------------ references / contents
    def deref(self, v):
        """pointer value -> address"""
        if v[0] == 'r':
            return (v[1], v[2])
        if v[0] == 'sl':
            return (('SL', v), ())
        if v[0] == 'p':
            if v[1][0] == 'mem':
                return (v[1][1], v[1][2] + (('ix', v[2]),))
            if v[1][0] in ('s', 'a'):
                return (('K', A('el', v[1], v[2])), ())
            if v[1][0] == 'dangling':
                raise PathPanic('undefined behaviour: access through a dangling pointer')
        if is_term(v):
            return (('D', v), ())
        if v[0] == '&':
            return (('K', v[1]), ())
        if v[0] == 'dyn':
            return self.deref(v[1])
        raise Undecided(f'deref of {show(v, self.P)}')

    def mkref(self, addr):
        a, path = addr
        if a[0] == 'SL' and not path:
            return a[1]
        if a[0] == 'D' and not path:
            return a[1]
        return ('r', a, path)

    def content(self, v, depth=0):
        """memory-independent form of a value"""
        if depth > 40:
            raise Undecided('content too deep')
        k = v[0]
        if k == 'r':
            return self.ref_content(self.content(self.load((v[1], v[2])), depth + 1))
        if k == 'g':
            fs = tuple(self.content(f, depth + 1) for f in v[3])
            return self.mk(v[1], v[2], fs) if v[1] is not None else ('g', v[1], v[2], fs)
        if k == 'a':
            return ('a', v[1]) + tuple(self.content(x, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in v[2:])
        if k == 'sl':
            if v[1][0] == 'mem':
                base = self.load((v[1][1], v[1][2]))
                if base[0] == 'g' or (base[0] == 'q' and v[1][1][0] in ('H', 'Z')):
                    import stdslice
                    return ('q', tuple((p[0], self.content(p[1], depth + 1)) if p[0] == 'e' else p for p in stdslice.parts_of(self, v)))
            return ('sl', self.sl_content(v[1]), v[2], v[3])
        if k == 'q':
            if any(p[0] == 'n' and not self.F.entails_eq(p[1], I(0)) for p in v[1]):
                raise Undecided('storage with holes')
            return ('q', tuple((p[0], self.content(p[1], depth + 1)) if p[0] == 'e' else p for p in v[1]))
        if k == 'dyn':
            return self.content(v[1], depth + 1)
        if k == 'un':
            return ('un', v[1], self.content(v[2], depth + 1))
        return v

    def sl_content(self, b):
        if b[0] == 'mem':
            return self.content(self.load((b[1], b[2])))
        return b

    def ref_content(self, c):
        # &*t == t
        if c[0] == 'a' and c[1] == 'deref':
            return c[2]
        return ('&', c)

    # ------------------------------------------------------------ decisions
    def variant_of(self, v, ty):
        if v[0] == 'g':
            if v[2] is None:
                raise Undecided(f'variant of non-enum {show(v, self.P)}')
            return v[2]
        if v[0] in ('s', 'a'):
            r = self.F.d.get(('variant', v))
            if r is None:
                r = self.F.d.get(('variant', self.F.nf(v)))
            if r is not None:
                return r
            vs = self.P.variants(ty)
            opts = [i for i, x in enumerate(vs) if not any(self.P.uninhabited(f[1]) for f in x['f'])]
            if len(opts) == 1:
                return opts[0]
            if not opts:
                raise Infeasible()
            raise Decide(('variant', v, ty), opts)
        if v[0] == 'u' and self.P.types[ty].get('sz') == 0:
            return self.only_variant(ty)
        raise Undecided(f'variant of {show(v, self.P)}')

    def only_variant(self, ty):
        """the variant of an enum without size"""
        opts = [i for i, x in enumerate(self.P.variants(ty)) if not any(self.P.uninhabited(f[1]) for f in x['f'])]
        return opts[0] if len(opts) == 1 else 0

    def truth(self, t):
        k = t[0]
        if k == 'i':
            return bool(t[1])
        if k == 'a':
            f = t[1]
            if f == 'not':
                return not self.truth(t[2])
            if f == 'and':
                return self.truth(t[2]) and self.truth(t[3])
            if f == 'or':
                return self.truth(t[2]) or self.truth(t[3])
            if f == 'le0':
                if self.flags.get('bounded'):
                    c = lin(t[2])[0]
                    if c <= -(1 << 40):
                        return True
                    if c >= 1 << 40:
                        return False
                if self.F.entails_le(t[2]):
                    return True
                if self.F.entails_le(add(neg(t[2]), I(1))):
                    return False
                raise Decide(('b', t), [1, 0])
            if f == 'eq0':
                L = t[2]
                if self.F.entails_le(L) and self.F.entails_le(neg(L)):
                    return True
                if self.F.known_ne(L):
                    return False
                if self.F.entails_le(add(neg(L), I(1))) or self.F.entails_le(add(L, I(1))):
                    return False
                raise Decide(('b', t), [1, 0])
        if k in ('s', 'a'):
            r = self.F.d.get(t)
            if r is None:
                r = self.F.d.get(self.F.nf(t))
            if r is not None:
                return r
            if k == 'a' and t[1] == 'sleq':
                import stdslice
                r = stdslice.sleq_forced(self, t)
                if r is not None:
                    return r
            if k == 's' and self.F.le:
                if self.F.entails_le(t):
                    return False
                if self.F.entails_le(sub(I(1), t)):
                    return True
            raise Decide(('b', t), [1, 0])
        if k == 'lin':
            return not self.truth(b_eqi(t, I(0)))
        raise Undecided(f'truth of {show(t, self.P)}')

    # ------------------------------------------------------------ places and operands
    def laddr(self, fr, l):
        if l == 1 and fr.alias is not None:
            return fr.alias
        return (('L', fr.uid, l), ())

    def place(self, fr, pl):
        """-> (addr, tyid)"""
        l, proj = pl
        f = self.P.fns[fr.fid]
        addr = self.laddr(fr, l)
        ty = f['locals'][l][0]
        down = None
        for e in proj:
            if e == '*':
                v = self.load(addr)
                t = self.T(ty)
                while t['k'] == 'adt' and self.transparent(ty) and t['p'] != 'alloc::boxed::Box':
                    ty = self.inner(ty)
                    t = self.T(ty)
                if t['k'] in ('ref', 'ptr'):
                    ty = t['e']
                elif t['k'] == 'adt':
                    ty = t['a'][0]
                else:
                    raise Undecided(f'deref of type {t["s"]}')
                addr = self.deref(v)
                if addr[0] not in self.mty and addr[0][0] == 'D' and not addr[1]:
                    self.mty[addr[0]] = ty
                down = None
            elif e == 'o':
                pass
            elif e[0] == 'f':
                if self.transparent(ty):
                    ty = e[2]
                    continue
                a, path = addr
                step = e[1] if down is None else ('v', down, e[1])
                addr = (a, path + (step,))
                ty = e[2]
                down = None
            elif e[0] == 'd':
                down = e[1]
            elif e[0] == 'i':
                ix = self.load((('L', fr.uid, e[1]), ()))
                addr, ty = self.index(addr, ty, ix)
            elif e[0] == 'ci':
                if e[3]:
                    n = self.len_of(addr, ty)
                    addr, ty = self.index(addr, ty, sub(n, I(e[1])))
                else:
                    addr, ty = self.index(addr, ty, I(e[1]))
            elif e[0] == 'sub':
                addr = self.slice_addr(addr, ty)
                v = addr[0][1] if addr[0][0] == 'SL' else None
                if v is None or v[0] != 'sl':
                    raise Undecided('subslice pattern')
                hi = sub(v[3], I(e[2])) if e[3] else add(v[2], I(e[2]))
                addr = (('SL', ('sl', v[1], add(v[2], I(e[1])), hi)), ())
            else:
                raise Undecided(f'projection {e}')
        return addr, ty

    def slice_addr(self, addr, ty):
        """address of a slice place reached through a symbolic reference -> the same as an explicit slice view"""
        a, path = addr
        if path or a[0] == 'SL' or self.T(ty)['k'] not in ('slice', 'str'):
            return addr
        if a[0] == 'D' and a not in self.mem:
            return (('SL', ('sl', a[1], I(0), A('len', a[1]))), ())
        if a[0] == 'K' and a[1][0] == 'a' and a[1][1] == 'deref':
            return (('SL', ('sl', a[1][2], I(0), A('len', a[1][2]))), ())
        return addr

    def index(self, addr, ty, ix):
        addr = self.slice_addr(addr, ty)
        t = self.T(ty)
        a, path = addr
        if a[0] == 'SL' and not path:
            v = a[1]
            b = v[1]
            i = add(v[2], ix)
            if b[0] == 'mem':
                return ((b[1], b[2] + (('ix', i),)), t['e'])
            return ((('K', self.slice_el(b, i)), ()), t['e'])
        if t['k'] == 'array':
            if ix[0] == 'i':
                return ((a, path + (ix[1],)), t['e'])
            return ((a, path + (('ix', ix),)), t['e'])
        raise Undecided('index')

    def slice_el(self, b, i):
        if b[0] == 'seq':
            return self.seq_index(b[1], i)
        if b[0] == 'str' and i[0] == 'i':
            return I(b[1].encode()[i[1]])
        return A('el', b, i)

    def len_of(self, addr, ty):
        addr = self.slice_addr(addr, ty)
        a, path = addr
        if a[0] == 'SL':
            return sub(a[1][3], a[1][2])
        t = self.T(ty)
        if t['k'] == 'array':
            return I(t['n'])
        raise Undecided('len')

    def seq_index(self, q, i):
        off = I(0)
        if any(p[0] == 'n' for p in q[1]) or len(q) > 3:
            import rawmem
            return rawmem.at(self, list(q[1]) + (list(q[3][1]) if len(q) > 3 and q[3] else []), i)
        for p in q[1]:
            if p[0] == 'e':
                if self.F.entails_eq(off, i):
                    return p[1]
                off = add(off, I(1))
            else:
                ln = sub(p[3], p[2])
                if self.F.entails_le(sub(add(i, I(1)), add(off, ln))) and self.F.entails_le(sub(off, i)):
                    return A('el', p[1], add(p[2], sub(i, off)))
                off = add(off, ln)
        import rawmem
        return rawmem.at(self, list(q[1]), i)

    def operand(self, fr, o, moves):
        k = o[0]
        if k in ('c', 'm'):
            addr, ty = self.place(fr, o[1])
            v = self.load(addr)
            if self.is_unit(ty):
                v = self.unit(ty)
            elif v[0] in ('u', 'mv'):
                if self.T(ty)['k'] in ('adt', 'tuple', 'closure', 'fndef') and not self.T(ty)['mv'] and v[0] == 'u' and not self.maybe(ty):
                    v = self.zst(ty)
                elif v[0] == 'mv':
                    raise Undecided(f'use of moved value {self.where(fr)}')
            if k == 'm' and moves is not None:
                moves.append((addr, ty))
            return v
        if k == 'k':
            return self.const(o)
        if k == 'rt':
            return FALSE
        raise Undecided(f'operand {o}')

    def optype(self, fr, o):
        if o[0] in ('c', 'm'):
            return self.place(fr, o[1])[1]
        if o[0] == 'k':
            return o[1]
        return None

    def do_moves(self, moves):
        for addr, ty in moves:
            t = self.T(ty)
            if t.get('mv') and addr[0][0] == 'L':
                try:
                    self.store(addr, MV)
                except Undecided:
                    pass
            elif t.get('mv') and addr[0][0] not in ('SL', 'K'):
                # moved out of a box or coroutine field
                try:
                    self.store(addr, MV)
                except Undecided:
                    pass

    def const(self, o):
        _, ty, kind, val = o
        t = self.T(ty)
        if kind == 'int':
            if t['k'] == 'adt' and t['ak'] == 'enum':
                if all(self.P.types[f[1]].get('sz') == 0 for v in t['v'] for f in v['f']):
                    for i, v in enumerate(t['v']):
                        if v['d'] == val or any(v['d'] % (1 << b) == val for b in (8, 16, 32, 64)):
                            return self.mk(ty, i, tuple(self.zst(f[1]) for f in v['f']))
                return A('const', str(val))
            if t['k'] == 'adt' and t['ak'] == 'struct':
                fs = [f[1] for f in t['v'][0]['f']]
                nz = [i for i, f in enumerate(fs) if not self.is_unit(f)]
                if len(nz) == 1 and self.T(fs[nz[0]])['k'] in ('int', 'bool', 'char'):
                    return self.mk(ty, None, tuple(I(val) if i == nz[0] else self.unit(f) for i, f in enumerate(fs)))
                return A('const', str(val))
            return I(val)
        if kind == 'str':
            return ('sl', ('str', val), I(0), I(len(val.encode())))
        if kind == 'bytes':
            return ('r', ('K', ('g', None, None, tuple(I(b) for b in val))), ())
        if kind == 'fn':
            return self.zst(ty)
        if kind == 'zst':
            return self.zst(ty)
        if kind == 'part':
            v = self.P.parts.get(val)
            if v is None:
                v = self.P.parts[val] = self.part(val)
            if v is not False:
                return v
        return A('const', str(val))

    def part(self, fid):
        """the value of a constant, computed from its body"""
        m = Machine(self.P, Facts(), 'const')
        m.flags = dict(self.flags)
        m.pop = lambda _=None: m.frames.pop()
        try:
            m.push(fid, [], None, None)
            b = m.run()
            return m.lift(b[1]) if b[0] == 'ret' else False
        except (Decide, Undecided, PathPanic, Infeasible):
            return False

    def lift(self, v, depth=0):
        """a value whose references lead to constants rather than to the memory of this machine"""
        if depth > 20:
            raise Undecided('constant too deep')
        if v[0] == 'r':
            if v[1][0] == 'K':
                return v
            return ('r', ('K', self.lift(self.root(v[1]), depth + 1)), v[2])
        if v[0] == 'g':
            return ('g', v[1], v[2], tuple(self.lift(f, depth + 1) for f in v[3]))
        if v[0] == 'i' or v[0] in ('u', 'mv') or v[0] == 'sl' and v[1][0] == 'str':
            return v
        raise Undecided('constant ' + v[0])

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, rv, dty, moves):
        k = rv[0]
        if k == 'use':
            return self.operand(fr, rv[1], moves)
        if k == 'ref':
            if rv[2] == 2:
                return I(0)
            addr, ty = self.place(fr, rv[1])
            return self.mkref(addr)
        if k == 'agg':
            kind, ty, vi, ops = rv[1], rv[2], rv[3], rv[4]
            vals = tuple(self.operand(fr, o, moves) for o in ops)
            if kind == 'rawptr':
                d = vals[0]
                if self.T(ty)['k'] in ('slice', 'str'):
                    return self.mk_slice(d, vals[1])
                return d
            if ty is None:
                ty = dty
            t = self.T(ty)
            if kind == 'union':
                if self.transparent(ty):
                    return vals[0] if vi == 1 else U
                return ('un', vi, vals[0])
            if t['k'] == 'adt':
                if self.transparent(ty):
                    return vals[0]
                if t['ak'] == 'enum':
                    return self.mk(ty, vi, vals)
                return self.mk(ty, None, vals)
            return self.mk(ty, None, vals)
        if k == 'cast':
            return self.cast(fr, rv[1], self.operand(fr, rv[2], moves), self.optype(fr, rv[2]), rv[3])
        if k == 'bin':
            a = self.operand(fr, rv[2], moves)
            b = self.operand(fr, rv[3], moves)
            if rv[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.binop(rv[1], a, b, dty, self.optype(fr, rv[2]))
            return self.binop(rv[1], a, b, dty)
        if k == 'un':
            a = self.operand(fr, rv[2], moves)
            if rv[1] == 'Not':
                if self.T(dty)['k'] == 'bool':
                    return b_not(a)
                return A('bitnot', a)
            if rv[1] == 'Neg':
                return neg(a)
            if rv[1] == 'PtrMetadata':
                return self.ptr_meta(a)
            return A('un' + rv[1], a)
        if k == 'discr':
            addr, ty = self.place(fr, rv[1])
            t = self.T(ty)
            v = self.load(addr)
            if t['k'] == 'adt' and t['ak'] == 'enum':
                if v[0] in ('s', 'a') and ('variant', v) not in self.F.d:
                    return A('discr', v, ty)
                return I(t['v'][self.variant_of(v, ty)]['d'])
            return I(0)
        if k == 'repeat':
            v = self.operand(fr, rv[1], moves)
            n = rv[2]
            if n is not None and n <= 64:
                return ('g', dty, None, tuple(v for _ in range(n)))
            return A('repeat', v)
        raise Undecided(f'rvalue {rv[0]} {rv[1] if len(rv) > 1 else ""}')

    def ptr_meta(self, a):
        if a[0] == 'sl':
            return sub(a[3], a[2])
        return A('len', a)

    def mk_slice(self, p, n):
        """slice from pointer + length"""
        if p[0] == 'p':
            return ('sl', p[1], p[2], add(p[2], n))
        if p[0] == 'r':
            if p[2] and isinstance(p[2][-1], tuple) and p[2][-1][0] == 'ix':
                return ('sl', ('mem', p[1], p[2][:-1]), p[2][-1][1], add(p[2][-1][1], n))
            return ('sl', ('mem', p[1], p[2]), I(0), n)
        return ('sl', ('at', p), I(0), n)

    def cast(self, fr, kind, v, sty, dty):
        if v[0] == 'a' and v[1] == 'discr':
            v = I(self.T(v[3])['v'][self.variant_of(v[2], v[3])]['d'])
        if 'Unsize' in kind:
            d = self.T(dty)
            s = self.T(sty)
            # &[T;N] -> &[T]
            if v[0] == 'r':
                de = d
                while de['k'] == 'adt' and self.transparent(dty):
                    dty = self.inner(dty)
                    de = self.T(dty)
                if de['k'] in ('ref', 'ptr') and self.T(de['e'])['k'] == 'slice':
                    n = None
                    se = s
                    while se['k'] == 'adt' and self.transparent(sty):
                        sty = self.inner(sty)
                        se = self.T(sty)
                    n = self.T(se['e'])['n']
                    return ('sl', ('mem', v[1], v[2]), I(0), I(n))
            return v
        if 'ReifyFnPointer' in kind or 'ClosureFnPointer' in kind:
            return ('fnp', sty)
        if kind in ('IntToInt',):
            if v[0] == 'sdiff':
                return v[1]
            s, d = int_range(self.T(sty)), int_range(self.T(dty))
            if s is None or d is None or (d[0] <= s[0] and s[1] <= d[1]):
                return v
            if v[0] == 'i':
                m = d[1] - d[0] + 1
                return I((v[1] - d[0]) % m + d[0])
            if s[0] == d[0] == 0 and v[0] in ('s', 'a', 'lin') and (v[0] != 'a' or v[1] in ('len', 'fld', 'vf', 'post')) and self.truth(b_le(v, I(d[1]))):
                return v
            if v[0] in ('s', 'a', 'lin') and d[1] - d[0] == s[1] - s[0]:
                # the same bits, read with or without a sign; what is counted in memory fits either way
                if s[0] == 0:
                    if (v[0] == 'a' and v[1] == 'len') or self.truth(b_le(v, I(d[1]))):
                        return v
                    return sub(v, I(d[1] - d[0] + 1))
                if self.truth(b_le(I(0), v)):
                    return v
                return add(v, I(d[1] + 1))
            return A(f'as {self.T(dty)["s"]}', v)
        if kind in ('PointerExposeProvenance', 'Transmute') and v[0] in ('p', 'sl') and self.T(dty)['k'] == 'int':
            return self.addr_of(v, sty)
        if kind in ('PtrToPtr', 'Transmute', 'Subtype', 'PointerExposeProvenance', 'FnPtrToPtr', 'BoxDerefTransmute') or 'MutToConst' in kind or 'ArrayToPointer' in kind:
            if v[0] == 'sl' and self.T(dty)['k'] == 'ptr' and self.T(self.T(dty)['e'])['k'] not in ('slice', 'str'):
                return ('p', v[1], v[2])
            return v
        return A('cast:' + kind, v)

    def force(self, v):
        if v[0] == 'a' and v[1] == 'discr':
            return I(self.T(v[3])['v'][self.variant_of(v[2], v[3])]['d'])
        return v

    def binop(self, op, a, b, dty, oty=None):
        a = self.force(a)
        b = self.force(b)
        t = self.T(dty)
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            if op[0] == 'A':
                import models
                rg = int_range(self.T(t['f'][0])) if t['k'] == 'tuple' else None
                r, o = add(a, b), models.overflows(a, b, rg[1] if rg else models.UMAX)
            elif op[0] == 'S':
                import models
                rg = int_range(self.T(t['f'][0])) if t['k'] == 'tuple' else None
                r = sub(a, b)
                if rg is None or rg[0] == 0:
                    o = b_lt(a, b)
                elif models.unbounded(a) or models.unbounded(b) or r[0] == 'i':
                    o = I(1 if self.truth(b_lt(r, I(rg[0]))) or self.truth(b_lt(I(rg[1]), r)) else 0)
                else:   # the difference of two quantities bounded by memory
                    o = I(0)
            else:
                r, o = self.mul(a, b), A('ovf_mul', a, b)
            return ('g', dty, None, (r, o))
        if op in ('Mul', 'MulUnchecked'):
            return self.mul(a, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if self.isint(a) and self.isint(b):
                r = {'Eq': lambda: self.eqi(a, b), 'Ne': lambda: b_not(self.eqi(a, b)), 'Lt': lambda: b_lt(a, b),
                     'Le': lambda: b_le(a, b), 'Gt': lambda: b_lt(b, a), 'Ge': lambda: b_le(b, a)}[op]()
                return r
            if a[0] in ('p', 'sl') or b[0] in ('p', 'sl'):
                return self.ptr_cmp(op, a, b, oty)
            if op in ('Eq', 'Ne'):
                if a == b:
                    r = TRUE
                else:
                    x, y = sorted((a, b), key=repr)
                    r = A('eq', self.content(x), self.content(y))
                return r if op == 'Eq' else b_not(r)
            raise Undecided(f'pointer comparison {op}')
        if op in ('BitAnd', 'BitOr', 'BitXor') and t['k'] == 'bool':
            if a[0] == 'i' and b[0] == 'i':
                return I({'BitAnd': a[1] & b[1], 'BitOr': a[1] | b[1], 'BitXor': a[1] ^ b[1]}[op])
            if op == 'BitAnd':
                if FALSE in (a, b):
                    return FALSE
                return b if a == TRUE else a if b == TRUE else A('and', a, b)
            if op == 'BitOr':
                if TRUE in (a, b):
                    return TRUE
                return b if a == FALSE else a if b == FALSE else A('or', a, b)
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                f = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << y,
                     'Shr': lambda: x >> y, 'Div': lambda: x // y, 'Rem': lambda: x % y}.get(op)
                if f:
                    return I(f())
            except ZeroDivisionError:
                pass
        if op == 'Offset':
            return self.ptr_offset(a, b)
        if op in ('Div', 'Rem', 'BitAnd', 'Shr', 'ShrUnchecked') and t['k'] == 'int' and t['n'][0] == 'u':
            r = self.by_const(op, a, b, int_range(t)[1])
            if r is not None:
                return r
        if op == 'Cmp':
            return self.cmp_int(a, b, dty)
        return A('op' + op, a, b)

    def pt(self, v):
        if v[0] == 'sl':
            return ('p', v[1], v[2])
        if v[0] == 'p':
            return v
        raise Undecided('pointer comparison')

    def elem_size(self, pty):
        """size of what a pointer type points to (of an element, for slices)"""
        while pty is not None and self.transparent(pty):
            pty = self.inner(pty)
        t = self.T(pty) if pty is not None else None
        if t is None or t['k'] not in ('ref', 'ptr'):
            return None
        e = self.T(t['e'])
        if e['k'] == 'str':
            return 1
        if e['k'] == 'slice':
            e = self.T(e['e'])
        return e.get('sz')

    def addr_of(self, v, pty):
        """numeric address of a pointer value"""
        z = self.elem_size(pty)
        if z is None:
            raise Undecided('address of a pointer of unknown size')
        v = self.pt(v)
        return add(A('addr', self.sl_content(v[1])), scale(v[2], z))

    def ptr_cmp(self, op, a, b, oty=None):
        a, b = self.pt(a), self.pt(b)
        x, y = self.sl_content(a[1]), self.sl_content(b[1])
        z = self.elem_size(oty)
        if z is None:
            z = 1
        if self.F.nf(x) == self.F.nf(y) or a[1] == b[1]:
            p, q = (a[2], b[2]) if z else (I(0), I(0))
        else:
            p, q = add(A('addr', x), scale(a[2], z)), add(A('addr', y), scale(b[2], z))
        return {'Eq': lambda: b_eqi(p, q), 'Ne': lambda: b_not(b_eqi(p, q)), 'Lt': lambda: b_lt(p, q), 'Le': lambda: b_le(p, q),
                'Gt': lambda: b_lt(q, p), 'Ge': lambda: b_le(q, p)}[op]()

    def cmp_int(self, a, b, dty):
        if self.truth(self.eqi(a, b)):
            k = 1
        elif self.truth(b_lt(a, b)):
            k = 0
        else:
            k = 2
        return ('g', dty, k, ())

    def ptr_offset(self, p, n):
        if p[0] == 'p':
            return ('p', p[1], add(p[2], n))
        if p[0] == 'r':
            if p[2] and isinstance(p[2][-1], tuple) and p[2][-1][0] == 'ix':
                return ('r', p[1], p[2][:-1] + (('ix', add(p[2][-1][1], n)),))
            return ('p', ('mem', p[1], p[2]), n)
        return ('p', ('at', p), n)

    def isint(self, v):
        return v[0] in ('i', 'lin', 's') or (v[0] == 'a')

    def eqi(self, a, b):
        # booleans compared with constants
        if a[0] == 'sdiff' or b[0] == 'sdiff':
            return b_eqi(a[1] if a[0] == 'sdiff' else a, b[1] if b[0] == 'sdiff' else b)
        for x, y in ((a, b), (b, a)):
            if y[0] == 'i' and x[0] == 'a' and x[1] in ('not', 'le0', 'eq0', 'eq', 'and', 'or', 'should_terminate'):
                return x if y[1] else b_not(x)
        return b_eqi(a, b)

    def by_const(self, op, a, b, mx):
        """unsigned division by a constant, in its various spellings"""
        if op == 'BitAnd' and a[0] == 'i':
            a, b = b, a
        if b[0] != 'i' or a[0] not in ('a', 'lin', 's'):
            return None
        k = b[1]
        if op in ('Shr', 'ShrUnchecked'):
            return quo(a, 1 << k) if 0 <= k < 64 else None
        if op == 'BitAnd':
            if k == 0 or k == mx:
                return a if k else b
            if k & (k + 1) == 0:
                if k > 127 and self.truth(b_le(a, b)):
                    return a
                return sub(a, scale(quo(a, k + 1), k + 1))
            k = mx ^ k
            if k & (k + 1) == 0:
                return scale(quo(a, k + 1), k + 1)
            return None
        if k < 1:
            return None
        q = quo(a, k)
        return q if op == 'Div' else sub(a, scale(q, k))

    def mul(self, a, b):
        if a[0] == 'i':
            return scale(b, a[1])
        if b[0] == 'i':
            return scale(a, b[1])
        x, y = sorted((a, b), key=repr)
        return A('mul', x, y)

    # ------------------------------------------------------------ control
    def where(self, fr=None):
        return self.line

    def push(self, fid, args, dest, destty, cont=None, alias=None):
        f = self.P.fns[fid]
        if 'bb' not in f:
            raise Undecided(f'no body: {f["full"]}')
        if len(self.frames) > 120:
            raise Undecided('call depth')
        fr = Frame()
        self.n += 1
        fr.fid, fr.bb, fr.ix, fr.uid = fid, 0, 0, self.n
        fr.alias, fr.cont, fr.dest, fr.destty = alias, cont, dest, destty
        fr.target = None
        for i, (ty, _) in enumerate(f['locals']):
            a = ('L', fr.uid, i)
            self.mty[a] = ty
            self.mem[a] = U
        for i, v in enumerate(args):
            if alias is not None and i == 0:
                continue
            self.mem[('L', fr.uid, i + 1)] = v
        self.frames.append(fr)

    def pop(self, value):
        fr = self.frames.pop()
        f = self.P.fns[fr.fid]
        for i in range(len(f['locals'])):
            a = ('L', fr.uid, i)
            self.mem.pop(a, None)
            self.mty.pop(a, None)
        return fr

    def ret(self, fr, value):
        """frame fr (already popped) returned value"""
        if fr.cont is not None:
            c = fr.cont
            if c[0] == 'ready':
                value = self.mk(c[1], 0, (value,))
            else:
                import models
                return models.CONT[c[0]](self, fr, value, *c[1:])
        self.finish_call(fr.dest, value)

    def finish_call(self, dest, value):
        if dest is not None:
            self.store(dest, value)
        if self.frames:
            top = self.frames[-1]
            if top.target is None:
                raise Infeasible()
            top.bb, top.ix, top.target = top.target, 0, None
        else:
            self.result = value
            self.block = ('ret', value)

    def run(self, limit=60000):
        """run until blocked; returns block tuple"""
        if self.block is not None:
            return self.block
        n = 0
        while True:
            n += 1
            if n > limit:
                raise Undecided('step limit (possible divergence)')
            fr = self.frames[-1]
            keep = None
            bb = self.P.fns[fr.fid]['bb'][fr.bb]
            if fr.ix >= len(bb[0]) and bb[1][0] in ('call', 'drop'):
                keep = dict(self.mem), dict(self.mty), self.n, self.log
            try:
                self.step()
            except Decide as d:
                # the step is taken again once the question is settled
                if keep is not None:
                    self.mem, self.mty, self.n, self.log = keep
                return ('decide', d.atom, d.options)
            except PathPanic as p:
                self.block = ('panic', p.kind)
                return self.block
            if self.block is not None:
                return self.block

    def step(self):
        fr = self.frames[-1]
        f = self.P.fns[fr.fid]
        stmts, term, cleanup = f['bb'][fr.bb]
        self.steps += 1
        if fr.ix < len(stmts):
            s = stmts[fr.ix]
            k = s[0]
            if k == '=':
                self.line = s[3]
                moves = []
                addr, dty = self.place(fr, s[1])
                v = self.rvalue(fr, s[2], dty, moves)
                old = dict(self.mem) if moves and addr[1] else None
                self.do_moves(moves)
                if addr[0][0] == 'D' and addr[0] not in self.mty:
                    self.mty[addr[0]] = dty
                try:
                    self.store(addr, v)
                except Decide:
                    if old is not None:
                        self.mem = old
                    raise
            elif k in ('dead', 'sl'):
                if not (s[1] == 1 and fr.alias is not None):
                    self.mem[('L', fr.uid, s[1])] = U
            elif k == 'sd':
                addr, ty = self.place(fr, s[1])
                v = self.load(addr)
                if v[0] == 'g':
                    self.store(addr, ('g', ty, s[2], v[3]))
                else:
                    self.store(addr, ('g', ty, s[2], ()))
            elif k == 'assume':
                pass
            elif k == 'cno':
                import models
                moves = []
                a = [self.operand(fr, o, moves) for o in s[1:]]
                models.copy_nonoverlapping(self, *a)
            fr.ix += 1
            return
        k = term[0]
        if k == 'goto':
            fr.bb, fr.ix = term[1], 0
        elif k == 'switch':
            self.line = term[5]
            v = self.operand(fr, term[1], None)
            t = self.T(term[4])
            if v[0] == 'a' and v[1] == 'discr':
                v = self.force(v)
            tgt = term[3]
            if v[0] == 'i':
                for val, b in term[2]:
                    if val == v[1]:
                        tgt = b
                        break
            elif t['k'] == 'bool':
                r = self.truth(v)
                for val, b in term[2]:
                    if val == int(r):
                        tgt = b
                        break
            else:
                for val, b in term[2]:
                    if self.truth(self.eqi(v, I(val))):
                        tgt = b
                        break
            fr.bb, fr.ix = tgt, 0
        elif k == 'ret':
            v = self.load((('L', fr.uid, 0), ()))
            ty = f['locals'][0][0]
            if v == U and not self.holds(ty):
                v = self.zst(ty)
            self.pop(v)
            self.ret(fr, v)
        elif k == 'assert':
            self.line = term[5]
            c = self.operand(fr, term[1], None)
            if term[4] == 'overflow_add' or term[4] == 'overflow_mul':
                if c[0] == 'a' and c[1].startswith('ovf'):   # bounded by memory
                    import models
                    if models.check_overflow(self, c):
                        raise PathPanic('overflow')
                    fr.bb, fr.ix = term[3], 0
                    return
            if term[4] == 'resumed':
                fr.bb, fr.ix = term[3], 0
                return
            r = self.truth(c)
            if r == term[2]:
                fr.bb, fr.ix = term[3], 0
            else:
                raise PathPanic(term[4])
        elif k == 'drop':
            self.line = term[4]
            addr, ty = self.place(fr, term[1])
            fr.target = term[2]
            import models
            models.drop_place(self, addr, ty)
        elif k == 'call':
            self.line = term[6]
            self.call(fr, term)
        elif k == 'yield':
            # only reached when a poll reported Pending in an await; treated as resumed immediately
            raise Infeasible()
        elif k == 'unreachable':
            raise Infeasible()
        elif k == 'resume' and self.unwinding:
            import models
            if not models.unwind_frame(self):
                models.unwind(self)
        elif k == 'resume' or k == 'abort':
            raise PathPanic('resume')
        else:
            raise Undecided(f'terminator {k}')

    def call(self, fr, term):
        import models
        _, func, args, destpl, target, dty, line, uw = term
        moves = []
        if func[0] == 'k':
            if func[2] != 'fn':
                raise Undecided('call of non-fn const')
            c = func[3]
        else:
            addr, fty = self.place(fr, func[1])
            t = self.T(fty)
            if t['k'] == 'fndef':
                c = t['c']
            else:
                v = self.load(addr)
                if v[0] == 'fnp':
                    c = self.T(v[1]).get('c')
                    if c is None:
                        raise Undecided('fn pointer to closure')
                else:
                    raise Undecided('unknown fn pointer')
        vals = [self.operand(fr, a, moves) for a in args]
        atys = [self.optype(fr, a) for a in args]
        dest, _ = self.place(fr, destpl)
        if dest[0][0] == 'D' and dest[0] not in self.mty:
            self.mty[dest[0]] = dty
        fr.target = target
        models.call(self, fr, c, vals, atys, dest, dty, moves)
