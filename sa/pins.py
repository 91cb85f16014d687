"""Pinned parts stay where they are: a typestate rule over the generic MIR.

A pinned pointer is a `&mut T` got out of a `Pin<&mut T>` (get_unchecked_mut, into_inner_unchecked,
the argument of a map_unchecked_mut closure).  Its fields are followed through reborrows, tuples,
projection structs and library helpers.  A field ever handed to Pin::new_unchecked is *pinned*:
nothing may read it out or swap it through a pinned pointer, and its owner may be Unpin only
together with it."""
import re
from lint import crates, const_fn, operands, peel

UNPIN_FNS = ('get_unchecked_mut', 'into_inner_unchecked', 'get_mut', 'into_inner')
PINNED = re.compile(r'^(&mut )*(std|core)::pin::Pin<&(\S+ )?mut ')
MOVERS = re.compile(r'^(core|std)::(mem|intrinsics|ptr)::(\w+::)*(replace|swap|take|read|read_unaligned|read_volatile|copy|copy_nonoverlapping|swap_nonoverlapping|transmute_copy|typed_swap_nonoverlapping)(::<.*>)?$')
MOVE_M = re.compile(r'(Option|MaybeUninit|ManuallyDrop|mut_ptr|const_ptr|non_null|NonNull)\b.*::(take|take_if|replace|insert|get_or_insert\w*|read|read_unaligned|read_volatile|swap|copy_to\w*|copy_from\w*|assume_init_read)$')
VIEWS = re.compile(r'::(as_mut|as_deref_mut|as_ref|as_mut_ptr|as_ptr|cast|cast_mut|cast_const|deref_mut|deref|borrow_mut|from_mut|from_ref|from|new|new_unchecked|unwrap|expect|unwrap_unchecked|addr_of_mut|map|as_mut_slice|iter_mut)$')


def short(p):
    return p.split('::')[-1]


class Al(tuple):
    """alias of (owner adt path, first field or None)"""


class Body:
    def __init__(self, w, cr, fn):
        self.w, self.cr, self.fn, self.b, self.T = w, cr, fn, fn['body'], cr.types
        self.al = {}     # local -> set of (tag, owner, field): tag () or ((variant, idx),) for parts of an aggregate
        self.ret = set()
        self.seeds = set()

    def ty(self, pl):
        i, var = self.b['locals'][pl[0]][0], None
        for e in pl[1]:
            t = self.T[i]
            if e == '*':
                i = t['a'][0] if t['k'] == 'adt' else t.get('e', i)
            elif e[0] == 'f':
                i = e[2]
            elif e[0] in ('i', 'ci'):
                i = t.get('e', i)
        return i

    def of(self, pl):
        """aliases designated by a place: (derefs seen, alias) set"""
        out = set()
        for tag, own, fld in self.al.get(pl[0], ()):
            proj, var, deref = list(pl[1]), 0, False
            ok = True
            t = tag
            # parts of an aggregate
            if t:
                v = 0
                k = 0
                hit = False
                while k < len(proj):
                    e = proj[k]
                    if e == '*':
                        if not hit and t:
                            pass
                    elif e[0] == 'd':
                        v = e[1]
                    elif e[0] == 'f' and t:
                        if (v, e[1]) != t[0]:
                            ok = False
                            break
                        t = t[1:]
                        v = 0
                        if not t:
                            k += 1
                            break
                    k += 1
                if not ok:
                    continue
                proj = proj[k:]
            if t:
                out.add((False, t, own, fld))
                continue
            var = 0
            f = fld
            for e in proj:
                if e == '*':
                    deref = True
                elif e[0] == 'd':
                    var = e[1]
                elif e[0] == 'f' and deref and f is None:
                    f = (var, e[1])
            out.add((deref, (), own, f))
        return out

    def add(self, l, x):
        s = self.al.setdefault(l, set())
        if x not in s and len(s) < 60:
            s.add(x)
            return True
        return False

    def movable(self, own, f):
        return self.w.movable(own, f)

    def root(self, i):
        """the library type behind a pinned pointer's type"""
        t = self.T[peel(self.T, i)]
        if t['k'] == 'adt':
            q = t['p'] if t['p'] in self.w.adts else self.cr.q(t['p'])
            if q in self.w.adts:
                return q
        return None

    def run(self, start=()):
        w = self.w
        for l, own, f in start:
            self.add(l, ((), own, f))
        ch = True
        n = 0
        while ch and n < 50:
            ch, n = False, n + 1
            self.facts = []
            for k, bb in enumerate(self.b['bb']):
                for st in bb[0]:
                    if st[0] == '=':
                        ch |= self.stmt(st)
                ch |= self.term(bb[1])
        self.ret = set(self.al.get(0, ()))
        return self

    def put(self, dst, tags):
        ch = False
        if dst[1]:
            # stored into a part of a local: keep it coarse
            var, tag = 0, ()
            for e in dst[1]:
                if e == '*':
                    return False
                if e[0] == 'd':
                    var = e[1]
                elif e[0] == 'f':
                    tag += ((var, e[1]),)
                    var = 0
            for t, own, f in tags:
                ch |= self.add(dst[0], (tag + t, own, f))
            return ch
        for x in tags:
            ch |= self.add(dst[0], x)
        return ch

    def stmt(self, st):
        dst, rv, where = st[1], st[2], st[3]
        ch = False
        if rv[0] in ('ref', 'raw', 'addr', 'rawptr'):
            for d, t, own, f in self.of(rv[1]):
                if not any(e == '*' for e in rv[1][1]) and not t:
                    continue        # a reference to the pointer itself
                ch |= self.put(dst, {(t, own, f)})
            return ch
        for k, o in enumerate(operands(rv)):
            if o[0] not in ('c', 'm'):
                continue
            for d, t, own, f in self.of(o[1]):
                if d:
                    # the value itself is read: a pointer stored in the field, or the field
                    if o[0] == 'm':
                        self.facts.append(('move', own, f, where, 'moved out'))
                    continue
                if rv[0] == 'agg':
                    ch |= self.put(dst, {(((rv[3] if rv[1] == 'adt' else 0, k),) + t, own, f)})
                elif rv[0] in ('use', 'cast'):
                    ch |= self.put(dst, {(t, own, f)})
        return ch

    def closure(self, op):
        """the body behind a closure operand"""
        t = None
        if op[0] in ('c', 'm'):
            t = self.T[self.ty(op[1])]
        elif op[0] == 'k':
            c = const_fn(op)
            if c:
                return self.w.find(self.cr, c), 1
            t = self.T[op[1]]
        if t and t['k'] in ('closure',):
            for n in (t.get('p'), self.cr.q(t.get('p', '?'))):
                if n in self.w.fns:
                    return self.w.fns[n], 2
        return None, 0

    def term(self, t):
        if t[0] != 'call':
            return False
        c = const_fn(t[1])
        args, dst, where = t[2], t[3], t[6]
        p = (c or {}).get('rp') or (c or {}).get('p') or '?'
        base = re.sub(r'::<[^>]*>$', '', p)
        s = short(base)
        ch = False
        got = []
        for k, a in enumerate(args):
            if a[0] in ('c', 'm'):
                for d, tg, own, f in self.of(a[1]):
                    if d and a[0] == 'm':
                        self.facts.append(('move', own, f, where, 'moved out'))
                    elif not d:
                        got.append((k, tg, own, f))
        pin = base.startswith(('core::pin::', 'std::pin::'))
        if (pin and s in UNPIN_FNS or s in ('transmute', 'transmute_unchecked', 'deref_mut')) and args and args[0][0] in ('c', 'm') and PINNED.match(self.T[self.ty(args[0][1])]['s']):
            own = self.root(self.ty(dst))
            if own:
                self.w.roots.add((own, self.fn['p']))
                return self.put(dst, {((), own, None)})
            return False
        if pin and s == 'map_unchecked_mut':
            own = self.root(self.cl_arg(args[0]))
            body, at = self.closure(args[1])
            if own and body:
                r = self.w.analyse(body, ((at, own, None),))
                self.w.roots.add((own, self.fn['p']))
                for tg, o, f in r.ret:
                    if not tg:
                        self.w.pinned.setdefault((o, f), where)
                self.facts += r.facts
            elif own:
                self.facts.append(('lost', own, None, where, 'a closure that is not visible'))
            return False
        if pin and s in ('new_unchecked',):
            a = args[0]
            if not got:
                self.w.bare.append((self, a, where))
            for k, tg, own, f in got:
                if not tg:
                    self.w.pinned.setdefault((own, f), where)
            return False
        if pin:
            return False
        if not got:
            # aliases may also come back from a helper that projects a pin itself
            h = self.w.find(self.cr, c) if c else None
            if h and self.w.interesting(h):
                r = self.w.analyse(h, ())
                for x in r.ret:
                    ch |= self.put(dst, {x})
            return ch
        h = self.w.find(self.cr, c) if c else None
        if h:
            start = tuple(sorted({(k + 1, own, f) for k, tg, own, f in got if not tg}, key=str))
            if start:
                r = self.w.analyse(h, start)
                self.facts += r.facts
                for x in r.ret:
                    ch |= self.put(dst, {x})
            return ch
        if c is not None and c.get('ctor'):
            for k, tg, own, f in got:
                ch |= self.put(dst, {(((0, k),) + tg, own, f)})
            return ch
        mv = MOVERS.match(base) or MOVE_M.search(base)
        for k, tg, own, f in got:
            if mv:
                if s == 'copy_nonoverlapping' and k == 1:
                    continue
                self.facts.append(('move', own, f, where, f'given to {base}'))
                if self.T[self.ty(dst)]['k'] in ('ref', 'ptr'):
                    ch |= self.put(dst, {(tg, own, f)})
            elif VIEWS.search(base):
                ch |= self.put(dst, {((), own, f)})
                i = self.ty(dst)
                if self.T[i]['k'] == 'adt' and self.T[i]['p'] == 'core::option::Option':
                    ch |= self.put(dst, {(((1, 0),), own, f)})
            elif re.search(r'ptr::(write|drop_in_place)', base) or MOVE_M.search(base):
                pass
            elif self.T[self.ty(args[k][1])]['k'] == 'ref' and not self.T[self.ty(args[k][1])].get('mut', True):
                pass        # shared
            else:
                self.facts.append(('lost', own, f, where, f'passed to {base}'))
        return ch

    def cl_arg(self, a):
        i = self.ty(a[1])
        t = self.T[i]
        return t['a'][0] if t['k'] == 'adt' and t['a'] else i


class World:
    def __init__(self, P):
        self.cs = crates(P)
        self.adts, self.fns = {}, {}
        self.owner = {}
        for c in self.cs:
            for a in c.adts:
                self.adts[c.q(a['p'])] = (c, a)
            for f in c.fns:
                if f.get('body') and 'bb' in f['body']:
                    self.fns[c.q(f['p'])] = (c, f)
        self.pinned, self.roots, self.bare = {}, set(), []
        self.memo, self.active = {}, set()
        self._int = {}

    def find(self, cr, c):
        for n in (c.get('rp'), c.get('p')):
            if n:
                for q in (cr.q(n), n):
                    if q in self.fns:
                        return self.fns[q]
        return None

    def interesting(self, h):
        k = h[0].q(h[1]['p'])
        if k not in self._int:
            self._int[k] = False
            r = False
            for bb in h[1]['body']['bb']:
                t = bb[1]
                if t[0] == 'call':
                    c = const_fn(t[1])
                    n = (c or {}).get('p', '')
                    if 'core::pin::' in n and short(n) in UNPIN_FNS + ('map_unchecked_mut',) or short(n).startswith('transmute') or short(n) == 'deref_mut':
                        r = True
                    elif c:
                        g = self.find(h[0], c)
                        r = r or bool(g and self.interesting(g))
            self._int[k] = r
        return self._int[k]

    def analyse(self, h, start):
        key = (h[0].q(h[1]['p']), start)
        if key not in self.memo:
            if key in self.active:
                b = Body(self, *h)
                b.facts = []
                return b
            self.active.add(key)
            b = Body(self, *h).run(start)
            self.active.discard(key)
            self.memo[key] = b
        return self.memo[key]

    def field(self, own, f):
        c, a = self.adts[own]
        n = 0
        for v, (name, fs) in enumerate(a['v']):
            for i, fd in enumerate(fs):
                if (v, i) == f:
                    return (f'{name}.' if len(a['v']) > 1 else '') + fd[0], fd[2], a['fu'][n]
                n += 1
        return str(f), None, False

    def movable(self, own, f):
        """may the part be moved even when pinned"""
        if f is None:
            return self.adts[own][1]['unpin']
        return self.field(own, f)[2]


def reaches(b, frm, to):
    seen, todo = set(), [frm]
    while todo:
        x = todo.pop()
        t = b['bb'][x][1]
        for y in succs(t):
            if y == to:
                return True
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return False


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        out = [x[1] for x in t[2]] + [t[3]]
    elif k == 'call':
        out = [t[4], t[7] if len(t) > 7 else None]
    elif k == 'drop':
        out = [t[2], t[5]]
    elif k == 'assert':
        out = [t[3]]
    elif k == 'yield':
        out = [t[2]]
    else:
        out = []
    return [x for x in out if x is not None]


def frame(B, a, seen=()):
    """what the argument of a bare new_unchecked points at: ('local', l) | ('deref', place) | None"""
    pl = a[1]
    if pl[0] in seen:
        return None
    defs = []
    for k, bb in enumerate(B.b['bb']):
        for st in bb[0]:
            if st[0] == '=' and st[1] == [pl[0], []]:
                defs.append(st[2])
        if bb[1][0] == 'call' and bb[1][3] == [pl[0], []]:
            defs.append(('call', const_fn(bb[1][1]), bb[1]))
    if pl[0] <= B.b['argc'] and pl[0] > 0:
        return ('arg', pl[0])
    if len(defs) != 1:
        return None
    rv = defs[0]
    if rv[0] == 'call':
        return ('call', (rv[1] or {}).get('p', '?'), rv[2][2])
    if rv[0] == 'use' and rv[1][0] in ('c', 'm'):
        if rv[1][1][1]:
            return ('deref', rv[1][1])
        return frame(B, rv[1], seen + (pl[0],))
    if rv[0] == 'cast' and rv[2][0] in ('c', 'm') and not rv[2][1][1]:
        return frame(B, rv[2], seen + (pl[0],))
    if rv[0] in ('ref', 'raw', 'rawptr', 'addr'):
        q = rv[1]
        if '*' not in q[1]:
            return ('local', q[0])
        if q[1] == ['*']:
            return frame(B, ['c', [q[0], []]], seen + (pl[0],))
        t = B.T[B.b['locals'][q[0]][0]]
        inner = frame(B, ['c', [q[0], []]], seen + (pl[0],)) if q[1][0] == '*' and q[1].count('*') == 1 else None
        if inner and inner[0] in ('arg', 'local', 'call'):
            return inner
        return ('deref', q)
    return None


def c33(P, tier, Result):
    w = World(P)
    facts = {}
    bodies = {}
    for q, h in w.fns.items():
        names = [const_fn(bb[1][1]) for bb in h[1]['body']['bb'] if bb[1][0] == 'call']
        dropimpl = h[1].get('trait', '') == 'core::ops::drop::Drop' and short(h[1]['p']) == 'drop'
        if dropimpl:
            t = h[0].types[peel(h[0].types, h[1]['in'][0])]
            own = t['p'] if t['p'] in w.adts else h[0].q(t.get('p', '?'))
            if own in w.adts:
                bodies[q] = w.analyse(h, ((1, own, None),))
                continue
        if w.interesting(h) or any('core::pin::' in (c or {}).get('p', '') for c in names):
            bodies[q] = w.analyse(h, ())
    out = []
    owners = sorted({o for o, f in w.pinned})
    # only facts reported once per place
    seen = {}
    for (q, start), B in w.memo.items():
        for kind, own, f, where, how in B.facts:
            seen.setdefault((kind, own, f, where, how), q)
    for own in owners:
        c, a = w.adts[own]
        fields = sorted([f for o, f in w.pinned if o == own], key=str)
        hot = [f for f in fields if not w.movable(own, f)]
        names = ', '.join(w.field(own, f)[0] if f else 'self' for f in fields)
        r = Result(f'{own}: {names}', 'through a pinned pointer a pinned part is never read out, swapped or lent to code that could')
        for (kind, o, f, where, how), q in sorted(seen.items(), key=str):
            if o != own:
                continue
            clash = [g for g in hot if f is None or g is None or f == g]
            if not clash:
                continue
            n = w.field(own, clash[0])[0] if clash[0] else 'self'
            if kind == 'move':
                r.violations.append({'where': where, 'what': f'{own}.{n} is polled in place, but {q} has it {how}', 'key': f'{own} {n} moved in {q}', 'path': []})
            else:
                r.undecided.append(f'{own}.{n}: {how} at {where}')
        out.append(r)
        r = Result(f'{own}: Unpin', 'the owner may be Unpin only when its pinned parts are')
        if hot and a['unpin']:
            r.violations.append({'where': a['span'], 'what': f'{own} is Unpin whatever its parts are, yet pins {names}: safe code may move it between polls', 'key': f'{own} Unpin', 'path': []})
        for im in c.impls:
            if im.get('trait') == 'core::marker::Unpin' and c.types[im['self']].get('p') in (a['p'], own) and hot:
                if not any(x[1] == 'core::marker::Unpin' for x in im['preds']):
                    v = {'where': im['span'], 'what': f'{own} is declared Unpin without asking it of {names}', 'key': f'{own} Unpin', 'path': []}
                    if not any(x['key'] == v['key'] for x in r.violations):
                        r.violations.append(v)
        out.append(r)
    # values pinned where they stand
    done = set()
    lent = {q for q, start in w.memo if start}
    for B, a, where in w.bare:
        k = (B.cr.q(B.fn['p']), where, str(a))
        if k in done:
            continue
        done.add(k)
        fr = frame(B, a) if a[0] in ('c', 'm') else None
        q = B.cr.q(B.fn['p'])
        r = Result(f'{q} @ {where.split("/repo/")[-1]}', 'a value pinned in a frame is not moved afterwards')
        pt = B.T[peel(B.T, B.ty(a[1]))] if a[0] in ('c', 'm') else None
        ref = B.T[B.ty(a[1])] if a[0] in ('c', 'm') else None
        if ref and ref['k'] == 'ref' and ref.get('mut') is False:
            continue      # a shared reference out of a shared pin
        if fr is None:
            r.undecided.append('what is pinned is not known')
        elif fr[0] == 'local':
            l = fr[1]
            at = [i for i, bb in enumerate(B.b['bb']) if bb[1][0] == 'call' and bb[1][6] == where and 'new_unchecked' in (const_fn(bb[1][1]) or {}).get('p', '')]
            for i, bb in enumerate(B.b['bb']):
                for o, wh in moved(bb):
                    if o[1][0] == l and '*' not in o[1][1] and any(reaches(B.b, x, i) for x in at) and not refreshed(B.b, l, at, i):
                        r.violations.append({'where': wh, 'what': f'{q} pins a local value at {where} and moves it afterwards', 'key': f'{q} moves a pinned local', 'path': []})
            if len(r.violations) > 1:
                del r.violations[1:]
        else:
            if q in lent and not B.fn['reach']:
                continue        # given only what is pinned already; judged where it is called
            if B.fn['unsafe'] or q in lent:
                r.undecided.append('pins what its caller supplies')
            elif pt['k'] in ('other', 'dyn'):
                what = 'something it got through an ordinary mutable reference' if fr[0] != 'call' else f'what {fr[1]} returned'
                r.violations.append({'where': where, 'what': f'{q} pins {what}: its owner may still move it', 'key': f'{q} pins a borrowed value', 'path': []}) if fr[0] != 'call' else r.undecided.append(f'pins {what}')
            else:
                r.undecided.append(f'pins a borrowed value of type {pt["s"]}')
        out.append(r)
    return out


def moved(bb):
    for st in bb[0]:
        if st[0] == '=':
            for o in operands(st[2]):
                if o[0] == 'm':
                    yield o, st[3]
    t = bb[1]
    if t[0] == 'call':
        for o in t[2]:
            if o[0] == 'm':
                yield o, t[6]


def refreshed(b, l, frm, to):
    """every way from the pinning to the move assigns the local (or ends its life) in between"""
    fresh = set()
    for i, bb in enumerate(b['bb']):
        for st in bb[0]:
            if (st[0] == '=' and st[1] == [l, []]) or (st[0] in ('sl', 'dead') and st[1] == l):
                fresh.add(i)
        if bb[1][0] == 'call' and bb[1][3] == [l, []]:
            fresh.add(i)
    seen, todo = set(), list(frm)
    while todo:
        x = todo.pop()
        for y in succs(b['bb'][x][1]):
            if y == to and y not in fresh:
                return False
            if y not in seen and y not in fresh:
                seen.add(y)
                todo.append(y)
    return True
