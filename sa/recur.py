"""C35: the stack does not grow with the input. Rules over the generic program: no library function re-enters itself,
and nothing linked is released by recursion."""
from lint import crates, callees, graph, plain, peel, const_fn

# what these hold is not released with them
NOTOWNED = ('core::marker::PhantomData', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_uninit::MaybeUninit',
            'core::ptr::non_null::NonNull', 'alloc::sync::Weak', 'alloc::rc::Weak', 'core::pin::unsafe_pinned')


def library(P):
    return {c.name for c in crates(P)}


def full(c, p, libs):
    """path of a type with its crate"""
    return p if p.split('::', 1)[0] in libs else c.q(p)


def edges(P):
    """library call graph without guesses: resolved calls, bodies of closures and futures made, and, for a method that a std
    trait provides, the library's own methods of that trait for the receiver"""
    cs = crates(P)
    libs = library(P)
    idx = {f'{c.name}::{f["p"]}': (c, f) for c in cs for f in c.fns}
    own = {}
    for k, (c, f) in idx.items():
        im = f.get('trait')
        if im:
            own.setdefault(im, []).append(k)
    g = {}
    for k, (c, f) in idx.items():
        out = g.setdefault(k, [])
        for cal, where in callees(f):
            if 'agg' in cal:
                n = [c.types[cal['agg']].get('p', '?')]
            elif cal.get('rp'):
                n = [cal['rp']]
            elif cal.get('tr') is None:
                n = [cal['p']]
            else:
                n = []
                # a provided method called on the same, still unknown, type
                if cal['a'] and c.types[peel(c.types, cal['a'][0])].get('s') == 'Self':
                    n = [cal['p']]
            for x in n:
                for cand in (f'{c.name}::{x}', x):
                    if cand in idx:
                        out.append((cand, where))
                        break
                else:
                    tr = cal.get('tr')
                    if tr and tr.startswith(('core::', 'alloc::', 'std::')) and cal['a']:
                        for a in named(c, cal['a'][0], libs):
                            for m in methods(P, idx, a, tr):
                                out.append((m, where))
    return idx, g


def named(c, i, libs, depth=0):
    """library types a value of a type is made of by name (receiver of an adaptor)"""
    t = c.types[i]
    k = t['k']
    if k in ('ref', 'ptr') and depth < 6:
        return named(c, t['e'], libs, depth + 1)
    if k == 'adt':
        if t['p'].startswith(('core::', 'alloc::', 'std::')):
            return [x for a in t['a'] if isinstance(a, int) and depth < 6 for x in named(c, a, libs, depth + 1)]
        return [full(c, t['p'], libs)]
    return []


def methods(P, idx, adt, tr):
    libs = library(P)
    out = []
    for k, (c, f) in idx.items():
        if f.get('trait') == tr and f['p'] == f['top'] and 'self' in f:
            t = c.types[peel(c.types, f['self'])]
            if t['k'] == 'adt' and full(c, t['p'], libs) == adt:
                out.append(k)
    return out


def components(g):
    """strongly connected components with a cycle (iterative Tarjan)"""
    num, low, on, st, out, n = {}, {}, set(), [], [], 0
    for root in g:
        if root in num:
            continue
        work = [(root, iter(g[root]))]
        num[root] = low[root] = n
        n += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w, _ in it:
                if w not in num:
                    num[w] = low[w] = n
                    n += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    break
                if w in on:
                    low[v] = min(low[v], num[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == num[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or any(w == v for w, _ in g[v]):
                        out.append(comp)
    return out


# ------------------------------------------------------------------ what releasing a value releases
def owned(c, i, libs, seen=None):
    """library types released along with a value of a type"""
    seen = set() if seen is None else seen
    if i is None or i in seen:
        return set()
    seen.add(i)
    t = c.types[i]
    k = t['k']
    out = set()
    if k == 'adt':
        if t['p'] in NOTOWNED:
            return out
        if not t['p'].startswith(('core::', 'alloc::', 'std::')):
            out.add(full(c, t['p'], libs))
        for a in t['a']:
            if isinstance(a, int):
                out |= owned(c, a, libs, seen)
    elif k in ('tuple', 'closure'):
        for x in t['f']:
            out |= owned(c, x, libs, seen)
    elif k in ('array', 'slice'):
        out |= owned(c, t['e'], libs, seen)
    return out


def holds(P):
    """library type -> [(library type released with it, field, span)]"""
    libs = library(P)
    g = {}
    for c in crates(P):
        for a in c.adts:
            out = g.setdefault(c.q(a['p']), [])
            for v, fs in a['v']:
                for name, vis, ty in fs:
                    for x in sorted(owned(c, ty, libs)):
                        out.append((x, name))
    for k, out in g.items():
        g[k] = [e for e in out if e[0] in g]
    return g


def drops(P):
    """library type -> its Drop::drop"""
    libs = library(P)
    out = {}
    for c in crates(P):
        for f in c.fns:
            if f.get('trait') == 'core::ops::drop::Drop' and f['p'] == f['top']:
                t = c.types[peel(c.types, f['self'])]
                if t['k'] == 'adt':
                    out[full(c, t['p'], libs)] = (c, f)
    return out


ABSENT = {'core::option::Option': 0, 'core::result::Result': 1, 'core::ops::control_flow::ControlFlow': 1}
TAKE = ('core::mem::take', 'core::option::Option::<T>::take', 'std::sync::once_lock::OnceLock::<T>::take', 'core::cell::once::OnceCell::<T>::take', 'core::cell::Cell::<T>::take')
REPLACE = ('core::mem::replace', 'core::option::Option::<T>::replace', 'core::option::Option::<T>::insert', 'core::cell::Cell::<T>::replace')


class Unhook:
    """typestate of the values, in one function, that a chain hangs from: `full` (nothing was unhooked), `empty` (nothing is
    released along with it: moved out, taken, found absent, or held elsewhere as well), `unknown`"""
    def __init__(self, P, comp):
        self.P, self.comp, self.libs = P, comp, library(P)
        self.idx = {f'{c.name}::{f["p"]}': (c, f) for c in crates(P) for f in c.fns}
        self.bad, self.unsure, self.loops = {}, {}, 0

    def owning(self, c, ty):
        return bool(owned(c, ty, self.libs) & self.comp)

    def run(self, c, f, given, depth=0):
        """outcomes {(states of parameters, state of the result)} of a function"""
        b = f['body']
        ref, st = {}, {}
        for i in range(1, b['argc'] + 1):
            if i in given:
                st[i] = given[i]
                if c.types[b['locals'][i][0]]['k'] in ('ref', 'ptr', 'adt') and not self.owning(c, b['locals'][i][0]):
                    ref[i] = i
        out = set()
        todo, seen = [(0, (tuple(sorted(st.items())), tuple(sorted(ref.items())), ()))], set()
        while todo:
            x = todo.pop()
            if x in seen or len(seen) > 20000:
                continue
            seen.add(x)
            self.block(c, f, b, x[0], dict(x[1][0]), dict(x[1][1]), dict(x[1][2]), todo, out, depth)
        return out

    def block(self, c, f, b, n, st, ref, none, todo, out, depth):
        ty = lambda l: b['locals'][l][0]
        stmts, t = b['bb'][n][0], b['bb'][n][1]
        disc = {}

        def key(pl):
            """what a place is part of"""
            l = pl[0]
            return ref.get(l) if l in ref else (l if l in st or self.owning(c, ty(l)) else None)

        def take(op):
            """state of the value an operand hands over"""
            if op[0] == 'k':
                return 'empty'
            k = key(op[1])
            if k is None or op[1][0] in ref and '*' not in op[1][1]:
                return None
            s = st.get(k, 'full')
            if op[0] == 'm':
                st[k] = 'empty'
            return s

        def give(pl, s):
            l = pl[0]
            if l in ref and '*' in pl[1]:
                st[ref[l]] = s
            elif not pl[1]:
                ref.pop(l, None)
                none.pop(l, None)
                st[l] = s
            else:
                st[l] = s

        def go(m, **kw):
            if m is None:
                return
            s2, n2 = dict(st), dict(none)
            s2.update(kw.get('st', {}))
            todo.append((m, (tuple(sorted(s2.items())), tuple(sorted(ref.items())), tuple(sorted(n2.items())))))

        for s in stmts:
            if s[0] != '=':
                continue
            pl, rv = s[1], s[2]
            if rv[0] in ('ref', 'addr', 'rawptr') and isinstance(rv[1], list):
                k = key(rv[1])
                if k is not None:
                    ref[pl[0]] = k
                elif not pl[1]:
                    ref.pop(pl[0], None)
            elif rv[0] == 'discr':
                disc[pl[0]] = rv[1]
            elif rv[0] in ('use', 'cast', 'agg'):
                ops = [rv[1]] if rv[0] == 'use' else [rv[2]] if rv[0] == 'cast' else rv[4]
                hand = [o for o in ops if o[0] != 'k' and o[1][0] in ref and '*' not in o[1][1]]
                if hand and not self.owning(c, ty(pl[0])):
                    ref[pl[0]] = ref[hand[0][1][0]]
                    none.pop(pl[0], None)
                    continue
                if not pl[1] and not self.owning(c, ty(pl[0])):
                    continue
                ss = [take(o) for o in ops]
                ss = [x for x in ss if x]
                var = rv[3] if rv[0] == 'agg' and isinstance(rv[3], int) and not pl[1] else None
                if rv[0] == 'use' and ops[0][0] != 'k' and not ops[0][1][1]:
                    var = st.get(-1 - ops[0][1][0])
                if self.owning(c, ty(pl[0])) or pl[0] in ref:
                    o = ops[0] if len(ops) == 1 and ops[0][0] == 'm' and not ops[0][1][1] else None
                    src = none.get(o[1][0]) if o else None
                    give(pl, worst(ss))
                    if src is not None:
                        none[pl[0]] = src
                    if not pl[1] and pl[0] not in ref:
                        st.pop(-1 - pl[0], None)
                        if var is not None:
                            st[-1 - pl[0]] = var
        k = t[0]
        if k == 'goto':
            go(t[1])
        elif k == 'assert':
            go(t[3])
        elif k == 'switch':
            l = t[1][1][0] if t[1][0] != 'k' else None
            if l in disc:
                d = disc[l]
                q = c.types[ty(d[0])]
                vs = len(q['v']) if q['k'] == 'adt' else 0
                absent = ABSENT.get(q.get('p')) if not d[1] else None
                listed = [v for v, _ in t[2]]
                for v, m in t[2] + ([[next(iter(set(range(2)) - set(listed)), None), t[3]]] if len(listed) < 2 else [[None, t[3]]]):
                    if not d[1] and v is not None and st.get(-1 - d[0], v) != v:
                        continue
                    up = {}
                    if absent is not None and v == absent:
                        if d[0] in ref:
                            up[ref[d[0]]] = 'empty'
                        elif d[0] in st:
                            up[d[0]] = 'empty'
                        if d[0] in none:
                            up[none[d[0]]] = 'empty'
                    go(m, st=up)
                return
            for v, m in t[2]:
                go(m)
            go(t[3])
        elif k == 'drop':
            self.release(c, f, t[1], key(t[1]) if self.owning(c, self.place_ty(c, b, t[1])) else None, st, t)
            go(t[2])
        elif k == 'ret':
            if depth == 0:
                s = st.get(1, 'full')
                where = f['span']
                if s == 'full':
                    self.bad[where] = 'what follows in the chain is left to be released from within this release'
                elif s == 'unknown':
                    self.unsure[where] = 'what follows in the chain may be left to be released from within this release'
            ps = tuple((i, st.get(i, 'full')) for i in range(1, b['argc'] + 1))
            out.add((ps, st.get(0), st.get(-1)))
        elif k == 'call':
            self.call(c, f, b, t, st, ref, none, key, take, give, go, depth)

    def place_ty(self, c, b, pl):
        return b['locals'][pl[0]][0] if not pl[1] or not (isinstance(pl[1][-1], list) and pl[1][-1][0] == 'f') else pl[1][-1][2]

    def release(self, c, f, pl, k, st, t):
        if k is None:
            return
        s = st.get(k, 'full')
        where = next((x for x in t if isinstance(x, str) and '.rs' in x), f['span'])
        if s == 'full':
            self.bad[where] = 'a value of the chain is released with what follows still attached'
        elif s == 'unknown':
            self.unsure[where] = 'a value of the chain may be released with what follows still attached'
        st[k] = 'empty'

    def call(self, c, f, b, t, st, ref, none, key, take, give, go, depth):
        cal = const_fn(t[1]) or {}
        name = cal.get('rp') or cal.get('p') or '?'
        if cal.get('p', '').startswith(('core::mem::', 'core::clone::Clone')):
            name = cal['p']
        args, dest, nxt = t[2], t[3], t[4]
        ks = []
        moved = []
        given = {}
        for i, a in enumerate(args):
            if a[0] == 'k':
                fn = const_fn(a)
                if fn and (fn.get('rp') or fn['p']) in TAKE:
                    name = fn.get('rp') or fn['p']
                continue
            l = a[1][0]
            if l in ref and '*' not in a[1][1]:
                ks.append(ref[l])
                given[i + 1] = st.get(ref[l], 'full')
            elif self.owning(c, b['locals'][l][0]):
                moved.append((l, take(a)))
                given[i + 1] = moved[-1][1]
            elif c.types[b['locals'][l][0]]['k'] == 'closure':
                inner = self.idx.get(c.q(c.types[b['locals'][l][0]].get('p', '')))
                for fn, _ in callees(inner[1]) if inner else ():
                    if (fn.get('rp') or fn.get('p')) in TAKE:
                        name = fn.get('rp') or fn['p']
        own = self.owning(c, b['locals'][dest[0]][0])
        st.pop(-1 - dest[0], None)
        if 'FromResidual' in name:
            q = c.types[b['locals'][dest[0]][0]]
            if own and not dest[1] and q.get('p') in ABSENT:
                give(dest, 'empty')
                st[-1 - dest[0]] = ABSENT[q['p']]
                for a in args:
                    take(a)
                go(nxt)
                return
        lib = next((self.idx[x] for x in (f'{c.name}::{name}', name) if x in self.idx), None)
        if name in ('core::mem::drop', 'core::ptr::drop_in_place'):
            for l, s in moved:
                st[l] = s
                self.release(c, f, None, l, st, t)
            go(nxt)
            return
        if name == 'core::mem::forget':
            go(nxt)
            return
        if lib and lib[1]['body'] and 'bb' in lib[1]['body'] and depth < 4 and (ks or moved) and not lib[1]['p'].endswith('Drop>::drop'):
            outs = self.run(lib[0], lib[1], given, depth + 1)
            for ps, r, var in outs or [((), None, None)]:
                st2, nn = dict(st), {}
                ps = dict(ps)
                j = 0
                for i, a in enumerate(args):
                    if a[0] != 'k' and a[1][0] in ref and '*' not in a[1][1] and i + 1 in given:
                        nn[ref[a[1][0]]] = ps.get(i + 1, 'unknown')
                st.update(nn)
                st.pop(-1 - dest[0], None)
                if own:
                    give(dest, r or 'full')
                    if var is not None and not dest[1]:
                        st[-1 - dest[0]] = var
                elif ks:
                    ref[dest[0]] = ks[0]
                go(nxt)
                st.clear()
                st.update(st2)
            return
        if name == 'core::mem::swap' and len(ks) == 2:
            x, y = ks
            st[x], st[y] = st.get(y, 'full'), st.get(x, 'full')
        elif name in REPLACE and len(ks) == 1:
            old = st.get(ks[0], 'full')
            st[ks[0]] = worst([s for _, s in moved])
            if own:
                give(dest, old)
        elif name in TAKE and len(ks) == 1:
            old = st.get(ks[0], 'full')
            st[ks[0]] = 'empty'
            if own:
                give(dest, 'full' if old == 'unknown' else old)
        elif name.endswith('Clone>::clone') or name == 'core::clone::Clone::clone':
            if own:
                give(dest, 'empty')
        else:
            for k in ks:
                s = worst([x for _, x in moved]) if moved else None
                if s == 'full':
                    st[k] = 'full'
                elif st.get(k, 'full') == 'full':
                    st[k] = 'unknown'
            if own:
                give(dest, 'full' if ks and not moved else worst([s for _, s in moved]))
                src = ks[0] if len(ks) == 1 else None
                if src is not None:
                    none[dest[0]] = src
            elif ks and self_like(c, b['locals'][dest[0]][0]):
                ref[dest[0]] = ks[0]
                none.pop(dest[0], None)
            elif dest[0] in ref and not dest[1]:
                ref.pop(dest[0])
        go(nxt)


def self_like(c, i):
    """may a value of the type be, or hold, a reference?"""
    return c.types[i]['k'] in ('ref', 'ptr', 'adt', 'tuple', 'closure')


def worst(ss):
    ss = [s for s in ss if s]
    return 'full' if 'full' in ss else 'unknown' if 'unknown' in ss else 'empty'


def unhook(P, drop, comp, r):
    u = Unhook(P, comp)
    c, f = drop
    u.run(c, f, {1: 'full'})
    for w, x in sorted(u.bad.items()):
        r.violations.append({'where': w, 'what': f'{c.q(f["p"])}: {x}', 'key': f'recursive release in {plain(c.q(f["p"]))}', 'path': sorted(comp)})
    if not u.bad:
        r.undecided += [f'{w}: {x}' for w, x in sorted(u.unsure.items())]


def c35(P, tier, Result):
    out = []
    idx, g = edges(P)
    bad = {}
    for comp in components(g):
        bad[min(comp)] = comp
    for k, (c, f) in sorted(idx.items()):
        if not f['body'] or 'bb' not in f['body']:
            continue
        r = Result(k, 'the function does not re-enter itself through calls within the library')
        if k in bad:
            comp = set(bad[k])
            path, x = [], k
            while True:
                y, w = next(((y, w) for y, w in g[x] if y in comp and (y not in path or y == k)), (None, None))
                if y is None:
                    break
                path.append(y)
                if len(path) == 1:
                    site = w
                x = y
                if y == k or len(path) > len(comp):
                    break
            r.violations.append({'where': site, 'what': f'{plain(k)} re-enters itself: the stack grows with the input', 'key': f'recursion: {plain(k)}', 'path': path})
        out.append(r)
    h = holds(P)
    dr = drops(P)
    cyc = {x: set(comp) for comp in components(h) for x in comp}
    for k in sorted(h):
        r = Result(f'release of {k}', 'releasing a value does not release a chain of values by recursion')
        if k in cyc:
            comp = cyc[k]
            # the cycle is cut where a type unhooks its link before it is released
            cut = [x for x in comp if x in dr]
            left = {x: [e for e in h[x] if e[0] in comp and e[0] not in cut] for x in comp if x not in cut}
            still = [x for q in components(left) for x in q]
            if k in still:
                c = next(c for c in crates(P) for a in c.adts if c.q(a['p']) == k)
                a = next(a for a in c.adts if c.q(a['p']) == k)
                via = [n for x, n in h[k] if x in comp]
                r.violations.append({'where': a['span'], 'what': f'{k} releases the next one, held in `{via[0]}`, from within its own release: the stack grows with the length of the chain',
                                     'key': f'recursive release: {k}', 'path': sorted(comp)})
            elif k in dr:
                unhook(P, dr[k], comp, r)
        out.append(r)
    return out
