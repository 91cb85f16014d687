"""Lock-step exploration of an implementation root and its contract root."""
import time
from terms import *
from engine import *
import absdom
import models

LARGE = 100     # more than any number of iterations explored before generalising
REACH = 1 << 48  # more iterations than any run makes
GRACE = 4       # joint states kept exact once a count is known to be large
UNKNOWN = 'parcom_core::unknown::UnknownLocation'


class Mismatch(Exception):
    pass


def decide_apply(F, atom, opt):
    """returns False if the option contradicts what is known"""
    if atom[0] == 'variant':
        F.d[('variant', atom[1])] = opt
        return True
    t = atom[1]
    if t[0] == 'a' and t[1] == 'le0':
        F.add_le(t[2] if opt else add(neg(t[2]), I(1)))
    elif t[0] == 'a' and t[1] == 'eq0':
        if opt:
            F.add_le(t[2])
            F.add_le(neg(t[2]))
            F.add_eq(t[2])
        else:
            F.add_ne(t[2])
    else:
        F.d[t] = bool(opt)
        return True
    return not F.inconsistent()


def show_atom(atom, opt, P):
    if atom[0] == 'variant':
        vs = P.variants(atom[2])
        return f"{show(atom[1], P)} is {vs[opt]['n']}"
    t = atom[1]
    s = {'le0': '<= 0', 'eq0': '= 0'}.get(t[1] if t[0] == 'a' else '', '')
    if s:
        return f"{'' if opt else 'not '}{show(t[2], P)} {s}"
    return f"{'' if opt else 'not '}{show(t, P)}"


BOOLS = ('eq0', 'le0', 'not')


class Pair:
    def __init__(self, F, ms, trace, anc, tainted, term=None):
        self.F = F
        self.term = term        # latest should_terminate decision on this path
        self.ms = ms
        self.trace = trace
        self.anc = anc          # ancestor joint states on this path: key -> list of snapshots
        self.tainted = tainted
        self.grace = 0          # visits left exact after a count was found to be large
        self.psym = None        # event result the machines have yet to take up

    def fork(self):
        F = self.F.copy()
        q = Pair(F, [m.copy(F) for m in self.ms], self.trace, self.anc, self.tainted, self.term)
        q.psym = self.psym
        q.grace = self.grace
        return q


class Explorer:
    def __init__(self, P, impl, spec, flags=None, precise=3, max_states=4000, pos_ty=('u::S',), wary=False, seconds=None):
        self.wary = wary
        self.deadline = seconds and time.monotonic() + seconds
        self.P = P
        self.impl, self.spec = impl, spec
        self.flags = flags or {}
        self.precise = precise
        self.max_states = max_states
        self.visited = {}
        self.violations = []
        self.undecided = []
        self.stats = {'paths': 0, 'joint_states': 0, 'events': 0, 'decisions': 0, 'steps': 0, 'widened': 0, 'pruned': 0}
        self.fns = set()
        self.mask = False
        self.tainted_mismatch = 0
        self.pos_ty = pos_ty

    def initial(self):
        F = Facts()
        fi, fs = self.P.fns[self.impl], self.P.fns[self.spec]
        n = fi['argc']
        assert n == fs['argc'], 'argc'
        args = []
        for i in range(1, n + 1):
            ty = fi['locals'][i][0]
            nm = fi['locals'][i][1] or f'arg{i}'
            if isinstance(nm, list):
                nm = nm[0]
            args.append((SYMS.fresh(ty, str(nm)), ty))
        ms = []
        for name, fid in (('impl', self.impl), ('spec', self.spec)):
            m = Machine(self.P, F, name)
            m.flags = dict(self.flags)
            fn = self.P.fns[fid]
            vals = [v if not m.is_unit(ty) else m.unit(ty) for v, ty in args]
            m.fork_polls = False
            self.start(m, fid, vals)
            ms.append(m)
        self.args = args
        return Pair(F, ms, (), {}, False)

    def start(self, m, fid, vals):
        fn = self.P.fns[fid]
        rty = fn['locals'][0][0]
        t = self.P.types[rty]
        if t['k'] == 'coroutine':
            # async fn: build the coroutine and poll it to completion
            co = m.mk(rty, None, tuple(vals)) if t['f'] else ('g', rty, None, ())
            a = m.alloc(('g', rty, None, tuple(vals)), rty, 'h')
            m.push(t['b'], [None, models.CX], None, None, None, (a, ()))
            self.rty = self.P.fns[t['b']]['locals'][0][0]
        else:
            m.push(fid, vals, None, None)
            self.rty = rty

    # ------------------------------------------------------------------ typed comparison
    def eq(self, m1, a, m2, b, ty, F, depth=0):
        """equal under the facts?  a is a memory-independent value of type ty on side m1"""
        P = self.P
        self.cmp_m = m1
        if a == b:
            return True
        if ty is None and (a[0] == 'g') != (b[0] == 'g') and a[0] in ('g', 's', 'a') and b[0] in ('g', 's', 'a'):
            ty = a[1] if a[0] == 'g' else b[1]
        if self.mask and self.is_pos(m1, a, ty) and self.is_pos(m2, b, ty):
            return True
        if ty is not None:
            t = P.types[ty]
            if t['k'] == 'adt' and t['p'] == UNKNOWN:
                return True
            if m1.is_unit(ty):
                return True
        if depth > 30:
            return False
        if a[0] in ('i', 'lin') or b[0] in ('i', 'lin'):
            if a[0] in ('i', 'lin', 's', 'a') and b[0] in ('i', 'lin', 's', 'a'):
                if ty is not None and P.types[ty]['k'] == 'bool':
                    return m1.truth(a) == m1.truth(b)
                if F.entails_eq(a, b):
                    return True
        if F.nf(a) == F.nf(b):
            return True
        if ty is None and (is_term(a) or a in (I(0), I(1))) and (is_term(b) or b in (I(0), I(1))) and ((a[0] == 'a' and a[1] in BOOLS) or (b[0] == 'a' and b[1] in BOOLS)):
            return m1.truth(a) == m1.truth(b)
        if ty is not None:
            t = P.types[ty]
            if t['k'] == 'bool' and a[0] in ('a', 's', 'i') and b[0] in ('a', 's', 'i'):
                return m1.truth(a) == m1.truth(b)
            if t['k'] in ('ref', 'ptr'):
                x = a[1] if a[0] == '&' else A('deref', a) if is_term(a) else None
                y = b[1] if b[0] == '&' else A('deref', b) if is_term(b) else None
                if x is not None and y is not None and (a[0] == '&' or b[0] == '&'):
                    return self.eq(m1, x, m2, y, t['e'], F, depth + 1)
            if t['k'] in ('tuple', 'closure', 'coroutine', 'array') or (t['k'] == 'adt' and t['ak'] == 'struct' and t['v']):
                if a[0] in ('g', 's', 'a') and b[0] in ('g', 's', 'a') and (a[0] == 'g' or b[0] == 'g'):
                    if m1.transparent(ty):
                        return self.eq(m1, a, m2, b, m1.inner(ty), F, depth + 1)
                    fts = P.field_types(ty)
                    for j, ft in enumerate(fts):
                        if m1.is_unit(ft):
                            continue
                        if not self.eq(m1, m1.proj(a, j), m2, m2.proj(b, j), ft, F, depth + 1):
                            return False
                    return True
            if t['k'] == 'adt' and t['ak'] == 'enum' and a[0] in ('g', 's', 'a') and b[0] in ('g', 's', 'a'):
                if a[0] == 'g' or b[0] == 'g' or ('variant', a) in F.d or ('variant', b) in F.d:
                    ka, kb = m1.variant_of(a, ty), m2.variant_of(b, ty)
                    if ka != kb:
                        return False
                    for j, ft in enumerate(P.field_types(ty, ka)):
                        if m1.is_unit(ft):
                            continue
                        if not self.eq(m1, m1.proj(a, ('v', ka, j)), m2, m2.proj(b, ('v', ka, j)), ft, F, depth + 1):
                            return False
                    return True
        if a[0] == 'g' and b[0] == 'g' and a[2] == b[2] and len(a[3]) == len(b[3]) and (ty is None or a[1] == b[1]):
            fts = P.field_types(a[1], a[2]) if a[1] is not None else [None] * len(a[3])
            return all(self.eq(m1, p, m2, q, ft, F, depth + 1) for p, q, ft in zip(a[3], b[3], fts))
        if a[0] == '&' and b[0] == '&':
            return self.eq(m1, a[1], m2, b[1], None, F, depth + 1)
        if a[0] == 'a' and b[0] == 'a' and a[1] == b[1] and len(a) == len(b):
            ok = True
            for p, q in zip(a[2:], b[2:]):
                if isinstance(p, tuple) and p and isinstance(p[0], str) and isinstance(q, tuple):
                    if not self.eq(m1, p, m2, q, None, F, depth + 1):
                        ok = False
                        break
                elif p != q:
                    ok = False
                    break
            if ok:
                return True
        if a[0] == 'sl' and b[0] == 'sl' and F.entails_eq(a[2], a[3]) and F.entails_eq(b[2], b[3]):
            return True
        if a[0] == 'q' and b[0] == 'sl':
            b = ('q', self.sl_parts(b))
        elif b[0] == 'q' and a[0] == 'sl':
            a = ('q', self.sl_parts(a))
        if a[0] == 'q' or b[0] == 'q':
            if a[0] in ('q', 's', 'a') and b[0] in ('q', 's', 'a'):
                return self.seq_eq(m1, models.as_q(m1, a)[1], m2, models.as_q(m2, b)[1], F, depth)
        if a[0] == 'sl' and b[0] in ('s', 'a'):
            b = ('sl', b, I(0), A('len', b))
        elif b[0] == 'sl' and a[0] in ('s', 'a'):
            a = ('sl', a, I(0), A('len', a))
        if a[0] == 'sl' and b[0] == 'sl':
            if self.eq(m1, a[1], m2, b[1], None, F, depth + 1) and F.entails_eq(a[2], b[2]) and F.entails_eq(a[3], b[3]):
                return True
            return False
        if a[0] in ('s', 'a') and b[0] in ('s', 'a') and F.le:
            seen = {x for t in F.le for x in lin(t)[1]}
            return a in seen and b in seen and F.entails_eq(a, b)
        return False

    def sl_parts(self, s):
        b = s[1]
        if b[0] == 'q':
            m = self.cmp_m
            import rawmem
            l, r = rawmem.split(m, list(b[1]), s[2])
            return tuple(rawmem.split(m, r, sub(s[3], s[2]))[0])
        if b[0] == 'str':
            return tuple(('e', I(c)) for c in b[1].encode())
        return (('x', b, s[2], s[3]),)

    def is_pos(self, m, t, ty=None):
        """is t an input position?"""
        if ty is None and t[0] == 'a' and t[1] in ('at', 'adv'):
            return True
        if ty is None:
            ty = m.term_ty(t)
        return ty is not None and self.P.types[ty]['k'] == 'adt' and self.P.types[ty]['p'] in self.pos_ty

    def seq_eq(self, m1, p, m2, q, F, depth):
        p, q = list(p), list(q)

        def clean(l):
            out = []
            for e in l:
                if e[0] == 'x':
                    if F.entails_eq(e[2], e[3]):
                        continue
                    if out and out[-1][0] == 'x' and F.nf(out[-1][1]) == F.nf(e[1]) and F.entails_eq(out[-1][3], e[2]):
                        out[-1] = ('x', e[1], out[-1][2], e[3])
                        continue
                    if F.entails_eq(sub(e[3], e[2]), I(1)):
                        out.append(('e', A('el', e[1], e[2])))
                        continue
                out.append(e)
            return out
        p, q = clean(p), clean(q)
        i = j = 0
        while i < len(p) and j < len(q):
            a, b = p[i], q[j]
            if a[0] == 'e' and b[0] == 'e':
                if not self.eq(m1, a[1], m2, b[1], None, F, depth + 1):
                    return False
                i += 1
                j += 1
            elif a[0] == 'x' and b[0] == 'x':
                if F.nf(a[1]) != F.nf(b[1]) or not F.entails_eq(a[2], b[2]):
                    return False
                if F.entails_eq(a[3], b[3]):
                    i += 1
                    j += 1
                elif F.entails_le(sub(a[3], b[3])):
                    i += 1
                    q[j] = ('x', b[1], a[3], b[3])
                elif F.entails_le(sub(b[3], a[3])):
                    j += 1
                    p[i] = ('x', a[1], b[3], a[3])
                else:
                    raise Decide(('b', b_le(a[3], b[3])), [1, 0])
            else:
                if a[0] == 'e':
                    if self.empty(F, b):
                        j += 1
                        continue
                    if not self.eq(m1, a[1], m2, A('el', b[1], b[2]), None, F, depth + 1):
                        return False
                    i += 1
                    q[j] = ('x', b[1], add(b[2], I(1)), b[3])
                else:
                    if self.empty(F, a):
                        i += 1
                        continue
                    if not self.eq(m1, A('el', a[1], a[2]), m2, b[1], None, F, depth + 1):
                        return False
                    j += 1
                    p[i] = ('x', a[1], add(a[2], I(1)), a[3])
        rest = p[i:] + q[j:]
        for e in rest:
            if e[0] == 'e':
                return False
            if not self.empty(F, e):
                return False
        return True

    def empty(self, F, e):
        """no element in this run?"""
        d = sub(e[3], e[2])
        if F.entails_le(sub(I(1), d)):
            return False
        if F.entails_le(d):
            return True
        c = b_eqi(e[2], e[3])
        k = F.d.get(F.nf(c), F.d.get(c))
        if k is not None:
            return bool(k)
        if d in F.ne or neg(d) in F.ne or any(sub(x, d) == I(0) or add(x, d) == I(0) for x in F.ne):
            return False
        raise Decide(('b', c), [1, 0])

    # ------------------------------------------------------------------ exploration
    def explore(self):
        try:
            stack = [self.initial()]
        except (Undecided, PathPanic, Infeasible) as e:
            self.undecided.append(f'initial: {e}')
            return self
        n = 0
        while stack:
            n += 1
            if n > self.max_states or self.deadline and time.monotonic() > self.deadline:
                self.undecided.append('state budget exhausted')
                break
            pr = stack.pop()
            try:
                self.advance(pr, stack)
            except Infeasible:
                continue
            except Undecided as e:
                self.undecided.append(f'{e} [{pr.ms[0].line} / {pr.ms[1].line}]' )
                if len(self.undecided) > 40:
                    break
            if len(self.violations) >= 6:
                break
        return self

    def take_up(self, pr, stack):
        q = pr.fork()
        q.psym = None
        try:
            for m in q.ms:
                try:
                    models.resume(m, pr.psym)
                except PathPanic as p:
                    m.block = ('panic', p.kind)
        except Decide as d:
            self.fork(pr, stack, d.atom, d.options)
            return
        if any(m.pending is not None and m.pending[0] == 'drop' for m in q.ms):
            stack.append(q)         # in the middle of a release
            return
        self.joint(q, stack)

    def advance(self, pr, stack):
        if pr.psym is not None:
            return self.take_up(pr, stack)
        for m in pr.ms:
            s0 = m.steps
            b = m.run()
            self.stats['steps'] += m.steps - s0
            if b[0] == 'decide':
                self.fork(pr, stack, b[1], b[2])
                return
        b1, b2 = pr.ms[0].block, pr.ms[1].block
        m1, m2 = pr.ms
        try:
            if not self.same_block(pr, b1, b2):
                return self.mismatch(pr, self.describe(b1, m1), self.describe(b2, m2))
            if b1[0] != 'event':
                self.stats['paths'] += 1
                if b1[0] == 'ret':
                    self.leaks(pr)
                return
        except Decide as d:
            self.fork(pr, stack, d.atom, d.options)
            return
        self.stats['events'] += 1
        sym = SYMS.fresh(b1[3], b1[1])
        pr.trace = pr.trace + (f'{b1[1]}({", ".join(show(x, self.P, 4) for x in b1[2])}) -> #{sym[1]}  [{m1.line}]',)
        pr.psym = sym
        self.take_up(pr, stack)

    def fork(self, pr, stack, atom, options):
        self.stats['decisions'] += 1
        for o in options:
            q = pr.fork()
            try:
                if not decide_apply(q.F, atom, o):
                    continue
            except Infeasible:
                continue
            q.trace = q.trace + (show_atom(atom, o, self.P),)
            if atom[0] == 'b' and atom[1][0] == 'a' and atom[1][1] == 'should_terminate':
                q.term = bool(o)
            stack.append(q)

    def describe(self, b, m):
        if b[0] == 'ret':
            return f'returns {show(m.content(b[1]), self.P)}  [{m.line}]'
        if b[0] == 'unwound':
            return f'passes a panic of a destructor on  [{m.line}]'
        if b[0] == 'panic':
            return f'panics ({b[1]})  [{m.line}]'
        return f'{b[1]}({", ".join(show(x, self.P) for x in b[2])})  [{m.line}]'

    def mismatch(self, pr, got, want):
        b1, b2 = pr.ms[0].block, pr.ms[1].block
        rec = {'path': list(pr.trace), 'implementation': got, 'contract': want, 'where': pr.ms[0].rline or pr.ms[0].line, 'tags': []}
        self.mask = True
        try:
            if self.same_block(pr, b1, b2):
                rec['tags'].append('position')
        except (Decide, Undecided, Infeasible):
            pass
        self.mask = False
        if pr.term is False and 'position' in rec['tags']:
            rec['tags'].append('backtrack')
        if pr.term is True and not self.is_err(pr.ms[0], b1):
            rec['tags'].append('swallowed')
        sf = self.soft(pr, b1, b2)
        if sf:
            self.undecided.append(f'possible mismatch that depends on the uninterpreted {sf}: {got} / {want}')
        elif pr.tainted and not self.pumped(pr):
            self.tainted_mismatch += 1
            self.undecided.append(f'possible mismatch after widening: {got} / {want}')
        else:
            self.violations.append(rec)

    def pumped(self, pr):
        """the path is taken only when a count, seen to grow from one iteration to the next, has become large
        (but no larger than a run can make it).  Not in the storage of the small vector, where lengths and capacities
        are tied to each other and a generalised state may have lost the tie."""
        if self.flags.get('bounded'):
            return False
        for t in pr.F.le:
            for s in lin(t)[1]:
                if s[0] == 's' and s[1] in absdom.GROWN and pr.F.entails_le(sub(I(LARGE), s)) \
                        and not pr.F.entails_le(sub(I(REACH), s)):
                    return True
        return False

    def soft(self, pr, b1, b2):
        """an operation the analysis does not interpret on which this mismatch depends"""
        n1, n2 = b1[1] if b1[0] == 'event' else None, b2[1] if b2[0] == 'event' else None
        if n1 != n2 and 'next_char' in (n1, n2):
            return 'iteration over text'
        seen = set()
        todo = [(b1, pr.ms[0]), (b2, pr.ms[1])]
        out = []

        def walk(v):
            if not isinstance(v, tuple) or v in seen:
                return
            seen.add(v)
            if len(v) > 1 and v[0] == 'a' and isinstance(v[1], str):
                f = v[1]
                if f.startswith(('std:', 'op', 'cast:', 'un')) and f not in ('opaque',) or f in ('bitnot', 'mul', 'const', 'repeat'):
                    out.append(f)
            for x in v:
                if isinstance(x, tuple):
                    walk(x)
        for b, m in todo:
            for v in b[1:]:
                if isinstance(v, tuple) and v and isinstance(v[0], tuple):
                    for y in v:
                        walk(self.safe_content(m, y))
                elif isinstance(v, tuple) and v:
                    walk(self.safe_content(m, v))
        for k in pr.F.d:
            walk(k)
        for t in pr.F.le + pr.F.ne:
            walk(t)
        return out[0] if out else None

    def safe_content(self, m, v):
        try:
            return m.content(v)
        except Exception:
            return v

    def is_err(self, m, b):
        """does this block end the implementation with a failure?"""
        if b[0] != 'ret':
            return False
        t = self.P.types[self.rty]
        if t['k'] != 'adt' or t['p'] != 'core::result::Result':
            return False
        v = b[1]
        if v[0] == 'g':
            return v[2] == 1
        return m.F.d.get(('variant', v)) == 1

    def same_block(self, pr, b1, b2):
        m1, m2 = pr.ms
        if b1[0] != b2[0]:
            return False
        if b1[0] == 'panic':
            return not b1[1].startswith(('undefined behaviour', 'forbidden'))
        if b1[0] == 'unwound':
            return True
        if b1[0] == 'ret':
            return self.eq(m1, m1.content(b1[1]), m2, m2.content(b2[1]), self.rty, pr.F)
        if b1[1] != b2[1] or len(b1[2]) != len(b2[2]):
            return False
        return all(self.eq(m1, x, m2, y, None, pr.F) for x, y in zip(b1[2], b2[2]))

    def leaks(self, pr):
        """heap storage nobody can release any more"""
        import absdom
        m = pr.ms[0]
        if m.unwinding:
            m.lost = []         # a panicking destructor may leave storage behind, never misuse it
            return
        if m.frames == [] and m.block and m.block[0] == 'ret':
            keep = []
            absdom.refs_in(m.block[1], keep)
            seen = set()
            while keep:
                a = keep.pop()
                if a in seen:
                    continue
                seen.add(a)
                if a in m.mem:
                    absdom.refs_in(m.mem[a], keep)
            m.lost = [a for a, v in m.mem.items() if a[0] == 'H' and a not in seen and v[0] != 'freed']
        if m.lost and not pr.tainted:
            self.violations.append({'path': list(pr.trace), 'implementation': f'heap storage is never released  [{m.rline}]',
                                    'contract': 'all storage is released', 'where': m.rline, 'tags': []})
        elif m.lost:
            self.tainted_mismatch += 1
            self.undecided.append('storage possibly never released after widening')

    # ------------------------------------------------------------------ joint states
    def key(self, pr):
        return tuple(tuple((f.fid, f.bb, f.ix) for f in m.frames) for m in pr.ms)

    def joint(self, pr, stack):
        import absdom
        self.stats['joint_states'] += 1
        if pr.F.inconsistent():
            return
        k = self.key(pr)
        snap = absdom.snapshot(pr, self.P)
        if pr.ms[0].lost:
            self.leaks(pr)
            if not pr.ms[0].unwinding:
                return
        k = (k, tuple(absdom.modes(self.P, mm) for mm in snap.mem))
        for st in self.visited.get(k, ()):
            if absdom.instance(snap, st):
                self.stats['pruned'] += 1
                return
        anc = pr.anc.get(k, ())
        if absdom.DEBUG:
            print('joint', [(self.P.fns[f[0]]['p'], f[1]) for f in k[0][0]][-1], 'anc', len(anc), 'tainted', pr.tainted, 'stored', len(self.visited.get(k, ())))
            print('    ', [t for t in pr.trace[-3:]])
            for mm in snap.mem:
                print('    mem', {a: show(v[0], self.P, 5) for a, v in mm.items()})
            print('    F', {str(show(a[1], self.P, 4) if a[0]=='variant' else show(a, self.P, 4)): v for a, v in snap.F.d.items()}, [show(t, self.P, 5) for t in snap.F.le], snap.F.ne, snap.F.eqs)
        hold = len(anc) >= self.precise and pr.tainted and pr.grace < GRACE and self.pumped(pr)
        if hold:
            pr.grace += 1
        elif len(anc) >= self.precise:
            try:
                w = absdom.widen(anc[-1], snap, pr, len(anc) >= self.precise + 3, self.wary)
            except absdom.Fail as e:
                raise Undecided(f'widening failed: {e}')
            self.stats['widened'] += 1
            snap = w
            absdom.restore(pr, w)
            pr.tainted = True
            pr.trace = pr.trace + ('(generalised over further iterations)',)
        self.visited.setdefault(k, []).append(snap)
        pr.anc = dict(pr.anc)
        pr.anc[k] = anc + (snap,)
        stack.append(pr)
