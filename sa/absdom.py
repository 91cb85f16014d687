"""Joint states: liveness-pruned snapshots, instance (covering) check, and generalisation."""
from terms import *
from engine import Undecided, Frame
import models


import os
DEBUG = bool(os.environ.get('SA_DEBUG'))


class Fail(Exception):
    pass


class Snap:
    __slots__ = ('frames', 'mem', 'F', 'n', 'wid')
    # frames: per machine tuple of (fid,bb,ix,uid,alias,cont,dest,destty,target)
    # mem: per machine dict addr -> (value, ty)


def live_locals(P, m, i):
    fr = m.frames[i]
    if i == len(m.frames) - 1:
        return P.live_at(fr.fid, fr.bb, fr.ix)
    return P.live_after_call(fr.fid, fr.bb)


def refs_in(v, out):
    k = v[0]
    if k == 'r':
        out.append(v[1])
    elif k in ('g',):
        for x in v[3]:
            refs_in(x, out)
    elif k == 'q':
        for p in v[1]:
            for x in p[1:]:
                refs_in(x, out)
        if len(v) > 3 and v[3]:
            refs_in(v[3], out)
    elif k == 'a':
        for x in v[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                refs_in(x, out)
    elif k == 'mref':
        refs_in(v[1], out)
    elif k == 'sl':
        if v[1][0] == 'mem':
            out.append(v[1][1])
        elif v[1][0] in ('at', 'seq'):
            refs_in(v[1][1], out)
    elif k == 'un':
        refs_in(v[2], out)
    elif k in ('&', 'dyn'):
        refs_in(v[1], out)
    elif k == 'p':
        if v[1][0] == 'mem':
            out.append(v[1][1])


def syms_in(v, out):
    if not isinstance(v, tuple):
        return
    if len(v) == 2 and v[0] == 's' and isinstance(v[1], int):
        out.add(v[1])
        return
    for x in v:
        if isinstance(x, tuple):
            syms_in(x, out)


def prune(P, m):
    """forget dead locals and unreachable allocations"""
    keep = {}
    work = [a for a in m.mem if a[0] == 'N']
    for i, fr in enumerate(m.frames):
        lv = live_locals(P, m, i)
        for l in lv:
            a = ('L', fr.uid, l)
            if l == 1 and fr.alias is not None:
                work.append(fr.alias[0])
                continue
            if a in m.mem:
                work.append(a)
        if fr.alias is not None:
            work.append(fr.alias[0])
        if fr.cont is not None and fr.cont[0] == 'drops':
            for (a, x), _ in fr.cont[1]:
                if a == 'run':
                    refs_in(x, work)
                else:
                    work.append(a)
    while work:
        a = work.pop()
        if a in keep or a not in m.mem:
            continue
        v = m.mem[a]
        keep[a] = v
        refs_in(v, work)
    rest = [a for a in m.mem if a[0] == 'D' and a not in keep]
    if rest:                # written memory behind a reference the caller supplied
        live = set()
        for v in keep.values():
            syms_in(v, live)
        for a in rest:
            o = set()
            syms_in(a[1], o)
            if o & live:
                keep[a] = m.mem[a]
                refs_in(m.mem[a], work)
        while work:
            a = work.pop()
            if a not in keep and a in m.mem:
                keep[a] = m.mem[a]
                refs_in(m.mem[a], work)
    for i, fr in enumerate(m.frames):
        for l in range(len(P.fns[fr.fid]['locals'])):
            a = ('L', fr.uid, l)
            if a not in keep:
                keep[a] = U
    m.lost = [a for a, v in m.mem.items() if a[0] == 'H' and a not in keep and v[0] != 'freed']
    m.mem = keep
    m.mty = {a: t for a, t in m.mty.items() if a in keep or a[0] == 'D'}


BOOL_OPS = ('eq0', 'le0', 'not', 'and', 'or')


def settle(m, v, ty=None):
    """replace truth values that the facts decide"""
    if not isinstance(v, tuple) or not v:
        return v
    P = m.P
    isb = ty is not None and P.types[ty]['k'] == 'bool'
    if (v[0] == 'a' and v[1] in BOOL_OPS) or (isb and v[0] in ('s', 'a', 'lin')):
        try:
            return I(int(m.truth(v)))
        except Exception:
            return v
    if v[0] == 'g':
        fts = [None] * len(v[3])
        if v[1] is not None and v[3]:
            try:
                fts = list(P.field_types(v[1], v[2]))
            except Exception:
                pass
            if len(fts) != len(v[3]):
                fts = [None] * len(v[3])
        fs = tuple(settle(m, f, t) for f, t in zip(v[3], fts))
        return v if fs == v[3] else ('g', v[1], v[2], fs)
    if v[0] == 'q':
        ps = tuple(p for p in v[1] if p[0] != 'x' or not m.F.entails_le(sub(p[3], p[2])))
        return v if len(ps) == len(v[1]) else ('q', ps) + v[2:]
    return v


def modes(P, mem):
    """the finitely many control-like values in a state: truth values and enum variants, by place.
    States are generalised only against an ancestor in the same mode."""
    out = []

    def walk(v, ty, path):
        if ty is not None and P.types[ty]['k'] == 'bool' and v[0] == 'i':
            out.append((path, v[1]))
        if v[0] == 'g':
            if v[2] is not None:
                out.append((path, 'variant', v[2]))
            if v[1] is not None and P.types[v[1]]['k'] == 'array' and any(f[0] in ('u', 'mv') for f in v[3]):
                out.append((path, 'slots', tuple(f[0] in ('u', 'mv') for f in v[3])))
        if v[0] == 'un':
            out.append((path, 'field', v[1]))
            if v[2][0] == 'g':
                walk(v[2], v[2][1], path + ('un',))
        if v[0] == 'g':
            if v[1] is not None and v[3]:
                try:
                    fts = list(P.field_types(v[1], v[2]))
                except Exception:
                    return
                if len(fts) == len(v[3]):
                    for j, (f, t) in enumerate(zip(v[3], fts)):
                        walk(f, t, path + (j,))
    for a, (v, ty) in mem.items():
        walk(v, ty, (a[0], a[2] if a[0] == 'L' else ty))
    return tuple(sorted(out, key=repr))


def snapshot(pr, P):
    live = set()
    for t in pr.F.le:
        if pr.F.nf(t)[0] != 'i' and pr.F.entails_le(neg(t)):
            pr.F.add_eq(t)
    for m in pr.ms:
        prune(P, m)
        m.mem = {a: settle(m, pr.F.nf(v) if v != U else v, m.mty.get(a)) for a, v in m.mem.items()}
        for v in m.mem.values():
            syms_in(v, live)
    if pr.ms[0].flags.get('scalars'):
        live = scalars(pr, live)
    forget(pr.F, live)
    s = Snap()
    s.frames = tuple(tuple((f.fid, f.bb, f.ix, f.uid, f.alias, f.cont, f.dest, f.destty, f.target) for f in m.frames) for m in pr.ms)
    s.mem = tuple({a: (v, m.mty.get(a)) for a, v in m.mem.items() if v != U} for m in pr.ms)
    s.F = pr.F.copy()
    s.n = tuple(m.n for m in pr.ms)
    s.wid = frozenset()
    return s


def els_in(v, out):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'a' and v[1] == 'el':
            out.add(v)
        for x in v:
            if isinstance(x, tuple):
                els_in(x, out)


def replace(v, m):
    if not isinstance(v, tuple):
        return v
    if v in m:
        return m[v]
    r = tuple(replace(x, m) if isinstance(x, tuple) else x for x in v)
    return v if r == v else r


def scalars(pr, live):
    """items kept from a sequence that is itself no longer reachable are just values"""
    els = set()
    for m in pr.ms:
        for v in m.mem.values():
            els_in(v, els)
    sub_ = {e: ('s', -1) for e in els}
    left = set()
    for m in pr.ms:
        for v in m.mem.values():
            syms_in(replace(v, sub_), left)
    names = {}
    for e in sorted(els, key=repr):
        o = set()
        syms_in(e[2], o)
        if o and not (o & left):
            names[e] = SYMS.fresh(None, 'item')
    if not names:
        return live
    live = set()
    for m in pr.ms:
        m.mem = {a: replace(v, names) for a, v in m.mem.items()}
        for v in m.mem.values():
            syms_in(v, live)
    F = pr.F
    F.d = {replace(k, names): v for k, v in F.d.items()}
    return live


def forget(F, live):
    """drop facts about symbols no longer reachable (linear facts are projected)"""
    def ok(t):
        o = set()
        syms_in(t, o)
        return o <= live
    F.d = {k: v for k, v in F.d.items() if ok(k)}
    F.ne = tuple(t for t in F.ne if ok(t))
    eqs = []
    for x, y in F.eqs:
        if ok(x) and ok(y):
            eqs.append((x, y))
    dead = set()
    for t in F.le:
        for v in lin(t)[1]:
            if not ok(v):
                dead.add(v)
    if dead:
        cons = [lin(t) for t in F.le]
        for v in dead:
            cons.append((0, {v: -1}))
            if v[0] == 'a' and v[1] in BOUNDS:
                lo, hi = BOUNDS[v[1]]
                cons.append((-hi, {v: 1}))
                cons.append((lo, {v: -1}))
        for v in sorted(dead, key=repr):
            pos = [c for c in cons if c[1].get(v, 0) > 0]
            ng = [c for c in cons if c[1].get(v, 0) < 0]
            oth = [c for c in cons if c[1].get(v, 0) == 0]
            if len(pos) * len(ng) > 400:
                pos = []
            for c1, d1 in pos:
                for c2, d2 in ng:
                    a, b = d1[v], -d2[v]
                    t = add(scale(unlin(c1, d1), b), scale(unlin(c2, d2), a))
                    if t[0] != 'i':
                        oth.append(lin(t))
            cons = oth
        le = []
        for c, d in cons:
            t = unlin(c, d)
            if t[0] != 'i' and t not in le:
                le.append(t)
        F.le = tuple(le)
    F.eqs = tuple(eqs)
    F._cache = {}
    F._nf = {}
    tidy(F)


def tidy(F):
    """remove facts implied by the others"""
    for t in list(F.le):
        rest = tuple(x for x in F.le if x != t)
        G = Facts()
        G.le = rest
        G.eqs = F.eqs
        if G.entails_le(t):
            F.le = rest
    F._cache = {}
    F.ne = tuple(t for t in F.ne if not (F.entails_le(add(t, I(1))) or F.entails_le(add(neg(t), I(1)))))


# ------------------------------------------------------------------ instance check
def spare_of(q):
    return q[3][1] if len(q) > 3 and q[3] else ()


class Match:
    def __init__(self, cur, st):
        self.cur, self.st = cur, st
        self.sub = {}
        self.addr = [{}, {}]
        self.uid = [{}, {}]
        self.work = []
        self.lins = []
        self.F = cur.F

    def fail(self, why=''):
        raise Fail(why)

    def a(self, i, x, y):
        """address x of the stored state corresponds to y of the current one"""
        if x[0] != y[0]:
            self.fail('addr kind')
        if x[0] == 'L':
            if self.uid[i].get(x[1]) != y[1] or x[2] != y[2]:
                self.fail('addr local')
            if x in self.st.mem[i] or y in self.cur.mem[i]:
                if x not in self.addr[i]:
                    self.addr[i][x] = y
                    self.work.append((i, x, y))
            return
        if x[0] in ('D', 'SL', 'K'):
            self.v(i, x[1], y[1], None)
            return
        if x in self.addr[i]:
            if self.addr[i][x] != y:
                self.fail('addr alias')
            return
        self.addr[i][x] = y
        self.work.append((i, x, y))

    def path(self, i, p, q):
        if len(p) != len(q):
            self.fail('path')
        for x, y in zip(p, q):
            if isinstance(x, tuple) and x[0] == 'ix' and isinstance(y, tuple) and y[0] == 'ix':
                self.v(i, x[1], y[1], None)
            elif x != y:
                self.fail('path')

    def v(self, i, x, y, ty):
        """stored value x must generalise current value y"""
        k = x[0]
        if k == 's':
            o = self.sub.get(x[1])
            if o is None:
                if has_raw_ref(y):
                    self.fail('symbol bound to reference')
                self.sub[x[1]] = y
            elif not self.same(o, y):
                self.fail('symbol conflict')
            return
        if k == 'lin' or k == 'i':
            if y[0] not in ('lin', 'i', 's', 'a'):
                self.fail('int')
            self.lins.append((x, y))
            return
        if x == y and k in ('u', 'mv'):
            return
        if k == 'r':
            if y[0] != 'r':
                self.fail('ref')
            self.a(i, x[1], y[1])
            self.path(i, x[2], y[2])
            return
        if k == 'g':
            if y[0] == 'g':
                if x[1] != y[1] or x[2] != y[2] or len(x[3]) != len(y[3]):
                    self.fail('aggregate')
                for p, q in zip(x[3], y[3]):
                    self.v(i, p, q, None)
                return
            if y[0] in ('s', 'a') and x[2] is None:
                for j, p in enumerate(x[3]):
                    if p[0] == 'g' and not p[3] and p[2] is None:
                        continue
                    self.v(i, p, A('fld', j, y), None)
                return
            if y[0] in ('s', 'a') and self.F.d.get(('variant', y)) == x[2]:
                for j, p in enumerate(x[3]):
                    self.v(i, p, A('vf', x[2], j, y), None)
                return
            self.fail('aggregate vs other')
        if k == 'a':
            if y[0] == 'a' and x[1] == y[1] and len(x) == len(y):
                for p, q in zip(x[2:], y[2:]):
                    if isinstance(p, tuple) and p and isinstance(p[0], str):
                        if not isinstance(q, tuple):
                            self.fail('term')
                        self.v(i, p, q, None)
                    elif p != q:
                        self.fail('term arg')
                return
            # projections of a symbol can be matched later through the substitution
            self.lins.append((x, y))
            return
        if k == 'q':
            if y[0] != 'q':
                y = ('q', (('x', y, I(0), A('len', y)),), None) if y[0] in ('s', 'a') else self.fail('seq')
            self.seq(i, x[1], y[1])
            if len(x) > 2 and x[2] is not None:
                if y[2] is None:
                    self.fail('cap')
                self.v(i, x[2], y[2], None)
            sx, sy = spare_of(x), spare_of(y)
            if len(sx) != len(sy) or x[4:] != y[4:]:
                self.fail('spare')
            self.seq(i, sx, sy)
            return
        if k in ('sl',):
            if y[0] != 'sl':
                self.fail('slice')
            self.base(i, x[1], y[1])
            self.v(i, x[2], y[2], None)
            self.v(i, x[3], y[3], None)
            return
        if k == 'p':
            if y[0] != 'p':
                self.fail('ptr')
            self.base(i, x[1], y[1])
            self.v(i, x[2], y[2], None)
            return
        if k == 'un':
            if y[0] != 'un' or x[1] != y[1]:
                self.fail('union')
            self.v(i, x[2], y[2], None)
            return
        if k in ('&', 'dyn'):
            if y[0] != k:
                self.fail(k)
            self.v(i, x[1], y[1], None)
            return
        if k == 'mref':
            if y[0] != 'mref' or x[2] != y[2]:
                self.fail(k)
            self.v(i, x[1], y[1], None)
            return
        if x != y:
            self.fail(f'value {k}')

    def base(self, i, x, y):
        if x[0] == 'mem' and y[0] == 'mem':
            self.a(i, x[1], y[1])
            self.path(i, x[2], y[2])
        elif x[0] in ('s', 'a', 'q') and y[0] in ('s', 'a', 'q'):
            self.v(i, x, y, None)
        elif x[0] == y[0] and x[0] in ('at', 'seq'):
            self.v(i, x[1], y[1], None)
        elif x != y:
            self.fail('base')

    def seq(self, i, p, q):
        if len(p) == 1 and p[0][0] == 'x' and p[0][1][0] == 's' and p[0][2] == I(0) and p[0][3] == A('len', p[0][1]) and p[0][1][1] in WIDENED_SEQ:
            n = p[0][1][1]
            if len(q) == 1 and q[0][0] == 'x' and q[0][2] == I(0) and q[0][3] == A('len', q[0][1]):
                y = q[0][1]
            else:
                y = ('q', tuple(q), None)
            o = self.sub.get(n)
            if o is None:
                self.sub[n] = y
            elif not self.same(o, y):
                self.fail('seq conflict')
            return
        if len(p) != len(q):
            self.fail('seq shape')
        for a, b in zip(p, q):
            if a[0] != b[0]:
                self.fail('seq shape')
            for x, y in zip(a[1:], b[1:]):
                self.v(i, x, y, None)

    def same(self, a, b):
        if a == b or self.F.nf(a) == self.F.nf(b):
            return True
        if a[0] in ('i', 'lin', 's', 'a') and b[0] in ('i', 'lin', 's', 'a') and (a[0] in ('i', 'lin') or b[0] in ('i', 'lin')):
            return self.F.entails_eq(a, b)
        if a[0] == 'q' and b[0] == 'q' and len(a[1]) == len(b[1]):
            return all(p[0] == r[0] and all(self.same(s, t) for s, t in zip(p[1:], r[1:])) for p, r in zip(a[1], b[1]))
        if a[0] == 'g' and b[0] == 'g' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            return all(self.same(p, q) for p, q in zip(a[3], b[3]))
        return False

    def apply(self, t):
        return rewrite(t, {('s', k): v for k, v in self.sub.items()})

    def unbound(self, t):
        o = set()
        syms_in(t, o)
        return {s for s in o if s not in self.sub}

    def run(self):
        cur, st = self.cur, self.st
        for i in range(len(st.frames)):
            fa, fb = st.frames[i], cur.frames[i]
            if len(fa) != len(fb):
                self.fail('frames')
            for x, y in zip(fa, fb):
                if x[:3] != y[:3] or x[7] != y[7] or x[8] != y[8]:
                    self.fail('frame pc')
                self.uid[i][x[3]] = y[3]
            for x, y in zip(fa, fb):
                for p, q in ((x[4], y[4]), (x[6], y[6])):
                    if (p is None) != (q is None):
                        self.fail('frame')
                    if p is not None:
                        self.a(i, p[0], q[0])
                        self.path(i, p[1], q[1])
                if (x[5] is None) != (y[5] is None) or (x[5] is not None and x[5][0] != y[5][0]):
                    self.fail('cont')
                if x[5] is not None and x[5][0] == 'ready' and x[5] != y[5]:
                    self.fail('cont')
                if x[5] is not None and x[5][0] not in ('ready', 'drops'):
                    if x[5] != y[5]:
                        self.fail('cont')
                if x[5] is not None and x[5][0] == 'drops':
                    if len(x[5][1]) != len(y[5][1]):
                        self.fail('cont')
                    for (p, pt), (q, qt) in zip(x[5][1], y[5][1]):
                        if (p[0] == 'run') != (q[0] == 'run') or pt != qt:
                            self.fail('cont')
                        if p[0] == 'unwind' or q[0] == 'unwind':
                            if p != q:
                                self.fail('cont')
                            continue
                        if p[0] == 'run':
                            self.v(i, p[1], q[1], None)
                            continue
                        self.a(i, p[0], q[0])
                        self.path(i, p[1], q[1])
            for a in st.mem[i]:
                if a[0] == 'N':
                    self.a(i, a, a)
                if a[0] == 'L' and a[1] in self.uid[i]:
                    self.a(i, a, ('L', self.uid[i][a[1]], a[2]))
        done = set()
        while self.work:
            i, x, y = self.work.pop()
            vx, vy = st.mem[i].get(x), cur.mem[i].get(y)
            if vx is None:
                continue        # dead in the stored state
            if vy is None:
                self.fail('missing cell')
            self.v(i, vx[0], vy[0], vx[1])
        # linear terms, now that symbols are bound
        pend = self.lins
        for _ in range(12):
            nxt = []
            for x, y in pend:
                ub = self.unbound(x)
                if not ub:
                    if not self.same(self.apply(x), y):
                        self.fail(f'linear {x} {y}')
                    continue
                c, d = lin(x)
                solved = False
                if len(ub) == 1:
                    s = ('s', next(iter(ub)))
                    if d.get(s) in (1, -1) and all(t == s or not self.unbound(t) for t in d):
                        k = d[s]
                        rest = unlin(c, {t: z for t, z in d.items() if t != s})
                        self.sub[s[1]] = scale(sub(y, self.apply(rest)), k)
                        solved = True
                if not solved:
                    nxt.append((x, y))
            if not nxt:
                break
            if len(nxt) == len(pend):
                # no equation has a single unknown: line up terms with equal coefficients
                (c, d), (e, f) = lin(nxt[0][0]), lin(nxt[0][1])
                if c != e or sorted(d.values()) != sorted(f.values()) or len(set(d.values())) != len(d):
                    self.fail('unsolved')
                self.lins = []
                for t, k in d.items():
                    u = [w for w, j in f.items() if j == k][0]
                    if t[0] == 'a':
                        # a projection of something: the same projection of its counterpart
                        if u[0] != 'a' or u[1] != t[1]:
                            self.fail('unsolved')
                    self.v(None, t, u, None)
                if any(x[0] == 'a' for x, _ in self.lins) and self.lins == nxt[:1]:
                    self.fail('unsolved')
                nxt += self.lins
            pend = nxt
        else:
            self.fail('unsolved')
        # facts of the stored state must hold here
        F = cur.F
        for s, v in self.sub.items():
            if s in NONNEG and not F.entails_le(neg(v)):
                self.fail('nonneg')
        for k, val in st.F.d.items():
            if k[0] == 'variant':
                if self.unbound(k[1]):
                    self.fail('fact symbol')
                t = self.apply(k[1])
                if t[0] == 'g':
                    if t[2] != val:
                        self.fail('variant fact')
                elif F.d.get(('variant', t)) != val and F.d.get(('variant', F.nf(t))) != val:
                    self.fail('variant fact')
            else:
                if self.unbound(k):
                    self.fail('fact symbol')
                t = self.apply(k)
                if t[0] == 'i':
                    if bool(t[1]) != val:
                        self.fail('bool fact')
                elif F.d.get(t) != val and F.d.get(F.nf(t)) != val:
                    self.fail('bool fact')
        for t in st.F.le:
            if self.unbound(t):
                self.fail('fact symbol')
            if not F.entails_le(self.apply(t)):
                self.fail('le fact')
        for t in st.F.ne:
            if self.unbound(t):
                self.fail('fact symbol')
            u = self.apply(t)
            if u[0] == 'i' and u[1] != 0:
                continue
            if not (u in F.ne or neg(u) in F.ne or F.entails_le(add(u, I(1))) or F.entails_le(add(neg(u), I(1)))):
                self.fail('ne fact')
        for x, y in st.F.eqs:
            if self.unbound(x) or self.unbound(y):
                self.fail('fact symbol')
            if not self.same(self.apply(x), self.apply(y)):
                self.fail('eq fact')
        return True


WIDENED_SEQ = set()
NONNEG = set()


def has_raw_ref(v):
    o = []
    refs_in(v, o)
    return bool(o)


def instance(cur, st):
    try:
        return Match(cur, st).run()
    except Fail as e:
        if DEBUG:
            print('   no match:', e)
        return False


# ------------------------------------------------------------------ generalisation
def ratio(d, e):
    """integer c with d = c*e, or None"""
    (c1, m1), (c2, m2) = lin(d), lin(e)
    if set(m1) != set(m2) or not m2:
        return None
    t = next(iter(m2))
    if m1[t] % m2[t]:
        return None
    c = m1[t] // m2[t]
    return c if sub(d, scale(e, c)) == I(0) else None


def int_atoms(v, out):
    if not isinstance(v, tuple):
        return
    if v and v[0] == 'lin' and len(v) == 3:
        for t, _ in v[2]:
            out.add(t)
            int_atoms(t, out)
        return
    for x in v:
        int_atoms(x, out)


def compound(v):
    if not isinstance(v, tuple):
        return False
    if v and v[0] == 'lin' and len(v) == 3:
        return sum(1 for t, _ in v[2] if t[0] == 's') >= 2
    return any(compound(x) for x in v)


def run_len(parts):
    n = I(0)
    for e in parts:
        n = add(n, I(1) if e[0] == 'e' else e[1] if e[0] == 'n' else sub(e[3], e[2]))
    return n


class Gen:
    def __init__(self, a, b, coarse=False, wary=False):
        self.A, self.B = a, b
        self.wary = wary
        self.coarse = coarse
        self.memo = {}
        self.K = None
        self.addr = [{}, {}]
        self.uid = [{}, {}]
        self.work = []
        self.out = [{}, {}]
        self.dirs = []
        self.slots = []
        self.pairs = []         # every generalised number, with its value at both ends
        self.lens = []          # length of each generalised sequence, at both ends
        self.ints = set()
        for st in (a, b):
            for t in st.F.le:
                self.ints |= set(lin(t)[1])
            for mm in st.mem:
                for v, _ in mm.values():
                    int_atoms(v, self.ints)

    def counter(self):
        if self.K is None:
            self.K = SYMS.fresh(None, 'iter')
            NONNEG.add(self.K[1])
            GROWN.add(self.K[1])
        return self.K

    def ad(self, i, x, y):
        if x[0] != y[0]:
            raise Fail('address kind')
        if x[0] == 'L':
            if self.uid[i].get(x[1]) != y[1] or x[2] != y[2]:
                raise Fail('local')
        if x[0] in ('D', 'SL', 'K'):
            return (y[0], self.v(i, x[1], y[1]))
        if x in self.addr[i]:
            if self.addr[i][x] != y:
                raise Fail('alias')
            return y
        self.addr[i][x] = y
        self.work.append((i, x, y))
        return y

    def path(self, i, p, q):
        if len(p) != len(q):
            raise Fail('path')
        out = []
        for x, y in zip(p, q):
            if isinstance(x, tuple) and x[0] == 'ix' and isinstance(y, tuple) and y[0] == 'ix':
                out.append(('ix', self.v(i, x[1], y[1])))
            elif x == y:
                out.append(y)
            else:
                raise Fail('path')
        return tuple(out)

    def fresh(self, x, y, note='w'):
        k = (x, y)
        if k not in self.memo:
            if has_raw_ref(x) or has_raw_ref(y):
                raise Fail('generalising references')
            self.memo[k] = SYMS.fresh(None, note)
        return self.memo[k]

    def num(self, x, y):
        d = sub(y, x)
        if self.coarse:
            # the pair of values itself is the name of the slot
            w = self.fresh(x, y)
            if (w, x, y) not in self.slots:
                self.slots.append((w, x, y))
            return w
        if d[0] == 'i':
            return add(x, scale(self.counter(), d[1]))
        # slots that moved in proportion stay tied to each other
        for dj, xj, wj in self.dirs:
            c = ratio(d, dj)
            if c is not None:
                return add(x, scale(sub(wj, xj), c))
        w = self.fresh(x, y)
        self.dirs.append((d, x, w))
        self.slots.append((w, x, y))
        return w

    def v(self, i, x, y):
        if x == y and not has_raw_ref(x) and not (self.coarse and compound(x)):
            return y
        if (x, y) in self.memo:
            return self.memo[(x, y)]
        kx, ky = x[0], y[0]
        if kx in ('i', 'lin') or ky in ('i', 'lin') or (('s' in (kx, ky)) and (x in self.ints or y in self.ints)):
            if kx in ('i', 'lin', 's', 'a') and ky in ('i', 'lin', 's', 'a'):
                w = self.num(x, y)
                if (w, x, y) not in self.pairs:
                    self.pairs.append((w, x, y))
                d = sub(y, x)
                if d[0] == 'i' and d[1] > 0:
                    GROWN.update(t[1] for t in lin(w)[1] if t[0] == 's')
                return w
        if kx == 'r' and ky == 'r':
            return ('r', self.ad(i, x[1], y[1]), self.path(i, x[2], y[2]))
        if kx == 'g' and ky == 'g' and x[1] == y[1] and x[2] == y[2] and len(x[3]) == len(y[3]):
            return ('g', y[1], y[2], tuple(self.v(i, p, q) for p, q in zip(x[3], y[3])))
        if kx == 'a' and ky == 'a' and x[1] == y[1] and len(x) == len(y):
            ok = True
            for p, q in zip(x[2:], y[2:]):
                tp = isinstance(p, tuple) and p and isinstance(p[0], str)
                if tp != (isinstance(q, tuple) and bool(q) and isinstance(q[0], str)) or (not tp and p != q):
                    ok = False
            if ok:
                return ('a', y[1]) + tuple(self.v(i, p, q) if isinstance(p, tuple) and p and isinstance(p[0], str) else q
                                           for p, q in zip(x[2:], y[2:]))
        if kx == 'q' or ky == 'q':
            px = x if kx == 'q' else ('q', (('x', x, I(0), A('len', x)),), None) if kx in ('s', 'a') else None
            py = y if ky == 'q' else ('q', (('x', y, I(0), A('len', y)),), None) if ky in ('s', 'a') else None
            if px is None or py is None:
                raise Fail('seq')
            cap = None
            if len(px) > 2 and len(py) > 2 and px[2] is not None and py[2] is not None:
                cap = self.v(i, px[2], py[2])
            if px[4:] != py[4:]:
                raise Fail('element size')
            sx, sy = spare_of(px), spare_of(py)
            tail = ()
            if sx or sy:
                if len(sx) != len(sy):
                    raise Fail('spare')
                tail = (('q', self.seq(i, sx, sy)),)
            elif px[4:]:
                tail = (None,)
            return ('q', self.seq(i, px[1], py[1]), cap) + tail + tuple(py[4:])
        if kx == ky and kx == 'sl':
            return ('sl', self.base(i, x[1], y[1]), self.v(i, x[2], y[2]), self.v(i, x[3], y[3]))
        if kx == ky and kx == 'p':
            return ('p', self.base(i, x[1], y[1]), self.v(i, x[2], y[2]))
        if kx == ky and kx == 'un' and x[1] == y[1]:
            return ('un', x[1], self.v(i, x[2], y[2]))
        if kx == ky and kx in ('&', 'dyn'):
            return (kx, self.v(i, x[1], y[1]))
        if kx == ky and kx == 'mref' and x[2] == y[2]:
            return ('mref', self.v(i, x[1], y[1]), x[2])
        if kx in ('u', 'mv') or ky in ('u', 'mv'):
            if kx == ky:
                return y
            return U
        if (x in self.ints or y in self.ints) and kx in ('s', 'a') and ky in ('s', 'a'):
            w = self.fresh(x, y)
            if (w, x, y) not in self.slots:
                self.slots.append((w, x, y))
                self.pairs.append((w, x, y))
            return w
        return self.fresh(x, y)

    def base(self, i, x, y):
        if x[0] == 'mem' and y[0] == 'mem':
            return ('mem', self.ad(i, x[1], y[1]), self.path(i, x[2], y[2]))
        if x == y:
            return y
        if x[0] in ('s', 'a', 'q') and y[0] in ('s', 'a', 'q'):
            return self.v(i, x, y)
        if x[0] == y[0] and x[0] in ('at', 'seq'):
            return (x[0], self.v(i, x[1], y[1]))
        raise Fail('slice base')

    def canon(self, F, parts):
        """one spelling for runs that reach the end of their sequence"""
        out = []
        for e in parts:
            if e[0] == 'x':
                if F.entails_eq(e[2], e[3]):
                    continue
                ln = A('len', e[1])
                hi = e[3]
                if hi != ln:
                    d = sub(hi, ln)
                    for k in (0, -1, 1, -2):
                        if F.entails_eq(d, I(k)):
                            hi = add(ln, I(k))
                            break
                e = ('x', e[1], e[2], hi)
            out.append(e)
        return tuple(out)

    def seq(self, i, p, q):
        def wid(l):
            return any(e[0] == 'x' and e[1][0] == 's' and e[1][1] in WIDENED_SEQ for e in l)
        if len(p) == len(q) and all(a[0] == b[0] for a, b in zip(p, q)) and (tuple(p) == tuple(q) or not (wid(p) or wid(q))):
            return tuple((a[0],) + tuple(self.v(i, s, t) for s, t in zip(a[1:], b[1:])) for a, b in zip(p, q))
        p, q = self.canon(self.A.F, p), self.canon(self.B.F, q)
        k = (('seq', tuple(p)), ('seq', tuple(q)))
        if k not in self.memo:
            for a in tuple(p) + tuple(q):
                for z in a[1:]:
                    if has_raw_ref(z):
                        raise Fail('sequence of references')
            s = SYMS.fresh(None, 'seq')
            WIDENED_SEQ.add(s[1])
            self.memo[k] = s
            self.lens.append((A('len', s), run_len(p), run_len(q)))
        s = self.memo[k]
        return (('x', s, I(0), A('len', s)),)

    def run(self):
        a, b = self.A, self.B
        frames = []
        for i in range(len(a.frames)):
            fa, fb = a.frames[i], b.frames[i]
            if len(fa) != len(fb):
                raise Fail('frames')
            for x, y in zip(fa, fb):
                if x[:3] != y[:3]:
                    raise Fail('pc')
                self.uid[i][x[3]] = y[3]
            fo = []
            for x, y in zip(fa, fb):
                al = de = None
                if y[4] is not None:
                    al = (self.ad(i, x[4][0], y[4][0]), self.path(i, x[4][1], y[4][1]))
                if y[6] is not None:
                    de = (self.ad(i, x[6][0], y[6][0]), self.path(i, x[6][1], y[6][1]))
                if (x[5] is None) != (y[5] is None) or (x[5] and x[5][0] != y[5][0]):
                    raise Fail('cont')
                if x[5] and x[5][0] == 'drops':
                    if len(x[5][1]) != len(y[5][1]):
                        raise Fail('cont')
                    for (p, pt), (q, qt) in zip(x[5][1], y[5][1]):
                        if p[0] == 'run' or q[0] == 'run' or pt != qt:
                            raise Fail('cont')
                        if p[0] == 'unwind' or q[0] == 'unwind':
                            if p != q:
                                raise Fail('cont')
                            continue
                        self.ad(i, p[0], q[0])
                fo.append(y[:4] + (al, y[5], de) + y[7:])
            frames.append(tuple(fo))
            for l in a.mem[i]:
                if l[0] == 'N' and l in b.mem[i]:
                    self.addr[i][l] = l
                    self.work.append((i, l, l))
                if l[0] == 'L' and l[1] in self.uid[i]:
                    self.ad(i, l, ('L', self.uid[i][l[1]], l[2]))
        while self.work:
            i, x, y = self.work.pop()
            vx, vy = a.mem[i].get(x), b.mem[i].get(y)
            if vx is None or vy is None:
                continue
            self.out[i][y] = (self.v(i, vx[0], vy[0]), vy[1])
        s = Snap()
        s.frames = tuple(frames)
        s.mem = tuple(self.out)
        s.n = b.n
        s.wid = frozenset()
        s.F = self.facts()
        return s

    def facts(self):
        """facts common to both states, generalised with the same substitution; kept when they hold
        at both ends (their preservation is what the next covering check establishes)"""
        A_, B_ = self.A.F, self.B.F
        live = set()
        for mm in self.out:
            for v, _ in mm.values():
                syms_in(v, live)
        F = Facts()
        for k, val in B_.d.items():
            if A_.d.get(k) == val:
                F.d[k] = val
        # generalise pairwise facts on corresponding terms
        for ka, va in A_.d.items():
            for kb, vb in B_.d.items():
                if va != vb or ka == kb or ka[0] != kb[0]:
                    continue
                try:
                    if ka[0] == 'variant':
                        g = ('variant', self.v(0, ka[1], kb[1]))
                    else:
                        if ka[1] != kb[1]:
                            continue
                        g = self.v(0, ka, kb)
                except Fail:
                    continue
                o = set()
                syms_in(g, o)
                if o <= live:
                    F.d[g] = va
        le = []
        for t in B_.le:
            if A_.entails_le(t):
                le.append(t)
        n0 = len(self.memo)
        for ta in A_.le:
            for tb in B_.le:
                if ta == tb:
                    continue
                (c1, d1), (c2, d2) = lin(ta), lin(tb)
                if len(d1) != len(d2) or sorted(d1.values()) != sorted(d2.values()):
                    continue
                # pair atoms by shape
                g = I(0)
                ok = True
                used = set()
                for t, c in sorted(d1.items(), key=lambda z: repr(z[0])):
                    cand = [u for u, cc in d2.items() if cc == c and u not in used and u[0] == t[0] and (u[0] != 'a' or u[1] == t[1])]
                    if t in cand:
                        cand = [t]
                    if not cand:
                        ok = False
                        break
                    u = cand[0]
                    used.add(u)
                    try:
                        g = add(g, scale(self.v(0, t, u), c))
                    except Fail:
                        ok = False
                        break
                if not ok:
                    continue
                dc = c2 - c1
                g = add(g, add(I(c1), scale(self.counter(), dc)) if dc else I(c1))
                o = set()
                syms_in(g, o)
                if o <= live and g[0] != 'i' and g not in le:
                    le.append(g)
        le += self.zones(live) + self.lengths(live)
        for t in le:
            F.add_le(t)
        if self.K is not None and self.K[1] in live:
            F.add_le(neg(self.K))
        for x in B_.eqs:
            if x in A_.eqs:
                F.eqs = F.eqs + (x,)
        F.ne = tuple(t for t in B_.ne if t in A_.ne)
        forget(F, live)
        return F


    def lengths(self, live):
        """lengths of generalised sequences, tied to the slots that move with them"""
        out = []
        live = set(live)
        for ln, x, y in self.lens:
            if ln[2][1] not in live:
                continue
            n0, more = len(out), []
            for w, u, v in self.pairs + [(I(0), I(0), I(0))] + [(a, a, a) for a in sorted(self.ints, key=repr)]:
                o = set()
                syms_in(w, o)
                if not o <= live:
                    continue
                c = next((c for c in (0, 1, -1, 2, -2) if self.A.F.entails_eq(sub(x, u), I(c)) and self.B.F.entails_eq(sub(y, v), I(c))), None)
                if c is not None:
                    out.append((ln, add(w, I(c))))
                else:
                    d = sub(x, u)
                    if u != v and d == sub(y, v):
                        more.append((ln, add(w, d)))
            if len(out) == n0:
                out += more
        res = []
        for a, b in out:
            o = set()
            syms_in(b, o)
            if o <= live:
                res += [sub(a, b), sub(b, a)]
        return res

    def zones(self, live):
        """bounds and differences of the generalised slots that hold at both ends"""
        A_, B_ = self.A.F, self.B.F
        out = []
        others = set()
        for F in (A_, B_):
            for t in F.le:
                for a in lin(t)[1]:
                    o = set()
                    syms_in(a, o)
                    if o <= live:
                        others.add(a)
        slots = [z for z in self.slots if z[0][1] in live]
        if self.K is not None and self.K[1] in live:
            slots.append((self.K, I(0), I(1)))

        E_ = Facts()

        def hold(fa, fb):
            return A_.entails_le(fa) and B_.entails_le(fb)

        def chance(fa, fb):
            # holds at both ends only because lengths are not negative
            return fa[0] != 'i' and fb[0] != 'i' and E_.entails_le(fa) and E_.entails_le(fb)
        consts = {1, 0, -1}
        for F in (A_,) if self.coarse else (A_, B_):
            for t in F.le:
                c = lin(t)[0]
                if self.coarse:
                    # bounds that keep moving are given up
                    if abs(c) <= 8:
                        consts |= {c, -c}
                elif abs(c) <= 64:
                    consts |= {c, -c, c + 1, 1 - c, c - 1, -c - 1}
        consts = sorted(consts, reverse=True)
        for n, (w, x, y) in enumerate(slots):
            rivals = [(a, a, a) for a in sorted(others, key=repr) if not any(a == z[0] for z in slots)]
            rivals += slots[:n]
            for sgn in (1, -1):
                for c in consts:
                    fa, fb = add(scale(x, sgn), I(c)), add(scale(y, sgn), I(c))
                    if fa[0] != 'i' and hold(fa, fb):
                        out.append(add(scale(w, sgn), I(c)))
                        break
                for a, xa, ya in rivals:
                    for s2 in (1, -1):
                        for c in (1, 0, -1):
                            fa, fb = add(add(scale(x, sgn), scale(xa, s2)), I(c)), add(add(scale(y, sgn), scale(ya, s2)), I(c))
                            if hold(fa, fb) and not (self.wary and w == self.K and sgn == 1 and s2 == -1 and chance(fa, fb)):
                                out.append(add(add(scale(w, sgn), scale(a, s2)), I(c)))
                                break
        return out


GROWN = set()       # symbols of numbers seen to grow from one iteration to the next


def widen(anc, cur, pr, coarse=False, wary=False):
    return Gen(anc, cur, coarse, wary).run()


def restore(pr, s):
    F = s.F.copy()
    pr.F = F
    for i, m in enumerate(pr.ms):
        m.F = F
        frames = []
        for t in s.frames[i]:
            f = Frame()
            f.fid, f.bb, f.ix, f.uid, f.alias, f.cont, f.dest, f.destty, f.target = t
            frames.append(f)
        m.frames = frames
        m.mem = {a: v for a, (v, _) in s.mem[i].items()}
        m.mty.update({a: t for a, (_, t) in s.mem[i].items() if t is not None})
        for fr in frames:
            for l in range(len(m.P.fns[fr.fid]['locals'])):
                m.mem.setdefault(('L', fr.uid, l), U)
