"""Abstract values: origin terms (value numbers), linear integer terms, aggregates, references."""

U = ('u',)
MV = ('mv',)


def I(n):
    return ('i', n)


TRUE = I(1)
FALSE = I(0)


class Syms:
    def __init__(self):
        self.n = 0
        self.ty = {}
        self.note = {}

    def fresh(self, ty, note=None):
        self.n += 1
        self.ty[self.n] = ty
        if note:
            self.note[self.n] = note
        return ('s', self.n)


SYMS = Syms()


# ------------------------------------------------------------------ linear integer terms
def lin(t):
    if t[0] == 'i':
        return t[1], {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def key(t):
    return repr(t)


def unlin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return ('i', c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return ('lin', c, tuple(sorted(d.items(), key=lambda x: key(x[0]))))


def add(a, b, s=1):
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + s * k
    return unlin(c1 + s * c2, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, d = lin(a)
    return unlin(c * k, {t: x * k for t, x in d.items()})


def neg(a):
    return scale(a, -1)


def A(f, *args):
    return ('a', f) + args


def is_term(v):
    return v[0] in ('s', 'a', 'lin')


# bool terms
def b_not(t):
    if t[0] == 'i':
        return I(1 - t[1])
    if t[0] == 'a' and t[1] == 'not':
        return t[2]
    return A('not', t)


def b_le(a, b):
    """a <= b over mathematical integers"""
    d = sub(a, b)
    if d[0] == 'i':
        return I(1 if d[1] <= 0 else 0)
    return A('le0', d)


def b_lt(a, b):
    return b_le(add(a, I(1)), b)


def b_eqi(a, b):
    d = sub(a, b)
    if d[0] == 'i':
        return I(1 if d[1] == 0 else 0)
    # canonical sign
    c, m = lin(d)
    first = sorted(m.items(), key=lambda x: key(x[0]))[0]
    if first[1] < 0:
        d = neg(d)
    return A('eq0', d)


def tsize(t):
    if not isinstance(t, tuple):
        return 1
    return 1 + sum(tsize(x) for x in t)


def occurs(x, y):
    if x == y:
        return True
    if isinstance(y, tuple):
        return any(occurs(x, z) for z in y)
    return False


def rewrite(t, m):
    """replace atomic terms bottom-up"""
    if t in m:
        return m[t]
    k = t[0]
    if k == 'a':
        n = ('a', t[1]) + tuple(rewrite(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t[2:])
        if n != t:
            n = resimp(n)
        return m.get(n, n)
    if k == 'lin':
        r = ('i', t[1])
        for x, c in t[2]:
            r = add(r, scale(rewrite(x, m), c))
        return r
    if k == 'g':
        return ('g', t[1], t[2], tuple(rewrite(x, m) for x in t[3]))
    if k == 'q':
        ps = tuple((p[0],) + tuple(rewrite(x, m) for x in p[1:]) for p in t[1])
        return ('q', spell(p for p in ps if p[0] != 'x' or p[2] != p[3])) + tuple(
            rewrite(x, m) if isinstance(x, tuple) else x for x in t[2:])
    if k == '&':
        return ('&', rewrite(t[1], m))
    if k == 'sl':
        return ('sl',) + tuple(rewrite(x, m) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in 'a s i lin g q'.split() else x for x in t[1:])
    return t


def spell(parts):
    """runs of a known small length are spelled out item by item"""
    out = []
    for p in parts:
        if p[0] == 'x' and p[1][0] in ('s', 'a'):
            n = sub(p[3], p[2])
            if n[0] == 'i' and 0 <= n[1] <= 3:
                out.extend(('e', A('el', p[1], add(p[2], I(j)))) for j in range(n[1]))
                continue
        out.append(p)
    return tuple(out)


def resimp(t):
    """re-establish normal forms after rewriting the arguments of a term"""
    f = t[1]
    if f == 'not':
        return b_not(t[2])
    if f == 'le0' and t[2][0] == 'i':
        return I(1 if t[2][1] <= 0 else 0)
    if f == 'eq0':
        if t[2][0] == 'i':
            return I(1 if t[2][1] == 0 else 0)
        return b_eqi(t[2], I(0))
    if f == 'eq' and t[2] == t[3]:
        return TRUE
    if f == 'adv' and t[3] == I(0):
        return t[2]
    if f == 'len' and t[2][0] == 'q':
        n = I(0)
        for p in t[2][1]:
            n = add(n, I(1) if p[0] == 'e' else p[1] if p[0] == 'n' else sub(p[3], p[2]))
        return n
    if f in ('fld',) and t[3][0] == 'g':
        return t[3][3][t[2]]
    if f == 'vf' and t[4][0] == 'g' and t[4][2] == t[2]:
        return t[4][3][t[3]]
    if f == 'deref' and t[2][0] == '&':
        return t[2][1]
    if f == 'el' and t[2][0] == 'q':
        off = I(0)
        for p in t[2][1]:
            d = sub(t[3], off)
            if p[0] == 'n':
                return t
            if p[0] == 'e':
                if d == I(0):
                    return p[1]
                off = add(off, I(1))
            else:
                if d[0] == 'i' and p[2] == I(0) and d[1] >= 0 and p is t[2][1][0] and len(t[2][1]) == 1:
                    return A('el', p[1], d)
                off = add(off, sub(p[3], p[2]))
    return t


def quo(a, k):
    """a divided by the constant k, rounded down (both non-negative)"""
    if k == 1:
        return a
    c, d = lin(a)
    out = unlin(c // k, {t: x // k for t, x in d.items() if x % k == 0})
    r = unlin(c % k, {t: x for t, x in d.items() if x % k})
    if r[0] == 'i':
        return out
    # whole multiples leave the division only when what stays is known not to be negative
    if any(x < 0 for x in lin(r)[1].values()):
        return ('a', 'quo', a, ('i', k))
    return add(out, ('a', 'quo', r, ('i', k)))


# ------------------------------------------------------------------ facts (per path)
class Facts:
    __slots__ = ('d', 'le', 'ne', 'eqs', '_cache', '_nf')

    def __init__(self):
        self.d = {}
        self.le = ()
        self.ne = ()
        self.eqs = ()          # oriented equalities between atomic terms
        self._cache = {}
        self._nf = {}

    def copy(self):
        f = Facts()
        f.d = dict(self.d)
        f.le = self.le
        f.ne = self.ne
        f.eqs = self.eqs
        return f

    def add_eq(self, L):
        """L = 0 where L is linear: remember x = y between atomic terms for congruence"""
        c, d = lin(L)
        it = sorted(d.items(), key=lambda x: key(x[0]))
        if c == 0 and len(it) == 2 and it[0][1] * it[1][1] == -1:
            x, y = it[0][0], it[1][0]
        elif len(it) == 1 and abs(it[0][1]) == 1:
            x, y = it[0][0], ('i', -c * it[0][1])
        else:
            # a longer equation defines the length of a valid prefix
            for x, k in it:
                if x[0] == 'a' and x[1] == 'utf8_valid' and abs(k) == 1:
                    y = scale(sub(L, scale(x, k)), -k)
                    break
            else:
                return
        x, y = self.nf(x), self.nf(y)
        if x == y:
            return
        if y[0] != 'i' and tsize(x) < tsize(y):
            x, y = y, x
        if x[0] == 'i' or occurs(x, y):
            return
        before = self.eqs
        self.eqs = self.eqs + ((x, y),)
        self._nf = {}
        self._cache = {}
        for a, b in before:
            # what an older equation says about the other spelling
            n = rewrite(a, {x: y})
            if n != a:
                d = sub(self.nf(n), self.nf(b)) if n[0] in ('a', 's', 'i', 'lin') and b[0] in ('a', 's', 'i', 'lin') else I(0)
                if d[0] == 'i':
                    if d[1]:
                        self.le = self.le + (I(1),)     # contradiction
                else:
                    self.add_eq(d)
        for t in self.ne:
            n = self.nf(t)
            if n not in self.ne:
                self.ne = self.ne + (n,)
        old = self.le
        for t in old:
            n = self.nf(t)
            if n != t and n[0] != 'i':
                self.add_le(n)
            elif n[0] == 'i' and n[1] > 0:
                self.le = self.le + (I(1),)
        for k, v in list(self.d.items()):
            if k[0] == 'variant':
                n = ('variant', self.nf(k[1]))
            else:
                n = self.nf(k)
            if self.d.setdefault(n, v) != v:
                self.le = self.le + (I(1),)         # contradiction

    def nf(self, t):
        if not self.eqs:
            return t
        r = self._nf.get(t)
        if r is None:
            r = self._nf1(t)
            self._nf[t] = r
        return r

    def _nf1(self, t):
        m = dict(self.eqs)
        for _ in range(20):
            n = rewrite(t, m)
            if n == t:
                return n
            t = n
        return t

    def add_le(self, t):
        """t <= 0"""
        t = self.nf(t)
        if (t[0] == 'i' and t[1] <= 0) or t in self.le:
            return
        if t[0] == 'lin':
            # of several bounds on the same combination only the strongest is kept
            if any(lin(x)[1] == lin(t)[1] and lin(x)[0] >= lin(t)[0] for x in self.le):
                return
            tc, td = lin(t)
            nd = {x: -k for x, k in td.items()}
            same = lambda x: lin(x)[1] == td
            self.le = tuple(x for x in self.le if not same(x))
            self.ne = tuple(x for x in self.ne if not (same(x) and lin(x)[0] < tc or lin(x)[1] == nd and -lin(x)[0] < tc))
        self.le = self.le + (t,)
        self._cache = {}
        self._tighten()
        self._tight(t)

    def _tight(self, t):
        if t[0] == 'lin' and sum(abs(k) for _, k in t[2]) <= 2 and len(t[2]) == 2 - (t[1] != 0) and self.entails_le(neg(t)):
            self.add_eq(t)

    def add_ne(self, t):
        t = self.nf(t)
        if t in self.ne:
            return
        self.ne = self.ne + (t,)
        self._cache = {}
        self._tighten()

    def known_ne(self, L):
        if L in self.ne or neg(L) in self.ne:
            return True
        n = self.nf(L)
        if n[0] == 'i':
            return n[1] != 0
        return n in self.ne or neg(n) in self.ne

    def _tighten(self):
        for _ in range(2):
            ch = False
            for t in self.ne:
                for x in (t, neg(t)):
                    x1 = add(x, I(1))
                    if x1 not in self.le and self.entails_le(x) and not self.entails_le(x1):
                        self.le = self.le + (x1,)
                        self._cache = {}
                        ch = True
                        self._tight(x1)
            if not ch:
                break

    def inconsistent(self):
        return self._fm([])

    def entails_le(self, t):
        """facts => t <= 0 ?"""
        t = self.nf(t)
        if t[0] == 'i':
            return t[1] <= 0
        r = self._cache.get(t)
        if r is None:
            r = self._fm([add(neg(t), I(1))])
            self._cache[t] = r
        return r

    def entails_eq(self, a, b):
        d = sub(a, b)
        if d[0] == 'i':
            return d[1] == 0
        if self.entails_le(d) and self.entails_le(neg(d)):
            return True
        # the same function of equal arguments
        it = list(lin(d)[1].items())
        for i, (x, k) in enumerate(it):
            for y, l in it[i + 1:]:
                if k + l == 0 and self.congruent(x, y):
                    return self.entails_eq(sub(d, scale(sub(x, y), k)), I(0))
        return False

    def congruent(self, x, y):
        if x == y:
            return True
        if x[0] != 'a' or y[0] != 'a' or x[1] != y[1] or len(x) != len(y) or x[1] not in ('vcap', 'vgrow', 'quo'):
            return False
        return all(p == q or self.entails_eq(p, q) for p, q in zip(x[2:], y[2:]))

    def _fm(self, extra):
        """Fourier-Motzkin over facts + extra (each t<=0) + nonnegativity; True if infeasible"""
        cons = []
        allc = list(self.le) + list(extra)
        quos, todo = set(), list(allc)
        while todo:
            for v in lin(todo.pop())[1]:
                if v[0] == 'a' and v[1] == 'quo' and v not in quos:
                    quos.add(v)
                    todo.append(v[2])
        # k*q <= a <= k*q + k-1
        quos = [t for v in quos for t in (sub(scale(v, v[3][1]), v[2]), add(sub(v[2], scale(v, v[3][1])), I(1 - v[3][1])))]
        allc += quos
        if extra:
            # cone of relevance
            rel = set()
            for t in extra:
                rel |= set(lin(t)[1])
            ch = True
            pool = list(self.le) + quos
            chosen = list(extra)
            while ch:
                ch = False
                rest = []
                for t in pool:
                    vs = set(lin(t)[1])
                    if vs & rel:
                        rel |= vs
                        chosen.append(t)
                        ch = True
                    else:
                        rest.append(t)
                pool = rest
            allc = chosen
        vs = set()
        for t in allc:
            c, d = lin(t)
            vs |= set(d)
            cons.append((c, d))
        for v in vs:
            if not (v[0] == 'a' and v[1].startswith('as i')):
                cons.append((0, {v: -1}))
            if v[0] == 'a' and v[1] in BOUNDS:
                lo, hi = BOUNDS[v[1]]
                cons.append((-hi, {v: 1}))
                cons.append((lo, {v: -1}))
        seen = set()

        def norm(c, d):
            d = {k: x for k, x in d.items() if x}
            if not d:
                return c, d
            from math import gcd
            g = 0
            for x in d.values():
                g = gcd(g, abs(x))
            if g > 1:
                # sum + c <= 0  =>  sum/g <= floor(-c/g)
                d = {k: x // g for k, x in d.items()}
                c = -((-c) // g)
            return c, d
        work = []
        for c, d in cons:
            c, d = norm(c, d)
            if not d:
                if c > 0:
                    return True
                continue
            kk = (c, tuple(sorted(((repr(a), b) for a, b in d.items()))))
            if kk not in seen:
                seen.add(kk)
                work.append((c, d))
        vs = sorted(vs, key=repr)
        while vs:
            # pick variable with fewest products
            best = None
            for v in vs:
                p = sum(1 for c, d in work if d.get(v, 0) > 0)
                n = sum(1 for c, d in work if d.get(v, 0) < 0)
                s = p * n - p - n
                if best is None or s < best[0]:
                    best = (s, v)
            v = best[1]
            vs.remove(v)
            pos = [x for x in work if x[1].get(v, 0) > 0]
            ng = [x for x in work if x[1].get(v, 0) < 0]
            oth = [x for x in work if x[1].get(v, 0) == 0]
            if len(pos) * len(ng) > 4000:
                return False
            new = oth
            sk = {(c, tuple(sorted(((repr(a), b) for a, b in d.items())))) for c, d in oth}
            for c1, d1 in pos:
                for c2, d2 in ng:
                    a, b = d1[v], -d2[v]
                    d = {}
                    for k, x in d1.items():
                        d[k] = d.get(k, 0) + x * b
                    for k, x in d2.items():
                        d[k] = d.get(k, 0) + x * a
                    c = c1 * b + c2 * a
                    c, d = norm(c, d)
                    if not d:
                        if c > 0:
                            return True
                        continue
                    kk = (c, tuple(sorted(((repr(p), q) for p, q in d.items()))))
                    if kk not in sk:
                        sk.add(kk)
                        new.append((c, d))
            work = new
        return False


BOUNDS = {'len_utf8': (1, 4)}


# ------------------------------------------------------------------ printing
def show(v, P=None, depth=6):
    if depth <= 0:
        return '..'
    k = v[0]
    if k == 's':
        n = SYMS.note.get(v[1])
        return f"{n}#{v[1]}" if n else f"#{v[1]}"
    if k == 'i':
        return str(v[1])
    if k == 'lin':
        return '(' + '+'.join([str(v[1])] + [f"{c}*{show(t, P, depth-1)}" for t, c in v[2]]) + ')'
    if k == 'a':
        if v[1] == 'vf':
            return f"{show(v[4], P, depth-1)}.{v[2]}.{v[3]}"
        if v[1] == 'fld':
            return f"{show(v[3], P, depth-1)}.{v[2]}"
        return f"{v[1]}({', '.join(show(x, P, depth-1) if isinstance(x, tuple) else str(x) for x in v[2:])})"
    if k == 'g':
        t = P.types[v[1]]['s'] if (P and v[1] is not None and v[1] >= 0) else ''
        if P and v[2] is not None and v[1] is not None and P.types[v[1]]['k'] == 'adt':
            t = P.types[v[1]]['v'][v[2]]['n']
        elif P and v[1] is not None and P.types[v[1]]['k'] == 'adt':
            t = P.types[v[1]]['p'].split('::')[-1]
        elif P and v[1] is not None and P.types[v[1]]['k'] in ('closure', 'coroutine'):
            t = P.types[v[1]]['k']
        else:
            t = ''
        return f"{t}({', '.join(show(x, P, depth-1) for x in v[3])})"
    if k == '&':
        return '&' + show(v[1], P, depth - 1)
    if k == 'q':
        return '[' + ', '.join(show(p[1], P, depth - 1) + ('' if p[0] == 'e' else '^' if p[0] == 'n' else f"[{show(p[2], P, depth - 1)}..{show(p[3], P, depth - 1)}]") for p in v[1]) + ']'
    if k == 'r':
        return f"ref{v[1]}{v[2]}"
    return str(v)
