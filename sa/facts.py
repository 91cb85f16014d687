"""Loads the JSON produced by the extractor."""
import json


class Prog:
    def __init__(self, path):
        self.path = path
        d = json.load(open(path))
        self.types = d['types']
        self.fns = {int(k): v for k, v in d['fns'].items()}
        self.roots = {n: k for n, k in d['roots']}
        self.parts = {}         # values of constants
        self.facts = d.get('facts', {})
        for k, f in self.fns.items():
            f['id'] = k
        self._tyname = {}
        for i, t in enumerate(self.types):
            self._tyname.setdefault(t['s'], i)
        self._live = {}

    def fns_crate_is_ours(self, p):
        return 'parcom' in p

    def ty(self, i):
        return self.types[i]

    def by_name(self, s):
        return self._tyname.get(s)

    def variants(self, i):
        return self.types[i]['v']

    def field_types(self, i, variant=None):
        t = self.types[i]
        k = t['k']
        if k == 'adt':
            return [f[1] for f in t['v'][variant or 0]['f']]
        if k in ('tuple', 'closure', 'coroutine'):
            return t['f']
        if k == 'array':
            return [t['e']] * t['n']
        return []

    def uninhabited(self, i, seen=()):
        if i in seen:
            return False
        t = self.types[i]
        if t['k'] == 'never':
            return True
        if t['k'] == 'adt':
            if t['ak'] == 'enum':
                return all(any(self.uninhabited(f[1], seen + (i,)) for f in v['f']) for v in t['v'])
            if t['ak'] == 'struct':
                return any(self.uninhabited(f[1], seen + (i,)) for f in t['v'][0]['f'])
        if t['k'] == 'tuple':
            return any(self.uninhabited(f, seen + (i,)) for f in t['f'])
        return False

    # ---- liveness: locals that matter at the start of each (bb, stmt)
    def liveness(self, fid):
        r = self._live.get(fid)
        if r is not None:
            return r
        f = self.fns[fid]
        bbs = f['bb']
        n = len(bbs)
        borrowed = set()
        use = [None] * n

        def pl_use(p, acc, is_def=False):
            loc, proj = p
            if not (is_def and not proj):
                acc.add(loc)
            for e in proj:
                if isinstance(e, list) and e[0] == 'i':
                    acc.add(e[1])

        def op_use(o, acc):
            if o[0] in ('c', 'm'):
                pl_use(o[1], acc)

        def rv_use(r, acc):
            k = r[0]
            if k in ('use', 'repeat'):
                op_use(r[1], acc)
            elif k == 'ref':
                pl_use(r[1], acc)
                if not any(e == '*' for e in r[1][1]):
                    borrowed.add(r[1][0])
            elif k == 'cast':
                op_use(r[2], acc)
            elif k == 'bin':
                op_use(r[2], acc)
                op_use(r[3], acc)
            elif k == 'un':
                op_use(r[2], acc)
            elif k == 'discr':
                pl_use(r[1], acc)
            elif k == 'agg':
                for o in r[4]:
                    op_use(o, acc)

        def stmt_ud(s):
            u, d = set(), set()
            if s[0] == '=':
                rv_use(s[2], u)
                pl_use(s[1], u, True)
                if not s[1][1]:
                    d.add(s[1][0])
            elif s[0] == 'sd':
                pl_use(s[1], u)
            elif s[0] == 'dead' or s[0] == 'sl':
                d.add(s[1])
            elif s[0] == 'assume':
                op_use(s[1], u)
            elif s[0] == 'cno':
                for o in s[1:]:
                    op_use(o, u)
            return u, d

        def term_ud(t):
            u, d = set(), set()
            k = t[0]
            succ = []
            if k == 'goto':
                succ = [t[1]]
            elif k == 'switch':
                op_use(t[1], u)
                succ = [b for _, b in t[2]] + [t[3]]
            elif k == 'drop':
                pl_use(t[1], u)
                succ = [t[2]] + ([t[5]] if t[5] is not None else [])
            elif k == 'call':
                op_use(t[1], u)
                for a in t[2]:
                    op_use(a, u)
                pl_use(t[3], u, True)
                if not t[3][1]:
                    d.add(t[3][0])
                if t[4] is not None:
                    succ = [t[4]]
                if t[7] is not None:
                    succ = succ + [t[7]]
            elif k == 'assert':
                op_use(t[1], u)
                succ = [t[3]]
            elif k == 'yield':
                op_use(t[1], u)
                succ = [t[2]]
            elif k == 'ret':
                u.add(0)
            return u, d, succ

        sud = [[stmt_ud(s) for s in b[0]] for b in bbs]
        tud = [term_ud(b[1]) for b in bbs]
        live_in = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                u, d, succ = tud[i]
                out = set()
                for s in succ:
                    out |= live_in[s]
                cur = (out - d) | u
                for (su, sd) in reversed(sud[i]):
                    cur = (cur - sd) | su
                if cur != live_in[i]:
                    live_in[i] = cur
                    changed = True
        r = {'in': live_in, 'borrowed': borrowed, 'sud': sud, 'tud': tud}
        self._live[fid] = r
        return r

    def live_at(self, fid, bb, idx):
        L = self.liveness(fid)
        u, d, succ = L['tud'][bb]
        out = set()
        for s in succ:
            out |= L['in'][s]
        cur = (out - d) | u
        sud = L['sud'][bb]
        for j in range(len(sud) - 1, idx - 1, -1):
            su, sd = sud[j]
            cur = (cur - sd) | su
        return cur | L['borrowed']

    def live_after_call(self, fid, bb):
        """live locals of a frame suspended in the call terminating bb"""
        L = self.liveness(fid)
        u, d, succ = L['tud'][bb]
        out = set()
        for s in succ:
            out |= L['in'][s]
        return (out - d) | L['borrowed']
