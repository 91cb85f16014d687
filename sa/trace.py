"""One machine run alone; rules over the record of its shared-state operations (typestate of the protocol)."""
from terms import *
from engine import Decide, Undecided, PathPanic, Infeasible, Machine
import models
from product import Explorer, Pair
import absdom


class TPair(Pair):
    ctl = None
    poll = ()

    def fork(self):
        q = super().fork()
        q.__class__ = TPair
        q.ctl = dict(self.ctl)
        q.poll = self.poll
        return q

    @property
    def cells(self):
        return self.ms[1].mem


class Tracer(Explorer):
    """explores every path of one function; `mon` sees its record"""

    def __init__(self, P, root, mon, flags, **kw):
        super().__init__(P, P.roots[root], P.roots[root], flags=dict(flags, sync=True), **kw)
        self.mon = mon
        self.root = root

    def initial(self):
        pr = super().initial()
        d = Machine(self.P, pr.F, 'monitor')
        d.block = ('idle',)
        t = TPair(pr.F, [pr.ms[0], d], (), {}, False)
        t.ctl = {}
        self.mon.start(t)
        return t

    def report(self, pr, rule, what):
        if pr.tainted:
            self.undecided.append(f'{rule}: possible violation after generalising: {what}')
            return
        self.violations.append({'rule': rule, 'what': what, 'where': pr.ms[0].rline, 'path': list(pr.trace),
                                'key': f'{self.root}: {rule}: {what}', 'tags': []})

    def see(self, pr):
        m = pr.ms[0]
        for e in m.log:
            pr.trace = pr.trace + (f'{e[0]} ' + ' '.join(show(a, self.P, 3) if isinstance(a, tuple) and a else str(a) for a in e[2:] if a is not None) + f'  [{e[1]}]',)
            self.stats['events'] += 1
            m2 = m.rline
            m.rline = e[1]
            self.mon.log(self, pr, e)
            m.rline = m2
        m.log = ()

    def advance(self, pr, stack):
        m = pr.ms[0]
        if pr.psym is not None:
            return self.take_up(pr, stack)
        s0 = m.steps
        b = m.run()
        self.stats['steps'] += m.steps - s0
        if b[0] == 'decide':
            return self.fork(pr, stack, b[1], b[2])
        self.see(pr)
        if b[0] == 'ret':
            self.stats['paths'] += 1
            return self.mon.end(self, pr)
        if b[0] == 'panic':
            self.stats['paths'] += 1
            return self.mon.panic(self, pr, b[1])
        sym = self.mon.recall(self, pr, b[1], b[2], b[3])
        if sym is not None:
            pr.psym = sym
            return self.take_up(pr, stack)
        sym = SYMS.fresh(b[3], b[1])
        pr.trace = pr.trace + (f'{b[1]}({", ".join(show(x, self.P, 4) for x in b[2])}) -> #{sym[1]}  [{m.line}]',)
        pr.psym = sym
        dty = b[3]
        t = self.P.types[dty] if dty is not None else {'k': ''}
        if b[1] not in self.mon.split or not (t['k'] == 'bool' or t['k'] == 'adt' and t['ak'] == 'enum'):
            self.mon.at(self, pr, b[1], b[2], sym)
            return self.take_up(pr, stack)
        for o in ((1, 0) if t['k'] == 'bool' else range(len(self.P.variants(dty)))):
            q = pr.fork()
            if t['k'] == 'bool':
                q.F.d[sym] = bool(o)
            else:
                q.F.d[('variant', sym)] = o
            try:
                self.mon.at(self, q, b[1], b[2], sym, o)
            except Infeasible:
                continue
            self.take_up(q, stack)

    def take_up(self, pr, stack):
        q = pr.fork()
        q.psym = None
        m = q.ms[0]
        try:
            models.resume(m, pr.psym)
        except PathPanic as p:
            m.block = ('panic', p.kind)
        except Decide as d:
            return self.fork(pr, stack, d.atom, d.options)
        if m.pending is not None and m.pending[0] == 'drop':
            stack.append(q)
            return
        self.joint(q, stack)

    def leaks(self, pr):
        pass

    def key(self, pr):
        m = pr.ms[0]
        return (tuple((f.fid, f.bb, f.ix) for f in m.frames), tuple(sorted(pr.ctl.items(), key=repr)), tuple(sorted(pr.cells, key=repr)))


def syms(t):
    o = set()
    absdom.syms_in(t, o)
    return o


def nonzero(F, t):
    return F.known_ne(t) or F.entails_le(sub(I(1), t)) or F.entails_le(add(t, I(1)))


class Monitor:
    split = ('get',)      # events whose result is decided when they happen

    # terms are kept where states can see them
    def get(self, pr, k):
        return pr.cells.get(('N', k), ('g', None, None, ()))[3]

    def put(self, pr, k, ts):
        pr.cells[('N', k)] = ('g', None, None, tuple(ts))

    def recall(self, ex, pr, name, args, dty):
        return None

    def panic(self, ex, pr, what):
        ex.report(pr, 'panics', f'panics: {what}')

    def log(self, ex, pr, e):
        pass

    def end(self, ex, pr):
        pass


class Stream(Monitor):
    """reading while data and its end are signalled by someone else"""
    split = ('next', 'load', 'wpoll')

    def start(self, pr):
        pr.ctl = {'fin': 0, 'arranged': False}

    def log(self, ex, pr, e):
        if e[0] == 'wake':
            self.woken(pr, e[2])
        elif e[0] == 'anew' and ex.P.types[e[3]]['sz'] == 1 and e[2] != FALSE:
            ex.report(pr, 'early', 'a sequence starts with its end flagged')

    def woken(self, pr, waker, how='wake'):
        if self.get(pr, 'waker') and syms(self.get(pr, 'waker')[0]) & syms(waker):
            pr.ctl['arranged'] = pr.ctl['arranged'] or how
            if how == 'wake':
                pr.ctl['woke'] = True

    def waits(self, pr, data, end):
        """what has been looked for since each wait began"""
        live = set()
        for v in pr.ms[0].mem.values():
            absdom.syms_in(v, live)
        self.put(pr, 'waits', [('g', None, None, (w, I(d[1] | data), I(e[1] | end))) for _, _, _, (w, d, e) in self.get(pr, 'waits') if syms(w) & live])

    def flag(self, ex, pr, args, sym, o):
        pr.ctl['flag'] = p = args[0][1]
        if o:
            if args[1][1] in ('name:Acquire', 'name:SeqCst', 'name:AcqRel'):
                pr.ctl['fin'] = max(pr.ctl['fin'], 1)
        else:
            self.waits(pr, 0, 1)

    def looked(self, pr):
        if pr.ctl['fin'] == 1:
            pr.ctl['fin'] = 2
        self.waits(pr, 1, 0)

    def common(self, ex, pr, name, args, sym, o):
        c = pr.ctl
        if name == 'load':
            self.flag(ex, pr, args, sym, o)
        elif name == 'wait':
            self.waits(pr, 0, 0)
            self.put(pr, 'waits', self.get(pr, 'waits') + (('g', None, None, (sym, I(0), I(0))),))
        elif name == 'wpoll':
            if o == 1 and any(syms(w) & syms(args[0]) and d[1] and e[1] for _, _, _, (w, d, e) in self.get(pr, 'waits')):
                self.woken(pr, args[1], 'wait')
            if o == 0:
                c['news'] = True
        elif name in ('ev_call', 'ev_by'):
            c['before'] = False
        elif name == 'ev_waker':
            self.put(pr, 'waker', (A('deref', sym),))
            c['arranged'] = c['woke'] = c['news'] = False
        elif name == 'ev_pending':
            # one wake of itself may stand for a look around; the next needs a notification
            if c.get('woke') and c.get('before') and not c.get('news'):
                ex.report(pr, 'spin', 'wakes its own task again although no notification arrived since it last did')
            c['before'] = c.get('woke', False)
            if not c['arranged']:
                ex.report(pr, 'stall', 'reports not ready yet without having arranged a wake-up: no wake of this task, nor a pending wait begun before the last look for data and for the end')


class Segments(Stream):
    def at(self, ex, pr, name, args, sym, o=None):
        hand = self.get(pr, 'hand')
        if name == 'next':
            if o == 1:
                if hand:
                    ex.report(pr, 'exact', 'takes another segment while one is not handed out')
                self.put(pr, 'hand', (A('fld', 0, sym),))
            else:
                self.looked(pr)
        elif name == 'ev_some':
            x = pr.ms[0].content(args[0])
            if len(hand) != 1 or not (syms(x) and syms(x) == syms(hand[0])):
                ex.report(pr, 'exact', 'hands out something that is not the segment just taken')
            self.put(pr, 'hand', ())
        elif name in ('ev_none', 'ev_pending') and hand:
            ex.report(pr, 'exact', 'takes a segment and does not hand it out')
        if name == 'ev_none' and pr.ctl['fin'] != 2:
            ex.report(pr, 'early', 'reports the end although the end was not flagged before the last look for data')
        self.common(ex, pr, name, args, sym, o)


class Advances(Stream):
    split = ('load', 'wpoll', 'next')

    def start(self, pr):
        super().start(pr)
        pr.ctl['phase'] = 'before'

    def at(self, ex, pr, name, args, sym, o=None):
        rem = self.get(pr, 'rem')
        c = pr.ctl
        if c['phase'] != 'during':
            self.around(ex, pr, name, args, o)
        elif name == 'advance':
            if not pr.F.entails_eq(args[1], rem[0]):
                ex.report(pr, 'amount', 'advances the buffer by something other than what is still missing')
            self.put(pr, 'rem', (sym,))
            c['went'] = True
            self.looked(pr)
        elif name == 'ev_back':
            if not (c.get('went') and pr.F.entails_eq(rem[0], I(0))) and c['fin'] != 2:
                ex.report(pr, 'early', 'completes although something is missing and the end was not flagged before the last look for data')
            c['phase'] = 'after'
        elif name == 'ev_pending' and c['arranged'] == 'wait' and not nonzero(pr.F, rem[0]):
            ex.report(pr, 'stall', 'goes on waiting although nothing may be missing')
        if name == 'ev_by':
            self.put(pr, 'rem', (args[0],))
            c['phase'] = 'during'
        elif c['phase'] == 'during' and not (name in ('wait', 'load') and (name, args[0][1]) not in c['places']):
            self.common(ex, pr, name, args, sym, o)

    def around(self, ex, pr, name, args, o):
        """what the sequence listens to before and after"""
        c = pr.ctl
        if name in ('wait', 'load'):
            p = (name, args[0][1])
            if c['phase'] == 'before':
                c['places'] = tuple(sorted(set(c.get('places', ())) | {p}))
            elif p not in c['places']:
                ex.report(pr, 'amount', 'gives back a sequence that listens to other signals')
        if name == 'next' and o == 1 or name == 'load' and o or name == 'ev_sent':
            raise Infeasible()      # only the whole poll is of interest


class Chain(Monitor):
    """walks over a linked chain of blocks, each set at most once: C is the link looked at, r what it answered"""
    split = ('get',)

    def start(self, pr):
        pr.ctl = {}

    def text(self, ex, r):
        """the items of the block an answer holds"""
        ty = ex.P.types[self.opt]['a'][0]
        fts = ex.P.field_types(ex.P.types[ty]['e'])
        i = [i for i, f in enumerate(fts) if ex.P.types[f].get('p') == 'alloc::vec::Vec']
        if len(i) != 1:
            raise Undecided('a block with an unknown layout')
        return A('fld', i[0], A('deref', A('vf', 1, 0, r)))

    def recall(self, ex, pr, name, args, dty):
        if name != 'get':
            return None
        self.opt = dty
        C, r = self.get(pr, 'C'), self.get(pr, 'r')
        return r[0] if C and r and pr.F.nf(C[0]) == pr.F.nf(args[0]) else None

    def link(self, ex, pr, P, sym):
        """is the walk going on to the next link?"""
        C, r = self.get(pr, 'C'), self.get(pr, 'r')
        on = False
        if C and pr.F.nf(C[0]) != pr.F.nf(P):
            if not r or syms(P) != syms(r[0]):
                raise Undecided('a walk that is not in order')
            on = True
        self.put(pr, 'C', (P,))
        self.put(pr, 'r', (sym,))
        return on

    def piece(self, ex, pr, v):
        """(from, to) of a part of the block looked at"""
        r = self.get(pr, 'r')
        if not r or pr.F.d.get(('variant', r[0])) != 1:
            return None
        t = self.text(ex, r[0])
        if v[0] == 'sl' and v[1] == t:
            return v[2], v[3], A('len', t)
        if v == t:
            return I(0), A('len', t), A('len', t)
        return None


class ChainRead(Chain):
    def panic(self, ex, pr, what):
        if pr.ctl.get('first', True):
            raise Infeasible()      # the position lies within the block it belongs to
        super().panic(ex, pr, what)

    def at(self, ex, pr, name, args, sym, o=None):
        c = pr.ctl
        if name == 'get':
            old = bool(self.get(pr, 'C'))
            if self.link(ex, pr, args[0], sym):
                if not c.get('given'):
                    ex.report(pr, 'read', 'passes over a block')
                c['given'] = False
        elif name == 'ev_seg':
            p = self.piece(ex, pr, args[0])
            if p is None or c.get('given'):
                ex.report(pr, 'read', 'hands out something other than the next block')
            elif not pr.F.entails_eq(p[1], p[2]) or not c.get('first', True) and not pr.F.entails_eq(p[0], I(0)):
                ex.report(pr, 'read', 'hands out only part of a block')
            c['given'] = True
            c['first'] = False
        elif name == 'ev_none':
            r = self.get(pr, 'r')
            if not r or pr.F.d.get(('variant', r[0])) != 0:
                ex.report(pr, 'end', 'reports the end without having found the next block missing')
            self.put(pr, 'r', ())


class ChainAdvance(Chain):
    def start(self, pr):
        pr.ctl = {'phase': 'before'}

    def panic(self, ex, pr, what):
        if pr.ctl['phase'] == 'before':
            raise Infeasible()      # the position lies within the block it belongs to
        super().panic(ex, pr, what)

    def at(self, ex, pr, name, args, sym, o=None):
        c = pr.ctl
        E = self.get(pr, 'E')
        lo = self.get(pr, 'lo')
        if name == 'get':
            r = self.get(pr, 'r')
            if self.link(ex, pr, args[0], sym):
                if c['phase'] == 'before':
                    raise Undecided('a first look past the first block')
                self.put(pr, 'E', (add(sub(E[0], A('len', self.text(ex, r[0]))), lo[0]),))
                self.put(pr, 'lo', (I(0),))
        elif name == 'ev_by':
            self.put(pr, 'E', (args[0],))
            c['phase'] = 'during'
        elif name == 'ev_len':
            self.put(pr, 'R', (args[0],))
            c['phase'] = 'after'
        elif name == 'ev_seg':
            p = self.piece(ex, pr, args[0])
            if c['phase'] == 'before':
                if p is None:
                    raise Undecided('a first look at something unknown')
                self.put(pr, 'lo', (p[0],))
                return
            if p is None or not pr.F.entails_eq(p[1], p[2]):
                ex.report(pr, 'skip', 'the segments do not start in the block the position is in')
            elif not pr.F.entails_eq(p[0], add(lo[0], E[0])):
                ex.report(pr, 'skip', 'the position is not as many items further as were asked for')
            elif not pr.F.entails_eq(self.get(pr, 'R')[0], I(0)):
                ex.report(pr, 'rest', 'something is reported missing although there was enough')
            raise Infeasible()
        elif name == 'ev_none':
            # a fresh buffer is looked at by the contracts; all others have come to an end of the chain by a move
            if c['phase'] == 'before':
                raise Infeasible()
            if not pr.F.entails_eq(self.get(pr, 'R')[0], E[0]):
                ex.report(pr, 'rest', 'what is reported missing is not the part that was not available')
            self.put(pr, 'lo', (I(0),))
            c['phase'] = 'again'


class Sends(Monitor):
    """one call of send"""
    def start(self, pr):
        pr.ctl = {'bumps': (), 'held': (), 'lists': (), 'open': 0, 'walked': 0}

    # open lists, wakers handed out and lists walked to their end are terms, kept where states can see them
    def get(self, pr, k):
        return pr.cells.get(('N', k), ('g', None, None, ()))[3]

    def put(self, pr, k, ts):
        pr.cells[('N', k)] = ('g', None, None, tuple(ts))

    def log(self, ex, pr, e):
        k, c = e[0], pr.ctl
        if k == 'rmw' and e[3] in ('fetch_add', 'fetch_sub') and e[4][0] == 'i' and e[4][1] != 0 or k == 'store' and self.moved(ex, pr, e):
            t = ex.P.types[e[7] if k == 'rmw' else e[5]]
            if t['sz'] < 4:
                ex.report(pr, 'bump', f'the counter of notifications has only {8 * t["sz"]} bits')
            o = e[6] if k == 'rmw' else e[4]
            self.moves = self.moves | {(e[2], frozenset(c['held']), o in ('Release', 'AcqRel', 'SeqCst'))}
            c['bumps'] = tuple(sorted(set(c['bumps']) | {e[2]}))
        elif k == 'load' and c['held']:
            self.put(pr, 'seen', self.get(pr, 'seen') + (e[3],))
        elif k == 'lock':
            if e[2] in c['held']:
                ex.report(pr, 'locks', 'locks a list it already holds')
            c['held'] = c['held'] + (e[2],)
        elif k == 'unlock':
            c['held'] = tuple(p for p in c['held'] if p != e[2])
            v = e[3]
            if v[1] == 'nolist' or v[0] == 'q' and not v[1] or pr.F.entails_eq(A('len', v), I(0)) or self.exhausted(pr, v):
                for b in c['bumps']:
                    c['lists'] = tuple(sorted(set(c['lists']) | {(e[2], b)}))
            self.put(pr, 'seen', ())
        elif k == 'take':
            if e[2] not in self.get(pr, 'open') and e[2][1] != 'nolist' and not pr.F.entails_eq(A('len', e[2]), I(0)):
                self.put(pr, 'open', self.get(pr, 'open') + (e[2],))
        elif k == 'put':
            self.put(pr, 'out', [o for o in self.get(pr, 'out') if not (syms(o) and syms(o) <= syms(e[4]))])
            self.put(pr, 'open', [o for o in self.get(pr, 'open') if o != e[2]] + [e[3]])
        elif k == 'join':
            self.put(pr, 'open', [o for o in self.get(pr, 'open') if o not in (e[2], e[4])] + [e[3]])
        elif k == 'rem':
            self.put(pr, 'out', self.get(pr, 'out') + (e[3],))
        elif k == 'wake':
            if c['held']:
                ex.report(pr, 'foreign', 'a waker is woken while the list of waiters is locked')
            self.put(pr, 'out', [o for o in self.get(pr, 'out') if not (syms(o) and syms(o) <= syms(e[2]))])
        elif k == 'wdrop' and c['held']:
            ex.report(pr, 'foreign', 'a waker is dropped while the list of waiters is locked')

    def moved(self, ex, pr, e):
        """a store of a value read under the same lock, moved on by a constant"""
        d = [sub(e[3], s) for s in self.get(pr, 'seen')]
        return bool(pr.ctl['held']) and any(x[0] == 'i' and x[1] != 0 for x in d)

    def at(self, ex, pr, name, args, sym):
        if name in ('next', 'pop'):
            L, L2 = args[0], args[-1]
            cur = [p for p in self.get(pr, 'cur') if p[3][0] == L]
            self.finish(ex, pr, cur)
            self.put(pr, 'cur', [p for p in self.get(pr, 'cur') if p[3][0] != L] + [('g', None, None, (L2, sym))])
            self.put(pr, 'out', self.get(pr, 'out') + (sym,))
            self.put(pr, 'open', [L2 if o == L else o for o in self.get(pr, 'open')])
        elif name == 'ev_sent':
            self.end(ex, pr)
            raise Infeasible()

    def exhausted(self, pr, L):
        return any(p[3][0] == L and pr.F.d.get(('variant', p[3][1])) == 0 for p in self.get(pr, 'cur'))

    def finish(self, ex, pr, cur):
        """what an earlier step of a walk handed out has been woken by now"""
        for p in cur:
            if p[3][1] in self.get(pr, 'out'):
                ex.report(pr, 'wakes', 'a waiter taken from the list is not woken')

    def end(self, ex, pr):
        c = pr.ctl
        if c['held']:
            ex.report(pr, 'locks', 'returns with the list locked')
        out = list(self.get(pr, 'out'))
        opn = list(self.get(pr, 'open'))
        for p in self.get(pr, 'cur'):
            L, r = p[3]
            if pr.F.d.get(('variant', r)) == 0:
                out = [o for o in out if o != r]
                opn = [o for o in opn if o != L]
        if out:
            ex.report(pr, 'wakes', 'a waiter taken from the list is not woken')
        elif opn:
            ex.report(pr, 'wakes', 'waiters are taken off the list without being woken')
        if not c['bumps']:
            ex.report(pr, 'bump', 'no notification is recorded')
        elif not c['lists']:
            ex.report(pr, 'drain', 'there is no moment, with the notification recorded and the list locked, at which all waiters are taken')
        ex.mon.pairs = (ex.mon.pairs & set(c['lists'])) if ex.mon.pairs is not None else set(c['lists'])

    pairs = None
    moves = frozenset()     # counters moved, the locks held then, and whether that publishes what went before


class Waits(Monitor):
    """wait() and any number of polls of what it returned"""
    version = None          # the counters read by wait
    lists = None            # the locks under which waiters register
    reads = frozenset()     # counters a wait starts from or completes on, the locks held then, and whether that sees what went before

    def start(self, pr):
        pr.ctl = {'phase': 'wait', 'held': ()}
        pr.cells[('N', 'v0')] = ('g', None, None, ())
        pr.poll = ()

    def log(self, ex, pr, e):
        c = pr.ctl
        if e[0] == 'load' and c['phase'] == 'wait':
            v = pr.cells[('N', 'v0')][3]
            pr.cells[('N', 'v0')] = ('g', None, None, v + (e[3],))
            c['v'] = e[2] if c.get('v') in (None, e[2]) else 'several'
            self.reads = self.reads | {(e[2], frozenset(c['held']), self.ordered(e))}
        elif e[0] == 'lock':
            if e[2] in c['held']:
                ex.report(pr, 'locks', 'locks a list it already holds')
            c['held'] = c['held'] + (e[2],)
        elif e[0] == 'unlock':
            c['held'] = tuple(p for p in c['held'] if p != e[2])
        pr.poll = pr.poll + (e,)

    def ordered(self, e):
        return e[4] in ('Acquire', 'AcqRel', 'SeqCst')

    def under(self, e, log):
        """the locks held at an entry of the log"""
        held = []
        for f in log:
            if f is e:
                return held
            if f[0] == 'lock':
                held.append(f[2])
            elif f[0] == 'unlock' and f[2] in held:
                held.remove(f[2])
        return held

    def at(self, ex, pr, name, args, sym):
        v0 = pr.cells[('N', 'v0')][3]
        c = pr.ctl
        if c['held'] and name.startswith('ev_'):
            ex.report(pr, 'locks', 'returns with the list locked')
        if name == 'ev_waiting':
            if not v0:
                ex.report(pr, 'start', 'wait() does not read the state it starts from')
            c['phase'] = 'polls'
            self.version = c.get('v')
        elif name == 'ev_waker':
            pr.cells[('N', 'waker')] = A('deref', sym)
            pr.poll = ()
        elif name == 'ev_ready':
            self.others(ex, pr)
            told = [e for e in pr.poll if e[0] == 'load' and e[2] == c.get('v') and any(nonzero(pr.F, sub(e[3], v)) for v in v0)]
            if told:
                best = max(told, key=lambda e: (self.ordered(e), len(self.under(e, pr.poll))))
                self.reads = self.reads | {(best[2], frozenset(self.under(best, pr.poll)), self.ordered(best))}
            if not told:
                ex.report(pr, 'ready', 'completes without having read that a notification was sent since the wait began')
            raise Infeasible()
        elif name in ('next', 'pop') and c['phase'] == 'polls':
            raise Undecided('a walk over waiters inside a poll')
        elif name == 'ev_pending':
            self.others(ex, pr)
            self.pending(ex, pr, v0, pr.cells[('N', 'waker')])

    def others(self, ex, pr):
        """a poll leaves the registrations of other waits alone"""
        mine = [e[2] for e in pr.poll if e[0] == 'ins']
        for e in pr.poll:
            if e[0] == 'rem' and e[2] not in mine:
                raise Undecided('a poll removes an entry it did not add')
            if e[0] == 'take' and e[2][1] != 'nolist':
                if any(f[0] in ('wake', 'put', 'join') for f in pr.poll):
                    raise Undecided('a poll empties the list')
                ex.report(pr, 'pending', 'a poll takes other waiters off the list')

    def pending(self, ex, pr, v0, waker):
        log = pr.poll
        best = 'does not register the waker of this poll in the locked list before it reports pending'
        for i, e in enumerate(log):
            if e[0] != 'ins' or not syms(waker) or e[3] != waker:
                continue
            lo = max((j for j in range(i) if log[j][0] == 'lock'), default=None)
            hi = next((j for j in range(i, len(log)) if log[j][0] == 'unlock'), None)
            if lo is None or hi is None or any(log[j][0] == 'unlock' for j in range(lo, i)):
                continue
            if any(f[0] == 'take' or f[0] == 'rem' and f[2] == e[2] for f in log[i:]):
                best = 'takes its waker off the list again before it reports pending'
                continue
            ok = [f for f in log[lo:] if f[0] == 'load' and f[2] == pr.ctl.get('v') and any(pr.F.entails_eq(f[3], v) or pr.F.entails_le(sub(f[3], v)) for v in v0)]
            if ok:
                self.lists = (self.lists or set()) | {log[lo][2]}
                return
            best = 'does not look for a notification between locking the list to register and reporting pending'
        ex.report(pr, 'pending', best)

    def end(self, ex, pr):
        pass
