"""Obligations: what each property's check discharges."""
import re
import time
from engine import Undecided
import lint
import pins
import recur
import trace
from product import Explorer

# component (a module of harness/src, or all modules under one) -> owning property
SPACES = {
    'C02': 'misc::term::*',
    'C03': 'comb::reference comb::reference_new comb::reference_copy comb::boxed comb::closure comb::closure_capture comb::it_ref',
    'C04': 'comb::join comb::map comb::map_err comb::and_then comb::unify comb::unify_err misc::ends::* misc::sides::unify',
    'C05': 'comb::or comb::optional comb::it_optional',
    'C06': 'comb::repeat comb::collect comb::fold comb::it_repeat comb::it_optional comb::map_each comb::map_while comb::try_map_each comb::scan comb::take',
    'C07': 'comb::bin_expr',
    'C08': 'prim::*',
    'C09': 'mem::*',
    'C10': 'meas::*',
    'C11': 'metrics::meter_*',
    'C12': 'metrics::lf metrics::cr metrics::crlf metrics::match_eq',
    'C13': 'metrics::order_*',
    'C15': 'misc::sides::*',
    'C16': 'vecs::*',
    'C17': 'vecs::*',
    'C20': 'opt::*',
    'C21': 'wr::*',
    'C22': 'grow::run misc::policy::*',
    'C23': 'grow::early grow::blocks grow::moves grow::follow',
    'C24': 'utf8::*',
    'C25': 'src::*',
    'C26': 'misc::load::*',
}


def flags(mod):
    if mod == 'comb::bin_expr':
        return {'abs_shortvec': True}
    if mod.startswith('metrics::'):
        return {'chars_event': True}
    if mod.startswith('utf8::'):
        return {'scalars': True}
    if mod.startswith('wr::'):
        return {'unwinds': True}
    if mod.startswith('vecs::'):
        return {'bounded': True, 'unwinds': True}
    return None


def owned(P, prop):
    """the modules that carry the contract of a property"""
    ms = modules(P)
    out = []
    for pat in SPACES[prop].split():
        hit = [m for m in ms if m == pat or (pat.endswith('*') and m.startswith(pat[:-1]))]
        if not hit:
            raise LookupError(f'{prop}: no harness module {pat}')
        out += [m for m in hit if m not in out and 'spec' in ms[m]]
    return out


class Result:
    """outcome of one obligation"""

    def __init__(self, name, rule):
        self.name = name
        self.rule = rule
        self.violations = []    # dicts: where, what, path, key
        self.undecided = []
        self.stats = {}
        self.fns = set()

    @property
    def discharged(self):
        return not self.violations and not self.undecided


def strip_key(s):
    s = re.sub(r'\s*\[[^\[\]]*:\d+\]', '', s)
    return re.sub(r'#\d+', '', s)


_memo = {}
START = time.monotonic()


def left(tier):
    """seconds of this run's budget that are not used up"""
    return (500 if tier == 'quick' else 780) - (time.monotonic() - START)



def explore(P, impl, spec, **kw):
    e = Explorer(P, P.roots[impl], P.roots[spec], **kw)
    try:
        return e.explore()
    except Exception as x:      # the analysis met something it cannot represent: nothing is decided
        e.undecided.append(f'analysis stopped: {type(x).__name__}: {x}')
        return e


def compare(P, impl, spec, flags=None, tier='quick', **kw):
    """explore impl against spec, going deeper before generalising when only a generalised path disagreed"""
    k = (impl, spec, repr(flags))
    if k in _memo:
        return _memo[k]
    best = None
    for precise in ((3, 6, 12) if tier == 'quick' else (3, 8, 16, 32)):
        for wary in (False, True):
            if best is not None and left(tier) < 30:
                break
            e = explore(P, impl, spec, flags=flags, precise=precise, wary=wary, seconds=max(left(tier), 10), **kw)
            if best is None or e.violations or len(e.undecided) < len(best.undecided):
                best = e
            if e.violations or not e.stats['widened'] or not e.undecided:
                break
        if best.violations or not best.undecided or not e.stats['widened']:
            break
    if best.undecided and not best.violations and best.stats['widened']:
        probe(P, impl, spec, flags, best, tier)
    _memo[k] = best
    return best


PROBE = {'left': 240}


def probe(P, impl, spec, flags, best, tier):
    """the generalised loop may differ: follow the loops for many more rounds, looking for a definite difference only"""
    for depth, limit in ((80, 40), (400, 60)) if tier == 'quick' else ((80, 60), (400, 120), (2000, 200)):
        limit = min(limit, PROBE['left'], left(tier))
        if limit < 1:
            return
        t = time.monotonic()
        e = explore(P, impl, spec, flags=flags, precise=depth, max_states=50 * depth, seconds=limit)
        PROBE['left'] -= time.monotonic() - t
        if e.violations:
            best.violations += e.violations
            return


def to_result(e, name, rule, pred=lambda v: True, label=''):
    r = Result(name, rule)
    r.stats = e.stats
    r.fns = e.fns
    for v in e.violations:
        if pred(v):
            r.violations.append({
                'where': v['where'], 'what': f"{name}: implementation {v['implementation']}; contract {v['contract']}",
                'path': v['path'], 'key': strip_key(f"{name}: {v['implementation']} / {v['contract']}"), 'tags': v['tags']})
    r.undecided = list(e.undecided)
    return r


def modules(P):
    ms = {}
    for n in sorted(P.roots):
        m, f = n.rsplit('::', 1)
        ms.setdefault(m, []).append(f)
    return ms


def forms(P, mod):
    return [f for f in modules(P).get(mod, []) if f != 'spec']


def contract(P, prop, tier):
    out = []
    for mod in owned(P, prop):
        for f in forms(P, mod):
            e = compare(P, f'{mod}::{f}', f'{mod}::spec', flags(mod), tier)
            out.append(to_result(e, f'{mod}::{f}', 'lock-step agreement with the contract'))
    return out


def tagged(P, mods, tag, rule, tier):
    out = []
    for mod in mods:
        for f in forms(P, mod):
            e = compare(P, f'{mod}::{f}', f'{mod}::spec', flags(mod), tier)
            out.append(to_result(e, f'{mod}::{f}', rule, lambda v: tag in v['tags']))
    return out


def all_comb(P):
    return [m for m in modules(P) if m.startswith('comb::') and 'spec' in modules(P)[m]]


def c01(P, tier):
    return tagged(P, all_comb(P), 'backtrack', 'after a recoverable failure the next consumer starts at the position the failed attempt started from', tier)


def c02(P, tier):
    return (tagged(P, all_comb(P), 'swallowed', 'a path on which a sub-parser error asked to terminate ends in failure without further calls', tier)
            + contract(P, 'C02', tier))


def c03(P, tier):
    out = contract(P, 'C03', tier)
    for mod, fns in sorted(modules(P).items()):
        if 'byref' not in fns:
            continue
        fs = forms(P, mod)
        ref = 'byref'
        for f in fs:
            if f == ref or ref not in fs:
                continue
            e = compare(P, f'{mod}::{f}', f'{mod}::{ref}', flags(mod), tier)
            out.append(to_result(e, f'{mod}::{f} = {mod}::{ref}', 'the forms make the same calls with the same results'))
    return out


def vec_memory(v):
    i, c = v['implementation'], v['contract']
    return 'undefined behaviour' in i or 'never released' in i or i.startswith('drop') or c.startswith('drop')


def vec_stack(v):
    i, c = v['implementation'], v['contract']
    return 'never released' not in i and not i.startswith('drop') and not c.startswith('drop')


def filtered(prop, rule, pred, more=()):
    def check(P, tier):
        out = []
        for mod in owned(P, prop):
            for f in forms(P, mod):
                e = compare(P, f'{mod}::{f}', f'{mod}::spec', {**(flags(mod) or {}), **dict(more)}, tier)
                out.append(to_result(e, f'{mod}::{f}', rule, pred))
        return out
    return check


def traced(P, root, mon, flags=None):
    """explore one function under a monitor, going deeper before generalising when only a generalised path broke a rule"""
    k = ('trace', root)
    if k not in _memo:
        best = None
        for precise in (3, 12, 80, 300):
            w = mon()
            t = trace.Tracer(P, root, w, flags or {}, precise=precise, max_states=4000, seconds=max(min(60, left('quick')), 10))
            try:
                t.explore()
            except Exception as x:
                t.undecided.append(f'analysis stopped: {type(x).__name__}: {x}')
            if best is None or t.violations or len(t.undecided) < len(best[0].undecided):
                best = (t, w)
            if t.violations or not t.undecided or not t.stats['widened']:
                break
        _memo[k] = best
    return _memo[k]


def by_rule(t, root, texts):
    out = []
    for rule, text in texts:
        r = Result(f'{root}: {rule}', text)
        r.stats = t.stats
        for v in t.violations:
            if v['rule'] == rule:
                r.violations.append({'where': v['where'], 'what': f"{root}: {v['what']}", 'path': v['path'], 'key': strip_key(v['key']), 'tags': []})
        r.undecided = list(t.undecided)
        out.append(r)
    return out


SEND_RULES = (('bump', 'every path records the notification in a counter of at least 32 bits'),
              ('drain', 'after recording, there is a hold of the list lock that ends with no waiter left in the list'),
              ('wakes', 'every waker taken off the list is woken'),
              ('panics', 'no panic of its own'))
WAIT_RULES = (('start', 'a wait reads the counter when it begins'),
              ('ready', 'a poll completes only after reading a counter that moved since the wait began'),
              ('pending', 'a pending poll has put its own waker in the list, and read the counter unmoved after locking the list for that'),
              ('panics', 'no panic of its own'))


def c18(P, tier):
    s, sm = traced(P, 'note::send::trace', trace.Sends)
    w, wm = traced(P, 'note::wait::trace', trace.Waits)
    out = by_rule(s, 'note::send', SEND_RULES) + by_rule(w, 'note::wait', WAIT_RULES)
    r = Result('note: send and wait meet', 'send moves the counter waits read before it empties, under the same lock, the list waits register in')
    if s.undecided or w.undecided:
        r.undecided = list(s.undecided) + list(w.undecided)
    else:
        for l in sorted(wm.lists or ()):
            if (l, wm.version) not in (sm.pairs or ()):
                r.violations.append({'where': 'parcom-internals/src/future/notify.rs', 'what': f'waits register under lock {l} after reading counter {wm.version}; send empties {sorted(sm.pairs or ())}',
                                     'path': [], 'key': 'note: pairs', 'tags': []})
    o = Result('note: what went before', 'a notification publishes what its sender did before it (the counter is moved with release ordering and read with acquire ordering, or both under one lock)')
    if s.undecided or w.undecided:
        o.undecided = list(r.undecided)
    else:
        for c, held, strong in sorted(sm.moves, key=repr):
            for d, under, sees in sorted(wm.reads, key=repr):
                if c == d and not (strong and sees or held & under):
                    who = 'send moves' if not strong else 'a wait reads'
                    o.violations.append({'where': 'parcom-internals/src/future/notify.rs', 'what': f'{who} counter {c} without ordering it with what went before the notification',
                                         'path': [], 'key': f'note: ordering: {who}', 'tags': []})
    return out + [r, o]


def c19(P, tier):
    s, _ = traced(P, 'note::send::trace', trace.Sends)
    w, _ = traced(P, 'note::wait::trace', trace.Waits)
    return (by_rule(s, 'note::send', (('foreign', 'no waker is woken or dropped while the list is locked'),
                                      ('locks', 'the list is not locked twice, and is unlocked on return')))
            + by_rule(w, 'note::wait', (('locks', 'the list is not locked twice, and is unlocked on return'),)))


SEG_RULES = (('exact', 'every segment the buffer gives is handed out once, at once'),
             ('early', 'the end is reported only if it was flagged before a look for data that found none'),
             ('stall', 'every not-ready answer comes with a wake of this task, or a pending wait begun before the last looks for data and for the end'),
             ('panics', 'no panic of its own'),
             ('spin', 'a task that woke itself does so again only after a notification'))
ADV_RULES = (('amount', 'the buffer is advanced by what is still missing: first all, then what the last advance left'),
             ('early', 'completes only with nothing missing, or with the end flagged before the last advance of the buffer'),
             SEG_RULES[2], SEG_RULES[3], SEG_RULES[4])


def c27(P, tier):
    s, _ = traced(P, 'runner::segments::trace', trace.Segments, {'notify': True})
    a, _ = traced(P, 'runner::advance::trace', trace.Advances, {'notify': True})
    return by_rule(s, 'runner::segments', SEG_RULES) + by_rule(a, 'runner::advance', ADV_RULES)


CADV_RULES = (('skip', 'after an advance by n the first segment starts n items further on, wherever in a chain of any length'),
              ('rest', 'the answer is n less what there was'),
              ('panics', 'no panic, given a position within its block'))
CREAD_RULES = (('read', 'every block is handed out whole, once and in order; of the first, what is left of it'),
               ('end', 'the end is reported only when the next block is missing, and the next call looks for it again'),
               ('panics', 'no panic, given a position within its block'))


def c23(P, tier):
    a, _ = traced(P, 'grow::chain_advance::trace', trace.ChainAdvance, {'chain': True})
    r, _ = traced(P, 'grow::chain_read::trace', trace.ChainRead, {'chain': True})
    return by_rule(a, 'grow::chain_advance', CADV_RULES) + by_rule(r, 'grow::chain_read', CREAD_RULES) + contract(P, 'C23', tier)


def plain(prop):
    return lambda P, t: contract(P, prop, t)


def rules(fn, *props):
    return lambda P, t: fn(P, t, Result) + [r for p in props for r in contract(P, p, t)]


# property -> (check, number of obligations confirmed by hand on today's tree)
CHECKS = {
    'C01': (c01, 68),
    'C02': (c02, 75),
    'C03': (c03, 67),
    'C04': (plain('C04'), 17),
    'C05': (plain('C05'), 4),
    'C06': (plain('C06'), 34),
    'C07': (plain('C07'), 2),
    'C08': (plain('C08'), 18),
    'C09': (plain('C09'), 19),
    'C10': (plain('C10'), 9),
    'C11': (plain('C11'), 5),
    'C12': (plain('C12'), 4),
    'C13': (plain('C13'), 30),
    'C14': (rules(lint.c14), 5),
    'C15': (rules(lint.c15, 'C15'), 30),
    'C28': (rules(lint.c28), 150),
    'C29': (rules(lint.c29), 150),
    'C30': (rules(lint.c30), 50),
    'C33': (rules(pins.c33), 25),
    'C34': (rules(lint.c34), 120),
    'C35': (rules(recur.c35), 400),
    'C16': (filtered('C16', 'every access, copy, release and drop is within initialised storage of the vector; all storage released', vec_memory, {'may_alloc': True}), 4),
    'C17': (filtered('C17', 'lock-step agreement with a plain stack; no allocation while the capacity asked for fits inline', vec_stack), 4),
    'C18': (c18, 10),
    'C19': (c19, 3),
    'C20': (plain('C20'), 5),
    'C21': (plain('C21'), 7),
    'C22': (plain('C22'), 4),
    'C23': (c23, 10),
    'C24': (plain('C24'), 1),
    'C25': (plain('C25'), 2),
    'C26': (plain('C26'), 3),
    'C27': (c27, 10),
}
