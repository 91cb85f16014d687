"""Whole-crate rules over the generic MIR, types and impls of the library crates (no instantiation)."""
import json
import os
import re


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d['crate']
        self.fns, self.adts, self.impls, self.statics, self.traits, self.types = (
            d[k] for k in ('fns', 'adts', 'impls', 'statics', 'traits', 'types'))

    def q(self, p):
        return f'{self.name}::{p}'


_crates = None


def crates(P):
    global _crates
    if _crates is None:
        d = P.path[:-5] + '.facts'
        _crates = [Crate(os.path.join(d, f)) for f in sorted(os.listdir(d))]
    return _crates


def peel(types, i):
    while types[i]['k'] in ('ref', 'ptr'):
        i = types[i]['e']
    return i


def const_fn(op):
    """the callee of a call operand, if known"""
    if op[0] == 'k' and op[2] == 'fn':
        return op[3]
    return None


def operands(rv):
    k = rv[0]
    if k in ('use', 'repeat'):
        return [rv[1]]
    if k == 'cast':
        return [rv[2]]
    if k == 'bin':
        return [rv[2], rv[3]]
    if k == 'un':
        return [rv[2]]
    if k == 'agg':
        return rv[4]
    return []


# ------------------------------------------------------------------ C14
UNK = 'UnknownLocation'
OBSERVE = {'core::fmt', 'core::cmp', 'core::hash', 'core::ops::drop', 'core::mem::drop'}
FLAT = ('bool', 'int', 'char', 'never')


def is_unk(t):
    return t['k'] == 'adt' and t['p'].split('::')[-1] == UNK


def harmless(types, i):
    t = types[i]
    if t['k'] in FLAT or (t['k'] == 'tuple' and not t['f']):
        return True
    if t['k'] == 'adt' and t['p'].startswith(('core::cmp::Ordering', 'core::fmt::Error')):
        return True
    if t['k'] == 'adt' and t['p'] in ('core::option::Option', 'core::result::Result'):
        return all(harmless(types, a) for a in t['a'])
    return False


class Taint:
    """which locals of a function hold the input at the unspecified position (or a way to it)"""

    def __init__(self, cr, fn, returns):
        self.cr, self.fn, self.b = cr, fn, fn['body']
        self.T = cr.types
        self.returns = returns      # functions known to return it
        self.t = set()
        self.ref = {}               # reference local -> what it refers to
        self.escapes = []
        self.touches = False
        self.args = set(range(1, self.b['argc'] + 1))

    def place_type(self, pl):
        i = self.b['locals'][pl[0]][0]
        seq = [i]
        for e in pl[1]:
            t = self.T[i]
            if e == '*':
                i = t.get('e', i)
                if t['k'] == 'adt':      # Box
                    i = t['a'][0]
            elif isinstance(e, list) and e[0] == 'f':
                i = e[2]
            elif isinstance(e, list) and e[0] in ('i', 'ci'):
                i = t.get('e', i)
            seq.append(i)
        return i, seq

    def reads(self, pl):
        """does reading this place yield the wrapped input"""
        _, seq = self.place_type(pl)
        for k, e in enumerate(pl[1]):
            if isinstance(e, list) and e[0] == 'f' and is_unk(self.T[seq[k]]):
                self.touches = True
                return True
        return pl[0] in self.t

    def op(self, o):
        return o[0] in ('c', 'm') and self.reads(o[1])

    def optype(self, o):
        if o[0] in ('c', 'm'):
            return self.place_type(o[1])[0]
        return o[1] if o[0] == 'k' else None

    def mark(self, pl, where):
        l = pl[0]
        if any(e == '*' for e in pl[1]) and l in self.args:
            self.escapes.append((where, 'stores it through a reference supplied by the caller'))
        todo = [l]
        while todo:
            x = todo.pop()
            if x in self.t:
                continue
            self.t.add(x)
            if x in self.ref:
                todo.append(self.ref[x])

    def run(self):
        for bb in self.b['bb']:
            for st in bb[0]:
                if st[0] == '=' and st[2][0] == 'ref' and not any(e == '*' for e in st[2][1][1]):
                    self.ref[st[1][0]] = st[2][1][0]
        n = -1
        while n != len(self.t):
            n = len(self.t)
            self.escapes = []
            for bb in self.b['bb']:
                for st in bb[0]:
                    self.stmt(st)
                self.term(bb[1])
        return self

    def stmt(self, st):
        if st[0] != '=':
            return
        dst, rv, where = st[1], st[2], st[3]
        hit = any(self.op(o) for o in operands(rv))
        if rv[0] in ('ref', 'discr'):
            hit = rv[0] == 'ref' and self.reads(rv[1])
        if rv[0] == 'agg' and rv[1] == 'adt' and is_unk(self.T[rv[2]]):
            hit = False
        if rv[0] == 'cast' and not hit:
            a, b = self.optype(rv[2]), rv[3]
            if a is not None and is_unk(self.T[peel(self.T, a)]) and not is_unk(self.T[peel(self.T, b)]) and self.T[peel(self.T, b)]['k'] != 'dyn':
                self.touches = True
                hit = True
        if hit and not harmless(self.T, self.place_type(dst)[0]):
            self.mark(dst, where)

    def term(self, t):
        if t[0] != 'call':
            return
        c = const_fn(t[1])
        args, dst, where = t[2], t[3], t[6]
        hot = [i for i, a in enumerate(args) if self.op(a)]
        p = (c or {}).get('rp') or (c or {}).get('p') or '?'
        names = {p, (c or {}).get('p')}
        if names & self.returns:
            self.touches = True
            self.mark(dst, where)
        if not hot:
            if p.startswith(('core::mem::transmute', 'core::ptr::read', 'core::intrinsics::transmute')):
                if any(self.optype(a) is not None and is_unk(self.T[peel(self.T, self.optype(a))]) for a in args):
                    if not is_unk(self.T[self.place_type(dst)[0]]):
                        self.touches = True
                        self.mark(dst, where)
            return
        if c is None:
            self.escapes.append((where, 'hands it to a function supplied by the caller'))
            return
        if c['p'].endswith('RewindSequence::rewind') and hot == [0]:
            return
        tr = c.get('tr', '')
        if tr.startswith(('core::fmt', 'core::cmp', 'core::hash')) or p.startswith('core::fmt::'):
            return
        if c.get('ctor'):
            if not is_unk(self.T[c['cty']]):
                self.mark(dst, where)
            return
        if tr.startswith('core::ops::function::'):
            self.escapes.append((where, 'hands it to a function supplied by the caller'))
            return
        # a conversion into the wrapper
        if is_unk(self.T[self.place_type(dst)[0]]):
            return
        foreign = not c.get('rp')
        if foreign and tr and any(i > 0 for i in hot):
            self.escapes.append((where, f'hands it to {c["p"]}'))
        for i, a in enumerate(args):
            if i not in hot and a[0] in ('c', 'm'):
                ty = self.T[self.optype(a)]
                if ty['k'] in ('ref', 'ptr') and ty.get('mut'):
                    if a[1][0] in self.args:
                        self.escapes.append((where, f'hands it to {c["p"]} together with a reference supplied by the caller'))
                    self.mark(a[1], where)
        if not harmless(self.T, self.place_type(dst)[0]):
            self.mark(dst, where)


def c14(P, tier, Result):
    out = []
    cs = crates(P)
    core = [c for c in cs if c.name == 'parcom_core'][0]
    rule = 'the input held back after a failure flows only into a rewind'
    found = False
    for a in core.adts:
        if a['p'].split('::')[-1] == UNK:
            found = True
            r = Result(f'{a["p"]} fields', 'the wrapped input is not a visible field')
            for _, fs in a['v']:
                for n, vis, _ in fs:
                    if vis == 'pub':
                        r.violations.append({'where': a['span'], 'what': f'field `{n}` of {a["p"]} is public: safe code can read the input without rewinding it',
                                             'key': f'{a["p"]}.{n} public', 'path': []})
            out.append(r)
    if not found:
        r = Result(UNK, rule)
        r.undecided.append(f'no type {UNK} in parcom_core')
        return [r]
    returns = set()
    while True:
        res = {}
        for c in cs:
            for f in c.fns:
                if f['body'] and 'bb' in f['body']:
                    res[(c.name, f['p'])] = (c, f, Taint(c, f, returns).run())
        new = set()
        for (cn, p), (c, f, t) in res.items():
            if 0 in t.t:
                new.add(p)
                new.add(f'{cn}::{p}')
                # methods are called through the type's path as other crates see it
                m = re.match(r'(.*)::(\w+)$', p)
                if m and c is core:
                    new.add(f'parcom_core::{p}')
        if new == returns:
            break
        returns = new
    for (cn, p), (c, f, t) in sorted(res.items()):
        sig = any(is_unk(c.types[peel(c.types, x)]) for x in f.get('in', []) + ([f['out']] if 'out' in f else []))
        if not t.touches and not (sig and c is core) and not t.escapes:
            continue
        r = Result(f'{cn}::{p}', rule)
        if f.get('unsafe'):
            r.rule = 'unsafe function: the caller takes responsibility'
        else:
            for where, what in t.escapes:
                r.violations.append({'where': where, 'what': f'{cn}::{p} takes the input out of {UNK} without rewinding and {what}', 'key': f'{cn}::{p} escapes: {what}', 'path': []})
            if 0 in t.t and (f.get('reach') or f.get('trait')) and f['p'] == f['top']:
                r.violations.append({'where': f['span'], 'what': f'{cn}::{p} is safe and returns the input held by {UNK} without rewinding it', 'key': f'{cn}::{p} returns', 'path': []})
        out.append(r)
    return out


# ------------------------------------------------------------------ C15
def valueless(types, i, seen=()):
    """no value of this type exists"""
    if i in seen:
        return False
    t = types[i]
    s = seen + (i,)
    k = t['k']
    if k == 'never':
        return True
    if k == 'adt':
        if t['p'] in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc', 'core::pin::Pin', 'alloc::rcs::rc::Rc', 'alloc::rcs::arc::Arc'):
            return valueless(types, t['a'][0], s)
        if t['p'] == 'core::mem::maybe_uninit::MaybeUninit' or t['ak'] == 'union':
            return False
        return all(any(valueless(types, f[1], s) for f in v['f']) for v in t['v'])
    if k in ('tuple', 'closure'):
        return any(valueless(types, f, s) for f in t['f'])
    if k == 'array':
        return t['n'] not in (0, None) and valueless(types, t['e'], s)
    if k == 'ref':
        return valueless(types, t['e'], s)
    return False


def c15(P, tier, Result):
    out = []
    for c in crates(P):
        for n, unsafe in c.traits:
            if n.split('::')[-1] == 'ShouldNever':
                r = Result(f'{c.name}::{n}', 'the marker may only be claimed by unsafe code')
                if not unsafe:
                    r.violations.append({'where': c.name, 'what': f'{n} is a safe trait: any type can claim to have no values', 'key': f'{n} safe', 'path': []})
                out.append(r)
        for im in c.impls:
            if im.get('trait', '').split('::')[-1] != 'ShouldNever':
                continue
            name = c.types[im['self']]['s']
            r = Result(f'{c.name}: {name}', 'with the marked parameters replaced by a type without values (all others by one with values) the type has no values')
            for n, ty in enumerate(im['subst']):
                if not valueless(c.types, ty):
                    r.violations.append({'where': im['span'], 'what': f'{name} is marked as having no values, but {c.types[ty]["s"]} has one', 'key': f'{name} marked', 'path': []})
                    break
            out.append(r)
    return out


# ------------------------------------------------------------------ C28
def callees(f):
    b = f['body']
    if not b or 'bb' not in b:
        return
    for bb in b['bb']:
        if bb[1][0] == 'call':
            c = const_fn(bb[1][1])
            if c:
                yield c, bb[1][6]
        for st in bb[0]:
            if st[0] == '=':
                for o in operands(st[2]):
                    c = const_fn(o) if o[0] == 'k' else None
                    if c:
                        yield c, st[3]
                if st[2][0] == 'agg' and st[2][1] in ('closure', 'coroutine'):
                    yield {'agg': st[2][2]}, st[3]


def plain(p):
    """crate::path without generic arguments; a qualified path `<T as Trait>::m` keeps its angle brackets' content"""
    crate, rest = p.split('::', 1)
    out, keep, i = '', [], 0
    while i < len(rest):
        ch = rest[i]
        if ch == '<':
            keep.append(not out or out[-1] == '(')
        elif ch == '>' and rest[i - 1] != '-':
            keep.pop()
        elif all(keep):
            out += ch
        i += 1
    return crate + '::' + out.replace('::::', '::')


def graph(P):
    """library call graph: function -> [(function, call site)]"""
    cs = crates(P)
    idx = {}
    for c in cs:
        for f in c.fns:
            idx[f'{c.name}::{f["p"]}'] = (c, f)
    g = {}
    for c in cs:
        for f in c.fns:
            k = f'{c.name}::{f["p"]}'
            out = g.setdefault(k, [])
            for cal, where in callees(f):
                if 'agg' in cal:
                    n = [c.types[cal['agg']].get('p', '?')]
                else:
                    n = [cal.get('rp'), cal['p']]
                for x in n:
                    if not x:
                        continue
                    for cand in (f'{c.name}::{x}', x):
                        if cand in idx:
                            out.append((cand, where))
                            break
    return idx, g


MISSING = re.compile(r'(?i)\b(un|not (yet )?)(implemented|supported|available)|\b(todo|fixme|placeholder)\b')


def stubs(f):
    """where a function gives up because something is not implemented"""
    out = list(f['placeholders'])
    if not f['body'] or 'bb' not in f['body']:
        return out
    calls = [bb[1] for bb in f['body']['bb'] if bb[1][0] == 'call']
    panics = any((const_fn(t[1]) or {}).get('p', '').startswith(('core::panicking::panic', 'std::rt::', 'std::panicking::', 'core::panicking::unreachable')) for t in calls)
    for t in calls:
        p = (const_fn(t[1]) or {}).get('p', '')
        if p.startswith(('core::panicking::', 'std::rt::', 'std::panicking::')) or p.endswith('::expect') or (panics and p.startswith('core::fmt::Arguments')):
            if any(a[0] == 'k' and a[2] == 'str' and MISSING.search(str(a[3])) for a in t[2]) and t[6] not in out:
                out.append(t[6])
    return out


def c28(P, tier, Result):
    idx, g = graph(P)
    out = []
    for k, (c, f) in sorted(idx.items()):
        if f['p'] != f['top'] or not (f.get('reach') or f.get('trait')):
            continue
        r = Result(k, 'no placeholder (todo!, unimplemented!) is reachable through the call graph')
        seen, todo = {k: None}, [k]
        while todo:
            x = todo.pop(0)
            for s in stubs(idx[x][1]):
                path = []
                y = x
                while y:
                    path.append(y)
                    y = seen[y]
                r.violations.append({'where': s, 'what': f'{k} reaches the placeholder in {x}', 'key': f'{plain(k)}: placeholder', 'path': path[::-1]})
            for y, w in g[x]:
                if y not in seen:
                    seen[y] = x
                    todo.append(y)
        out.append(r)
    return out


# ------------------------------------------------------------------ C29
PARSER_CRATES = ('parcom_core', 'parcom_parsers', 'parcom_util', 'parcom_metrics')
SHARED = ('core::cell::', 'std::sync::', 'core::sync::', 'alloc::sync::Weak', 'std::thread::local')
POINTEE = ('alloc::', 'std::collections', 'core::option', 'core::result')
AMBIENT = ('std::env::', 'std::time::', 'std::fs::', 'std::io::', 'std::net::', 'std::process::', 'std::thread::', 'core::sync::atomic', 'core::cell::', 'std::sync::',
           'std::random::', 'std::hash::random::', 'std::sys')


def hidden(types, i, path=(), seen=None):
    """a field path to a place that may change behind a shared reference"""
    seen = set() if seen is None else seen
    if i in seen:
        return None
    seen.add(i)
    t = types[i]
    if t['k'] == 'ptr' and t.get('mut'):
        return path + (t['s'],)
    if t['k'] == 'adt':
        if t['p'] == 'core::marker::PhantomData':
            return None
        if t['p'].startswith(SHARED):
            return path + (t['s'],)
        if t['p'].startswith(POINTEE):
            kids = [('', a) for a in t['a']]
        else:
            kids = [(f[0], f[1]) for v in t['v'] for f in v['f']]
    elif t['k'] in ('tuple', 'closure', 'coroutine'):
        kids = [(str(n), f) for n, f in enumerate(t['f'])]
    elif t['k'] in ('array', 'slice', 'ref', 'ptr'):
        kids = [('', t['e'])]
    else:
        kids = []
    for n, f in kids:
        r = hidden(types, f, path + (n,), seen)
        if r:
            return r
    return None


def c29(P, tier, Result):
    out = []
    for c in crates(P):
        if c.name not in PARSER_CRATES:
            continue
        for a in c.adts:
            r = Result(f'{c.name}::{a["p"]}', 'no field can change behind a shared reference')
            h = hidden(c.types, a['t'])
            if h:
                r.violations.append({'where': a['span'], 'what': f'{c.name}::{a["p"]} keeps state that changes behind a shared reference: {".".join(x for x in h if x)}',
                                     'key': f'{c.name}::{a["p"]} hidden state', 'path': []})
            out.append(r)
        for s in c.statics:
            if s['mut'] or not s['freeze'] or s['tls']:
                r = Result(f'{c.name}::{s["p"]}', 'no mutable global')
                r.violations.append({'where': s['span'], 'what': f'{c.name}::{s["p"]} is global mutable state: {c.types[s["t"]]["s"]}', 'key': f'{c.name}::{s["p"]} global', 'path': []})
                out.append(r)
        for f in c.fns:
            if not f['body'] or 'bb' not in f['body']:
                continue
            r = Result(f'{c.name}::{f["p"]}', 'touches nothing but its arguments: no ambient state, no write behind a shared reference')

            def bad(where, what):
                r.violations.append({'where': where, 'what': f'{c.name}::{f["p"]} {what}', 'key': f'{c.name}::{f["p"]} {what}', 'path': []})
            b = f['body']
            T = c.types
            for cal, where in callees(f):
                p = cal.get('rp') or cal.get('p') or ''
                if p.startswith(AMBIENT):
                    bad(where, f'uses {p}')
                if p.startswith(('core::ptr::write', 'core::ptr::mut_ptr', 'core::ptr::replace', 'core::ptr::swap', 'core::ptr::non_null')) or p.endswith('::cast_mut'):
                    bad(where, f'writes through a raw pointer ({p})')
            for bb in b['bb']:
                for st in bb[0]:
                    if st[0] != '=':
                        continue
                    pl, rv, where = st[1], st[2], st[3]
                    i = b['locals'][pl[0]][0]
                    for e in pl[1]:
                        if e == '*':
                            if T[i]['k'] == 'ptr':
                                bad(where, 'writes through a raw pointer')
                            if T[i]['k'] == 'ref' and not T[i]['mut']:
                                bad(where, 'writes through a shared reference')
                            i = T[i].get('e', i)
                        elif isinstance(e, list) and e[0] == 'f':
                            i = e[2]
                        elif isinstance(e, list) and e[0] in ('i', 'ci'):
                            i = T[i].get('e', i)
                    if rv[0] == 'cast' and T[rv[3]]['k'] in ('ref', 'ptr') and T[rv[3]].get('mut'):
                        o = rv[2]
                        if o[0] in ('c', 'm') and not o[1][1]:
                            s = T[b['locals'][o[1][0]][0]]
                            if s['k'] in ('ref', 'ptr') and not s.get('mut'):
                                bad(where, 'casts a shared reference or pointer to a mutable one')
            out.append(r)
    return out


# ------------------------------------------------------------------ C30
def c30(P, tier, Result):
    out = []
    for k, ok, p, why in P.facts.get('send', []):
        if not P.fns_crate_is_ours(p):
            continue
        name = P.types[k]['s']
        r = Result(name, 'with every part thread-safe, the future may be sent between threads')
        if not ok:
            deep = [w for w in why if 'async fn body' not in w] or why
            r.violations.append({'where': p, 'what': f'{name} cannot be sent between threads: ' + '; '.join(deep[:3]), 'key': f'{p} not Send', 'path': why})
        out.append(r)
    return out


# ------------------------------------------------------------------ C34
UNSHARED = re.compile(r'^(core::cell::(Cell|RefCell|OnceCell|LazyCell)|alloc::rc::\w+|alloc::rcs::rc::\w+)$')
CELLS = re.compile(r'^core::cell::')


def c34(P, tier, Result):
    out = []
    cs = crates(P)
    reach = {c.q(a['p']) for c in cs for a in c.adts if a['reach']}
    for p, name, span, why in P.facts.get('threads', []):
        if p not in reach:
            continue
        r = Result(name, 'built from thread-safe parts, the value may be sent to and shared with other threads')
        for tr, w in why:
            r.violations.append({'where': span, 'what': f'{name} is not {tr} although everything supplied to it is:{w or " withdrawn by an impl"}', 'key': f'{p} not {tr}', 'path': []})
        out.append(r)
    for c in cs:
        for im in c.impls:
            if 'claims' not in im or im['neg']:
                continue
            tr = im['trait'].split('::')[-1]
            name = c.types[im['self']]['s']
            r = Result(f'unsafe impl {tr} for {name} ({im["span"].split("/repo/")[-1]})', 'thread safety is claimed only as far as the contents have it')
            t = c.types[peel(c.types, im['self'])]
            held = uses(c.types, im['self'])
            cells = any(c.types[i]['k'] == 'adt' and CELLS.match(c.types[i]['p']) for i in held)
            for ty, send, sync in im['claims']:
                if ty not in held or (sync if tr == 'Sync' else send):
                    continue
                what = f'{name} claims {tr} whether or not {c.types[ty]["s"]} is {tr}'
                # what is only reached through a lock, or by reference, may ask for the other one
                if (tr == 'Sync' and send and cells) or (tr == 'Send' and sync and any(c.types[i]['k'] in ('ref', 'ptr') or 'Arc' in str(c.types[i].get('p')) for i in held)):
                    r.undecided.append(what)
                else:
                    r.violations.append({'where': im['span'], 'what': what, 'key': f'{name} {tr} claim', 'path': []})
            for i in sorted(held):
                q = c.types[i]
                if q['k'] == 'adt' and UNSHARED.match(q['p']) and (tr == 'Sync' or 'rc' in q['p']):
                    r.violations.append({'where': im['span'], 'what': f'{name} claims {tr} but holds a {q["s"]}', 'key': f'{name} {tr} holds {q["p"]}', 'path': []})
            out.append(r)
    return out


def uses(types, i, seen=None):
    """types occurring in the fields of a type, other than behind function pointers"""
    seen = set() if seen is None else seen
    if i in seen:
        return seen
    seen.add(i)
    t = types[i]
    k = t['k']
    sub = []
    if k == 'adt':
        sub += [f[1] for v in t['v'] for f in v['f']]
        if t['p'].startswith(('alloc::', 'core::', 'std::')):
            sub += [a for a in t['a'] if isinstance(a, int)]
    elif k in ('tuple', 'closure'):
        sub += t['f']
    elif k in ('array', 'slice', 'ref', 'ptr'):
        sub.append(t['e'])
    for x in sub:
        if x is not None:
            uses(types, x, seen)
    return seen
