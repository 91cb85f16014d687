#!/usr/bin/env python3
"""check.py <property> : decides one property from /repo's current source."""
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import build
import facts
import obl

V = build.V
TRUSTED = ['rustc nightly front end up to optimised-out MIR (mir-opt-level=0 bodies of the analysed crates)',
           'sa/ abstract machine and its transfer functions for the standard library (sa/models.py)',
           'harness/src contracts']


def known(prop):
    out = {}
    p = os.path.join(V, 'known_findings.json')
    if os.path.exists(p):
        for f in json.load(open(p)):
            if f.get('status') == 'known' and f['property'] == prop:
                out[f['key']] = f
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    t0 = time.time()
    try:
        P = facts.Prog(build.extract())
    except build.BuildError as e:
        print(f'ERROR {prop}: {e}')
        return 2
    fn, floor = obl.CHECKS[prop]
    res = fn(P, tier)
    kn = known(prop)
    fresh, found = [], {}
    for r in res:
        for v in r.violations:
            v['obligation'] = r.name
            if v['key'] in kn:
                found[v['key']] = v
            else:
                fresh.append(v)
    und = [f'{r.name}: {u}' for r in res for u in r.undecided]
    ob = len(res)
    dis = sum(1 for r in res if r.discharged)
    if ob < floor:
        print(f'ERROR {prop}: only {ob} obligations found, expected at least {floor}')
        return 2
    tot = {}
    for r in res:
        for k, x in r.stats.items():
            tot[k] = tot.get(k, 0) + x
    cov = {
        'obligations': ob, 'discharged': dis,
        'checker_cmd': f'python3 sa/check.py {prop}',
        'trusted_base': TRUSTED,
        'undecided': und[:50],
        'rules': sorted({r.rule for r in res}),
        'instances': [{'obligation': r.name, 'rule': r.rule, 'ok': r.discharged, **({'stats': r.stats} if r.stats else {})} for r in res],
        'totals': tot,
        'functions_analysed': sum(1 for f in P.fns.values() if 'bb' in f and f['crate'].startswith('parcom')),
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'proof',
          'coverage': cov, 'wall_s': round(time.time() - t0, 3), 'violations': len(fresh)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop}: {dis}/{ob} obligations discharged, {len(und)} undecided, {cov["functions_analysed"]} library functions in the analysed program, {ev["wall_s"]}s')
    for u in und[:20]:
        print('UNDECIDED', u)
    for k, f in sorted(kn.items()):
        if k in found:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if fresh:
        p = os.path.join(V, 'evidence', f'{prop}.violation.json')
        with open(p, 'w') as f:
            json.dump(fresh, f, indent=1)
        for v in fresh[:6]:
            print(f"violation at {v['where']}: {v['what']}")
            for s in v.get('path', [])[-12:]:
                print('    ', s)
        print(f'VIOLATION property={prop} replay={p}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
