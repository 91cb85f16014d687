#!/usr/bin/env python3
"""plant.py [id...]: applies each seeded change to /repo, runs build, tests, demo and the property's check, undoes it"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
def run(cmd, t=900):
    try:
        r = subprocess.run(cmd, shell=True, cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, 'timeout'
assert run('git status --short')[1] == ''
full = '--fast' not in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(S))
base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
for i in ids:
    d = os.path.join(S, i)
    prop = json.load(open(d + '/meta.json'))['property']
    out = []
    if full:
        c, o = run(f'bash {d}/demo.sh', 300)
        out.append('clean demo ok' if c == 0 else f'CLEAN DEMO FAILS {c} {o[-300:]}')
    c, o = run(f'git apply {d}/patch.diff')
    if c:
        print(i, 'APPLY FAILS', o); continue
    try:
        if full:
            c, o = run('bash /opt/vp/build.sh')
            if c: out.append('BUILD FAILS ' + o[-600:])
            c, o = run('bash /opt/vp/test.sh /tmp/plant-t.json 2>/dev/null | tail -1')
            out.append(o.strip().split('\n')[-1][:80])
            c, o = run(f'bash {d}/demo.sh', 300)
            out.append('demo detects' if c else 'DEMO MISSES')
        c, o = run(f'cd {V} && python3 sa/check.py {prop}')
        v = [l for l in o.split('\n') if l.startswith('violation at')]
        out.append(f'{prop} CAUGHT: {v[0][:160] if v else ""}' if c == 1 else f'{prop} *** MISSED rc={c} ' + o[-400:])
    finally:
        run('git checkout -- .')
    print(i, '|', ' | '.join(out), flush=True)
run('bash /opt/vp/build.sh')
