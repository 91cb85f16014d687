#!/usr/bin/env python3
"""generates seeded/<id>/ from tools/seeds/*.py (each defines seed(id, property, edits, needs, breaks, demo))"""
import glob, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRELUDE = open(os.path.join(V, 'tools', 'prelude.rs')).read()
W = '/tmp/mkseeds-wt'
only = set(sys.argv[1:])

def sh(*a, **k):
    return subprocess.run(a, check=True, stdout=subprocess.PIPE, text=True, **k).stdout

def seed(id, prop, edits, needs, breaks, demo, sh_body=None, prelude=True):
    if only and id not in only:
        return
    sh('git', '-C', W, 'checkout', '-q', '--', '.')
    for path, old, new in edits:
        p = os.path.join(W, 'crates', path)
        s = open(p).read()
        assert s.count(old) == 1, (id, path, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git', '-C', W, 'diff'))
    open(os.path.join(d, 'main.rs'), 'w').write((PRELUDE if prelude else '') + demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(sh_body or open(os.path.join(V, 'tools', 'demo.sh')).read())
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    sh('git', '-C', W, 'checkout', '-q', '--', '.')
    print('seeded', id)

subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
subprocess.run(['rm', '-rf', '/tmp/mkseeds-wt'])
sh('git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', W, 'HEAD')
try:
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'seeds', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'seed': seed, 'V': V, 'os': os})
finally:
    sh('git', '-C', '/repo', 'worktree', 'remove', '--force', W)
