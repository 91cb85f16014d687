import sys; sys.path.insert(0,'/verif/sa')
from facts import Prog
from product import Explorer
import json,time
import obl; obl.PROBE['left']=0
P=Prog(sys.argv[1])
want=sys.argv[2:]
for n,k in sorted(P.roots.items()):
    mod,b=n.rsplit('::',1)
    if b=='spec' or mod+'::spec' not in P.roots: continue
    if want and mod.split('::')[-1] not in want and mod not in want: continue
    t=time.time()
    fl=obl.flags(mod)
    e=obl.compare(P,n,mod+'::spec',fl)
    print(n, {a:b for a,b in e.stats.items()}, f'{time.time()-t:.2f}s', 'VIOL' if e.violations else '', 'UNDEC' if e.undecided else '')
    for v in e.violations[:3]:
        print('   V', [p[:150] for p in v['path'][-9:]],'\n      I',v['implementation'][:300],'\n      C',v['contract'][:300])
    for u in e.undecided[:4]: print('   U',u[:300])
