import faulthandler; faulthandler.dump_traceback_later(250, exit=True)
import sys, time
sys.path.insert(0,'/verif/vc')
from unit import *
from specs import SPECS
g=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else ''
prog=Prog(f'/tmp/dump_{g}.json')
t0=time.time(); n=0; bad=0
for r,k in prog.roots.items():
    if pat not in r: continue
    m=r.split('::'); mod,grp,op=m[-3:]
    l,p=(mod[4:],None) if mod.startswith('int_') else (mod.split('_')[0],int(mod.split('_')[1]))
    sp=SPECS[g](l,p,op)
    x=verify(prog,k,sp,name=f"{mod}::{op}",debug=len(sys.argv)>3)
    n+=len(x['obls'])
    b=[o for o in x['obls'] if o['status']!='proved']
    bad+=len(b)
    if b or x['error'] or len(sys.argv)>3: print(x['unit'],x['error'],x['paths'],x['returns'],round(x['wall'],2),x['q'],b[:3],x['samples'][:2])
print(n,bad,time.time()-t0)
