"""dev: verify contract units. usage: td.py <dump group> <contract name regex>"""
import faulthandler; faulthandler.dump_traceback_later(600, exit=True)
import sys, time, re
sys.path.insert(0,'/verif/vc')
from unit import *
from deps import CONTRACTS
prog=Prog(f'/tmp/dump_{sys.argv[1]}.json')
for c in CONTRACTS.values():
    if not re.search(sys.argv[2], c.name): continue
    ks=[k for k,f in prog.fns.items() if c.rx.search(f['sname']) and f['body'] is not None]
    for k in ks:
        x=verify(prog,k,c.spec(prog,k),c.entries(),name=c.name,debug=len(sys.argv)>3,deadline=time.time()+300,**c.kw)
        b=[o for o in x['obls'] if o['status']!='proved']
        print(c.name, prog.fns[k]['sname'][-50:], x['error'], 'paths',x['paths'],x['returns'],'obl',len(x['obls']),'open',len(b),round(x['wall'],2),x['q'],{k:round(v,1) for k,v in x['t'].items()},[str(o)[:300] for o in b[:2]],flush=True)
    if not ks: print(c.name,'not in dump')
