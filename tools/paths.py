import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','engine'))
from interp import *; import mir,time,pp
P=mir.load(os.environ.get('FACTS','/tmp/facts.json'))
name=sys.argv[1]
F=P.fns.get(name) or [f for p,f in P.fns.items() if p.endswith(name)][0]
b={x:'event' for x in os.environ.get('B','').split(',') if x}
I=Interp(P,b); t=time.time()
ps=I.run(F,[mk('arg',F.lname(i+1) or 'a%d'%(i+1)) for i in range(F.argc)])
print(len(ps),'paths',time.time()-t,'pruned',I.pruned,'unknown',I.unknown)
sel=sys.argv[2:] 
for i,p in enumerate(ps):
    if sel and str(i) not in sel: continue
    print('#%d'%i); print(pp.dump(p,os.environ.get("SKIP","").split(",")))
