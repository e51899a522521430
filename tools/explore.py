import sys; sys.path.insert(0,'/verif')
from dv import engine
import time
prop=sys.argv[1]; only=sys.argv[2:] or None
t=time.time()
def log(c,s,r):
    print(f"  {c.name} {s} {r['status']} {r['why'] or ''} {r['choices']} {r['secs']:.2f}s", [(o['name'],o['status'],o['backend'],round(o['secs'],2),o['note'] or '',o['model']) for o in r['obls'] if o['status']!='proved'] , len(r['obls']), r['assumed'][:3])
R=engine.explore(prop,300,8,only,log)
for r in R:
    n=len(r['obls']); d=sum(o['status']=='proved' for o in r['obls'])
    print(r['contract'],'paths',r['paths'],'aborted',r['aborted'],'obl',n,'ok',d,'unsup',r['unsupported'][:3],'secs',round(r['secs'],1),'missing',r['missing'],'budget',r['budget'],r['stats'])
print(time.time()-t)
