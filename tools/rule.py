import sys,os
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import time
from sa.rules import Check
from sa.spec import registry
import importlib
pid=sys.argv[1]; repo=sys.argv[2] if len(sys.argv)>2 else '/repo'
c=Check(pid,repo)
m,f,*_=registry.RULES[pid]
t=time.time()
getattr(importlib.import_module('sa.spec.'+m),f)(c)
st={}
for r in c.results:
    st[r['status']]=st.get(r['status'],0)+1
    if r['status']!='discharged' or r['wall']>3:
        print(r['status'],r['key'],r['wall'],str(r.get('msg'))[:400],r.get('witness'))
print(len(c.results),st,round(time.time()-t,1))
