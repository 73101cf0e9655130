import os,sys,re,time
os.environ['VERIF_REPO']=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','sa'))
import export
from prog import Prog
from scen import *
def show_(v):
    try: return show(v)
    except Exception: return str(v)
p=Prog(export.export())
names=re.findall(r'^ (\w+) \{',open(os.environ['VERIF_REPO']+'/src/mod.rs').read(),re.M)
sel=sys.argv[1:] 
good=0
for n in names:
    if sel and n not in sel: continue
    f=next((f for f in p.fns.values() if f.local and f.crate=='lib' and f.name.split('::')[-1]==n),None)
    if f is None: print(n,'NOT FOUND'); continue
    t=time.time()
    try:
        r=Run(p,anyorder=False,intmax=5000,recursion=30)
        out=r.go(f,[],{})
        tr=r.trouble()
    except Exception as e:
        print('%-14s EXC %s %s'%(n,type(e).__name__,str(e)[:150]))
        if sel: raise
        continue
    res=[ (k,show_(st.deep(i)) if k=='return' else str(i)[:100]) for k,i,st in out]
    if not tr and res==[('return','True')] : good+=1
    else: print('%-14s %s | %s'%(n,str(tr)[:230],str(res)[:160]))
print(good,len(names))
