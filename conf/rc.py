import sys,time,importlib; sys.path.insert(0,'/verif')
from pyvc.loader import *
repo='/repo'
args=sys.argv[1:]
if args[0].startswith('/'): repo=args.pop(0)
m=importlib.import_module('contracts.'+args[0])
want=args[1] if len(args)>1 else ''
bound=int(args[2]) if len(args)>2 else None
l=Loader(repo)
import os
if os.environ.get("TB"):
    import traceback
    o=Unsupported.__init__
    def ini(self,*a):
        o(self,*a); traceback.print_stack(limit=14)
    Unsupported.__init__=ini
for h in m.HARNESSES:
    if want not in h.name: continue
    it=Engine(l, timeout_ms=h.timeout)
    t=time.time()
    r=it.explore(h,bound=bound,deadline_s=h.deadline)
    st={}
    for n,s,d in r.obligations: st.setdefault(s,set()).add(n)
    print('%-28s %.1fs paths=%d cut=%d obl=%d %s q=%d solver=%.1f rounds=%d covers=%s trunc=%s'%(h.name,time.time()-t,r.paths,r.cut,len(r.obligations),{k:len([1 for o in r.obligations if o[1]==k]) for k in st},r.queries,r.solver_s,r.rounds,r.covers,r.truncated))
    if r.unsupported: print('   UNSUP',r.unsupported)
    for n,s,d in r.obligations:
        if s!='proved':
            print('  ',s,n,d.get('where'),d.get('info')); 
            if os.environ.get('V'): print('     pc',d['pc'][-int(os.environ["V"]):],'\n   goal',d['goal'],'\n   ',d.get('model','')[:1500])
