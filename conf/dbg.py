import sys,importlib; sys.path.insert(0,'/verif')
from pyvc.loader import *
import pyvc.evalx as X
o=X.EvalMixin.check_cands
def cc(self,site,cands,what):
    d0=set(site.dead); o(self,site,cands,what)
    for n in site.dead-d0:
        if sys.argv[3] in n: 
            print('dead',what,n,site.key[1:],'goal',str(cands[n])[:400])
            s=z3.Solver(); s.add(*self.pc); s.add(z3.Not(cands[n])); print(s.check()); 
            m=s.model(); print(str(m)[:1500])
X.EvalMixin.check_cands=cc
m=importlib.import_module('contracts.'+sys.argv[1])
import os; l=Loader(os.environ.get('R','/repo'))
for h in m.HARNESSES:
    if h.name==sys.argv[2]:
        it=Engine(l,timeout_ms=h.timeout); it.explore(h,deadline_s=60)
