import sys; sys.path.insert(0,'/verif')
import importlib
from dv import runner
m=importlib.import_module("checks."+sys.argv[1]); m.prepare()
cs=m.cases("quick")
if len(sys.argv)>2: cs=[c for c in cs if any(a in c.name for a in sys.argv[2:])]
t,_=runner.run_cases(cs, verbose=True)
print(t.discharged,t.obligations,len(t.failed))
