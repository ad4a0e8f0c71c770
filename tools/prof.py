"""profile one case: prof.py P08 case"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import cProfile, pstats
from sym import run
run.import_viscid()
mod = run.load(sys.argv[1])
from sym import shim, engine
shim.install()
cs = [c for c in mod.cases('quick') if sys.argv[2] in c.name][0]
pr = cProfile.Profile(); pr.enable()
print(run.run_case(mod, cs, 300)[:1] if False else str(run.run_case(mod, cs, 300))[:200])
pr.disable(); pstats.Stats(pr).sort_stats(sys.argv[3] if len(sys.argv)>3 else 'tottime').print_stats(28)
