"""Profile one case in process: /opt/venv/bin/python tools/profile_case.py C18 CASE"""
import sys, cProfile, pstats, importlib
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
from symx import env
env.z3path()
from symx import patch, engine
from symx.harness import SymCx
patch.install()
env.setup()
prop, case = sys.argv[1:3]
mod = importlib.import_module(f'harness.{prop.lower()}')
patch.after_import()
c = {c.name: c for c in mod.cases('thorough')}[case]
eng = engine.Engine()
def body():
    c.fn(SymCx(eng), **c.params)
pr = cProfile.Profile(); pr.enable()
try:
    eng.explore(body)
except BaseException as e:
    print('EXC', type(e), str(e)[:300])
pr.disable()
print(eng.stats.d)
pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
