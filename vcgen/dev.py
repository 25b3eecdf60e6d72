import sys, importlib, tempfile, time, traceback, os
sys.path.insert(0, '/verif/vcgen'); sys.path.insert(0, '/verif/contracts')
from verify import *
m = importlib.import_module(sys.argv[1])
import collections
t=time.time()
d = tempfile.mkdtemp()
mods = [Module(p) for p in compile_ir(m.SRC, d)]
v = V(mods, True)
if os.environ.get('ONLY'):
    v.mine = lambda n: any(x in n for x in os.environ['ONLY'].split('+'))
try:
    (getattr(m, sys.argv[2]) if len(sys.argv)>2 else m.run)(v)
except Exception:
    traceback.print_exc()
    print('at', v.ex.cur)
import shutil; shutil.rmtree(d)
print(collections.Counter((o.kind,o.status) for o in v.ex.obligs), 'queries', v.solver.queries, 'solver %.1f'%v.solver.time, 'total %.1f'%(time.time()-t), 'steps', v.ex.steps)
for u in v.units:
    print('  unit', u[0], u[1][:200], u[2], '%.1f'%u[3])
for o in v.ex.obligs:
    if o.status!='proved':
        print(o, o.text[:300].replace('\n',' '))
        if o.model is not None and len(sys.argv)>3: print(o.model)
print('inlined', sorted(x.split('(')[0] for x in v.ex.inlined)[:40])
