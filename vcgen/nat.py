"""development aid: nat.py <contract> [seconds]: run the native driver of a contract set"""
import sys, os, tempfile, importlib, shutil
sys.path.insert(0, '/verif'); sys.argv[0] = '/verif/check.py'
import check
m = importlib.import_module(sys.argv[1])
d = tempfile.mkdtemp()
exe, e = check.build_native('P', m, d)
print(e or 'built')
if exe:
    f, s = check.run_native(exe, 1, int(sys.argv[2]) if len(sys.argv) > 2 else 5, d, [])
    print(s)
    if f:
        print('FOUND', f[0]); print(f[1][-2500:]); print(f[2][-3000:])
shutil.rmtree(d)
