#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [quick|thorough]: prove the contracts of a property on /repo's current source.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: nothing could be decided (error)."""
import sys, os, time, json, tempfile, shutil, importlib, multiprocessing as mp, subprocess, signal, hashlib, pickle
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vcgen'))
sys.path.insert(0, os.path.join(HERE, 'contracts'))
sys.setrecursionlimit(20000)
import verify
from verify import *

T0 = time.time()
NPROC = int(os.environ.get('VP_JOBS', '8'))


def worker(mod, lls, claimdir, tier, q, deadline):
    r = {'units': [], 'undecided': [], 'obligs': [], 'functions': set(), 'inlined': set(), 'models': set(), 'by': {}, 'time': 0.0,
         'queries': 0, 'cases': 0, 'assumptions': set(), 'error': None, 'samples': []}
    try:
        v = V([Module(p) for p in lls], False, tier == 'thorough')
        v.hard_deadline = deadline
        seen = {}

        def mine(name):
            n = seen[name] = seen.get(name, 0) + 1
            h = hashlib.sha1(('%s#%d' % (name, n)).encode()).hexdigest()
            try:
                os.close(os.open(os.path.join(claimdir, h), os.O_CREAT | os.O_EXCL))
                return True
            except FileExistsError:
                return False
        v.mine = mine
        try:
            mod.run(v)
        except Exception as e:
            v.undecided.append(('run', '%s: %s' % (type(e).__name__, e)))
        r['units'] = v.units
        r['undecided'] = v.undecided
        r['functions'] = v.functions
        r['cases'] = v.cases
        r['inlined'] = set(v.ex.inlined)
        r['models'] = set(v.ex.used_models)
        r['assumptions'] = set(v.assumptions)
        r['by'] = dict(v.solver.by)
        r['time'] = v.solver.time
        r['queries'] = v.solver.queries
        for o in v.ex.obligs:
            m = None
            if o.status != 'proved' and o.model is not None:
                m = str(o.model)[:4000]
            vals = []
            if o.status != 'proved' and o.model is not None:
                try:
                    for d in o.model.decls():
                        x = o.model[d]
                        if hasattr(x, 'as_long'):
                            vals.append(x.as_long())
                except Exception:
                    pass
            r['obligs'].append((o.name, o.kind, v.prog.demangle(o.fn) if o.fn else '', o.line, o.status, m,
                                o.text[:3000] if o.status != 'proved' else '', vals))
    except Exception as e:
        import traceback
        r['error'] = traceback.format_exc()
    q.put(pickle.dumps(r))


def prove_all(pid, mod, tier, tmp, budget):
    lls = verify.compile_ir(mod.SRC, tmp)
    claim = os.path.join(tmp, 'claims')
    os.mkdir(claim)
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(mod, lls, claim, tier, q, T0 + budget)) for _ in range(NPROC)]
    for p in ps:
        p.start()
    out = []
    end = T0 + budget + 60
    while len(out) < len(ps) and time.time() < end:
        try:
            out.append(pickle.loads(q.get(timeout=1)))
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    lost = len(ps) - len(out)
    for p in ps:
        if p.is_alive():
            p.kill()
        p.join()
    return out, lost


def build_native(pid, mod, tmp):
    spec = getattr(mod, 'NATIVE', None)
    if not spec:
        return None, 'no native driver'
    src = os.path.join(HERE, 'native', spec['driver'])
    exe = os.path.join(tmp, 'driver')
    flags = ['-std=c++11', '-O1', '-g', '-w', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment',
             '-fno-sanitize-recover=undefined', '-D__STDC_CONSTANT_MACROS', '-I/opt/vp/cmake/include', '-I/usr/include/opencv4',
             '-I' + verify.REPO, '-I' + verify.REPO + '/src', '-I' + HERE + '/native', '-fno-access-control']
    flags += spec.get('flags', [])
    procs, objs = [], []
    for i, s in enumerate([src] + [os.path.join(verify.REPO, x) for x in spec.get('sources', [])]):
        o = os.path.join(tmp, 'n%d.o' % i)
        objs.append(o)
        cc = ['gcc'] + [f for f in flags if f not in ('-std=c++11', '-fno-access-control')] if s.endswith('.c') else ['g++'] + flags
        procs.append((s, subprocess.Popen(cc + ['-c', s, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    for s, p in procs:
        _, err = p.communicate()
        if p.returncode:
            return None, 'driver does not build: %s: %s' % (s, err[:600])
    r = subprocess.run(['g++', '-fsanitize=address,undefined'] + objs + spec.get('libs', []) + ['-lpthread', '-o', exe],
                       capture_output=True, text=True)
    if r.returncode:
        return None, 'driver does not link: ' + r.stderr[:600]
    return exe, None


def run_native(exe, seed, secs, tmp, consts):
    """(found, text, stats): several processes with different seeds explore for secs seconds"""
    d = os.path.join(tmp, 'dict')
    with open(d, 'w') as f:
        for c in consts:
            f.write('%d\n' % c)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1',
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77')
    ps = []
    for i in range(NPROC):
        wd = os.path.join(tmp, 'nat%d' % i)
        os.makedirs(wd, exist_ok=True)
        o = os.path.join(wd, 'log')
        ps.append((i, o, subprocess.Popen([exe, str(seed * 1000 + i), str(secs), os.path.join(wd, 'hist'), d], cwd=wd, env=env,
                                          stdout=open(o, 'w'), stderr=subprocess.STDOUT)))
    found, stats = None, []
    end = time.time() + secs + 45
    for i, o, p in ps:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            rc = p.wait()
            stats.append('run %d did not finish' % i)
            continue
        t = open(o, errors='replace').read()
        h = os.path.join(os.path.dirname(o), 'hist')
        if rc != 0:
            hist = open(h, errors='replace').read() if os.path.exists(h) else ''
            bad = rc == 1 and 'FAIL' in t
            bad = bad or 'AddressSanitizer' in t or 'runtime error' in t
            bad = bad or rc in (-6, -8, -11, 134, 136, 139)
            if bad:
                if found is None or len(hist) < len(found[1]):
                    found = (seed * 1000 + i, hist, t[-6000:])
                continue
            stats.append('run %d ended with %s: %s' % (i, rc, t[-300:]))
        else:
            stats.append(t.strip().splitlines()[-1] if t.strip() else '')
    return found, stats


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module(pid.lower())
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        rc = go(pid, tier, seed, mod, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == pid and k.get('status') != 'fixed']


def go(pid, tier, seed, mod, tmp):
    budget = getattr(mod, 'BUDGET', 500) if tier == 'quick' else 3000
    err = None
    try:
        outs, lost = prove_all(pid, mod, tier, tmp, budget)
    except Structural as e:
        print('ERROR: ' + str(e))
        outs, lost, err = [], 0, str(e)
        if 'does not compile' in err:
            return 2
    obl, units, und = [], [], []
    fns, inl, models, assum, by = set(), set(), set(), set(), {}
    stime, queries, cases = 0.0, 0, 0
    for r in outs:
        if r['error']:
            und.append(('worker', r['error'][-600:]))
        obl += r['obligs']
        units += r['units']
        und += r['undecided']
        fns |= r['functions']
        inl |= r['inlined']
        models |= r['models']
        assum |= r['assumptions']
        cases += r['cases']
        stime += r['time']
        queries += r['queries']
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    if lost:
        und.append(('worker', '%d prover processes did not report' % lost))
    und = sorted(set(und))
    failed = [o for o in obl if o[4] == 'failed']
    unknown = [o for o in obl if o[4] not in ('failed', 'proved')]
    proved = [o for o in obl if o[4] == 'proved']
    kf = known(pid)
    listed = []

    def is_known(o):
        for k in kf:
            if any(m['fn'] in o[2] and m['name'] in o[0] for m in k.get('obligations', [])):
                listed.append(k)
                return True
        return False
    fresh = [o for o in failed if not is_known(o)]
    unknown = [o for o in unknown if not is_known(o)]
    shown = set()
    for k in kf:
        if k['id'] not in shown:
            shown.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    need = bool(fresh or unknown or und)
    nat = {'run': False}
    viol = None
    if need or tier == 'thorough':
        exe, msg = build_native(pid, mod, tmp)
        if exe is None:
            nat = {'run': False, 'why': msg}
        else:
            consts = sorted({abs(v) & ((1 << 64) - 1) for o in fresh + unknown for v in o[7]})[:400]
            left = 800 - (time.time() - T0)
            secs = max(20, min(getattr(mod, 'NATIVE_SECS', 60), left - 60)) if tier == 'quick' else 600
            found, stats = run_native(exe, seed, int(secs), tmp, consts)
            nat = {'run': True, 'bounded': True, 'seconds': int(secs), 'processes': NPROC, 'stats': stats[:8],
                   'found': bool(found)}
            viol = found
    rdir = os.path.join(HERE, 'replay')
    rc = 0
    lines = []
    if viol or fresh:
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            for o in fresh + unknown:
                f.write('\n%s obligation [%s] in %s, line %s: %s\n%s\nverifier output:\n%s\n' % (o[4], o[1], o[2], o[3], o[0], o[6], o[5]))
            for u in und:
                f.write('undecided: %s: %s\n' % u)
            if viol:
                f.write('\nreplayed on the real code (native/%s, seed %d):\n%s\n%s\n' % (mod.NATIVE['driver'], viol[0], viol[1], viol[2]))
        for o in fresh[:5]:
            lines.append('failed obligation [%s] %s:%s %s' % (o[1], o[2].split('(')[0], o[3], o[0]))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if viol else ' no-failing-input-found'))
        rc = 1
    for o in unknown[:5]:
        lines.append('UNDECIDED obligation [%s] %s:%s %s' % (o[1], o[2].split('(')[0], o[3], o[0]))
    for n, w in und[:8]:
        lines.append('UNDECIDED %s: %s' % (n, w[:200]))
    if rc == 0 and not proved and not (nat.get('run')):
        rc = 2
        lines.append('ERROR: nothing was decided')
    good = len(proved)
    kinds = {}
    for o in obl:
        kinds[o[1]] = kinds.get(o[1], 0) + 1
    trusted = ['clang 18 front end (C++ to LLVM IR at -O0) and the semantics of LLVM IR as implemented in vcgen/exec.py',
               'vcgen (this framework): symbolic execution, VC generation, state comparison',
               'z3 %s, cvc5 1.1.2' % z3.get_version_string()]
    trusted += ['assumed library model: ' + m for m in sorted(models)]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'proof'),
          'coverage': {'obligations': len(obl), 'discharged': good,
                       'checker_cmd': 'python3-vt check.py %s %s (VCs from clang IR of /repo, discharged by z3/cvc5)' % (pid, tier),
                       'trusted_base': trusted,
                       'functions_under_contract': sorted(fns), 'functions_inlined_into_their_callers': sorted(inl),
                       'cases': cases, 'obligations_by_kind': kinds, 'discharged_by': by, 'solver_queries': queries,
                       'solver_seconds': round(stime, 2),
                       'units': [{'unit': u[0], 'status': u[1][:200], 'obligations': u[2], 'seconds': round(u[3], 2)} for u in sorted(units)],
                       'failed_known': [o[0] for o in failed if o not in fresh], 'failed_new': [o[0] for o in fresh],
                       'unknown': [o[0] for o in unknown], 'undecided': [list(u) for u in und],
                       'bounded_native_run': nat,
                       'samples': [{'obligation': o[0], 'kind': o[1], 'function': o[2], 'status': o[4]} for o in obl[:6]]},
          'assumptions': list(getattr(mod, 'ASSUMES', [])) + sorted(assum),
          'wall_s': round(time.time() - T0, 2), 'violations': 1 if rc == 1 else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions under contract, %d failed, %d unknown, %d undecided units, %.1f s'
          % (pid, len(obl), good, len(fns), len(failed), len(unknown), len(und), time.time() - T0))
    for l in lines:
        print(l)
    return rc


if __name__ == '__main__':
    main()
