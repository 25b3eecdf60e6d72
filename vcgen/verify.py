"""Contracts, their proof (refinement of the contract by the code) and their use at call sites."""
import os, re, subprocess, tempfile, time, traceback, hashlib, z3
from core import *
from exec import *
from ir import Module, IRError
import stdmodel

REPO = os.environ.get('VP_REPO', '/repo')
CXX = ['clang++', '-std=c++11']
CC = ['clang']
FLAGS = ['-g', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fstandalone-debug',
         '-D__STDC_CONSTANT_MACROS', '-I/opt/vp/cmake/include', '-I/usr/include/opencv4', '-S', '-emit-llvm', '-w']


def compile_ir(srcs, out, extra=()):
    """compile source files (relative to the repository) to LLVM IR; raises Structural if one does not compile"""
    procs = []
    for s in srcs:
        p = s if s.startswith('/') else os.path.join(REPO, s)
        o = os.path.join(out, s.replace('/', '_') + '.ll')
        cmd = (CC if p.endswith('.c') else CXX) + FLAGS + list(extra) + [p, '-o', o]
        procs.append((s, o, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    r = []
    for s, o, p in procs:
        _, err = p.communicate()
        if p.returncode != 0:
            raise Structural('does not compile: %s: %s' % (s, err[:500]))
        r.append(o)
    return r


class Spec:
    """the state a contract is evaluated on"""
    def __init__(self, ex, st, args, outs, prove):
        self.ex, self.st, self.a, self.outs, self.proving = ex, st, args, outs, prove

    def require(self, c, name='requires'):
        if isinstance(c, (list, tuple)):
            c = land(*c)
        if self.proving:
            self.st.assume(c)
        else:
            self.ex.oblige(self.st, c, 'precondition: ' + name, 'pre')

    def ensure(self, *c):
        self.st.assume(*c)

    def split(self, c):
        """[(spec, truth)] of the feasible cases of condition c"""
        c = simp(c)
        if isinstance(c, bool):
            return [(self, c)]
        out = []
        for k, cc in ((True, c), (False, lnot(c))):
            if self.ex.feasible(self.st, cc):
                s = self.__class__(self.ex, self.st.fork(), self.a, self.outs, self.proving)
                s.st.assume(cc)
                out.append((s, k))
        return out

    def fork(self):
        return self.__class__(self.ex, self.st.fork(), self.a, self.outs, self.proving)

    def locks(self, p, cname, field):
        """the function takes (and releases) this lock: a caller must not hold it"""
        a = self.ex.canon(self.ex.fptr(p, cname, field))
        if self.proving:
            f = self.ex.interfere.get((a.obj, a.off))
            if f:
                f(self.st, 0)
        else:
            if (a.obj, a.off) in self.st.ghost.get('locks', ()):
                self.ex.oblige(self.st, False, 'no lock is taken twice by the same thread', 'safety')

    def get(self, p, cname, path, isptr=False):
        return self.ex.get(self.st, p, cname, path, isptr)

    def put(self, p, cname, path, v):
        if isinstance(v, str) and v == ANY and not self.proving:
            v = self.ex.fresh('any', 8 * self.ex.fsize(cname, path))
        self.ex.put(self.st, p, cname, path, v)

    def done(self, ret=None):
        if isinstance(ret, Post) and not self.proving:
            ret = ret.make(self)
        if callable(ret) and not self.proving:
            f, ret = ret, self.ex.fresh('result', self.ex.use_width)
            self.st.assume(f(ret))
        self.outs.append((self.st, ret))


class Post:
    """a result described by conditions: holds(ex, state, result) -> [(name, condition)]; make(S): such a result for a caller"""
    def __init__(self, holds, make=None):
        self.holds, self.make = holds, make


class Contract:
    """spec(S, *args) evaluates the contract on S.st and calls S.done(result) once per outcome"""
    def __init__(self, name, spec):
        self.name, self.spec = name, spec

    def outcomes(self, ex, st, args, prove):
        outs = []
        S = Spec(ex, st, args, outs, prove)
        try:
            self.spec(S, *args)
        except NeedSplit:
            raise
        return outs

    def use(self, ex, st, args):
        return self.outcomes(ex, st, args, False)


class V:
    """one verification run over a set of modules"""
    def __init__(self, mods, verbose=False, thorough=False):
        self.prog = Program(mods)
        self.solver = Solver(60000 if thorough else 20000)
        self.solver.verbose = verbose
        self.ex = Ex(self.prog, self.solver, verbose)
        self.ex.cur = ('?', None)
        self.verbose = verbose
        self.proved = []
        self.cases = 0
        self.functions = set()
        self.units = []
        self.undecided = []
        self.assumptions = set()
        self.notes = []
        self.hard_deadline = None

    # ---- setup helpers
    def state(self):
        st = State()
        # globals already created keep one identity; content is created on demand
        return st

    def obj(self, st, tname, name, default='sym', cname=None, fill=True):
        """pre-state object of an IR type (class.X / struct.X)"""
        m = self.prog.type_mod(tname)
        o = self.ex.new_typed(st, m, ('named', tname), name, default)
        o.pre = True
        for off, ln, rid in o.regions:
            self.ex.objs[rid].pre = True
        o.info = 'class:' + (cname or tname.split('.', 1)[1])
        if fill and o.kind == 'cells':
            self.ex.materialise(st, o)
        return Ptr(o.id, None, 0)

    def out(self, st, tname, name='result'):
        """uninitialised object the function constructs its result in"""
        m = self.prog.type_mod(tname)
        o = self.ex.new_typed(st, m, ('named', tname), name, 'uninit')
        o.info = 'out'
        o.pre = True
        return Ptr(o.id, None, 0)

    def rawout(self, st, size, name='result'):
        o = self.ex.new_obj(name, 'cells', size)
        st.mem[o.id] = {'default': 'uninit'}
        o.info = 'out'
        o.pre = True
        return Ptr(o.id, None, 0)

    def bytes(self, st, name, size, content=None):
        o = self.ex.new_bytes(st, name, size, content)
        o.pre = True
        return Ptr(o.id, 0, 0)

    def array(self, st, name, stride, n):
        if isinstance(stride, str):
            stride = stdmodel.elem_of(self.prog.type_mod(stride), stride)
        o = self.ex.new_arr(st, name, stride, n)
        o.pre = True
        st.mem[o.id]['default'] = 'sym'
        return o.id

    def bv(self, name, w=32):
        return z3.BitVec(name, w)

    def fn(self, dem):
        return self.prog.one(dem)

    # ---- proof
    def prove(self, dem, contract, setup, name=None, limit=300):
        self.unit(name or dem, lambda: self._prove(dem, contract, setup, name), limit)

    def unit(self, name, f, limit=300):
        """run one proof; what cannot be decided is recorded, not guessed"""
        t0 = time.time()
        if not self.mine(name):
            return
        self.ex.deadline = self.solver.deadline = min(t0 + limit, self.hard_deadline or t0 + limit)
        self.ex.steps = 0
        self.ex.dry = 0
        self.solver.facts, self.solver.factids = [], set()
        self.ex.enums = {}
        sm = dict(self.ex.summaries)
        n0 = len(self.ex.obligs)
        try:
            f()
            st = 'done'
        except (Unsupported, IRError, NeedSplit, KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError,
                RecursionError, z3.Z3Exception, PathEnd) as e:
            if self.verbose:
                traceback.print_exc()
            st = '%s: %s' % (type(e).__name__, e)
            self.undecided.append((name, st))
        self.ex.summaries = sm
        self.units.append((name, st, len(self.ex.obligs) - n0, time.time() - t0))

    mine = staticmethod(lambda name: True)

    def trust(self, rx, handler, text):
        """assumed contract of a dependency that is outside this property's verified code"""
        self.ex.models.insert(0, (re.compile(rx), handler))
        self.ex._mcache.clear()
        self.assumptions.add('assumed contract: ' + text)

    def assume_note(self, text):
        self.assumptions.add(text)

    def helper(self, dem, contract, setup, limit=120):
        """prove an internal function's contract and use it at its call sites; if the function is gone or no longer meets
        this contract, its callers are checked through its body instead (only they are observable)"""
        mine, self.mine = self.mine, lambda n: True
        u0, n0, d0 = len(self.units), len(self.ex.obligs), len(self.undecided)
        name = 'helper ' + dem
        try:
            if self.prog.has(dem):
                self.unit(name, lambda: self._prove(dem, contract, setup), limit)
        finally:
            self.mine = mine
        new = self.ex.obligs[n0:]
        ok = bool(new) and len(self.undecided) == d0 and all(o.status == 'proved' for o in new)
        if not ok:
            if self.verbose:
                print('helper contract not used:', dem, self.undecided[d0:], [o for o in new if o.status != 'proved'])
            self.notes.append('contract of helper %s does not apply: callers checked through its body' % dem)
            del self.ex.obligs[n0:]
            del self.undecided[d0:]
            self.functions.discard(dem)
        if not self.mine(name):
            del self.ex.obligs[n0:]
            del self.units[u0:]
        if ok:
            self.use(dem, contract)
        return ok

    def use(self, dem, spec):
        """callers are checked against this contract from now on"""
        if dem.startswith('~delete:'):
            con = Contract(dem, spec)
            self.ex.summaries[dem] = lambda ex, st, args: con.use(ex, st, args)
            return
        if not self.prog.has(dem):
            self.notes.append('no function %s' % dem)
            return
        ln = self.fn(dem) if not dem.startswith('_Z') and not self.prog.fn_mod.get(dem) else dem
        con = spec if isinstance(spec, Contract) else Contract(dem, spec)
        r = self.prog.resolve(ln)
        w = r[1].rty[1] if r and r[1].rty[0] == 'int' else 32

        def summary(ex, st, args):
            ex.use_width = w
            return con.use(ex, st, args)
        self.ex.summaries[ln] = summary

    def _prove(self, dem, contract, setup, name=None):
        """every execution of the function from a state of the setup ends in an outcome allowed by the contract.
        setup(V): iterable of (case name, state, args)"""
        ex = self.ex
        ln = self.fn(dem) if not dem.startswith('_Z') and not self.prog.fn_mod.get(dem) else dem
        if isinstance(contract, Contract):
            con = contract
        else:
            con = Contract(dem, contract)
        self.functions.add(self.prog.demangle(ln))
        nc = 0
        for cname, st, args in setup(self):
            nc += 1
            label = (name or dem.split('(')[0]) + (' [' + cname + ']' if cname else '')
            ex.cur = (ln, None)
            pre = st
            base = len(pre.pc)
            n0 = len(ex.obligs)
            outs_s = con.outcomes(ex, pre.fork(), list(args), True)
            if not outs_s:
                raise Structural('contract of %s has no outcome' % dem)
            # preconditions of the contract become part of the pre-state
            sm = ex.summaries.pop(ln, None)
            S = Spec(ex, pre, list(args), [], True)
            run = pre.fork()
            req = self.requires(con, pre, args)
            run.assume(*req)
            if ex.infeasible(run, False):
                raise Structural('contradictory precondition for %s' % label)
            try:
                outs_i = ex.call(run, ln, list(args))
            finally:
                if sm is not None:
                    ex.summaries[ln] = sm
            live = 0
            for st_i, r_i in outs_i:
                if ex.infeasible(st_i):
                    continue
                live += 1
                if st_i.ghost.get('locks') != pre.ghost.get('locks'):
                    ex.oblige(st_i, False, label + ': every lock taken is released', 'post', assume=False)
                conds = []
                for st_j, r_j in outs_s:
                    have = {c.get_id() for c in st_i.pc}
                    suffix = [c for c in st_j.pc if c.get_id() not in have]
                    conds.append(land(*suffix))
                ex.cur = (ln, None)
                ex.oblige(st_i, lor(*conds), label + ': every exit is one the contract allows', 'post', assume=False)
                for (st_j, r_j), c in zip(outs_s, conds):
                    if not ex.feasible(st_i, c):
                        continue
                    s = st_i.fork()
                    s.assume(c)
                    if ex.infeasible(s):
                        continue
                    try:
                        self.match(s, pre, st_i, r_i, st_j, r_j, label)
                    except PathEnd:
                        pass
            if not live and not any(o.status != 'proved' for o in ex.obligs[n0:]):
                raise Structural('no feasible exit of %s' % label)
            self.cases += 1
        if nc == 0:
            raise Structural('no case for ' + dem)
        self.proved.append(dem)

    def requires(self, con, pre, args):
        got = []
        base = len(pre.pc)

        class RS(Spec):
            def require(self, c, name='requires'):
                if isinstance(c, (list, tuple)):
                    c = land(*c)
                got.append(implies(land(*self.st.pc[base:]), c))
                self.st.assume(c)
        outs = []
        S = RS(self.ex, pre.fork(), list(args), outs, True)
        con.spec(S, *args)
        return got

    def match(self, s, pre, a, ra, b, rb, label):
        """final state a (code) against b (contract) under the path condition of s"""
        ex = self.ex
        M = Match(ex)
        if rb is not None and not (isinstance(rb, str) and rb == ANY):
            if ra is None and not isinstance(rb, Post):
                ex.oblige(s, False, label + ': result', 'post')
            if isinstance(rb, Post):
                for nm, c in rb.holds(ex, s, ra):
                    ex.oblige(s, c, label + ': ' + nm, 'post', assume=False)
                rb = ANY
        if rb is not None and not (isinstance(rb, str) and rb == ANY):
            if isinstance(rb, tuple) and isinstance(ra, tuple):
                for x, y in zip(ra, rb):
                    sz = 8
                    ex.oblige(s, ex.same_val(s, x, y, sz, M), label + ': result', 'post', assume=False)
            elif callable(rb):
                ex.oblige(s, rb(ra), label + ': result', 'post', assume=False)
            else:
                sz = vsize(ra, rb)
                ex.oblige(s, ex.same_val(s, ra, rb, sz, M), label + ': result', 'post', assume=False)
        done = set()
        for oid in list(b.mem):
            o = ex.objs[oid]
            if oid not in a.mem:
                if oid in pre.mem:
                    raise Unsupported('object vanished')
                continue
            if o.stack:
                continue
            out = o.info == 'out'
            compare_obj(ex, s, a, b, oid, oid, label, M, new=out)
            done.add(oid)
        # globals first touched by the code must be unchanged
        for oid in a.mem:
            o = ex.objs[oid]
            if oid not in b.mem and oid not in pre.mem and o.name.startswith('g:') and not o.parent:
                ref = State()
                ex.glob_init(ref, o)
                if isinstance(a.mem[oid], dict) and o.kind == 'cells':
                    for f, v in a.mem[oid].items():
                        if isinstance(f, int):
                            w = ex.raw_load(ref, Ptr(oid, None, f), v[0], isinstance(v[1], (Ptr, Opaque, FnPtr)))
                            ex.oblige(s, ex.same_val(s, v[1], w, v[0], M), label + ': global %s unchanged' % o.name, 'post', assume=False)
        while M.queue:
            x, y = M.queue.pop()
            if x in a.mem and y in b.mem:
                compare_obj(ex, s, a, b, x, y, label, M, new=True)
                ox, oy = ex.objs[x], ex.objs[y]
                for off, ln, rid in ox.regions:
                    for off2, ln2, rid2 in oy.regions:
                        if off == off2 and rid in a.mem and rid2 in b.mem:
                            compare_obj(ex, s, a, b, rid, rid2, label, M, new=True)

    def check(self, st, c, name, kind='lemma'):
        return self.ex.oblige(st, c, name, kind, assume=False)

    def cover(self, st, c, name):
        if not self.ex.feasible(st, c):
            raise Structural('vacuous: ' + name)

    # ---- common models
    def seq(self, st, header, name, stride, n, kind='list'):
        """give a std::list / std::vector at pointer header a symbolic content of n elements"""
        ex = self.ex
        oid = self.array(st, name, stride, n)
        o = ex.objs[header.obj]
        base = header.off
        c = st.cells(header.obj)
        for f in [f for f in c if isinstance(f, int) and base <= f < base + 24]:
            del c[f]
        for off, ln, rid in list(o.regions):
            pass
        if kind == 'list':
            c[base] = (8, Ptr(oid, 0, 0))
            c[base + 8] = (8, Ptr(oid, 0, 0))
            c[base + 16] = (8, n)
        else:
            c[base] = (8, Ptr(oid, 0, 0))
            c[base + 8] = (8, Ptr(oid, n, 0))
            c[base + 16] = (8, Ptr(oid, n, 0))
        return oid

    def vptr(self, st, p, cname):
        st.cells(p.obj)[p.off] = (8, self.ex.vtable(cname))


def vsize(a, b):
    for v in (a, b):
        if isinstance(v, z3.BitVecRef):
            return v.size() // 8
        if isfp(v):
            return v.sort().ebits() + v.sort().sbits() == 32 and 4 or 8
        if isbool(v):
            return 1
    return 8
