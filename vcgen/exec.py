"""Symbolic execution of LLVM IR function by function, generating and discharging verification conditions.

Loops are cut by iteration-indexed loop contracts or unrolled when every iteration is decided; calls use the callee's
contract when there is one, a model for library functions, and the callee's body otherwise."""
import re, subprocess, time, z3
from core import *
from ir import Module, IRError


class PathEnd(Exception):
    """the path stops here (failed access, noreturn call)"""


class SpecFails(Exception):
    """a tentative loop contract does not prove"""


class Structural(Unsupported):
    """the code no longer has the shape a contract binds to"""


class Obj:
    __slots__ = ('id', 'name', 'kind', 'size', 'stride', 'n', 'regions', 'parent', 'ty', 'mod', 'stack', 'info', 'pre')

    def __init__(self, id, name, kind, size):
        self.id, self.name, self.kind, self.size = id, name, kind, size
        self.stride = None
        self.regions = []
        self.parent = None
        self.ty = None
        self.mod = None
        self.stack = False
        self.info = None
        self.pre = False


FREED = 'FREED'
ANY = 'ANY'


class State:
    __slots__ = ('mem', 'pc', 'owned', 'ghost', 'decided', 'model', 'dead')

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.owned = set()
        self.ghost = {}
        self.decided = {}
        self.model = None
        self.dead = False

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        self.owned = set()
        s.ghost = dict(self.ghost)
        s.decided = dict(self.decided)
        s.model = self.model
        return s

    def assume(self, *cs):
        for c in cs:
            if isinstance(c, (list, tuple)):
                self.assume(*c)
                continue
            c = simp(c)
            if c is True:
                continue
            if c is False:
                c = z3.BoolVal(False)
            if z3.is_and(c):
                self.assume(*c.children())
                continue
            i = c.get_id()
            if self.decided.get(i) is True:
                continue
            self.pc = self.pc + (c,)
            self.decided[i] = True
            n = z3.Not(c) if not z3.is_not(c) else c.arg(0)
            n = z3.simplify(n)
            _keep.append(n)
            self.decided[n.get_id()] = False
            if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def cells(self, o):
        """writable cells of an object"""
        c = self.mem[o]
        if o not in self.owned:
            c = dict(c)
            self.mem[o] = c
            self.owned.add(o)
        return c


_keep = []


class Oblig:
    __slots__ = ('name', 'kind', 'fn', 'line', 'status', 'model', 'text', 'time', 'count', 'pc')

    def __init__(self, name, kind, fn, line, status, model=None, text='', t=0.0, pc=()):
        self.name, self.kind, self.fn, self.line, self.status, self.model, self.text, self.time = \
            name, kind, fn, line, status, model, text, t
        self.pc = pc

    def __repr__(self):
        return '%s [%s] %s:%s %s' % (self.status, self.kind, self.fn, self.line, self.name)


class Program:
    def __init__(self, modules):
        self.mods = modules
        self.fn_mod = {}
        self.demap = {}
        for m in modules:
            for n in m.func_names():
                self.fn_mod.setdefault(n, m)
        for m in modules:
            for n in m._gl:
                g = m._gl[n]
                if ' alias ' in g:
                    r = re.search(r' alias .*@("[^"]*"|[-\w.$]+)\s*(?:,.*)?$', g)
                    if r:
                        self.fn_mod.setdefault(n, (m, r.group(1).strip('"')))
        names = set(self.fn_mod)
        for m in modules:
            names |= set(m._decl)
        names = sorted(names)
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        self.dem = dict(zip(names, p.stdout.split('\n')))
        self._cfg = {}

    def resolve(self, name):
        """(module, function) or None"""
        r = self.fn_mod.get(name)
        k = 0
        while isinstance(r, tuple):
            nm = r[1]
            r = self.fn_mod.get(nm)
            name = nm
            k += 1
            if k > 5:
                return None
        if r is None:
            return None
        return r, r.func(name)

    def demangle(self, n):
        r = self.dem.get(n)
        if r is None:
            r = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip()
            self.dem[n] = r
        return r

    def find(self, pat):
        """linkage names of defined functions whose demangled name starts with pat (up to the parameter list)"""
        r = [n for n in self.fn_mod if self.demangle(n) == pat]
        if not r:
            r = [n for n in self.fn_mod if self.demangle(n).split('(')[0].replace('[abi:cxx11]', '') == pat]
        # constructors: prefer the base-object (C2) then complete (C1)
        return r

    def one(self, pat):
        r = self.find(pat)
        if len(r) > 1:
            c = [n for n in r if re.search(r'C2E|D2E|C2I', n)]
            if len(c) == 1:
                return c[0]
            # identical functions under several linkage names (aliases)
            tgt = {self.resolve(n)[1].name for n in r}
            if len(tgt) == 1:
                return tgt.pop()
        if len(r) != 1:
            raise Structural('function %s: %d definitions' % (pat, len(r)))
        return r[0]

    def has(self, pat):
        return pat in self.fn_mod or bool(self.find(pat))

    def mod_of(self, name):
        return self.resolve(name)[0]

    def type_mod(self, tname):
        for m in self.mods:
            if tname in m.types and m.types[tname] != 'opaque':
                return m
        raise Structural('type ' + tname)

    def fields(self, cname):
        for m in self.mods:
            if cname in m._comp:
                return m.fields(cname)
        raise Structural('no debug info for type ' + cname)

    def cfg(self, f):
        r = self._cfg.get(id(f))
        if r is None:
            r = self._cfg[id(f)] = CFG(f)
        return r


def locs(v, out):
    """names of the local values in an operand"""
    if isinstance(v, (tuple, list)):
        if len(v) == 2 and v[0] == 'loc':
            out.add(v[1])
        else:
            for x in v:
                locs(x, out)


class CFG:
    _live = None

    def live(self, b, prev=None):
        """names live at the start of b (its phis apart from those coming from prev)"""
        if self._live is None:
            use, defs, phi = {}, {}, {}
            for n, ins in self.f.blocks.items():
                u, d = set(), set()
                for I in ins:
                    if I.op == 'phi':
                        for v, l in I.x:
                            locs(v, phi.setdefault((n, l), set()))
                    else:
                        x = set()
                        locs(I.a, x)
                        locs(I.x, x)
                        u |= x - d
                    if I.res:
                        d.add(I.res)
                use[n], defs[n] = u, d
            L = {n: set(use[n]) for n in use}
            again = True
            while again:
                again = False
                for n in L:
                    new = use[n].union(*[(L[s] | phi.get((s, n), set())) - defs[n] for s in self.succ[n]])
                    if new != L[n]:
                        L[n] = new
                        again = True
            self._live, self._phi = L, phi
        r = self._live[b]
        return r | self._phi.get((b, prev), set()) if prev is not None else r

    def __init__(self, f):
        self.f = f
        self.succ = {}
        for b, ins in f.blocks.items():
            t = ins[-1]
            if t.op == 'br':
                s = list(t.x)
            elif t.op == 'switch':
                s = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == 'invoke':
                s = [t.x[2]]
            else:
                s = []
            self.succ[b] = list(dict.fromkeys(s))
        # rpo
        seen, order = set(), []
        stack = [(f.entry, iter(self.succ[f.entry]))]
        seen.add(f.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
                elif self.rpo[s] <= self.rpo[b]:
                    raise Unsupported('irreducible control flow in ' + f.name)
        self.headers = sorted(self.loops, key=lambda h: self.rpo[h])
        # a loop's exit blocks must come after the whole loop in processing order
        self.prio = self._prio()

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom.get(b)
            if n is None or n == b:
                return False
            b = n

    def _prio(self):
        # plain RPO may put loop exits before the loop body; order exits after the body
        succ = {}
        for b in self.order:
            succ[b] = [s for s in self.succ[b] if not (s in self.loops and b in self.loops[s])]
        # for every loop edge exits: add edges from all back-edge sources to the exits
        extra = {b: [] for b in self.order}
        for h, body in self.loops.items():
            exits = {s for b in body for s in self.succ[b] if s not in body}
            latches = [b for b in body if h in self.succ[b]]
            for l in latches:
                extra[l].extend(exits)
        color, out = {}, []

        def visit(b):
            st = [(b, iter(succ[b] + extra[b]))]
            color[b] = 1
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in color:
                        color[s] = 1
                        st.append((s, iter(succ[s] + extra[s])))
                        break
                else:
                    out.append(x)
                    st.pop()
        visit(self.f.entry)
        out.reverse()
        return {b: i for i, b in enumerate(out)}


class Frame:
    __slots__ = ('mod', 'f', 'cfg', 'depth', 'caller')

    def __init__(self, mod, f, cfg, depth):
        self.mod, self.f, self.cfg, self.depth = mod, f, cfg, depth


class Ex:
    merge_untouched = False

    def __init__(self, prog, solver=None, verbose=False):
        self.prog = prog
        self.solver = solver or Solver()
        self.objs = {0: Obj(0, 'null', 'null', 0)}
        self.nextobj = 1
        self.globals = {}
        self.obligs = []
        self.interfere = {}      # mutex -> function(state, k): changes other threads may have made before the k-th acquisition
        self.guards = {}         # (object, offset) of a shared field -> its mutex
        self.summaries = {}      # linkage name -> function(ex, st, args, fn) -> [(st, ret)]
        self.loopspecs = {}      # (demangled function prefix, ordinal) -> spec
        self.models = []         # (regex, handler)
        self.enums = {}          # enumerations of map keys
        self.dry = 0
        self.nfresh = 0
        self.verbose = verbose
        self.merge = True
        self.maxunroll = 8
        self.maxdepth = 60
        self.cur = None
        self.log = []
        self.assumed = set()
        self.inlined = set()
        self.used_summaries = set()
        self.used_models = set()
        self.steps = 0
        self.maxsteps = 4000000
        self.notes = []
        self.check_bounds = True
        self.safety = True
        self.fpabs = {}
        self.watch = {}
        self._mcache = {}
        self.entryfn = None
        self.deadline = None
        import stdmodel
        stdmodel.install(self)

    # ------------------------------------------------------------ objects
    def fresh(self, name, w):
        self.nfresh += 1
        nm = '%s!%d' % (name, self.nfresh)
        return z3.BitVec(nm, w) if w != 1 else z3.Bool(nm)

    def new_obj(self, name, kind, size):
        o = Obj(self.nextobj, name, kind, size)
        self.nextobj += 1
        self.objs[o.id] = o
        return o

    def new_bytes(self, st, name, size, content=None):
        o = self.new_obj(name, 'bytes', size)
        o.stride = 1
        st.mem[o.id] = content if content is not None else Log.uf(name, 1)
        return o

    def new_arr(self, st, name, stride, n):
        o = self.new_obj(name, 'arr', None)
        o.stride = stride
        if getattr(stride, 'ty', None):
            o.ty, o.mod = stride.ty, stride.mod
        st.mem[o.id] = {'n': n}
        st.owned.add(o.id)
        return o

    def new_typed(self, st, mod, ty, name, default='uninit'):
        """object of an IR type; default: 'uninit' | 'sym' | byte value"""
        size = mod.sizeof(ty)
        r = mod.resolve(ty)
        if r[0] == 'arr' and self.leaf_bytes(mod, r):
            o = self.new_obj(name, 'bytes', size)
            o.stride = 1
            st.mem[o.id] = self.default_log(o, 1, default)
            return o
        if r[0] == 'arr':
            n, et = self.flat(mod, r)
            es = mod.sizeof(et)
            if mod.resolve(et)[0] in ('i', 'ptr', 'float', 'double'):
                o = self.new_arr(st, name, es, n)
                st.mem[o.id]['default'] = default
                return o
        o = self.new_obj(name, 'cells', size)
        st.mem[o.id] = {'default': default}
        st.owned.add(o.id)
        self.layout_obj(st, o, mod, ty, default)
        return o

    def default_log(self, o, size, default, suffix=''):
        if isinstance(default, int):
            v = 0
            for _ in range(size):
                v = (v << 8) | default
            return Log.const(v, size)
        return Log.uf(('u_' if default == 'uninit' else '') + o.name + suffix, size)

    def leaf_bytes(self, mod, r):
        while r[0] == 'arr':
            r = mod.resolve(r[2])
        return r == ('i', 8)

    def flat(self, mod, r):
        n = 1
        while r[0] == 'arr':
            n *= r[1]
            r = mod.resolve(r[2])
            t = r
        return n, r

    def layout_obj(self, st, o, mod, ty, default):
        o.ty, o.mod = ty, mod

        def walk(t, off, path):
            r = mod.resolve(t)
            if r[0] == 'lit':
                sz, al, offs = mod.layout(t)
                for i, ft in enumerate(r[2]):
                    walk(ft, off + offs[i], path)
            elif r[0] == 'arr' and r[1] > 0:
                size = mod.sizeof(r)
                et = mod.resolve(r[2])
                if self.leaf_bytes(mod, r) and size <= 8 and False:
                    return
                if self.leaf_bytes(mod, r):
                    c = self.new_obj('%s+%d' % (o.name, off), 'bytes', size)
                    c.stride = 1
                    st.mem[c.id] = self.default_log(c, 1, default)
                else:
                    n, et = (r[1], r[2])
                    e2 = mod.resolve(et)
                    if e2[0] == 'arr':
                        n, et = self.flat(mod, r)
                    c = self.new_obj('%s+%d' % (o.name, off), 'arr', None)
                    c.stride = mod.sizeof(et)
                    if mod.resolve(et)[0] == 'lit':
                        c.ty, c.mod = et, mod
                    st.mem[c.id] = {'n': n, 'default': default}
                    st.owned.add(c.id)
                c.parent = (o.id, off)
                c.stack = o.stack
                o.regions.append((off, size, c.id))
        walk(ty, 0, '')

    def materialise(self, st, o, default='sym'):
        """give every scalar leaf of a typed cells object its own symbol"""
        mod = o.mod

        def walk(t, off):
            r = mod.resolve(t)
            if r[0] == 'lit':
                offs = mod.layout(t)[2]
                for i, ft in enumerate(r[2]):
                    walk(ft, off + offs[i])
            elif r[0] in ('i', 'float', 'double', 'ptr'):
                sz = mod.sizeof(r)
                if off not in st.mem[o.id]:
                    if r[0] == 'ptr':
                        return
                    nm = '%s.%d' % (o.name, off)
                    v = z3.BitVec(nm, sz * 8) if r[0] == 'i' else \
                        z3.FP(nm, z3.Float32() if r[0] == 'float' else z3.Float64())
                    st.cells(o.id)[off] = (sz, v)
        walk(o.ty, 0)

    # ------------------------------------------------------------ queries
    def prove(self, st, c, timeout=None):
        c = simp(c)
        if c is True:
            return True
        d = st.decided.get(c.get_id()) if not isinstance(c, bool) else None
        if d is not None:
            return d if d else self.infeasible(st)
        if c is False:
            return self.infeasible(st)
        r, _ = self.solver.sat(st.pc, lnot(c), timeout)
        return r == 'unsat'

    def infeasible(self, st, quick=True):
        r, _ = self.solver.sat(st.pc, True, full=True, quick=quick)
        return r == 'unsat'

    def feasible(self, st, c):
        """may c hold on this path?"""
        c = simp(c)
        if isinstance(c, bool):
            return c
        d = st.decided.get(c.get_id())
        if d is not None:
            return d
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)):
            return True
        r, m = self.solver.sat(st.pc, c, quick=True)
        return r != 'unsat'

    def known(self, st, c):
        """True / False / None"""
        c = simp(c)
        if isinstance(c, bool):
            return c
        d = st.decided.get(c.get_id())
        if d is not None:
            return d
        if not self.feasible(st, c):
            st.assume(lnot(c))
            return False
        if not self.feasible(st, lnot(c)):
            st.assume(c)
            return True
        return None

    def need(self, st, c):
        """decide c on this path, splitting the path if both are possible"""
        k = self.known(st, c)
        if k is None:
            raise NeedSplit(simp(c))
        return k

    def oblige(self, st, c, name, kind='assert', fn=None, line=None, assume=True, timeout=None):
        """discharge an obligation (recorded); continue under the assumption that it holds"""
        c = simp(c)
        if self.dry:
            if c is False and assume:
                raise PathEnd()
            if c is not True and assume:
                st.assume(c)
            return True
        if fn is None and self.cur:
            fn, line = self.cur
        if c is True or (not isinstance(c, bool) and st.decided.get(c.get_id()) is True):
            self.obligs.append(Oblig(name, kind, fn, line, 'proved', text='syntactic'))
            return True
        t0 = self.solver.time
        if c is False:
            r, m = self.solver.sat(st.pc, True, full=True, model=True)
        else:
            r, m = self.solver.sat(st.pc, lnot(c), timeout, model=True)
        dt = self.solver.time - t0
        if r == 'unsat':
            self.obligs.append(Oblig(name, kind, fn, line, 'proved', t=dt))
            if c is False and assume:
                raise PathEnd()
            return True
        status = 'failed' if r == 'sat' else 'unknown'
        if self.strict and (kind in ('loop', 'post')):
            raise SpecFails()
        if r == 'sat':
            # complete model over the whole path, for the replay
            r2, m2 = self.solver.sat(st.pc, lnot(c), timeout, model=True, full=True)
            if r2 == 'unsat':
                self.obligs.append(Oblig(name, kind, fn, line, 'proved', t=dt))
                if c is False and assume:
                    raise PathEnd()
                return True
            m = m2 or m
        self.obligs.append(Oblig(name, kind, fn, line, status, m, str(c)[:2000], dt))
        if self.verbose:
            print('   FAILED', self.obligs[-1])
        if c is False and assume:
            raise PathEnd()
        if assume:
            st.assume(c)
        return False

    # ------------------------------------------------------------ pointers
    def canon(self, p):
        if p.idx is None and p.obj:
            o = self.objs[p.obj]
            if o.kind == 'cells':
                for off, ln, rid in o.regions:
                    if off <= p.off < off + ln:
                        r = self.objs[rid]
                        d = p.off - off
                        return Ptr(rid, d // r.stride, d % r.stride)
            elif o.kind in ('bytes', 'arr'):
                return Ptr(p.obj, p.off // o.stride, p.off % o.stride)
        return p

    def addc(self, p, n):
        """pointer plus a constant number of bytes"""
        if n == 0:
            return p
        o = self.objs[p.obj]
        if p.idx is None:
            if o.kind in ('bytes', 'arr'):
                p = Ptr(p.obj, 0, p.off)
            else:
                return Ptr(p.obj, None, p.off + n)
        t = p.off + n
        q, r = t // o.stride, t % o.stride
        if o.kind == 'arr' and q == 0:
            return Ptr(p.obj, p.idx, t)
        return Ptr(p.obj, add(p.idx, q & mask(64)), r)

    def adds(self, p, i, es):
        """pointer plus i elements of es bytes (i a 64-bit word)"""
        if isinstance(i, int):
            return self.addc(p, sgn(i, 64) * es)
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.adds(p.a, i, es), self.adds(p.b, i, es))
        if p.obj == 0:
            raise Unsupported('symbolic offset from null')
        o = self.objs[p.obj]
        if o.kind == 'raw':
            self.raw_to_bytes(o)
        if p.idx is None:
            if o.kind == 'cells':
                c = self.canon(p)
                if c.idx is None:
                    # one past / before a region?
                    for off, ln, rid in o.regions:
                        if p.off == off + ln:
                            r = self.objs[rid]
                            c = Ptr(rid, ln // r.stride, 0)
                    if c.idx is None:
                        raise Unsupported('symbolic index into %s+%d' % (o.name, p.off))
                p = c
                o = self.objs[p.obj]
            else:
                p = self.canon(p)
        if es == o.stride:
            return Ptr(p.obj, add(p.idx, i), p.off)
        if es % o.stride == 0:
            return Ptr(p.obj, add(p.idx, mul(i, es // o.stride)), p.off)
        if es == 1 and o.stride > 1:
            # byte offset that is a multiple of the stride
            q = self.exact_div(i, o.stride)
            if q is not None:
                return Ptr(p.obj, add(p.idx, q), p.off)
        raise Unsupported('stride %d in object %s of stride %d' % (es, o.name, o.stride))

    def exact_div(self, i, s):
        if isinstance(i, int):
            return i // s if i % s == 0 else None
        if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_BMUL:
            a, b = i.children()[:2] if i.num_args() == 2 else (None, None)
            if a is not None:
                a, b = norm(a), norm(b)
                if isinstance(a, int) and a == s:
                    return b
                if isinstance(b, int) and b == s:
                    return a
        if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_BSHL:
            a, b = [norm(x) for x in i.children()]
            if isinstance(b, int) and (1 << b) == s:
                return a
        if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_CONCAT:
            # x << log2(s): Concat(Extract(..., x), 0)
            ch = i.children()
            last = norm(ch[-1])
            if isinstance(last, int) and last == 0 and (1 << ch[-1].size()) == s:
                rest = z3.Concat(*ch[:-1]) if len(ch) > 2 else ch[0]
                return simp(z3.ZeroExt(64 - rest.size(), rest))
        return None

    def raw_to_bytes(self, o):
        o.kind = 'bytes'
        o.stride = 1

    def obj_content(self, st, oid):
        c = st.mem.get(oid)
        o = self.objs[oid]
        if isinstance(c, dict) and o.kind == 'bytes':
            # raw object turned into bytes
            st.mem[oid] = c = self.default_log(o, 1, c.get('default', 'uninit'))
        return c

    def access(self, st, p, size, what):
        """checks; returns the canonical pointer"""
        if isinstance(p, PtrIte):
            p = self.pick(st, p)
        if isinstance(p, Opaque) or not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if p.obj == 0:
            self.oblige(st, False, 'null pointer %s' % what, 'safety')
            raise PathEnd()
        o = self.objs[p.obj]
        if o.kind == 'raw':
            if isinstance(o.size, int):
                o.kind = 'cells'
            else:
                self.raw_to_bytes(o)
        p = self.canon(p)
        o = self.objs[p.obj]
        c = self.obj_content(st, p.obj)
        if c is None:
            # out-of-scope local or never created on this path
            self.oblige(st, False, '%s of dead object %s' % (what, o.name), 'safety')
            raise PathEnd()
        if c == FREED if isinstance(c, str) else False:
            self.oblige(st, False, '%s after free of %s' % (what, o.name), 'safety')
            raise PathEnd()
        if o.kind == 'cells':
            if not (0 <= p.off and p.off + size <= o.size):
                self.oblige(st, False, '%s outside %s (%d+%d of %s)' % (what, o.name, p.off, size, o.size), 'safety')
                raise PathEnd()
        elif o.kind == 'bytes':
            i = add(p.idx, p.off)
            if size == 1:
                c = ult(i, o.size, 64)
            else:
                c = land(ule(size, o.size, 64), ule(i, sub(o.size, size), 64))
            self.oblige(st, c, '%s inside %s' % (what, o.name), 'safety')
        elif o.kind == 'arr':
            n = st.mem[p.obj]['n']
            if p.off + size > o.stride or p.off < 0:
                self.oblige(st, False, '%s across elements of %s' % (what, o.name), 'safety')
                raise PathEnd()
            if isinstance(o.info, tuple) and o.info[0] == 'map':
                self.oblige(st, ne(st.mem[p.obj][o.info[1]].read(p.idx), 0, 8), '%s of a present element of %s' % (what, o.name), 'safety')
            else:
                self.oblige(st, ult(p.idx, n, 64), '%s inside %s' % (what, o.name), 'safety')
        else:
            raise Unsupported('%s of %s object %s' % (what, o.kind, o.name))
        return p

    def pick(self, st, p):
        while isinstance(p, PtrIte):
            p = p.a if self.need(st, p.c) else p.b
        return p

    def defval(self, o, off, size, default, isptr=False, idx=None):
        if isinstance(default, int):
            v = 0
            for _ in range(size):
                v = (v << 8) | default
            return v
        nm = ('u_' if default == 'uninit' else '') + '%s.%d' % (o.name, off)
        if isptr:
            return Opaque(nm)
        return z3.BitVec(nm + (':%d' % size if default == 'uninit' else ''), size * 8)

    def raw_load(self, st, p, size, isptr=False):
        """value at a checked canonical pointer"""
        o = self.objs[p.obj]
        if o.kind == 'cells':
            cells = st.mem[p.obj]
            c = cells.get(p.off)
            if c is not None and c[0] == size:
                return c[1]
            ov = [(f, s, v) for f, (s, v) in ((f, c) for f, c in cells.items() if isinstance(f, int))
                  if f < p.off + size and p.off < f + s]
            if not ov:
                # a region boundary may be crossed only by aggregate loads, handled by the caller
                v = self.defval(o, p.off, size, cells.get('default', 'uninit'), isptr)
                st.cells(p.obj)[p.off] = (size, v)
                return v
            bs = []
            for b in range(p.off, p.off + size):
                for f, s, v in ov:
                    if f <= b < f + s:
                        bs.append(byte_of(v, s, b - f))
                        break
                else:
                    bs.append(byte_of(self.defval(o, b, 1, cells.get('default', 'uninit')), 1, 0))
            return from_bytes(bs)
        if o.kind == 'bytes':
            return st.mem[p.obj].readn(add(p.idx, p.off), size)
        if o.kind == 'arr':
            lg = self.arr_log(st, p.obj, p.off, size, isptr)
            if isinstance(lg, tuple):
                # assemble from other field widths
                base, lg2 = lg
                v = lg2.read(p.idx)
                return from_bytes([byte_of(v, lg2.size, p.off - base + k) for k in range(size)])
            return lg.read(p.idx)
        raise Unsupported('load from ' + o.kind)

    def arr_log(self, st, oid, off, size, isptr=False):
        c = st.mem[oid]
        lg = c.get(off)
        if lg is not None and lg.size == size:
            return lg
        if lg is None:
            for f, l in c.items():
                if isinstance(f, int) and f < off + size and off < f + l.size:
                    if f <= off and off + size <= f + l.size:
                        return (f, l)
                    raise Unsupported('overlapping fields in array ' + self.objs[oid].name)
            d = c.get('default', 'sym')
            o = self.objs[oid]
            if isptr and not isinstance(d, int):
                lg = Log.base(lambda i: Opaque('%s[%s].%d' % (o.name, i, off)), 8)
            elif isptr and d == 0:
                lg = Log.const(NULL, 8)
            else:
                lg = self.default_log(o, size, d, '.%d' % off)
            st.cells(oid)[off] = lg
            return lg
        if off + size <= off + lg.size:
            return (off, lg)
        raise Unsupported('overlapping fields in array ' + self.objs[oid].name)

    def raw_store(self, st, p, size, v):
        o = self.objs[p.obj]
        if o.kind == 'cells':
            cells = st.cells(p.obj)
            c = cells.get(p.off)
            if c is None or c[0] != size:
                for f in [f for f in cells if isinstance(f, int) and f < p.off + size and p.off < f + cells[f][0]]:
                    s, w = cells.pop(f)
                    for b in list(range(f, f + s)):
                        if not (p.off <= b < p.off + size):
                            cells[b] = (1, byte_of(w, s, b - f))
            cells[p.off] = (size, v)
            return
        if o.kind == 'bytes':
            i = add(p.idx, p.off)
            if isinstance(v, (Ptr, PtrIte, FnPtr, Opaque, PtrInt)):
                if is_null(v):
                    v = 0
                else:
                    raise Unsupported('pointer stored in byte buffer ' + o.name)
            if isfp(v):
                v = z3.fpToIEEEBV(v)
            if isbool(v):
                v = bv(v, 8 * size)
            st.mem[p.obj] = st.mem[p.obj].store(i, norm(v)) if size == 1 else st.mem[p.obj].storen(i, size, v)
            return
        if o.kind == 'arr':
            lg = self.arr_log(st, p.obj, p.off, size, isinstance(v, (Ptr, PtrIte, FnPtr, Opaque)))
            if isinstance(lg, tuple):
                base, l2 = lg
                w = l2.read(p.idx)
                bs = [byte_of(w, l2.size, k) for k in range(l2.size)]
                for k in range(size):
                    bs[p.off - base + k] = byte_of(v, size, k)
                st.cells(p.obj)[base] = l2.store(p.idx, from_bytes(bs))
                return
            st.cells(p.obj)[p.off] = lg.store(p.idx, v)
            return
        raise Unsupported('store to ' + o.kind)

    def size_of(self, ty, mod):
        return mod.sizeof(ty)

    def to_type(self, v, ty, mod):
        """raw cell value as a value of IR type ty"""
        k = ty[0]
        if k == 'i':
            w = ty[1]
            if isinstance(v, (Ptr, PtrIte)):
                if is_null(v):
                    return 0
                return PtrInt(v)
            if isfp(v):
                v = z3.fpToIEEEBV(v)
            if w == 1:
                if isinstance(v, int):
                    return bool(v & 1)
                if isbool(v):
                    return v
                return simp(z3.Extract(0, 0, v) == 1)
            if isbool(v):
                return zext(v, 1, w)
            if isinstance(v, z3.BitVecRef) and v.size() != w:
                if v.size() > w:
                    return simp(z3.Extract(w - 1, 0, v))
            return v
        if k in ('float', 'double'):
            if isfp(v):
                return v
            srt = z3.Float32() if k == 'float' else z3.Float64()
            w = 32 if k == 'float' else 64
            return norm(z3.simplify(z3.fpBVToFP(bv(v, w), srt)))
        if k == 'ptr':
            if isinstance(v, PtrInt):
                return v.p
            if isinstance(v, int):
                if v == 0:
                    return NULL
                return Opaque('addr%d' % v)
            if isinstance(v, z3.BitVecRef):
                return Opaque(str(v))
            return v
        return v

    def load(self, st, p, ty, mod, what='read'):
        r = mod.resolve(ty)
        if r[0] in ('lit', 'arr'):
            p = self.pick(st, p)
            out = []
            if r[0] == 'lit':
                offs = mod.layout(ty)[2]
                for i, ft in enumerate(r[2]):
                    out.append(self.load(st, self.addc(p, offs[i]), ft, mod, what))
            else:
                es = mod.sizeof(r[2])
                for i in range(r[1]):
                    out.append(self.load(st, self.addc(p, i * es), r[2], mod, what))
            return tuple(out)
        size = mod.sizeof(r)
        if isinstance(p, PtrIte):
            p = self.pick(st, p)
        if isinstance(p, Ptr) and p.obj and self.objs[p.obj].kind == 'vtable':
            return self.vt_load(p)
        p = self.access(st, p, size, what)
        v = self.raw_load(st, p, size, r[0] == 'ptr')
        if isinstance(v, PtrIte) and r[0] != 'ptr':
            v = self.pick(st, v)
        return self.to_type(v, r, mod)

    def store(self, st, p, v, ty, mod, what='write'):
        r = mod.resolve(ty)
        if r[0] in ('lit', 'arr'):
            p = self.pick(st, p)
            if r[0] == 'lit':
                offs = mod.layout(ty)[2]
                for i, ft in enumerate(r[2]):
                    self.store(st, self.addc(p, offs[i]), v[i], ft, mod, what)
            else:
                es = mod.sizeof(r[2])
                for i in range(r[1]):
                    self.store(st, self.addc(p, i * es), v[i], r[2], mod, what)
            return
        size = mod.sizeof(r)
        p = self.access(st, p, size, what)
        if isinstance(p, Ptr) and p.obj in self.watch:
            self.watch[p.obj](st)
        if isinstance(v, bool):
            v = int(v)
        elif isinstance(v, z3.BoolRef):
            v = bv(v, 8)
        self.raw_store(st, p, size, v)

    # convenience for contracts: field access by debug-info name
    def fpath(self, cname, path):
        for m in self.prog.mods:
            if cname in m._comp:
                r = m.field_path(cname, path)
                if r is None:
                    raise Structural('no field %s in %s' % (path, cname))
                return r
        raise Structural('no debug info for type ' + cname)

    def fptr(self, p, cname, path):
        return self.addc(p, self.fpath(cname, path)[0])

    def fsize(self, cname, path):
        return self.fpath(cname, path)[1]

    def type_name(self, cname, tid):
        for m in self.prog.mods:
            if cname in m._comp:
                try:
                    k, d = m.md(tid)
                    while k == 'DIDerivedType' and d.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_member'):
                        k, d = m.md(int(d['baseType'][1:]))
                    return d.get('name', '""').strip('"')
                except Exception:
                    return None
        return None

    def get(self, st, p, cname, path, isptr=False):
        q = self.fptr(p, cname, path)
        sz = self.fsize(cname, path)
        q = self.canon(q)
        v = self.raw_load(st, q, sz, isptr)
        return v

    def put(self, st, p, cname, path, v):
        q = self.canon(self.fptr(p, cname, path))
        self.raw_store(st, q, self.fsize(cname, path), v)

    # ------------------------------------------------------------ globals, vtables
    def vtable(self, cname):
        """synthetic virtual table of class cname"""
        key = 'vt:' + cname
        if key not in self.globals:
            o = self.new_obj('vtable ' + cname, 'vtable', 0)
            o.info = None
            for m in self.prog.mods:
                if cname in m._comp:
                    o.info = m.vslots(cname)
            if o.info is None:
                raise Structural('no virtual table for ' + cname)
            self.globals[key] = o.id
        return Ptr(self.globals[key], None, 16)

    def vt_load(self, p):
        o = self.objs[p.obj]
        slot = (p.off - 16) // 8
        if isinstance(o.info, dict):
            ln = o.info.get(slot)
            if ln is None:
                raise Unsupported('virtual slot %d of %s' % (slot, o.name))
            if ln in ('~', '~delete'):
                return FnPtr(ln + ':' + o.name[7:])
            return FnPtr(ln)
        m, elems = o.info
        i = p.off // 8
        if i >= len(elems):
            raise Unsupported('vtable slot')
        v = elems[i]
        if v[1][0] == 'glo':
            return FnPtr(v[1][1])
        return Opaque('vtslot')

    def glob(self, st, mod, name):
        if self.prog.fn_mod.get(name) is not None or name in mod._decl:
            return FnPtr(name)
        oid = self.globals.get(name)
        if oid is None:
            gm = mod
            if not mod.has_global(name):
                for m in self.prog.mods:
                    if m.has_global(name):
                        gm = m
            ty, init, const = gm.global_var(name)
            if ty == 'alias':
                return self.glob(st, gm, init)
            if init is None:
                for m in self.prog.mods:
                    if m.has_global(name) and m.global_var(name)[1] is not None:
                        gm = m
                        ty, init, const = m.global_var(name)
                        break
            if name.startswith('_ZTV'):
                o = self.new_obj('vtable ' + name, 'vtable', 0)
                if init is None:
                    cn = self.prog.demangle(name)
                    if cn.startswith('vtable for '):
                        for m in self.prog.mods:
                            if cn[11:] in m._comp:
                                o.info = m.vslots(cn[11:])
                    if o.info is None:
                        o.info = {}
                else:
                    o.info = (gm, init[1][0][1][1])
                self.globals[name] = o.id
                return Ptr(o.id, None, 0)
            o = ('glob', gm, ty, init, const)
            ob = self.new_typed(st, gm, ty, 'g:' + name, 'sym')
            self.globals[name] = oid = ob.id
            ob.info = (gm, ty, init, const)
            self.glob_init(st, ob)
        else:
            ob = self.objs[oid]
            if ob.kind != 'vtable' and oid not in st.mem:
                self.glob_init(st, ob)
        ob = self.objs[oid]
        if ob.kind in ('bytes', 'arr'):
            return Ptr(oid, 0, 0)
        return Ptr(oid, None, 0)

    def glob_init(self, st, ob):
        gm, ty, init, const = ob.info
        st.mem[ob.id] = None
        if ob.kind == 'bytes':
            st.mem[ob.id] = Log.uf(ob.name, 1)
        elif ob.kind == 'arr':
            n, et = self.flat(gm, gm.resolve(ty))
            st.mem[ob.id] = {'n': n, 'default': 'sym'}
        else:
            st.mem[ob.id] = {'default': 'sym'}
            for off, ln, rid in ob.regions:
                r = self.objs[rid]
                st.mem[rid] = Log.uf(r.name, 1) if r.kind == 'bytes' else {'n': ln // r.stride, 'default': 'sym'}
        st.owned.discard(ob.id)
        if init is not None and (const or self.init_globals(ob.name)):
            base = Ptr(ob.id, 0, 0) if ob.kind in ('bytes', 'arr') else Ptr(ob.id, None, 0)
            self.glob_write(st, gm, base, ty, init)

    def init_globals(self, name):
        return False

    def glob_write(self, st, m, p, ty, v):
        r = m.resolve(ty)
        if v[0] == 'zero':
            oid = p.obj
            if p.off == 0 and (p.idx is None or p.idx == 0):
                self.zero_obj(st, oid, 0, m.sizeof(ty))
                return
        if r[0] == 'arr':
            es = m.sizeof(r[2])
            if v[0] == 'bytes':
                bs = v[1]
                q = self.canon(p)
                st.mem[q.obj] = Log.base(_bytes_fn(bs), 1)
                return
            if v[0] == 'zero':
                for i in range(r[1]):
                    self.glob_write(st, m, self.addc(p, i * es), r[2], ('zero',))
                return
            for i, (t, x) in enumerate(v[1]):
                self.glob_write(st, m, self.addc(p, i * es), r[2], x)
            return
        if r[0] == 'lit':
            offs = m.layout(ty)[2]
            for i, ft in enumerate(r[2]):
                x = ('zero',) if v[0] == 'zero' else v[1][i][1]
                self.glob_write(st, m, self.addc(p, offs[i]), ft, x)
            return
        q = self.canon(p)
        val = self.const(st, m, r, v)
        if isinstance(val, bool):
            val = int(val)
        self.raw_store(st, q, m.sizeof(r), val)

    def zero_obj(self, st, oid, off, size):
        o = self.objs[oid]
        self.fill_range(st, Ptr(oid, None if o.kind == 'cells' else 0, off if o.kind == 'cells' else 0), size, 0)

    def const(self, st, mod, ty, v):
        k = v[0]
        if k == 'int':
            if ty[0] == 'i':
                if ty[1] == 1:
                    return bool(v[1] & 1)
                return v[1] & mask(ty[1])
            return v[1]
        if k == 'null':
            return NULL
        if k == 'glo':
            return self.glob(st, mod, v[1])
        if k == 'undef':
            return self.zero_of(mod, ty, True)
        if k == 'zero':
            return self.zero_of(mod, ty, False)
        if k == 'fp':
            return fpconst(v[1], v[2])
        if k == 'agg':
            r = mod.resolve(ty)
            return tuple(self.const(st, mod, t, x) for t, x in v[1])
        if k == 'cgep':
            base = self.const(st, mod, ('ptr',), v[2][0][1])
            idx = [(t, self.const(st, mod, t, x)) for t, x in v[2][1:]]
            return self.gep(st, mod, v[1], base, idx)
        if k == 'ccast':
            x = self.const(st, mod, v[2], v[3])
            return self.cast(st, v[1], x, v[2], v[4], mod)
        if k == 'cbin':
            x = self.const(st, mod, v[2], v[3])
            y = self.const(st, mod, v[2], v[4])
            return self.binop(st, v[1], x, y, v[2], set())
        if k == 'bytes':
            return tuple(v[1])
        raise Unsupported('constant ' + k)

    def zero_of(self, mod, ty, undef):
        r = mod.resolve(ty)
        if r[0] == 'i':
            return False if r[1] == 1 else 0
        if r[0] == 'ptr':
            return NULL
        if r[0] in ('float', 'double'):
            return z3.FPVal(0.0, z3.Float32() if r[0] == 'float' else z3.Float64())
        if r[0] == 'lit':
            return tuple(self.zero_of(mod, t, undef) for t in r[2])
        if r[0] == 'arr':
            return tuple(self.zero_of(mod, r[2], undef) for _ in range(r[1]))
        raise Unsupported('zero of %r' % (r,))

    # ------------------------------------------------------------ block memory operations
    def fill_range(self, st, p, n, byte):
        """memset at a checked range"""
        p = self.canon_obj(p, n)
        o = self.objs[p.obj]
        if o.kind == 'cells':
            if not isinstance(n, int):
                raise Unsupported('memset of symbolic length in ' + o.name)
            lo, hi = p.off, p.off + n
            cells = st.cells(p.obj)
            for f in [f for f in cells if isinstance(f, int) and f < hi and lo < f + cells[f][0]]:
                s, w = cells.pop(f)
                for b in range(f, f + s):
                    if not lo <= b < hi:
                        cells[b] = (1, byte_of(w, s, b - f))
            if lo == 0 and hi == o.size and isinstance(byte, int):
                cells['default'] = byte
            else:
                # typed zeroing of the leaves
                self.zero_leaves(st, o, lo, hi, byte)
            for off, ln, rid in o.regions:
                a, b = max(lo, off), min(hi, off + ln)
                if a < b:
                    self.fill_range(st, Ptr(rid, (a - off) // self.objs[rid].stride, 0), b - a, byte)
            return
        if o.kind == 'bytes':
            v = byte if isinstance(byte, int) else trunc(byte, byte.size(), 8)
            st.mem[p.obj] = st.mem[p.obj].fill(add(p.idx, p.off), n, lambda i: v)
            return
        if o.kind == 'arr':
            if not isinstance(byte, int):
                raise Unsupported('symbolic memset in array')
            c = st.cells(p.obj)
            if isinstance(n, int) and n % o.stride == 0 and p.off == 0:
                k = n // o.stride
            else:
                k = self.exact_div(n, o.stride)
                if k is None or p.off:
                    raise Unsupported('memset inside array elements')
            whole = isinstance(p.idx, int) and p.idx == 0 and isinstance(k, int) and isinstance(c['n'], int) and k == c['n']
            if whole:
                for f in [f for f in c if isinstance(f, int)]:
                    del c[f]
                c['default'] = byte
                return
            for f in [f for f in c if isinstance(f, int)]:
                lg = c[f]
                v = int.from_bytes(bytes([byte]) * lg.size, 'little')
                pv = lg.read(p.idx)
                if isinstance(pv, (Ptr, Opaque, PtrIte)):
                    v = NULL
                c[f] = lg.fill(p.idx, k, lambda i, v=v: v)
            if not any(isinstance(f, int) for f in c):
                raise Unsupported('partial memset of an untouched array ' + o.name)
            return
        raise Unsupported('memset of ' + o.kind)

    def zero_leaves(self, st, o, lo, hi, byte):
        cells = st.cells(o.id)
        inreg = lambda b: any(off <= b < off + ln for off, ln, _ in o.regions)
        if o.mod is None:
            b = lo
            while b < hi:
                s = 8 if b % 8 == 0 and b + 8 <= hi else 1
                cells[b] = (s, int.from_bytes(bytes([byte]) * s, 'little') if isinstance(byte, int) else self.rep(byte, s))
                b += s
            return
        leaves = []

        def walk(t, off):
            r = o.mod.resolve(t)
            if r[0] == 'lit':
                offs = o.mod.layout(t)[2]
                for i, ft in enumerate(r[2]):
                    walk(ft, off + offs[i])
            elif r[0] == 'arr':
                pass
            else:
                leaves.append((off, o.mod.sizeof(r)))
        walk(o.ty, 0)
        for off, s in leaves:
            if lo <= off and off + s <= hi and not inreg(off):
                cells[off] = (s, int.from_bytes(bytes([byte]) * s, 'little') if isinstance(byte, int) else self.rep(byte, s))
            elif off < hi and lo < off + s:
                for b in range(max(lo, off), min(hi, off + s)):
                    cells[b] = (1, byte)

    def rep(self, byte, s):
        b = trunc(byte, byte.size(), 8)
        return from_bytes([b] * s)

    def canon_obj(self, p, n):
        """for ranges: stay in the parent when the range starts at a region but is a whole-object range"""
        o = self.objs[p.obj]
        if o.kind == 'raw':
            if isinstance(o.size, int) and isinstance(n, int):
                o.kind = 'cells'
            else:
                self.raw_to_bytes(o)
        if p.idx is None and o.kind == 'cells':
            if not isinstance(n, int):
                return self.canon(p)
            for off, ln, rid in o.regions:
                if off <= p.off and p.off + n <= off + ln:
                    return self.canon(p)
            return p
        return self.canon(p)

    def range_ok(self, st, p, n, what):
        """check [p, p+n) accessible"""
        if isinstance(p, PtrIte):
            p = self.pick(st, p)
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if isinstance(n, int) and n == 0:
            return p
        if p.obj == 0:
            self.oblige(st, eq(n, 0, 64), 'null pointer %s' % what, 'safety')
            if self.known(st, eq(n, 0, 64)):
                return p
            raise PathEnd()
        p = self.canon_obj(p, n)
        o = self.objs[p.obj]
        c = self.obj_content(st, p.obj)
        if c is None or (isinstance(c, str) and c == FREED):
            self.oblige(st, eq(n, 0, 64), '%s of freed or dead %s' % (what, o.name), 'safety')
            raise PathEnd()
        if o.kind == 'cells':
            if not isinstance(n, int):
                self.oblige(st, land(ule(n, max(o.size - p.off, 0), 64)), '%s inside %s' % (what, o.name), 'safety')
            elif p.off < 0 or p.off + n > o.size:
                self.oblige(st, False, '%s outside %s' % (what, o.name), 'safety')
                raise PathEnd()
        elif o.kind == 'bytes':
            i = add(p.idx, p.off)
            self.oblige(st, lor(eq(n, 0, 64), land(ule(n, o.size, 64), ule(i, sub(o.size, n), 64))),
                        '%s inside %s' % (what, o.name), 'safety')
        elif o.kind == 'arr':
            N = c['n']
            if isinstance(o.info, tuple) and o.info[0] == 'map':
                if not isinstance(n, int) or not isinstance(p.off, int) or p.off + n > o.info[1]:
                    raise Unsupported('range across map elements')
                self.oblige(st, ne(c[o.info[1]].read(p.idx), 0, 8), '%s of a present element of %s' % (what, o.name), 'safety')
                return p
            tot = mul(N, o.stride)
            i = add(mul(p.idx, o.stride), p.off)
            self.oblige(st, lor(eq(n, 0, 64), land(ule(n, tot, 64), ule(i, sub(tot, n), 64))),
                        '%s inside %s' % (what, o.name), 'safety')
        else:
            raise Unsupported(what + ' on ' + o.kind)
        return p

    def copy_range(self, st, d, s, n):
        """memcpy/memmove of a checked range"""
        if isinstance(n, int) and n == 0 or d.obj == 0 or s.obj == 0:
            return
        do, so = self.objs[d.obj], self.objs[s.obj]
        if d.obj in self.watch:
            self.watch[d.obj](st)
        if do.kind == 'cells' and so.kind == 'cells':
            if not isinstance(n, int):
                raise Unsupported('copy of symbolic length between structures')
            src = st.mem[s.obj]
            lo = s.off
            dl = d.off - s.off
            items = []
            for f, c in src.items():
                if isinstance(f, int) and f < lo + n and lo < f + c[0]:
                    if f >= lo and f + c[0] <= lo + n:
                        items.append((f, c))
                    else:
                        for b in range(max(f, lo), min(f + c[0], lo + n)):
                            items.append((b, (1, byte_of(c[1], c[0], b - f))))
            regs = [(off, ln, rid) for off, ln, rid in so.regions if off < lo + n and lo < off + ln]
            default = src.get('default', 'uninit')
            if isinstance(default, int):
                have = set()
                for f, c in items:
                    have.update(range(f, f + c[0]))
                for off, ln, rid in regs:
                    have.update(range(off, off + ln))
                fill = [b for b in range(lo, lo + n) if b not in have]
            else:
                fill = []
            snap = [(off, ln, rid, st.mem[rid]) for off, ln, rid in regs]
            cells = st.cells(d.obj)
            a, b2 = d.off, d.off + n
            for f in [f for f in cells if isinstance(f, int) and f < b2 and a < f + cells[f][0]]:
                sz, w = cells.pop(f)
                for b in range(f, f + sz):
                    if not a <= b < b2:
                        cells[b] = (1, byte_of(w, sz, b - f))
            if not isinstance(default, int) and so.pre is False and default == 'sym':
                pass
            for f, c in items:
                cells[f + dl] = c
            # default-filled gaps
            i = 0
            while i < len(fill):
                j = i
                while j + 1 < len(fill) and fill[j + 1] == fill[j] + 1:
                    j += 1
                b, e = fill[i], fill[j] + 1
                while b < e:
                    for w in (8, 4, 2, 1):
                        if (b + dl) % w == 0 and b + w <= e:
                            break
                    cells[b + dl] = (w, int.from_bytes(bytes([default]) * w, 'little'))
                    b += w
                i = j + 1
            if default in ('sym', 'uninit'):
                # untouched source leaves: read them lazily now, leaf by leaf
                self.copy_leaves(st, s, d, n)
            for off, ln, rid, cont in snap:
                tgt = None
                for o2, l2, r2 in do.regions:
                    if o2 == off + dl and l2 >= ln or o2 == off + dl:
                        tgt = (o2, l2, r2)
                if tgt is None:
                    if self.objs[rid].kind == 'bytes' and ln <= 64:
                        for k in range(ln):
                            cells[off + dl + k] = (1, cont.read(k))
                        continue
                    raise Unsupported('structure copy with different layout %s -> %s' % (so.name, do.name))
                r2 = self.objs[tgt[2]]
                if r2.kind == 'bytes':
                    if tgt[1] == ln:
                        st.mem[tgt[2]] = cont
                    else:
                        st.mem[tgt[2]] = st.mem[tgt[2]].copy(0, min(ln, tgt[1]), cont, 0)
                else:
                    st.mem[tgt[2]] = self.own_logs(rid, cont)
                    st.owned.discard(tgt[2])
            return
        if do.kind == 'bytes' and so.kind == 'bytes':
            st.mem[d.obj] = st.mem[d.obj].copy(add(d.idx, d.off), n, st.mem[s.obj], add(s.idx, s.off))
            return
        if do.kind == 'bytes':
            if isinstance(n, int) and n <= 64 or so.kind == 'cells' and isinstance(n, int):
                # gather the values of the source
                vals = self.gather(st, s, n)
                i = add(d.idx, d.off)
                lg = st.mem[d.obj]
                for off, sz, v in vals:
                    if isinstance(v, (Ptr, Opaque, PtrIte)):
                        raise Unsupported('pointer copied to bytes')
                    if isfp(v):
                        v = z3.fpToIEEEBV(v)
                    lg = lg.store(add(i, off), byte_of(v, 1, 0)) if sz == 1 else lg.storen(add(i, off), sz, v)
                st.mem[d.obj] = lg
                return
            if so.kind == 'arr':
                lg = self.arr_log(st, s.obj, 0, so.stride)
                if isinstance(lg, Log) and lg.size == so.stride:
                    S = so.stride
                    base = add(mul(s.idx, S), s.off)
                    def rd(o, lg=lg, S=S, base=base):
                        i = add(base, o)
                        q, r = udiv(i, S), urem(i, S)
                        v = lg.read(q)
                        out = byte_of(v, S, S - 1)
                        for k in range(S - 2, -1, -1):
                            out = itew(eq(r, k, 64), byte_of(v, S, k), out, 8)
                        return out
                    st.mem[d.obj] = st.mem[d.obj].fill(add(d.idx, d.off), n, rd)
                    return
            raise Unsupported('copy of %s to bytes' % so.kind)
        if isinstance(n, int) and (n <= 64 or so.kind == 'arr' and so.mod is not None and n <= so.stride
                                   or do.kind == 'arr' and do.mod is not None and n <= do.stride) and (do.kind in ('cells', 'arr')):
            if so.kind == 'bytes':
                # split along the destination layout
                b = 0
                for off, sz in self.leaves(st, d, n):
                    v = st.mem[s.obj].readn(add(add(s.idx, s.off), off), sz)
                    self.raw_store(st, self.canon(self.addc(d, off)), sz, v)
                return
            vals = self.gather(st, s, n)
            for off, sz, v in vals:
                self.raw_store(st, self.canon(self.addc(d, off)), sz, v)
            return
        if do.kind == 'arr' and so.kind == 'arr' and do.stride == so.stride and d.off == 0 and s.off == 0:
            k = self.exact_div(n, do.stride)
            if k is None:
                raise Unsupported('partial element copy')
            src = dict(st.mem[s.obj])
            c = st.cells(d.obj)
            for f in set(f for f in list(src) + list(c) if isinstance(f, int)):
                sl = src.get(f)
                isp = f in c and isinstance(c[f].read(0), (Ptr, Opaque, PtrIte)) or \
                    sl is not None and isinstance(sl.read(0), (Ptr, Opaque, PtrIte))
                fs = (sl or c[f]).size
                sl = self.arr_log(st, s.obj, f, fs, isp)
                dlg = self.arr_log(st, d.obj, f, fs, isp)
                st.cells(d.obj)[f] = dlg.copy(d.idx, k, sl, s.idx)
            return
        raise Unsupported('copy from %s to %s' % (so.kind, do.kind))

    def own_logs(self, rid, cont):
        o = self.objs[rid]
        c = dict(cont)
        d = c.get('default', 'sym')
        if not isinstance(d, int):
            # keep the source's symbols
            c['default_of'] = rid
        return c

    def copy_leaves(self, st, s, d, n):
        so = self.objs[s.obj]
        if so.mod is None:
            return
        for off, sz, isptr in self.typed_leaves(so):
            if s.off <= off and off + sz <= s.off + n and off not in st.mem[s.obj]:
                if any(isinstance(f, int) and f < off + sz and off < f + c[0] for f, c in st.mem[s.obj].items() if isinstance(f, int)):
                    continue
                v = self.raw_load(st, Ptr(s.obj, None, off), sz, isptr)
                st.cells(d.obj)[off - s.off + d.off] = (sz, v)

    def typed_leaves(self, o):
        out = []

        def walk(t, off):
            r = o.mod.resolve(t)
            if r[0] == 'lit':
                offs = o.mod.layout(t)[2]
                for i, ft in enumerate(r[2]):
                    walk(ft, off + offs[i])
            elif r[0] == 'arr':
                pass
            else:
                out.append((off, o.mod.sizeof(r), r[0] == 'ptr'))
        walk(o.ty, 0)
        return out

    def leaves(self, st, d, n):
        """(offset, size) pieces of a destination range along its existing or typed cells"""
        o = self.objs[d.obj]
        if o.kind == 'cells':
            cov = sorted((f, c[0]) for f, c in st.mem[d.obj].items() if isinstance(f, int))
            if o.mod is not None:
                cov = sorted((off, sz) for off, sz, _ in self.typed_leaves(o))
            pts = [(f - d.off, s) for f, s in cov if f >= d.off and f + s <= d.off + n]
            if sum(s for _, s in pts) == n:
                return pts
        if n in (1, 2, 4, 8):
            return [(0, n)]
        return [(k, 1) for k in range(n)]

    def gather(self, st, s, n):
        """[(offset, size, value)] covering n concrete bytes at s"""
        o = self.objs[s.obj]
        if o.kind == 'cells':
            out, b = [], s.off
            end = s.off + n
            cells = st.mem[s.obj]
            while b < end:
                reg = next(((off, ln, rid) for off, ln, rid in o.regions if off <= b < off + ln), None)
                if reg:
                    r = self.objs[reg[2]]
                    k = min(end, reg[0] + reg[1])
                    if r.kind == 'bytes':
                        for x in range(b, k):
                            out.append((x - s.off, 1, st.mem[reg[2]].read(x - reg[0])))
                        b = k
                        continue
                    raise Unsupported('gather from array region')
                c = cells.get(b)
                if c is not None and b + c[0] <= end:
                    out.append((b - s.off, c[0], c[1]))
                    b += c[0]
                    continue
                sz = 1
                if c is None and n in (2, 4, 8) and b == s.off and not any(
                        isinstance(f, int) and f < end and b < f + cc[0] for f, cc in cells.items() if isinstance(f, int)):
                    sz = n
                out.append((b - s.off, sz, self.raw_load(st, Ptr(s.obj, None, b), sz)))
                b += sz
            return out
        if o.kind == 'arr':
            if o.mod is not None and isinstance(s.off, int) and s.off + n <= o.stride:
                lv = [(off, sz, isp) for off, sz, isp in self.typed_leaves(o) if off >= s.off and off + sz <= s.off + n]
                if lv and not any(isinstance(f, int) and any(f < off + sz and off < f + lg.size and not (f <= off and off + sz <= f + lg.size)
                                                              for off, sz, _ in lv) for f, lg in st.mem[s.obj].items()):
                    return [(off - s.off, sz, self.raw_load(st, Ptr(s.obj, s.idx, off), sz, isp)) for off, sz, isp in lv]
            if n == o.stride and s.off == 0:
                c = st.mem[s.obj]
                fs = sorted((f, c[f].size) for f in c if isinstance(f, int))
                if fs and sum(x for _, x in fs) == n:
                    return [(f, sz, c[f].read(s.idx)) for f, sz in fs]
                if not fs:
                    return [(0, n, self.arr_log(st, s.obj, 0, n).read(s.idx))]
            if isinstance(n, int) and n % o.stride == 0 and s.off == 0:
                out = []
                for k in range(n // o.stride):
                    for f, sz, v in self.gather(st, Ptr(s.obj, add(s.idx, k), 0), o.stride):
                        out.append((f + k * o.stride, sz, v))
                return out
            return [(0, n, self.raw_load(st, s, n))]
        if o.kind == 'bytes':
            return [(k, 1, st.mem[s.obj].read(add(add(s.idx, s.off), k))) for k in range(n)]
        raise Unsupported('gather from ' + o.kind)

    # ------------------------------------------------------------ instructions
    def val(self, st, fr, env, ty, v):
        k = v[0]
        if k == 'loc':
            try:
                return env[v[1]]
            except KeyError:
                raise Unsupported('undefined value %%%s in %s' % (v[1], fr.f.name))
        if k == 'int':
            if ty[0] == 'i':
                return bool(v[1] & 1) if ty[1] == 1 else v[1] & mask(ty[1])
        return self.const(st, fr.mod, ty, v)

    def gep(self, st, mod, ty, base, idx):
        if isinstance(base, PtrIte):
            return PtrIte(base.c, self.gep(st, mod, ty, base.a, idx), self.gep(st, mod, ty, base.b, idx))
        if isinstance(base, Opaque):
            return Opaque(base.name + '+')
        if isinstance(base, FnPtr):
            raise Unsupported('gep of function')
        p = base
        t, first = ty, True
        for it, iv in idx:
            w = it[1]
            if first:
                i64 = sext(iv, w, 64) if w != 64 else iv
                es = mod.sizeof(t)
                self.retype(st, p, mod, t)
                if not (isinstance(i64, int) and i64 == 0):
                    if p.obj == 0:
                        if isinstance(i64, int):
                            p = Ptr(0, None, p.off + sgn(i64, 64) * es)
                            if p.off == 0:
                                p = NULL
                        else:
                            # null + symbolic offset: allowed only with offset 0
                            if self.need(st, eq(i64, 0, 64)):
                                p = NULL
                            else:
                                raise Unsupported('symbolic offset from null')
                    else:
                        p = self.adds(p, i64, es)
                first = False
                continue
            r = mod.resolve(t)
            if r[0] == 'lit':
                offs = mod.layout(t)[2]
                p = self.addc(p, offs[iv]) if p.obj else Ptr(0, None, p.off + offs[iv])
                t = r[2][iv]
            elif r[0] == 'arr':
                i64 = sext(iv, w, 64) if w != 64 else iv
                es = mod.sizeof(r[2])
                if not (isinstance(i64, int) and i64 == 0):
                    p = self.adds(p, i64, es)
                t = r[2]
            else:
                raise Unsupported('gep into %r' % (r,))
        return p

    def retype(self, st, p, mod, t):
        """untyped heap memory takes the layout of the first structure it is used as"""
        if p.obj == 0 or not isinstance(p, Ptr):
            return
        o = self.objs[p.obj]
        if o.kind == 'raw' and isinstance(o.size, int) and p.off == 0 and mod.resolve(t)[0] == 'lit' and mod.sizeof(t) == o.size:
            o.kind = 'cells'
            c = st.mem[o.id]
            self.layout_obj(st, o, mod, t, c.get('default', 'uninit'))
        elif o.kind == 'cells' and o.mod is None and isinstance(o.size, int) and p.off == 0 and mod.resolve(t)[0] == 'lit' \
                and mod.sizeof(t) == o.size and not o.regions and o.info == 'heap':
            c = st.mem[o.id]
            if isinstance(c, dict) and not any(isinstance(f, int) for f in c):
                self.layout_obj(st, o, mod, t, c.get('default', 'uninit'))

    def cast(self, st, op, v, ft, tt, mod):
        if op == 'bitcast':
            if ft == tt:
                return v
            if ft[0] in ('float', 'double') and tt[0] == 'i':
                return simp(z3.fpToIEEEBV(v))
            if tt[0] in ('float', 'double'):
                return self.to_type(v, tt, mod)
            return v
        if op in ('zext', 'sext', 'trunc'):
            f, t = ft[1], tt[1]
            if isinstance(v, PtrInt):
                if op == 'trunc':
                    raise Unsupported('truncated pointer')
                return v
            if op == 'zext':
                if isinstance(v, z3.BitVecRef) and v.decl().kind() == z3.Z3_OP_BADD and t == 64:
                    v2 = self.zext_add(st, v, f, t)
                    if v2 is not None:
                        return v2
                return zext(v, f, t)
            if op == 'sext':
                return sext(v, f, t)
            r = trunc(v, f, t)
            if t == 1:
                return bool(r & 1) if isinstance(r, int) else simp(r == 1)
            return r
        if op == 'ptrtoint':
            if isinstance(v, PtrIte):
                v = self.pick(st, v)
            if is_null(v):
                return v.off & mask(64)
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p
            if isinstance(v, int):
                return NULL if v == 0 else Opaque('addr%d' % v)
            raise Unsupported('inttoptr')
        RM = z3.RNE()
        if op == 'sitofp' or op == 'uitofp':
            s = z3.Float32() if tt[0] == 'float' else z3.Float64()
            if isbool(v):
                v = zext(v, 1, 8)
                w = 8
            else:
                w = ft[1]
            x = bv(v, w)
            r = z3.fpSignedToFP(RM, x, s) if op == 'sitofp' else z3.fpUnsignedToFP(RM, x, s)
            return z3.simplify(r) if isinstance(v, int) else r
        if op in ('fptosi', 'fptoui'):
            w = tt[1]
            hit = self.fpabs.get((op, v.get_id(), w))
            if hit is not None:
                return hit[1]
            for (o2, _, w2), (e, n) in self.fpabs.items():
                if o2 == 'fptosi' :
                    st.assume(n == z3.fpToSBV(z3.RTZ(), e, z3.BitVecSort(w2)))
            self.fp_range(st, op, v, w)
            r = z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(w)) if op == 'fptosi' else z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(w))
            return simp(r)
        if op in ('fpext', 'fptrunc'):
            s = z3.Float32() if tt[0] == 'float' else z3.Float64()
            r = z3.fpToFP(RM, v, s)
            return z3.simplify(r) if z3.is_fp_value(v) else r
        raise Unsupported('cast ' + op)

    def fp_range(self, st, op, v, w):
        """float-to-integer conversion must be representable"""
        if not self.safety:
            return
        s = v.sort()
        if op == 'fptosi':
            hi = z3.fpRealToFP if False else None
            lo_ok = z3.fpGEQ(v, z3.FPVal(-float(2 ** (w - 1)), s))
            hi_ok = z3.fpLT(v, z3.FPVal(float(2 ** (w - 1)), s))
        else:
            lo_ok = z3.fpGT(v, z3.FPVal(-1.0, s))
            hi_ok = z3.fpLT(v, z3.FPVal(float(2 ** w), s))
        self.oblige(st, z3.And(lo_ok, hi_ok), 'float to integer conversion in range', 'fpconv')

    def zext_add(self, st, v, f, t):
        ch = [norm(c) for c in v.children()]
        # sum of terms without overflow
        tot = ch[0]
        ext = zext(ch[0], f, t)
        for c in ch[1:]:
            if isinstance(c, int) and c >> (f - 1):
                # subtraction of a constant
                k = (1 << f) - c
                if not self.prove_quick(st, uge(tot, k, f)):
                    return None
                tot = simp(bv(tot, f) + c)
                ext = sub(ext, k, t)
                continue
            nt = simp(bv(tot, f) + bv(c, f))
            if not self.prove_quick(st, uge(nt, tot, f)):
                return None
            tot = nt
            ext = add(ext, zext(c, f, t), t)
        return ext

    def prove_quick(self, st, c):
        c = simp(c)
        if isinstance(c, bool):
            return c
        d = st.decided.get(c.get_id())
        if d is not None:
            return d
        if st.model is not None and not z3.is_true(st.model.eval(c, model_completion=True)):
            return False
        r, m = self.solver.sat(st.pc, lnot(c), 2000)
        return r == 'unsat'

    def binop(self, st, op, a, b, ty, fl):
        if ty[0] in ('float', 'double'):
            RM = z3.RNE()
            if op == 'frem':
                raise Unsupported('frem')
            r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RM, a, b)
            return z3.simplify(r) if z3.is_fp_value(a) and z3.is_fp_value(b) else r
        w = ty[1]
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.ptrarith(st, op, a, b)
        if isbool(a) or isbool(b):
            if w != 1:
                a, b = zext(a, 1, w) if isbool(a) else a, zext(b, 1, w) if isbool(b) else b
            else:
                x, y = zb(a), zb(b)
                r = {'and': z3.And(x, y), 'or': z3.Or(x, y), 'xor': z3.Xor(x, y)}.get(op)
                if r is None:
                    raise Unsupported('boolean ' + op)
                return simp(r)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, ne(b, 0, w), 'division by zero', 'safety')
        if op in ('shl', 'lshr', 'ashr'):
            self.oblige(st, ult(b, w, w), 'shift amount in range', 'safety')
        if isinstance(a, int) and isinstance(b, int):
            M = mask(w)
            if op == 'add':
                r = a + b
            elif op == 'sub':
                r = a - b
            elif op == 'mul':
                r = a * b
            elif op == 'udiv':
                r = a // b
            elif op == 'urem':
                r = a % b
            elif op == 'sdiv':
                x, y = sgn(a, w), sgn(b, w)
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif op == 'srem':
                x, y = sgn(a, w), sgn(b, w)
                r = abs(x) % abs(y) * (-1 if x < 0 else 1)
            elif op == 'and':
                r = a & b
            elif op == 'or':
                r = a | b
            elif op == 'xor':
                r = a ^ b
            elif op == 'shl':
                r = a << b
            elif op == 'lshr':
                r = a >> b
            elif op == 'ashr':
                r = sgn(a, w) >> b
            return r & M
        if op == 'add':
            return add(a, b, w)
        if op == 'sub':
            return sub(a, b, w)
        x, y = bv(a, w), bv(b, w)
        if op == 'mul':
            return simp(x * y)
        if op == 'udiv':
            if isinstance(b, int) and b & (b - 1) == 0:
                return simp(z3.LShR(x, b.bit_length() - 1))
            return simp(z3.UDiv(x, y))
        if op == 'urem':
            if isinstance(b, int) and b & (b - 1) == 0:
                return simp(x & (b - 1))
            if self.prove_quick(st, ult(a, b, w)):
                return a
            if not isinstance(b, int):
                dd = sub(a, b, w)
                if self.prove_quick(st, land(uge(a, b, w), ult(dd, b, w))):
                    return dd
                if self.prove_quick(st, lor(ult(a, b, w), ult(dd, b, w))):
                    return itew(ult(a, b, w), a, dd, w)
            return simp(z3.URem(x, y))
        if op == 'sdiv':
            return simp(x / y)
        if op == 'srem':
            return simp(z3.SRem(x, y))
        if op == 'and':
            return simp(x & y)
        if op == 'or':
            return simp(x | y)
        if op == 'xor':
            return simp(x ^ y)
        if op == 'shl':
            return simp(x << y)
        if op == 'lshr':
            return simp(z3.LShR(x, y))
        if op == 'ashr':
            return simp(x >> y)
        raise Unsupported('binop ' + op)

    def ptrarith(self, st, op, a, b):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return self.ptrdiff(st, a.p, b.p)
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, int) and b == 0:
            return a
        if op == 'add' and isinstance(a, PtrInt) and isint(b):
            return PtrInt(self.adds(a.p, b, 1))
        if op == 'sub' and isinstance(b, int) and b == 0:
            return a
        raise Unsupported('pointer arithmetic ' + op)

    def ptrdiff(self, st, p, q):
        p, q = self.pick(st, p), self.pick(st, q)
        if p.obj == q.obj:
            if p.idx is None and q.idx is None:
                return (p.off - q.off) & mask(64)
            p, q = self.canon(p), self.canon(q)
            if p.obj == q.obj:
                o = self.objs[p.obj]
                return add(mul(sub(p.idx, q.idx), o.stride), (p.off - q.off) & mask(64))
        raise Unsupported('difference of pointers to different objects')

    def peq(self, st, p, q):
        if isinstance(p, PtrIte):
            return ite(p.c, self.peq(st, p.a, q), self.peq(st, p.b, q))
        if isinstance(q, PtrIte):
            return self.peq(st, q, p)
        if isinstance(p, FnPtr) or isinstance(q, FnPtr):
            return isinstance(p, FnPtr) and isinstance(q, FnPtr) and p.name == q.name
        if isinstance(p, Opaque) or isinstance(q, Opaque):
            if isinstance(p, Opaque) and isinstance(q, Opaque) and p.name == q.name:
                return True
            o = p if isinstance(p, Opaque) else q
            if (is_null(p) or is_null(q)) and o.name.startswith('nn:'):
                return False
            if isinstance(p, Opaque) and isinstance(q, Opaque) and p.name.startswith('nn:') and q.name.startswith('nn:'):
                return False
            raise Unsupported('comparison of unknown pointers %r %r' % (p, q))
        p, q = self.canon(p), self.canon(q)
        if p.obj != q.obj:
            return False
        if p.idx is None and q.idx is None:
            return p.off == q.off
        if p.idx is None or q.idx is None:
            raise Unsupported('pointer comparison')
        o = self.objs[p.obj]
        if p.off == q.off:
            return eq(p.idx, q.idx, 64)
        return False

    def icmp(self, st, pred, a, b, ty):
        if ty[0] == 'ptr':
            if pred == 'eq':
                return self.peq(st, a, b)
            if pred == 'ne':
                return lnot(self.peq(st, a, b))
            a, b = self.pick(st, a), self.pick(st, b)
            a, b = self.canon(a), self.canon(b)
            if a.obj == b.obj and a.off == b.off:
                return self.icmp(st, pred, a.idx if a.idx is not None else a.off, b.idx if b.idx is not None else b.off, ('i', 64))
            raise Unsupported('ordering of pointers')
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            pa = a.p if isinstance(a, PtrInt) else NULL if isinstance(a, int) and a == 0 else None
            pb = b.p if isinstance(b, PtrInt) else NULL if isinstance(b, int) and b == 0 else None
            if pa is None or pb is None:
                raise Unsupported('pointer integer comparison')
            return self.icmp(st, pred, pa, pb, ('ptr',))
        if ty == ('i', 1):
            a, b = zext(a, 1, 8), zext(b, 1, 8)
            w = 8
        else:
            w = ty[1]
        if pred == 'eq':
            return eq(a, b, w)
        if pred == 'ne':
            return ne(a, b, w)
        if isinstance(a, int) and isinstance(b, int):
            x, y = (a, b) if pred[0] == 'u' else (sgn(a, w), sgn(b, w))
            return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred[1:]]
        x, y = bv(a, w), bv(b, w)
        return simp({'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
                     'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q,
                     'sgt': lambda p, q: p > q, 'sge': lambda p, q: p >= q}[pred](x, y))

    def fcmp(self, pred, a, b):
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': z3.fpEQ, 'ne': lambda x, y: z3.And(z3.Not(z3.fpEQ(x, y)), z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y)))),
                'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if pred == 'ord':
            return simp(z3.Not(un))
        if pred == 'uno':
            return simp(un)
        c = base[pred[1:]](a, b)
        if pred[0] == 'u':
            c = z3.Or(un, c)
        return simp(c)

    # ------------------------------------------------------------ functions
    def call(self, st, name, args, depth=0):
        """execute function by linkage name: [(state, return value)]"""
        r = self.prog.resolve(name)
        if r is None:
            raise Unsupported('no definition of ' + self.prog.demangle(name))
        return self.exec_fn(st, r[0], r[1], args, depth)

    def exec_fn(self, st, mod, f, args, depth):
        if depth > self.maxdepth:
            raise Unsupported('call depth')
        cfg = self.prog.cfg(f)
        fr = Frame(mod, f, cfg, depth)
        env = {}
        for (t, n, at), a in zip(f.params, args):
            env[n] = a
        env['#allocas'] = ()
        res = self.run(fr, [(f.entry, 0, None, env, st)], None, None)
        out = []
        for kind, x in res:
            assert kind == 'ret'
            s, rv, e = x
            for oid in e['#allocas']:
                self.kill(s, oid)
            out.append((s, rv))
        if self.merge and len(out) > 1:
            out = self.merge_rets(out)
        return out

    def kill(self, st, oid):
        st.mem.pop(oid, None)
        for off, ln, rid in self.objs[oid].regions:
            st.mem.pop(rid, None)

    def run(self, fr, items, region, header):
        """execute blocks; results: ('ret',(st,val,env)), ('exit',(to,from,env,st)), ('back',(from,env,st))"""
        cfg = fr.cfg
        work = {}
        for b, i, prev, env, st in items:
            work.setdefault(b, []).append((i, prev, env, st))
        results = []
        first = True
        while work:
            b = min(work, key=lambda x: cfg.prio[x])
            lst = work.pop(b)
            if self.merge and len(lst) > 1:
                lst = self.merge_items(fr, b, lst)
            for i, prev, env, st in lst:
                if b in cfg.loops and b != header and i == 0:
                    for r in self.loop(fr, b, prev, env, st):
                        if r[0] == 'ret':
                            results.append(r)
                        else:
                            to, frm, e2, s2 = r[1]
                            self.goto(fr, to, frm, e2, s2, work, results, region, header)
                    continue
                self.block(fr, b, i, prev, env, st, work, results, region, header)
        return results

    def loop(self, fr, b, prev, env, st):
        """a whole loop: by contract, by unrolling when it is decided, by any contract of the pool that proves"""
        keyed = self.find_spec(fr, b)
        pool = [sp for sp in dict.fromkeys(self.loopspecs.values()) if sp not in keyed]
        if not keyed:
            mark = self.mark()
            try:
                return self.unroll(fr, b, prev, dict(env), st.fork() if pool else st)
            except Structural:
                if not pool:
                    raise
                self.rollback(mark)
        if len(keyed) == 1 and not pool:
            return self.do_loop(fr, b, prev, env, st, keyed[0])
        first = None
        for sp in keyed + pool:
            mark = self.mark()
            self.strict += 1
            try:
                return self.do_loop(fr, b, prev, dict(env), st.fork(), sp)
            except SpecFails as e:
                self.rollback(mark)
            except (Structural, Unsupported, KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception) as e:
                if 'time limit' in str(e):
                    raise
                self.rollback(mark)
                first = first or e
            finally:
                self.strict -= 1
        if keyed:
            return self.do_loop(fr, b, prev, env, st, keyed[0])
        raise Structural('loop at %s in %s has no contract and is not decided by its inputs' %
                         (self.block_line(fr, b), self.prog.demangle(fr.f.name)))

    strict = 0

    def mark(self):
        return (len(self.obligs), self.dry, self.cur)

    def rollback(self, m):
        del self.obligs[m[0]:]
        self.dry, self.cur = m[1], m[2]

    def unroll(self, fr, b, prev, env, st):
        items = [(b, 0, prev, env, st)]
        out = []
        n = sym = 0
        region = fr.cfg.loops[b]
        while items:
            res = self.run(fr, items, region, b)
            back = [x[1] for x in res if x[0] == 'back']
            out += [x for x in res if x[0] != 'back']
            n += 1
            if back and len(back) < len(res):
                sym += 1
            if back and (n > 6000 or sym > self.maxunroll):
                raise Structural('loop at line %s in %s has no contract and is not decided by its inputs' %
                                 (self.block_line(fr, b), self.prog.demangle(fr.f.name)))
            items = [(b, 0, frm, e, s) for frm, e, s in back]
        return out

    def block_line(self, fr, b):
        for ins in fr.f.blocks[b]:
            if ins.dbg is not None:
                return fr.mod.line(ins.dbg)
        return None

    def goto(self, fr, to, frm, env, st, work, results, region, header):
        if region is not None:
            if to == header:
                results.append(('back', (frm, env, st)))
                return
            if to not in region:
                results.append(('exit', (to, frm, env, st)))
                return
        work.setdefault(to, []).append((0, frm, env, st))

    def block(self, fr, b, i, prev, env, st, work, results, region, header):
        ins = fr.f.blocks[b]
        todo = [(i, env, st)]
        while todo:
            i, env, st = todo.pop()
            try:
                self.steps_block(fr, b, ins, i, prev, env, st, work, results, region, header, todo)
            except PathEnd:
                continue

    def steps_block(self, fr, b, ins, i, prev, env, st, work, results, region, header, todo):
        mod = fr.mod
        # phis
        if i == 0:
            ph = []
            while ins[i].op == 'phi':
                for v, lb in ins[i].x:
                    if lb == prev:
                        ph.append((ins[i].res, self.val(st, fr, env, ins[i].ty, v)))
                        break
                else:
                    raise Unsupported('phi')
                i += 1
            for r, v in ph:
                env[r] = v
        n = len(ins)
        while i < n:
            I = ins[i]
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Unsupported('step limit')
            if self.deadline and self.steps % 64 == 0 and time.time() > self.deadline:
                raise Unsupported('time limit')
            self.cur = (fr.f.name, mod.line(I.dbg) if I.dbg is not None else None) if False else (fr.f.name, I.dbg and _ln(mod, I.dbg))
            op = I.op
            try:
                if op == 'br':
                    if len(I.x) == 1:
                        self.goto(fr, I.x[0], b, env, st, work, results, region, header)
                        return
                    c = simp(self.val(st, fr, env, ('i', 1), I.a[0]))
                    k = c if isinstance(c, bool) else self.known(st, c)
                    if k is None:
                        s2 = st.fork()
                        st.assume(c)
                        s2.assume(lnot(c))
                        self.goto(fr, I.x[0], b, env, st, work, results, region, header)
                        self.goto(fr, I.x[1], b, dict(env), s2, work, results, region, header)
                    else:
                        self.goto(fr, I.x[0] if k else I.x[1], b, env, st, work, results, region, header)
                    return
                if op == 'switch':
                    v = self.val(st, fr, env, I.ty, I.a[0])
                    w = I.ty[1]
                    d, cs = I.x
                    rest = st
                    for cv, lb in cs:
                        c = eq(v, cv & mask(w), w)
                        k = c if isinstance(c, bool) else self.known(rest, c)
                        if k is True:
                            self.goto(fr, lb, b, env, rest, work, results, region, header)
                            return
                        if k is False:
                            continue
                        s2 = rest.fork()
                        s2.assume(c)
                        self.goto(fr, lb, b, dict(env), s2, work, results, region, header)
                        rest.assume(lnot(c))
                    self.goto(fr, d, b, env, rest, work, results, region, header)
                    return
                if op == 'ret':
                    rv = self.val(st, fr, env, I.ty, I.a[0]) if I.a else None
                    results.append(('ret', (st, rv, env)))
                    return
                if op == 'unreachable':
                    raise PathEnd()
                if op in ('call', 'invoke'):
                    outs = self.do_call(fr, env, st, I)
                    if outs is None:
                        outs = [(st, None)]
                    if op == 'invoke':
                        for k, (s2, rv) in enumerate(outs):
                            e2 = env if k == len(outs) - 1 else dict(env)
                            if I.res:
                                e2[I.res] = rv
                            self.goto(fr, I.x[2], b, e2, s2, work, results, region, header)
                        return
                    if len(outs) == 1:
                        st = outs[0][0]
                        if I.res:
                            env[I.res] = outs[0][1]
                        i += 1
                        continue
                    for k, (s2, rv) in enumerate(outs):
                        e2 = dict(env)
                        if I.res:
                            e2[I.res] = rv
                        todo.append((i + 1, e2, s2))
                    return
                v = self.simple(fr, env, st, I)
                if I.res:
                    env[I.res] = v
                i += 1
            except NeedSplit as e:
                s2 = st.fork()
                st.assume(e.cond)
                s2.assume(lnot(e.cond))
                todo.append((i, dict(env), s2))
                todo.append((i, env, st))
                return
        raise Unsupported('block without terminator')

    def guard(self, p, cname, field, mutex):
        """code may store to this field only while it holds the mutex"""
        a, b = self.canon(self.fptr(p, cname, field)), self.canon(self.fptr(p, cname, mutex))
        self.guards[(a.obj, a.off)] = (b.obj, b.off)

    def simple(self, fr, env, st, I):
        mod, op = fr.mod, I.op
        V = lambda k, ty=None: self.val(st, fr, env, ty or I.ty, I.a[k])
        if op == 'load':
            return self.load(st, V(0, ('ptr',)), I.ty, mod)
        if op == 'store':
            to = V(1, ('ptr',))
            if self.guards and isinstance(to, Ptr):
                p = self.canon(to)
                m = self.guards.get((p.obj, p.off)) if isinstance(p, Ptr) else None
                if m and m not in st.ghost.get('locks', ()):
                    self.oblige(st, False, 'shared field is written under its lock', 'safety', assume=False)
            self.store(st, to, V(0), I.ty, mod)
            return None
        if op == 'alloca':
            nm = mod.local_name(fr.f, I.res) or I.res
            if I.x is not None and I.x != ('int', 1):
                raise Unsupported('dynamic alloca')
            o = self.new_typed(st, mod, I.ty, '%s@%d' % (nm, self.nextobj))
            o.stack = True
            o.info = ('local', nm, I.res)
            env['#allocas'] = env['#allocas'] + (o.id,)
            return Ptr(o.id, None if o.kind == 'cells' else 0, 0)
        if op == 'getelementptr':
            base = self.val(st, fr, env, ('ptr',), I.a[0][1])
            idx = [(t, self.val(st, fr, env, t, x)) for t, x in I.a[1:]]
            return self.gep(st, mod, I.ty, base, idx)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc'):
            v = self.val(st, fr, env, I.x, I.a[0])
            return self.cast(st, op, v, I.x, I.ty, mod)
        if op == 'icmp':
            return self.icmp(st, I.x, V(0), V(1), I.ty)
        if op == 'fcmp':
            return self.fcmp(I.x, V(0), V(1))
        if op == 'fneg':
            return z3.fpNeg(V(0))
        if op == 'freeze':
            return V(0)
        if op == 'select':
            c = simp(V(0, ('i', 1)))
            a, b = V(1), V(2)
            if isinstance(c, bool):
                return a if c else b
            w = I.ty[1] if I.ty[0] == 'i' else None
            if w is not None and w != 1:
                return itew(c, a, b, w)
            return ite(c, a, b)
        if op == 'extractvalue':
            v = V(0)
            for k in I.x:
                v = v[k]
            return v
        if op == 'insertvalue':
            v = V(0)
            x = self.val(st, fr, env, self.sub_ty(mod, I.ty, I.x), I.a[1])

            def ins(v, path):
                v = list(v)
                v[path[0]] = x if len(path) == 1 else ins(v[path[0]], path[1:])
                return tuple(v)
            return ins(v, I.x)
        if I.op in self._BIN:
            return self.binop(st, op, V(0), V(1), I.ty, I.x)
        raise Unsupported('instruction ' + I.text.strip()[:100])

    _BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
            'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}

    def sub_ty(self, mod, t, path):
        for k in path:
            r = mod.resolve(t)
            t = r[2][k] if r[0] == 'lit' else r[2]
        return mod.resolve(t)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, env, st, I):
        kind, callee, dest = I.x
        if kind == 'asm':
            raise Unsupported('inline assembly')
        if callee[0] == 'glo':
            name = callee[1]
        else:
            f = self.val(st, fr, env, ('ptr',), callee)
            if isinstance(f, PtrIte):
                f = self.pick(st, f)
            if not isinstance(f, FnPtr):
                if is_null(f):
                    self.oblige(st, False, 'call through null', 'safety')
                    raise PathEnd()
                raise Unsupported('call through %r' % (f,))
            name = f.name
        args = [self.val(st, fr, env, t, v) for t, v, at in I.a]
        # byval copies
        for k, (t, v, at) in enumerate(I.a):
            if at and any(str(x).startswith('byval') for x in (at if isinstance(at, (list, tuple, set, dict)) else [at])):
                raise Unsupported('byval argument')
        return self.invoke(fr, st, name, args, I)

    def invoke(self, fr, st, name, args, I=None, depth=None):
        depth = (fr.depth if fr else 0) + 1 if depth is None else depth
        sm = self.summaries.get(name)
        if sm is None:
            r = self.prog.resolve(name)
            if r is not None and r[1].name != name:
                sm = self.summaries.get(r[1].name)
        if sm is not None:
            self.used_summaries.add(name)
            return sm(self, st, args)
        m = self.model_for(name)
        if m is not None:
            self.used_models.add(self.prog.demangle(name).split('(')[0])
            if getattr(m, 'std', False):
                args = Used(args)
            r = m(self, st, args, Call(self, fr, name, I, depth))
            if isinstance(args, Used) and args.unused() and not UNUSED_OK.match(self.prog.demangle(name)):
                raise Unsupported('%s: the model of this function ignores an argument' % self.prog.demangle(name))
            if isinstance(r, list):
                return r
            return [(st, r)]
        r = self.prog.resolve(name)
        if r is None:
            raise Unsupported('external function %s' % self.prog.demangle(name))
        self.inlined.add(self.prog.demangle(name))
        saved = self.cur
        out = self.exec_fn(st, r[0], r[1], args, depth)
        self.cur = saved
        return out

    def model_for(self, name):
        if name in self._mcache:
            return self._mcache[name]
        d = self.prog.demangle(name)
        m = None
        for rx, h in self.models:
            if rx.match(d):
                m = h
                break
        self._mcache[name] = m
        return m

    # ------------------------------------------------------------ merging
    def merge_items(self, fr, b, lst):
        groups = []
        for it in lst:
            for k, g in enumerate(groups):
                m = self.try_merge(fr, b, g, it)
                if m is not None:
                    groups[k] = m
                    break
            else:
                groups.append(it)
        return groups

    def try_merge(self, fr, b, x, y):
        i, prev, env, st = x
        j, prev2, env2, st2 = y
        if i or j or prev in fr.cfg.loops.get(b, ()) != (prev2 in fr.cfg.loops.get(b, ())):
            return None
        ph = {}
        for I in fr.f.blocks[b]:
            if I.op != 'phi':
                break
            ph[I.res] = I
        if ph and prev != prev2:
            # evaluate phis on both sides and merge their values
            v1 = {r: self.val(st, fr, env, I.ty, next(v for v, l in I.x if l == prev)) for r, I in ph.items()}
            v2 = {r: self.val(st2, fr, env2, I.ty, next(v for v, l in I.x if l == prev2)) for r, I in ph.items()}
        else:
            v1 = v2 = {}
        r = self.merge_states(st, st2)
        if r is None:
            return None
        s, c = r
        e = {}
        for k in env:
            if k in env2:
                a, bb = env[k], env2[k]
                if k.startswith('#'):
                    if k == '#allocas':
                        e[k] = a if len(a) >= len(bb) else bb
                    elif k.startswith('#it'):
                        e[k] = max(a, bb)
                    else:
                        e[k] = a
                    continue
                if a is bb:
                    e[k] = a
                else:
                    v = self.merge_val(c, a, bb)
                    if v is not None:
                        e[k] = v
                    elif k in fr.cfg.live(b, None if v1 else prev):
                        return None
        if '#allocas' in env and set(env['#allocas']) != set(env2['#allocas']):
            e['#allocas'] = tuple(sorted(set(env['#allocas']) | set(env2['#allocas'])))
        if v1:
            # represent merged phi values as plain environment entries consumed by a pseudo predecessor
            for r in v1:
                v = self.merge_val(c, v1[r], v2[r])
                if v is None:
                    return None
                e[r] = v
            k = 0
            while fr.f.blocks[b][k].op == 'phi':
                k += 1
            return (k, prev, e, s)
        return (0, prev, e, s)

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)) and type(a) == type(b):
            if a == b:
                return a
            if isinstance(a, bool):
                return simp(z3.If(c, z3.BoolVal(a), z3.BoolVal(b)))
            return None
        try:
            if isinstance(a, (Ptr, FnPtr, Opaque, PtrIte)) or isinstance(b, (Ptr, FnPtr, Opaque, PtrIte)):
                v = ite(c, a, b)
                return None if isinstance(v, PtrIte) else v
            if isinstance(a, PtrInt) or isinstance(b, PtrInt):
                return None
            return ite(c, a, b)
        except Exception:
            return None

    def sel(self, c, a, b, size):
        """value of a size-byte cell that is a if c, else b"""
        c = simp(c)
        if isinstance(c, bool):
            return a if c else b
        if isinstance(a, (Ptr, FnPtr, Opaque, PtrIte)) or isinstance(b, (Ptr, FnPtr, Opaque, PtrIte)):
            return PtrIte(c, a, b)
        if isfp(a) or isfp(b):
            return z3.If(c, a, b)
        return itew(c, a, b, size * 8)

    def class_of(self, st, p):
        """dynamic class name of the object p points to"""
        v = self.raw_load(st, p, 8, True)
        if not isinstance(v, Ptr) or self.objs[v.obj].kind != 'vtable':
            raise Unsupported('dynamic type of %s' % self.objs[p.obj].name)
        n = self.objs[v.obj].name[7:]
        if n.startswith('_ZTV'):
            n = self.prog.demangle(n)[11:]
        return n

    def is_a(self, cname, base):
        for m in self.prog.mods:
            if cname in m._comp:
                try:
                    a = m.ancestors(cname)
                except Exception:
                    continue
                if len(a) > 1 or cname == base:
                    return base in a
        raise Unsupported('bases of ' + cname)

    def merge_states(self, a, b):
        """(merged state, condition under which it is a)"""
        if a.mem.keys() != b.mem.keys():
            # objects local to one side would be lost; only merge when the difference is dead locals
            ka, kb = set(a.mem), set(b.mem)
            for o in ka ^ kb:
                if not self.objs[o].stack:
                    return None
        if a.ghost.keys() != b.ghost.keys():
            return None
        for k in a.ghost:
            if not (a.ghost[k] is b.ghost[k] or (isinstance(a.ghost[k], (int, str, tuple)) and a.ghost[k] == b.ghost[k])):
                return None
        # common prefix of path conditions
        n = 0
        m = min(len(a.pc), len(b.pc))
        while n < m and a.pc[n].get_id() == b.pc[n].get_id():
            n += 1
        bset = {c.get_id() for c in b.pc[n:]}
        aset = {c.get_id() for c in a.pc[n:]}
        common = [c for c in a.pc[n:] if c.get_id() in bset]
        sa = [c for c in a.pc[n:] if c.get_id() not in bset]
        sb = [c for c in b.pc[n:] if c.get_id() not in aset]
        ca, cb = land(*sa), land(*sb)
        if ca is True or cb is True:
            if ca is True and cb is True:
                return None
            c = lnot(cb) if ca is True else ca
            if not self._disjoint(a, b, sa, sb):
                return None
        else:
            c = ca
        s = State()
        s.pc = a.pc[:n]
        s.decided = {}
        for x in s.pc:
            s.decided[x.get_id()] = True
        s.ghost = dict(a.ghost)
        for o in a.mem:
            if o not in b.mem:
                s.mem[o] = a.mem[o]
                continue
            x, y = a.mem[o], b.mem[o]
            if x is y:
                s.mem[o] = x
                continue
            if isinstance(x, str) or isinstance(y, str) or x is None or y is None:
                if isinstance(x, str) and isinstance(y, str) and x == y:
                    s.mem[o] = x
                    continue
                return None
            if isinstance(x, Log):
                if not isinstance(y, Log):
                    return None
                s.mem[o] = Log.merge(c, x, y)
                continue
            if self.objs[o].kind == 'arr':
                if x.get('default') != y.get('default'):
                    return None
                d = {}
                for f in set(x) | set(y):
                    if f == 'n':
                        if x[f] is y[f]:
                            d[f] = x[f]
                        else:
                            d[f] = itew(c, x[f], y[f], 64)
                        continue
                    if not isinstance(f, int):
                        d[f] = x.get(f, y.get(f))
                        continue
                    if f in x and f in y:
                        if x[f] is y[f]:
                            d[f] = x[f]
                            continue
                        try:
                            isptr = isinstance(x[f].read(0), (Ptr, Opaque, PtrIte, FnPtr)) or isinstance(y[f].read(0), (Ptr, Opaque, PtrIte, FnPtr))
                        except Exception:
                            return None
                        d[f] = Log.merge(c, x[f], y[f])
                    else:
                        # untouched on one side: what it was from the start
                        lg = x.get(f) or y.get(f)
                        if not self.merge_untouched or not isinstance(x.get('default'), (int, str)):
                            return None
                        try:
                            isp = isinstance(lg.read(0), (Ptr, Opaque, PtrIte, FnPtr))
                            if isp and x.get('default') != 0:
                                return None
                            d[f] = Log.merge(c, self.arr_log(a, o, f, lg.size, isp), self.arr_log(b, o, f, lg.size, isp))
                        except Exception:
                            return None
                s.mem[o] = d
                continue
            # cells
            d = {}
            if x.get('default') != y.get('default'):
                return None
            for f in set(x) | set(y):
                if not isinstance(f, int):
                    d[f] = x.get(f, y.get(f))
                    continue
                u, v = x.get(f), y.get(f)
                if u is None or v is None:
                    # read lazily on one side only
                    if self.objs[o].stack:
                        df = x.get('default')
                        if isinstance(df, int):
                            sz = (u or v)[0]
                            dv = (sz, self.defval(self.objs[o], f, sz, df))
                            u, v = u or dv, v or dv
                        else:
                            d[f] = u or v    # uninitialised on the other side
                            continue
                    else:
                        sz, w = u or v
                        oth = y if u is not None else x
                        if any(isinstance(g, int) and g < f + sz and f < g + oth[g][0] for g in oth):
                            return None
                        dv = (sz, self.defval(self.objs[o], f, sz, x.get('default', 'uninit'),
                                              isinstance(w, (Ptr, Opaque, PtrIte))))
                        u, v = u or dv, v or dv
                if u[0] != v[0]:
                    return None
                if u[1] is v[1]:
                    d[f] = u
                    continue
                p, q = u[1], v[1]
                if isinstance(p, (Ptr, FnPtr, Opaque, PtrIte)) or isinstance(q, (Ptr, FnPtr, Opaque, PtrIte)):
                    try:
                        r = ite(c, p, q)
                    except Unsupported:
                        return None
                    if isinstance(r, PtrIte):
                        if self.objs[o].stack and self.objs[o].info and isinstance(self.objs[o].info, tuple) and self.objs[o].info[1] not in ('retval',):
                            return None
                        return None
                    d[f] = (u[0], r)
                    continue
                if isinstance(p, PtrInt) or isinstance(q, PtrInt):
                    return None
                if isfp(p) != isfp(q):
                    return None
                if isinstance(p, bool) or isinstance(q, bool):
                    p, q = int(p), int(q)
                d[f] = (u[0], vite(c, p, q, u[0]))
            s.mem[o] = d
        for o in b.mem:
            if o not in a.mem:
                s.mem[o] = b.mem[o]
        s.assume(*common)
        s.assume(lor(ca, cb))
        if a.model is not None:
            ok = True
            s.model = None
        return s, c

    def _disjoint(self, a, b, sa, sb):
        r, _ = self.solver.sat(a.pc + tuple(sb), True, 3000, full=True)
        return r == 'unsat'

    def merge_rets(self, outs):
        groups = []
        for st, rv in outs:
            for k, (s0, r0) in enumerate(groups):
                v_ok = True
                if isinstance(rv, tuple) or isinstance(r0, tuple):
                    continue
                if isinstance(rv, (Ptr, FnPtr, Opaque, PtrIte, PtrInt)) or isinstance(r0, (Ptr, FnPtr, Opaque, PtrIte, PtrInt)):
                    if not (isinstance(rv, Ptr) and isinstance(r0, Ptr) and rv.obj == r0.obj):
                        continue
                if isinstance(rv, int) and isinstance(r0, int) and not isinstance(rv, bool) and rv != r0:
                    continue
                m = self.merge_states(s0, st)
                if m is None:
                    continue
                s, c = m
                v = None if rv is None else self.merge_val(c, r0, rv)
                if rv is not None and v is None:
                    continue
                groups[k] = (s, v)
                break
            else:
                groups.append((st, rv))
        return groups

    # ------------------------------------------------------------ loops
    def find_spec(self, fr, header):
        if not self.loopspecs:
            return []
        d = self.prog.demangle(fr.f.name)
        o = fr.cfg.headers.index(header)
        hit, same = [], []
        for (pat, k), sp in self.loopspecs.items():
            if d == pat or d.split('(')[0] == pat or (pat.endswith('*') and d.startswith(pat[:-1])):
                (hit if k == o or k == '*' else same).append(sp)
        return (hit + same) if hit else []

    def loop_locals(self, fr, header, env):
        """local objects that the loop may modify"""
        body = fr.cfg.loops[header]
        names = set()
        for b in body:
            for I in fr.f.blocks[b]:
                if I.op == 'load':
                    continue
                ops = []
                if I.op == 'store':
                    ops = [I.a[0], I.a[1]]
                elif I.op == 'getelementptr':
                    ops = [x for _, x in I.a]
                elif I.op in ('call', 'invoke'):
                    ops = [v for _, v, _ in I.a]
                elif I.op == 'phi':
                    ops = [v for v, _ in I.x]
                else:
                    ops = [a for a in I.a if isinstance(a, tuple)]
                for v in ops:
                    if v and v[0] == 'loc':
                        names.add(v[1])
        out = []
        for nm in names:
            v = env.get(nm)
            if isinstance(v, Ptr) and v.obj in env['#allocas']:
                out.append(v.obj)
        return sorted(set(out))

    def do_loop(self, fr, header, prev, env, st, spec):
        """cut the loop with an iteration-indexed contract"""
        L = Loop(self, fr, header, prev, env, st, spec)
        return L.go()

    # ------------------------------------------------------------ comparing memories
    def same_val(self, st, a, b, size, M):
        """condition that two cell values are equal (objects of b matched to objects of a through M)"""
        if a is b:
            return True
        if hasattr(a, 'parts') or hasattr(b, 'parts'):
            # strings: the same pieces
            if not (hasattr(a, 'parts') and hasattr(b, 'parts')) or len(a.parts) != len(b.parts):
                return False
            r = True
            for x, y in zip(a.parts, b.parts):
                if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == 'num' and x[1] == y[1]:
                    w = 64 if 'long' in x[1] else 32
                    r = land(r, eq(x[2], y[2], w))
                elif not (x is y or x == y):
                    return False
            return r
        if isinstance(a, PtrIte):
            return land(implies(a.c, self.same_val(st, a.a, b, size, M)), implies(lnot(a.c), self.same_val(st, a.b, b, size, M)))
        if isinstance(b, PtrIte):
            return land(implies(b.c, self.same_val(st, a, b.a, size, M)), implies(lnot(b.c), self.same_val(st, a, b.b, size, M)))
        if isinstance(a, int) and a == 0 and isinstance(b, (Ptr, FnPtr, Opaque)):
            a = NULL
        if isinstance(b, int) and b == 0 and isinstance(a, (Ptr, FnPtr, Opaque)):
            b = NULL
        if isinstance(a, PtrInt):
            a = a.p
        if isinstance(b, PtrInt):
            b = b.p
        if isinstance(a, (Ptr, FnPtr, Opaque)) or isinstance(b, (Ptr, FnPtr, Opaque)):
            if type(a) != type(b):
                return False
            if isinstance(a, FnPtr):
                return a.name == b.name
            if isinstance(a, Opaque):
                return a.name == b.name
            a, b = self.canon(a), self.canon(b)
            if a.obj != b.obj:
                if M is not None:
                    return M.match(a, b)
                return False
            if a.off != b.off:
                return False
            if a.idx is None or b.idx is None:
                return a.idx is None and b.idx is None
            return eq(a.idx, b.idx, 64)
        if isfp(a) or isfp(b):
            if isfp(a) and isfp(b):
                if a.sort() == b.sort():
                    return norm(z3.simplify(a == b))
            x = z3.fpToIEEEBV(a) if isfp(a) else bv(a, size * 8)
            y = z3.fpToIEEEBV(b) if isfp(b) else bv(b, size * 8)
            return simp(x == y)
        if isbool(a) or isbool(b):
            a, b = zext(a, 1, size * 8) if isbool(a) else a, zext(b, 1, size * 8) if isbool(b) else b
        if isinstance(a, z3.BitVecRef) and a.size() != size * 8:
            a = zext(a, a.size(), size * 8)
        if isinstance(b, z3.BitVecRef) and b.size() != size * 8:
            b = zext(b, b.size(), size * 8)
        return eq(a, b, size * 8)


def _ln(mod, dbg):
    c = mod._gcache.get(('ln', dbg))
    if c is None:
        c = mod.line(dbg)
        mod._gcache[('ln', dbg)] = c
    return c


def _bytes_fn(bs):
    def f(i):
        if isinstance(i, int):
            return bs[i] if i < len(bs) else 0
        r = z3.BitVecVal(0, 8)
        for k in range(len(bs) - 1, -1, -1):
            r = z3.If(i == k, z3.BitVecVal(bs[k], 8), r)
        return r
    return f


def fpconst(kind, txt):
    import struct
    s = z3.Float32() if kind == 'float' else z3.Float64()
    if txt.startswith('0x'):
        d = struct.unpack('>d', bytes.fromhex(txt[2:].rjust(16, '0')))[0]
    else:
        d = float(txt)
    return z3.FPVal(d, s)


UNUSED_OK = re.compile(r'llvm\.|utils::\w+Msg\(|__dynamic_cast$|std::__cxx11::basic_string<.*>::~?basic_string\((char const\*, std::allocator<char> const&)?\)$|'
                       r'std::(__new_)?allocator|__gnu_cxx::|(pthread_|operator delete|std::(basic_)?(o|i|io)stream|std::basic_ostream)')


class Used(list):
    """arguments of a modelled library function: remembers which of them the model looked at"""
    def __init__(self, xs):
        list.__init__(self, xs)
        self.seen = set()

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.seen.update(range(*i.indices(len(self))))
        else:
            self.seen.add(i if i >= 0 else i + len(self))
        return list.__getitem__(self, i)

    def __iter__(self):
        self.seen.update(range(len(self)))
        return list.__iter__(self)

    def unused(self):
        return set(range(len(self))) - self.seen


class Call:
    def __init__(self, ex, fr, name, I, depth):
        self.ex, self.fr, self.name, self.I, self.depth = ex, fr, name, I, depth

    @property
    def mod(self):
        return self.fr.mod if self.fr else self.ex.prog.mods[0]


class Match:
    """bijection between newly allocated objects of two final states"""
    def __init__(self, ex):
        self.ex = ex
        self.m = {}
        self.queue = []

    def match(self, a, b):
        if self.m.get(a.obj) is None and b.obj not in self.m.values() and a.obj and b.obj:
            if not (self.ex.objs[a.obj].pre or self.ex.objs[b.obj].pre):
                self.m[a.obj] = b.obj
                self.queue.append((a.obj, b.obj))
        if self.m.get(a.obj) == b.obj and a.off == b.off:
            if a.idx is None or b.idx is None:
                return a.idx is None and b.idx is None
            return eq(a.idx, b.idx, 64)
        return False


class Loop:
    """Iteration-indexed loop contract.

    The specification function spec(L, S, k) turns a copy S of the state at loop entry into the state before iteration
    k (in place) and returns a list of invariants [(name, condition)].  Induction variables among the locals are inferred
    (and the inference is proved); other modified locals are matched against the candidate expressions L.cand(...) offered
    by the specification, or forgotten."""
    def __init__(self, ex, fr, header, prev, env, st, spec):
        self.ex, self.fr, self.header, self.prev, self.env, self.st, self.spec = ex, fr, header, prev, env, st, spec
        self.region = fr.cfg.loops[header]
        self.mod = fr.mod

    # ---- helpers for specifications
    def local(self, name, st=None):
        """value at loop entry of the local or parameter with this source name"""
        o = self.local_obj(name)
        st = st or self.st
        c = st.mem[o]
        v = c.get(0)
        if v is None:
            return None
        return v[1]

    def local_obj(self, name):
        for oid in self.env['#allocas']:
            ob = self.ex.objs[oid]
            if isinstance(ob.info, tuple) and ob.info[0] == 'local' and ob.info[1] == name and oid in self.st.mem:
                return oid
        raise Structural('no local %s in %s' % (name, self.fr.f.name))

    def arg(self, i):
        return self.env[self.fr.f.params[i][1]]

    def this(self):
        return self.local('this')

    def cand(self, fn, size, tag=''):
        """fn(k): candidate value of some modified local of `size` bytes before iteration k"""
        self.cands.append((fn, size, tag))

    def state(self, k, binds):
        S = self.st.fork()
        self.cands = []
        invs = self.spec(self, S, k)
        return S, (invs or [])

    def go(self):
        ex = self.ex
        fr = self.fr
        oblines = ex.cur
        ml = ex.loop_locals(fr, self.header, self.env)
        cellsof = []
        for oid in ml:
            o = ex.objs[oid]
            c = self.st.mem.get(oid)
            if o.kind == 'cells' and isinstance(c, dict):
                for f, v in c.items():
                    if isinstance(f, int):
                        cellsof.append((oid, f, v[0], v[1]))
        k = ex.fresh('k', 64)
        # ---- dry run with forgotten locals
        cls = {}
        for rnd in range(2):
            S, invs = self.state(k, None)
            self.forget(S, ml, cellsof, cls if rnd else None, k)
            S.assume(*[c for _, c in invs])
            ex.dry += 1
            try:
                res = self.body(S)
            finally:
                ex.dry -= 1
            back = [x[1] for x in res if x[0] == 'back']
            new = {}
            for oid, f, sz, v0 in cellsof:
                new[(oid, f)] = self.classify(back, oid, f, sz, v0, rnd, cls.get((oid, f)))
            if rnd == 0:
                cls = new
            else:
                for key in cls:
                    if cls[key][0] == 'other' and new[key][0] == 'same':
                        pass
        # ---- candidates for the others
        others = [key for key in cls if cls[key][0] == 'other']
        binding = {}
        if others and self.cands:
            szs = {(o, f): (sz, v0) for o, f, sz, v0 in cellsof}
            for key in others:
                sz, v0 = szs[key]
                for fn, csz, tag in self.cands:
                    if csz != sz:
                        continue
                    c0 = ex.same_val(self.st, v0, fn(0), sz, None)
                    if ex.prove(self.st, c0):
                        binding.setdefault(key, []).append((fn, tag))
            for key, l in binding.items():
                l.sort(key=lambda x, n=ex.objs[key[0]].name.split('@')[0].split('!')[0]: bool(x[1]) and x[1] != n)
            # drop candidates that are not preserved (Houdini)
            full = {key: list(l) for key, l in binding.items()}
            changed = True
            while changed and binding:
                changed = False
                S, invs = self.state(k, None)
                self.forget(S, ml, cellsof, cls, k, binding)
                S.assume(*[c for _, c in invs])
                ex.dry += 1
                try:
                    res = self.body(S)
                finally:
                    ex.dry -= 1
                for r in res:
                    if r[0] != 'back':
                        continue
                    frm, e2, s2 = r[1]
                    for key in list(binding):
                        sz = szs[key][0]
                        cell = s2.mem.get(key[0], {}).get(key[1])
                        fn, tag = binding[key][0]
                        ok = cell is not None and cell[0] == sz and \
                            ex.prove(s2, ex.same_val(s2, cell[1], fn(add(k, 1)), sz, None))
                        if not ok:
                            binding[key].pop(0)
                            if not binding[key]:
                                del binding[key]
                            changed = True
                    if changed:
                        break
        # ---- base
        S0, invs0 = self.state(0, None)
        nm = 'loop %s' % getattr(self.spec, '__name__', 'contract')
        for n, c in invs0:
            ex.oblige(self.st, c, '%s: %s holds on entry' % (nm, n), 'loop', assume=False)
        self.compare(self.st, self.st, S0, nm + ': entry', set(ml))
        # ---- step
        S, invs = self.state(k, None)
        self.forget(S, ml, cellsof, cls, k, binding)
        S.assume(*[c for _, c in invs])
        if not ex.dry and ex.infeasible(S):
            raise Structural('loop contract of %s is contradictory' % ex.prog.demangle(fr.f.name))
        res = self.body(S)
        out = []
        k1 = add(k, 1)
        szs = {(o, f): (sz, v0) for o, f, sz, v0 in cellsof}
        for r in res:
            if r[0] == 'back':
                frm, e2, s2 = r[1]
                ex.cur = oblines
                S1, invs1 = self.state(k1, None)
                for n, c in invs1:
                    ex.oblige(s2, c, '%s: %s preserved' % (nm, n), 'loop')
                for key, cl in cls.items():
                    want = self.value_at(cl, key, szs[key], k1, binding)
                    if want is None:
                        continue
                    cell = s2.mem[key[0]].get(key[1])
                    if cell is None:
                        continue
                    ex.oblige(s2, ex.same_val(s2, cell[1], want, szs[key][0], None),
                              '%s: local %s advances' % (nm, ex.objs[key[0]].name.split('@')[0]), 'loop', assume=False)
                self.compare(s2, s2, S1, nm + ': step', set(ml))
            else:
                if self.leave is not None:
                    # the contract may state what was reached in other terms; it proves that they are the same
                    self.leave(r, k)
                out.append(r)
        return out

    leave = None

    def value_at(self, cl, key, szv, k, binding):
        sz, v0 = szv
        if cl[0] == 'same':
            return v0
        if cl[0] == 'ind':
            c = cl[1]
            if isinstance(v0, Ptr):
                return Ptr(v0.obj, add(v0.idx, mul(k, c)), v0.off)
            kk = trunc(k, 64, sz * 8)
            return add(v0, mul(kk, c & mask(sz * 8), sz * 8), sz * 8)
        if key in binding:
            return binding[key][0][0](k)
        return None

    def forget(self, S, ml, cellsof, cls, k, binding={}):
        ex = self.ex
        self.syms = {}
        for oid in ml:
            o = ex.objs[oid]
            if o.kind == 'bytes':
                S.mem[oid] = Log.uf('loc!%s!%d' % (o.name, ex.nfresh), 1)
                ex.nfresh += 1
            elif o.kind == 'arr':
                ex.nfresh += 1
                S.mem[oid] = {'n': S.mem[oid]['n'], 'default': 'sym'}
            for off, ln, rid in o.regions:
                r = ex.objs[rid]
                if rid in S.mem and self.spec_touch(rid) is False:
                    pass
        for oid, f, sz, v0 in cellsof:
            cl = cls.get((oid, f)) if cls else None
            if cl is not None:
                v = self.value_at(cl, (oid, f), (sz, v0), k, binding)
                if v is not None:
                    S.cells(oid)[f] = (sz, v)
                    continue
            if isinstance(v0, Ptr):
                if v0.idx is None and v0.obj and ex.objs[v0.obj].kind in ('bytes', 'arr'):
                    v0 = ex.canon(v0)
                if v0.idx is None:
                    if cl is not None:
                        # other object each iteration: unknown before it is set again
                        S.cells(oid).pop(f, None)
                    continue
                v = Ptr(v0.obj, ex.fresh('loc', 64), v0.off)
            elif isinstance(v0, (FnPtr, Opaque, PtrIte)):
                continue
            elif isfp(v0):
                ex.nfresh += 1
                v = z3.FP('locf!%d' % ex.nfresh, v0.sort())
            else:
                v = ex.fresh('loc', sz * 8)
                if sz == 1:
                    # booleans stay booleans
                    pass
            self.syms[(oid, f)] = v
            S.cells(oid)[f] = (sz, v)

    def spec_touch(self, rid):
        return None

    def classify(self, back, oid, f, sz, v0, rnd, old):
        ex = self.ex
        cl = None
        if rnd == 1:
            return old
        sym = self.syms.get((oid, f))
        for frm, e2, s2 in back:
            c = s2.mem.get(oid)
            if not isinstance(c, dict) or f not in c:
                return ('other',)
            v = c[f][1]
            base = sym if sym is not None else v0
            if v is base:
                x = ('same',)
            elif isinstance(v, Ptr) and isinstance(base, Ptr) and v.obj == base.obj and v.off == base.off:
                if v.idx is None:
                    x = ('same',) if base.idx is None else ('other',)
                else:
                    d = sub(v.idx, base.idx) if base.idx is not None else None
                    x = ('ind', sgn(d, 64) & mask(64)) if isinstance(d, int) and d else ('same',) if d == 0 and isinstance(d, int) else ('other',)
            elif isint(v) and isint(base) and not isbool(v):
                try:
                    d = sub(v, base, sz * 8)
                except Exception:
                    d = None
                x = ('same',) if isinstance(d, int) and d == 0 else ('ind', d) if isinstance(d, int) else ('other',)
            elif isfp(v) and isfp(base) and v.eq(base):
                x = ('same',)
            elif isinstance(v, (FnPtr, Opaque)) and v == base if isinstance(v, Opaque) else False:
                x = ('same',)
            else:
                x = ('other',)
            if cl is None:
                cl = x
            elif cl != x:
                return ('other',)
        return cl or ('same',)

    def body(self, S):
        env = dict(self.env)
        return self.ex.run(self.fr, [(self.header, 0, self.prev, env, S)], self.region, self.header)

    def compare(self, st, a, b, nm, skip):
        """oblige memory of a (a state reached) to equal memory of b (prescribed by the contract)"""
        ex = self.ex
        for oid in b.mem:
            if oid in skip or oid not in a.mem:
                continue
            o = ex.objs[oid]
            if o.parent and o.parent[0] in skip:
                continue
            compare_obj(ex, st, a, b, oid, oid, nm, None)
        for oid in a.mem:
            if oid not in b.mem and not ex.objs[oid].stack and not ex.objs[oid].name.startswith('g:') \
                    and isinstance(a.mem[oid], (dict, Log)):
                raise Structural('allocation inside a loop under contract')


def pieces(y):
    """the stretches of known length a content is made of, if they are many"""
    r, seen = [], 0
    while y.k in ('st', 'stn', 'fill'):
        d, n = y.x[0], 1 if y.k == 'st' else y.x[1]
        if isinstance(n, int) and n <= 4096:
            r.append((d, n))
            seen += n
        y = y.prev
    return r if seen >= 64 else []


def compare_obj(ex, st, a, b, ao, bo, nm, M, new=False):
    x, y = a.mem.get(ao), b.mem.get(bo)
    o, o2 = ex.objs[ao], ex.objs[bo]
    if x is y:
        return
    if isinstance(y, str) and y == ANY:
        return
    if isinstance(x, str) or isinstance(y, str):
        ok = isinstance(x, str) and isinstance(y, str) and x == y
        ex.oblige(st, ok, '%s: %s released exactly as specified' % (nm, o.name), 'post')
        return
    if x is None or y is None:
        return
    dc = b.ghost.get('dc', {}).get(bo)
    if isinstance(x, dict) and o2.kind == 'bytes':
        x = ex.obj_content(a, ao)
    if isinstance(y, dict) and o.kind == 'bytes':
        y = ex.obj_content(b, bo)
    if isinstance(x, Log):
        if not isinstance(y, Log):
            raise Unsupported('comparison of different kinds')
        i = ex.fresh('i', 64)
        g = ult(i, o.size, 64)
        if dc is not None:
            g = land(g, lnot(dc(i)))
        if new:
            ex.oblige(st, eq(o.size, o2.size, 64), '%s: size of %s' % (nm, o.name), 'post', assume=False)
        s = st.fork()
        s.assume(g)
        what = '%s: contents of %s' % (nm, o.name)
        c = eq(x.read(i), y.read(i), 8)
        ps = pieces(y) if c is not True and not ex.dry else []
        if ps and not isinstance(c, bool) and ex.solver.sat(s.pc, lnot(c), 3000)[0] != 'unsat':
            for d, n in ps:
                # a long run of stores: byte by byte, then the rest
                same = []
                for q in range(n):
                    j = add(d, q)
                    e = eq(x.read(j), y.read(j), 8)
                    if e is True:
                        continue
                    h = ult(j, o.size, 64)
                    if dc is not None:
                        h = land(h, lnot(dc(j)))
                    same.append(implies(h, e))
                if same:
                    ex.oblige(st, land(*same), what, 'post', assume=False)
                s.assume(lnot(ult(sub(i, d), n, 64)))
        ex.oblige(s, c, what, 'post', assume=False)
        return
    if o.kind == 'arr':
        if isinstance(o.info, tuple) and o.info[0] == 'enum':
            return
        i = ex.fresh('i', 64)
        s = st.fork()
        n1, n2 = x['n'], y['n']
        ex.oblige(s, eq(n1, n2, 64), '%s: length of %s' % (nm, o.name), 'post')
        if isinstance(o.info, tuple) and o.info[0] == 'map':
            fl = o.info[1]
            ex.oblige(s, eq(x[fl].read(i), y[fl].read(i), 8), '%s: keys of %s' % (nm, o.name), 'post')
            s.assume(ne(y[fl].read(i), 0, 8))
        else:
            s.assume(ult(i, n2, 64))
        if dc is not None:
            s.assume(lnot(dc(i)))
        for f in sorted(set(f for f in list(x) + list(y) if isinstance(f, int))):
            if x.get(f) is y.get(f):
                continue
            if new and f not in y:
                continue
            fs = (y.get(f) or x.get(f)).size
            lx, ly = x.get(f), y.get(f)
            isp = isinstance((ly or lx).read(i), (Ptr, Opaque, PtrIte, FnPtr))
            lx = lx or ex.arr_log(a, ao, f, fs, isp)
            ly = ly or ex.arr_log(b, bo, f, fs, isp)
            by_element(ex, s, i, ex.same_val(s, lx.read(i), ly.read(i), fs, M), '%s: elements of %s (+%d)' % (nm, o.name, f))
        return
    keys = set(f for f in list(x) + list(y) if isinstance(f, int))
    if new and o2.info == 'need' and isinstance(o.size, int):
        ex.oblige(st, o.size >= o2.size, '%s: size of %s' % (nm, o.name), 'post', assume=False)
    for f in sorted(keys):
        u, v = x.get(f), y.get(f)
        if u is v:
            continue
        if new and v is None:
            continue
        if v is not None and isinstance(v[1], str) and v[1] == ANY:
            continue
        if dc is not None and dc(f):
            continue
        sz = (v or u)[0]
        isp = isinstance((v or u)[1], (Ptr, Opaque, PtrIte, FnPtr))
        if u is None or u[0] != sz:
            u = (sz, ex.raw_load(a, Ptr(ao, None, f), sz, isp))
        if v is None or v[0] != sz:
            v = (sz, ex.raw_load(b, Ptr(bo, None, f), sz, isp))
        ex.oblige(st, ex.same_val(st, u[1], v[1], sz, M), '%s: %s%s' % (nm, o.name, ex_field(ex, o, f)), 'post', assume=False)


def by_element(ex, s, i, c, what):
    """c for every i; where products are involved, the elements that were named are looked at one by one"""
    ts, prod, seen, todo = [], False, set(), [c] if isinstance(c, z3.ExprRef) and not ex.dry else []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_BMUL and sum(not z3.is_bv_value(a) for a in x.children()) > 1:
            prod = True
        if z3.is_eq(x):
            for a, b in (x.children(), x.children()[::-1]):
                if a.eq(i) and not any(t.eq(b) for t in ts):
                    ts.append(b)
        todo += x.children()
    if not prod or not 0 < len(ts) <= 3:
        return ex.oblige(s, c, what, 'post', assume=False)
    for t in ts:
        u = s.fork()
        u.assume(i == t)
        ex.oblige(u, z3.substitute(c, (i, bv(t, 64))), what + ', named element', 'post', assume=False)
    s = s.fork()
    s.assume(*[i != t for t in ts])
    for t in ts:
        c = z3.substitute(c, (i == t, z3.BoolVal(False)), (t == i, z3.BoolVal(False)))
    ex.oblige(s, c, what, 'post', assume=False)


def ex_field(ex, o, off):
    if o.info and isinstance(o.info, str) and o.info.startswith('class:'):
        try:
            fl = ex.prog.fields(o.info[6:])
            for n, (fo, fs, t, b) in fl.items():
                if fo <= off < fo + max(fs, 1):
                    return '.' + n + ('' if fo == off else '+%d' % (off - fo))
        except Exception:
            pass
    return '+%d' % off
