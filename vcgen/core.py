"""Values, symbolic memory contents and the solver interface of the verification-condition generator."""
import os, subprocess, tempfile, time, z3

z3.set_param('memory_max_size', 6000)


class Unsupported(Exception):
    """The code uses something outside the reach of the generator (never a verdict)."""


class NeedSplit(Exception):
    """The current instruction has to be executed once under cond and once under its negation."""
    def __init__(self, cond):
        self.cond = cond


# ------------------------------------------------------------------ values
class Ptr:
    __slots__ = ('obj', 'idx', 'off')

    def __init__(self, obj, idx=None, off=0):
        self.obj, self.idx, self.off = obj, idx, off

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.obj, self.idx, self.off)


NULL = Ptr(0, None, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


class PtrIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class PtrInt:
    """integer made from a pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Opaque:
    """a token value (never dereferenced); equal only to itself"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Opaque(%s)' % self.name

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


def is_null(p):
    return isinstance(p, Ptr) and p.obj == 0


def isint(v):
    return isinstance(v, int) or isinstance(v, z3.BitVecRef)


def isbool(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def isfp(v):
    return isinstance(v, z3.FPRef)


def bv(v, w):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if v.size() != w:
        raise Unsupported('width mismatch %d/%d' % (v.size(), w))
    return v


def norm(v):
    """z3 numeral -> Python int, z3 true/false -> bool"""
    if isinstance(v, z3.BitVecNumRef):
        return v.as_long()
    if isinstance(v, z3.BoolRef):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v


_size = {}


def esize(e):
    i = e.get_id()
    r = _size.get(i)
    if r is not None:
        return r[0]
    # iterative
    stack = [e]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _size:
            stack.pop()
            continue
        ch = x.children() if z3.is_app(x) else []
        todo = [c for c in ch if c.get_id() not in _size]
        if todo:
            stack.extend(todo)
            continue
        s = 1
        for c in ch:
            s += _size[c.get_id()][0]
        _size[xi] = (min(s, 1 << 30), x)
        stack.pop()
    return _size[i][0]


def simp(v):
    if isinstance(v, (int, bool)):
        return v
    if isinstance(v, (z3.BitVecRef, z3.BoolRef)):
        if esize(v) > 600:
            return norm(v)
        return norm(z3.simplify(v))
    return v


def land(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = land(*c)
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def lor(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = lor(*c)
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def lnot(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return norm(z3.Not(c))


def implies(a, b):
    return lor(lnot(a), b)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


# word-level helpers used by contracts; arguments are ints or BVs, w is the width
def add(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    return simp(bv(a, w) - bv(b, w))


def mul(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return simp(bv(a, w) * bv(b, w))


def udiv(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int) and b:
        return a // b
    return simp(z3.UDiv(bv(a, w), bv(b, w)))


def urem(a, b, w=64):
    if isinstance(a, int) and isinstance(b, int) and b:
        return a % b
    return simp(z3.URem(bv(a, w), bv(b, w)))


def eq(a, b, w=None):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if isbool(a) and isbool(b):
        return simp(zb(a) == zb(b))
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        w = 8
    if w is None:
        w = a.size() if isinstance(a, z3.BitVecRef) else b.size()
    return simp(bv(a, w) == bv(b, w))


def ne(a, b, w=None):
    return lnot(eq(a, b, w))


def _w(a, b, w):
    if w is not None:
        return w
    return a.size() if isinstance(a, z3.BitVecRef) else b.size() if isinstance(b, z3.BitVecRef) else 64


def ult(a, b, w=None):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    w = _w(a, b, w)
    if isinstance(b, int) and b == 0:
        return False
    return simp(z3.ULT(bv(a, w), bv(b, w)))


def ule(a, b, w=None):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    if isinstance(a, int) and a == 0:
        return True
    w = _w(a, b, w)
    return simp(z3.ULE(bv(a, w), bv(b, w)))


def ugt(a, b, w=None):
    return ult(b, a, w)


def uge(a, b, w=None):
    return ule(b, a, w)


def slt(a, b, w=None):
    w = _w(a, b, w)
    if isinstance(a, int) and isinstance(b, int):
        return sgn(a, w) < sgn(b, w)
    return simp(bv(a, w) < bv(b, w))


def sle(a, b, w=None):
    w = _w(a, b, w)
    if isinstance(a, int) and isinstance(b, int):
        return sgn(a, w) <= sgn(b, w)
    return simp(bv(a, w) <= bv(b, w))


def zext(v, frm, to):
    if frm == to:
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, to), z3.BitVecVal(0, to))
    return simp(z3.ZeroExt(to - frm, v))


def sext(v, frm, to):
    if frm == to:
        return v
    if isbool(v):
        if isinstance(v, bool):
            return mask(to) if v else 0
        return z3.If(v, z3.BitVecVal(mask(to), to), z3.BitVecVal(0, to))
    if isinstance(v, int):
        return sgn(v, frm) & mask(to)
    return simp(z3.SignExt(to - frm, v))


def trunc(v, frm, to):
    if frm == to:
        return v
    if isinstance(v, (int, bool)):
        return int(v) & mask(to)
    if isinstance(v, z3.BoolRef):
        return bv(v, to)
    k = v.decl().kind() if z3.is_app(v) else None
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BSUB):
        ch = [trunc(norm(c), frm, to) for c in v.children()]
        r = ch[0]
        for c in ch[1:]:
            x, y = bv(r, to), bv(c, to)
            r = {z3.Z3_OP_BADD: lambda: x + y, z3.Z3_OP_BMUL: lambda: x * y, z3.Z3_OP_BAND: lambda: x & y,
                 z3.Z3_OP_BOR: lambda: x | y, z3.Z3_OP_BXOR: lambda: x ^ y, z3.Z3_OP_BSUB: lambda: x - y}[k]()
        return simp(r)
    if k == z3.Z3_OP_ITE:
        c, a, b = v.children()
        return simp(z3.If(c, bv(trunc(norm(a), frm, to), to), bv(trunc(norm(b), frm, to), to)))
    return simp(z3.Extract(to - 1, 0, v))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (Ptr, PtrIte, FnPtr, Opaque)) or isinstance(b, (Ptr, PtrIte, FnPtr, Opaque)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off == b.off:
            if a.idx is None or b.idx is None:
                if a.idx is None and b.idx is None:
                    return a
            else:
                return Ptr(a.obj, ite(c, a.idx, b.idx) if not (isinstance(a.idx, int) and isinstance(b.idx, int)) else
                           (a.idx if a.idx == b.idx else norm(z3.If(c, bv(a.idx, 64), bv(b.idx, 64)))), a.off)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        if isinstance(a, Opaque) and a == b:
            return a
        return PtrIte(c, a, b)
    if isbool(a) and isbool(b):
        return simp(z3.If(c, zb(a), zb(b)))
    if isfp(a) or isfp(b):
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        raise Unsupported('ite of untyped ints')
    if isinstance(a, PtrInt) or isinstance(b, PtrInt):
        raise Unsupported('merge of pointer integers')
    if isinstance(a, (tuple, list)):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    w = a.size() if isinstance(a, z3.BitVecRef) else b.size()
    x, y = bv(a, w), bv(b, w)
    if x.eq(y):
        return a
    return norm(z3.If(c, x, y))


def itew(c, a, b, w=32):
    """ite on words of width w"""
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
        return z3.If(c, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
    return ite(c, a, b)


def umin(a, b, w=64):
    return itew(ule(a, b, w), a, b, w)


def umax(a, b, w=64):
    return itew(ule(a, b, w), b, a, w)


def vite(c, a, b, size=None):
    """ite with a byte size for integer literals"""
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        return z3.If(c, z3.BitVecVal(a, size * 8), z3.BitVecVal(b, size * 8))
    if isfp(a) != isfp(b) and size in (4, 8):
        f = lambda v: v if isfp(v) else z3.simplify(z3.fpBVToFP(bv(v, 8 * size), z3.Float32() if size == 4 else z3.Float64()))
        a, b = f(a), f(b)
    return ite(c, a, b)


# ------------------------------------------------------------------ functional contents
class Log:
    """Immutable map from a 64-bit index to a value, as a chain of updates."""
    __slots__ = ('k', 'prev', 'x', 'memo', 'size')

    def __init__(self, k, prev, x, size):
        self.k, self.prev, self.x, self.size = k, prev, x, size
        self.memo = {}

    # constructors
    @staticmethod
    def base(fn, size):
        return Log('fn', None, fn, size)

    @staticmethod
    def const(v, size):
        return Log('fn', None, lambda i: v, size)

    @staticmethod
    def uf(name, size):
        f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8 * size))
        return Log('fn', None, lambda i: f(bv(i, 64)), size)

    def store(self, i, v):
        return Log('st', self, (i, v), self.size)

    def storen(self, i, n, v):
        """n-byte little-endian store in a byte log"""
        return Log('stn', self, (i, n, v), self.size)

    def fill(self, d, n, fn):
        """[d, d+n) becomes fn(offset from d)"""
        if isinstance(n, int) and n == 0:
            return self
        return Log('fill', self, (d, n, fn), self.size)

    def copy(self, d, n, src, s):
        if isinstance(n, int) and n == 0:
            return self
        return Log('fill', self, (d, n, lambda o: src.read(add(s, o))), self.size)

    @staticmethod
    def merge(c, a, b):
        if a is b:
            return a
        return Log('ite', None, (c, a, b), a.size)

    def read(self, i):
        if not isinstance(i, int):
            i = simp(i)
        key = i if isinstance(i, int) else ('e', i.get_id())
        r = self.memo.get(key)
        if r is not None:
            return r[0]
        # walk down without recursion over long chains
        stack = []
        n = self
        res = None
        while True:
            m = n.memo.get(key)
            if m is not None:
                res = m[0]
                break
            if n.k == 'fn':
                res = norm(n.x(i)) if True else None
                break
            if n.k == 'ite':
                c, a, b = n.x
                res = vite(c, a.read(i), b.read(i), self.size)
                break
            if n.k == 'st':
                j, v = n.x
                c = eq(i, j, 64)
                if c is True:
                    res = v
                    break
                if c is not False:
                    stack.append((c, v))
                n = n.prev
                continue
            if n.k == 'stn':
                j, sz, v = n.x
                d = sub(i, j)
                if isinstance(d, int):
                    if d < sz:
                        res = byte_of(v, sz, d)
                        break
                else:
                    for b in range(sz):
                        c = eq(d, b, 64)
                        if c is not False:
                            stack.append((c, byte_of(v, sz, b)))
                n = n.prev
                continue
            if n.k == 'fill':
                j, ln, fn = n.x
                d = sub(i, j)
                c = ult(d, ln, 64)
                if c is True:
                    res = fn(d)
                    break
                if c is not False:
                    stack.append((c, fn(d)))
                n = n.prev
                continue
            raise AssertionError(n.k)
        for c, v in reversed(stack):
            res = vite(c, v, res, self.size)
        self.memo[key] = (res, i)
        return res

    def readn(self, i, n):
        """n bytes, little endian, of a byte log"""
        if n == 1:
            return self.read(i)
        m = self
        while True:
            if m.k == 'stn':
                j, sz, v = m.x
                d = sub(i, j)
                if isinstance(d, int):
                    if d == 0 and sz == n:
                        return v
                    sd = sgn(d, 64)
                    if sd >= sz or sd <= -n:
                        m = m.prev
                        continue
            break
        bs = [self.read(add(i, k)) for k in range(n)]
        return from_bytes(bs)


def byte_of(v, size, k):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return (v >> (8 * k)) & 255
    if isinstance(v, z3.BoolRef):
        return bv(v, 8) if k == 0 else 0
    if isfp(v):
        v = z3.fpToIEEEBV(v)
    if isinstance(v, z3.BitVecRef):
        if v.size() < size * 8:
            v = z3.ZeroExt(size * 8 - v.size(), v)
        return simp(z3.Extract(8 * k + 7, 8 * k, v))
    raise Unsupported('byte of %r' % (v,))


def from_bytes(bs):
    if all(isinstance(b, int) for b in bs):
        r = 0
        for k, b in enumerate(bs):
            r |= b << (8 * k)
        return r
    if len(bs) == 1:
        return bv(bs[0], 8)
    return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))


def bswap(v, n):
    return from_bytes(list(reversed([byte_of(v, n, k) for k in range(n)])))


def be_bytes(v, n):
    """big-endian byte list of an n-byte word"""
    return [byte_of(v, n, n - 1 - k) for k in range(n)]


# ------------------------------------------------------------------ solver
UREMS = (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I)
UDIVS = (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I)
HARD = UREMS + UDIVS + (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I, z3.Z3_OP_BSMOD, z3.Z3_OP_BSMOD_I)
_vars = {}


def vars_of(e):
    """set of ids of uninterpreted symbols"""
    i = e.get_id()
    r = _vars.get(i)
    if r is not None:
        return r[0]
    stack = [e]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _vars:
            stack.pop()
            continue
        if z3.is_quantifier(x):
            ch = [x.body()]
        else:
            ch = x.children()
        todo = [c for c in ch if c.get_id() not in _vars]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            s = frozenset((x.decl().name(),))
        for c in ch:
            t = _vars[c.get_id()][0]
            if not t <= s:
                s = s | t
        _vars[xi] = (s, x)
        stack.pop()
    return _vars[i][0]





class Solver:
    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.queries = 0
        self.time = 0.0
        self.cache = {}
        self.maybe = {}
        self.by = {}
        self.facts = []     # (definition, its variables): instances of definitions, true in every state
        self.factids = set()

    def fact(self, *cs):
        for c in cs:
            c = simp(c)
            if c is True or (not isinstance(c, bool) and c.get_id() in self.factids):
                continue
            if c is False:
                raise AssertionError('false definition')
            self.factids.add(c.get_id())
            self.facts.append((c, vars_of(c)))

    def slice(self, pc, q):
        vs = set(vars_of(q)) if not isinstance(q, bool) else set()
        rest = [(c, vars_of(c)) for c in pc]
        if self.facts:
            rest += self.facts
        out = []
        changed = True
        while changed:
            changed = False
            keep = []
            for c, v in rest:
                if not v or not vs.isdisjoint(v):
                    out.append(c)
                    if not v <= vs:
                        vs |= v
                        changed = True
                else:
                    keep.append((c, v))
            rest = keep
        return out

    def sat(self, pc, q, timeout=None, model=False, full=False, quick=False):
        """'sat' / 'unsat' / 'unknown' of pc and q (pc known satisfiable, so it is sliced)"""
        q = simp(q)
        if q is False:
            return ('unsat', None)
        if q is True and not full:
            return ('sat', None)
        sl = list(pc) + [c for c, v in self.facts] if full else self.slice(pc, q)
        if not isinstance(q, bool):
            key = (frozenset(c.get_id() for c in sl), q.get_id())
        else:
            key = (frozenset(c.get_id() for c in sl), None)
        r = self.cache.get(key)
        if r is not None and (r[0] == 'unsat' or not model or r[1] is not None):
            return r[:2]
        if quick and key in self.maybe:
            return ('unknown', None)
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Unsupported('time limit')
        total = timeout or self.timeout
        first = min(total, 2500)
        s = z3.Solver()
        for c in sl:
            s.add(c)
        if not isinstance(q, bool):
            s.add(q)

        def z3run(ms):
            s.set('timeout', int(ms))
            try:
                return s.check()
            except z3.Z3Exception:
                return z3.unknown
        procs = None
        who = 'z3'
        ab = None
        if self.abfirst:
            ab = self.abstracted(sl + ([q] if not isinstance(q, bool) else []), first)
        res = z3run(1 if ab == 0 and quick and self.quickms else min(first, 400)) if not ab else z3.unknown
        if res == z3.unknown:
            # products and quotients as unknowns: enough for most queries
            if ab is None:
                ab = self.abstracted(sl + ([q] if not isinstance(q, bool) else []), first)
            if ab:
                res = z3.unsat
                who = 'z3 without products and quotients'
            elif quick and self.quickms and ab == 0 and z3run(self.quickms) == z3.unknown:
                # possible as far as products and quotients are unknowns: good enough to explore a path
                self.maybe[key] = (sl, q)
                self.queries += 1
                self.time += time.time() - t0
                return ('unknown', None)
            else:
                res = z3run(first)
        if res == z3.unknown:
            procs = self.portfolio(s, total)
            got = None
            for ms in (1000, 4000, total):
                got = self.poll(procs, 0.5)
                if got:
                    break
                left = total - (time.time() - t0) * 1000
                if left < 200:
                    break
                res = z3run(min(ms, left))
                if res != z3.unknown:
                    break
            if res == z3.unknown and not got:
                got = self.poll(procs, max(0.0, total / 1000 - (time.time() - t0)) + 1)
            self.endp(procs)
            if got:
                res, who = got
                if res == 'sat' and model:
                    # a model from z3 is only wanted for reports
                    pass
        self.queries += 1
        dt = time.time() - t0
        self.time += dt
        if dt > 3 and self.verbose:
            print('   slow query %.1fs %s %s' % (dt, res, str(q)[:200].replace('\n', ' ')))
        m = None
        st = str(res)
        if st == 'sat' and model and who == 'z3':
            m = s.model()
        if st != 'unknown':
            self.by[who] = self.by.get(who, 0) + 1
        self.cache[key] = (st, m, sl, q)
        return (st, m)

    verbose = False
    abfirst = False # try with products and quotients as unknowns first
    quickms = 0     # limit for settling whether a path with products or quotients of unknowns is possible (0: none)
    deadline = None

    def abstracted(self, cs, ms):
        """unsatisfiable (True) or not (0) whatever the values of products and quotients of two unknowns; False: cannot tell"""
        hard, seen = [], set()
        stack = list(cs)
        while stack:
            e = stack.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_app(e):
                ch = e.children()
                stack += ch
                k = e.decl().kind()
                if k in HARD and (self.abfirst or not z3.is_bv_value(ch[1])):
                    hard.append((e, k))
                elif k == z3.Z3_OP_BMUL and sum(not z3.is_bv_value(c) for c in ch) > 1:
                    hard.append((e, k))
            elif z3.is_quantifier(e):
                return False
        if not hard:
            return False
        sub, prods = [], {}
        for n, (e, k) in enumerate(hard):
            if k != z3.Z3_OP_BMUL:
                sub.append((e, z3.BitVec('hard!%d' % n, e.size())))
                continue
            # one unknown for the product of the unknown factors
            key = tuple(sorted(c.get_id() for c in e.children() if not z3.is_bv_value(c)))
            v = prods.setdefault(key, z3.BitVec('hard!%d' % n, e.size()))
            for c in e.children():
                if z3.is_bv_value(c):
                    v = c * v
            sub.append((e, v))
        s = z3.Solver()
        s.set('timeout', min(int(ms), 1000))
        for c in cs:
            s.add(z3.substitute(c, *sub))
        for (e, k), (_, v) in zip(hard, sub):
            if k in UREMS:
                d = z3.substitute(e.arg(1), *sub)
                s.add(z3.Or(d == 0, z3.ULT(v, d)))
                a = z3.substitute(e.arg(0), *sub)
                s.add(z3.Or(d == 0, z3.ULE(v, a)))
                s.add(z3.Implies(z3.ULT(a, d), v == a), z3.Implies(a == d, z3.Or(d == 0, v == 0)))
            elif k in UDIVS:
                a, d = z3.substitute(e.arg(0), *sub), z3.substitute(e.arg(1), *sub)
                s.add(z3.Or(d == 0, z3.ULE(v, a)))
        try:
            r = s.check()
            if r == z3.unknown:
                procs = self.portfolio(s, 6000)
                got = self.poll(procs, 6)
                self.endp(procs)
                if got:
                    r = {'unsat': z3.unsat, 'sat': z3.sat}.get(got[0], r)
                if self.verbose and os.environ.get('VP_ABS'):
                    print('   abstracted:', got, len(hard))
            return True if r == z3.unsat else 0 if r == z3.sat else False
        except z3.Z3Exception:
            return False

    def portfolio(self, s, total):
        """other back ends on what z3 does not settle at once"""
        txt = s.to_smt2()
        if 'to_ieee_bv' in txt:
            return []
        for k in ('bvsdiv', 'bvudiv', 'bvsrem', 'bvurem', 'bvsmod'):
            txt = txt.replace(k + '_i', k)
        txt = '(set-logic ALL)\n' + txt.replace('(set-info :status unknown)', '')
        opts = [('cvc5', [])]
        if 'FloatingPoint' not in txt and 'Array' not in txt:
            opts.append(('cvc5 integers', ['--solve-bv-as-int=sum']))
        out = []
        for who, o in opts:
            f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
            f.write(txt)
            f.close()
            p = subprocess.Popen(['cvc5', '--tlimit=%d' % max(total, 3000)] + o + [f.name], stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, text=True)
            out.append([who, p, f.name])
        return out

    def poll(self, procs, secs):
        end = time.time() + secs
        while procs:
            for e in list(procs):
                if e[1].poll() is not None:
                    o = (e[1].stdout.read() or '').strip().split('\n')[0]
                    os.unlink(e[2])
                    procs.remove(e)
                    if o in ('sat', 'unsat'):
                        return (o, e[0])
            if time.time() >= end:
                return None
            time.sleep(0.02)
        return None

    def endp(self, procs):
        for e in procs or []:
            e[1].kill()
            e[1].wait()
            os.unlink(e[2])
        if procs:
            procs.clear()
