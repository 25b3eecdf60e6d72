"""Models of library functions (trusted): C library, C++ containers, strings, locks, clocks, logging."""
import re, z3
from core import *


def install(ex):
    def A(rx, h):
        def model(ex, st, a, c):
            return h(ex, st, a, c)
        model.std = True
        ex.models.append((re.compile(rx), model))
    nop = lambda ex, st, a, c: None

    # ---------------------------------------------------------------- logging and strings used for logging
    A(r'utils::(errorMsg|warningMsg|infoMsg|debugMsg|printMood|log\w*)\(', nop)
    A(r'std::(basic_)?ostream|std::basic_ostream|std::ostream|std::ios_base', nop)

    # ---------------------------------------------------------------- allocation
    def alloc(kind):
        def h(ex, st, a, c):
            n = a[0]
            if isinstance(n, int):
                o = ex.new_obj('heap%d' % ex.nextobj, 'raw', n)
                st.mem[o.id] = {'default': 'uninit'}
                st.owned.add(o.id)
                if kind == 'new[]':
                    o.kind = 'bytes'
                    o.stride = 1
                    st.mem[o.id] = Log.uf('u_' + o.name, 1)
            else:
                o = ex.new_obj('heap%d' % ex.nextobj, 'bytes', n)
                o.stride = 1
                st.mem[o.id] = Log.uf('u_' + o.name, 1)
            o.info = 'heap'
            return Ptr(o.id, None if o.kind == 'raw' else 0, 0)
        return h
    A(r'operator new\(unsigned long\)', alloc('new'))
    A(r'operator new\[\]\(unsigned long\)', alloc('new[]'))
    A(r'(malloc|av_malloc)$', alloc('malloc'))

    def calloc(ex, st, a, c):
        n = mul(a[0], a[1])
        r = alloc('malloc')(ex, st, [n], c)
        if isinstance(n, int):
            st.cells(r.obj)['default'] = 0
        else:
            st.mem[r.obj] = Log.const(0, 1)
        return r
    A(r'calloc$', calloc)

    def free(ex, st, a, c):
        p = a[0]
        if isinstance(p, PtrIte):
            p = ex.pick(st, p)
        if is_null(p):
            return None
        if isinstance(p, Opaque):
            raise Unsupported('release of unknown pointer %r' % (p,))
        o = ex.objs[p.obj]
        m = st.mem.get(p.obj)
        ok = not (isinstance(m, str)) and m is not None and not o.stack and o.parent is None and \
            (p.idx is None or (isinstance(p.idx, int) and p.idx == 0)) and p.off == 0
        if not ok and p.idx is not None and not isinstance(p.idx, int):
            raise Unsupported('release through an element pointer')
        ex.oblige(st, ok, 'release of a live allocation, once', 'safety')
        for off, ln, rid in o.regions:
            st.mem[rid] = 'FREED'
        st.mem[p.obj] = 'FREED'
    A(r'(operator delete(\[\])?\(void\*|free$|av_free$)', free)

    # ---------------------------------------------------------------- memory
    def memcpy(ex, st, a, c):
        d, s, n = a[0], a[1], a[2]
        n = simp(n)
        d = ex.range_ok(st, d, n, 'write')
        s = ex.range_ok(st, s, n, 'read')
        ex.copy_range(st, d, s, n)
        return a[0]
    A(r'(llvm\.mem(cpy|move)(\.inline)?\.p0\.p0\.i64|memcpy|memmove|__memcpy_chk)$', memcpy)

    def memset(ex, st, a, c):
        p, v, n = a[0], a[1], simp(a[2])
        v = trunc(v, 32 if c.name == 'memset' or c.name.startswith('__') else 8, 8) if not isinstance(v, int) else v & 255
        p = ex.range_ok(st, p, n, 'write')
        if not is_null(p):
            ex.fill_range(st, p, n, v if isinstance(v, int) else v)
        return a[0]
    A(r'(llvm\.memset\.p0\.i64|memset)$', memset)

    # ---------------------------------------------------------------- intrinsics
    A(r'llvm\.(dbg|lifetime|stackrestore|assume|experimental|prefetch|var\.annotation)', nop)
    A(r'llvm\.stacksave', lambda ex, st, a, c: NULL)
    A(r'llvm\.expect', lambda ex, st, a, c: a[0])

    def bsw(n):
        return lambda ex, st, a, c: bswap(a[0], n)
    A(r'(llvm\.bswap\.i16|htons|ntohs)$', bsw(2))
    A(r'(llvm\.bswap\.i32|htonl|ntohl)$', bsw(4))
    A(r'(llvm\.bswap\.i64)$', bsw(8))

    def minmax(ex, st, a, c):
        m = re.match(r'llvm\.([us])(min|max)\.i(\d+)', c.name)
        w = int(m.group(3))
        lt = (ult if m.group(1) == 'u' else slt)(a[0], a[1], w)
        return itew(lt, a[0], a[1], w) if m.group(2) == 'min' else itew(lt, a[1], a[0], w)
    A(r'llvm\.[us](min|max)\.', minmax)

    def iabs(ex, st, a, c):
        w = int(c.name.rsplit('i', 1)[1]) if c.name.startswith('llvm') else 32 if c.name == 'abs' else 64
        neg = slt(a[0], 0, w)
        return itew(neg, sub(0, a[0], w), a[0], w)
    A(r'(llvm\.abs\.i\d+|abs|labs|llabs)$', iabs)

    def fp1(f):
        return lambda ex, st, a, c: f(a[0])
    A(r'(llvm\.fabs\.f(32|64)|fabs|fabsf)$', fp1(z3.fpAbs))
    rt = lambda rm: (lambda v: z3.fpRoundToIntegral(rm, v))
    A(r'(llvm\.floor\.f(32|64)|floor|floorf)$', fp1(rt(z3.RTN())))
    A(r'(llvm\.ceil\.f(32|64)|ceil|ceilf)$', fp1(rt(z3.RTP())))
    A(r'(llvm\.trunc\.f(32|64)|trunc|truncf)$', fp1(rt(z3.RTZ())))
    A(r'(llvm\.round\.f(32|64)|round|roundf)$', fp1(rt(z3.RNA())))
    def umulo(ex, st, a, c):
        x, y = bv(a[0], 64), bv(a[1], 64)
        return (norm(z3.simplify(x * y)), norm(z3.simplify(z3.Not(z3.BVMulNoOverflow(x, y, False)))))
    A(r'llvm\.umul\.with\.overflow\.i64$', umulo)
    A(r'(llvm\.fmuladd\.f(32|64))$', lambda ex, st, a, c: z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a[0], a[1]), a[2]))
    A(r'std::(isnan|isinf|isfinite)\(', lambda ex, st, a, c: {
        'isnan': lambda v: simp(z3.fpIsNaN(v)), 'isinf': lambda v: simp(z3.fpIsInf(v)),
        'isfinite': lambda v: simp(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))}[
            re.match(r'std::(\w+)', ex.prog.demangle(c.name)).group(1)](a[0]))

    # ---------------------------------------------------------------- control
    def die(ex, st, a, c):
        from exec import PathEnd
        ex.oblige(st, False, 'no abnormal termination (%s)' % ex.prog.demangle(c.name).split('(')[0], 'safety')
        raise PathEnd()
    A(r'(__assert_fail|abort|exit|std::terminate\(\)|__clang_call_terminate|std::__throw_\w+\(|__cxa_throw|__cxa_pure_virtual)', die)
    A(r'__cxa_guard_acquire', lambda ex, st, a, c: 1)
    A(r'__cxa_(guard_release|atexit|begin_catch|end_catch|guard_abort)', nop)
    A(r'(printf|fprintf|puts|perror|fflush|putchar|usleep|sched_yield)$', lambda ex, st, a, c: 0)

    # ---------------------------------------------------------------- locks and clocks
    def key(ex, p):
        p = ex.canon(p)
        return (p.obj, p.off) if isinstance(p, Ptr) and p.idx in (None, 0) else None

    def lock(ex, st, m, recursive=False):
        if m is None:
            return
        held = st.ghost.get('locks', ())
        if m in held and not recursive:
            ex.oblige(st, False, 'no lock is taken twice by the same thread', 'safety')
        st.ghost['locks'] = held + (m,)
        f = ex.interfere.get(m)
        if f and m not in held:
            # what the lock protects may have changed by another thread
            k = st.ghost.get(('locked', m), 0)
            st.ghost[('locked', m)] = k + 1
            f(st, k)

    def unlock(ex, st, m):
        if m is None:
            return
        held = list(st.ghost.get('locks', ()))
        if m not in held:
            ex.oblige(st, False, 'only a held lock is released', 'safety')
            return
        held.remove(m)
        if held:
            st.ghost['locks'] = tuple(held)
        else:
            st.ghost.pop('locks', None)

    def mutex(ex, st, a, c):
        n = ex.prog.demangle(c.name)
        k = key(ex, a[0])
        if '::lock()' in n or '::try_lock()' in n:
            lock(ex, st, k, 'recursive' in n)
        elif '::unlock()' in n:
            unlock(ex, st, k)
        return True

    def guard(ex, st, a, c):
        n = ex.prog.demangle(c.name)
        g = key(ex, a[0])
        if re.search(r'>::~', n):
            m = st.ghost.pop(('lg', g), None)
            if m is not None:
                unlock(ex, st, m[0])
        elif re.search(r'>::(lock_guard|unique_lock)\(', n):
            if len(a) >= 2 and not re.search(r'(defer|adopt|try_to)_lock', n) and isinstance(a[1], Ptr):
                m = key(ex, a[1])
                if m is not None:
                    lock(ex, st, m, 'recursive' in n)
                    st.ghost[('lg', g)] = (m,)
            elif len(a) == 3 and 'adopt' in n:
                st.ghost[('lg', g)] = (key(ex, a[1]),)
        elif '::unlock()' in n:
            m = st.ghost.pop(('lg', g), None)
            if m is not None:
                unlock(ex, st, m[0])
                st.ghost[('lgm', g)] = m
        elif '::lock()' in n:
            m = st.ghost.pop(('lgm', g), None)
            if m is not None:
                lock(ex, st, m[0], 'recursive' in n)
                st.ghost[('lg', g)] = m
        return True

    ex.lock = lock
    A(r'std::(mutex|recursive_mutex|__mutex_base|__recursive_mutex_base|condition_variable)::', mutex)
    A(r'std::(lock_guard|unique_lock)<', guard)
    A(r'pthread_|__gthread', lambda ex, st, a, c: 0)

    def now(ex, st, a, c):
        n = st.ghost.get('now', 0)
        st.ghost['now'] = n + 1
        return z3.BitVec('now%d' % n, 64)
    A(r'std::chrono::_V2::(system_clock|steady_clock)::now\(\)', now)

    # ---------------------------------------------------------------- random / ids
    def ext(ex, st, a, c):
        d = ex.prog.demangle(c.name).split('(')[0]
        n = st.ghost.get('ext:' + d, 0)
        st.ghost['ext:' + d] = n + 1
        return z3.BitVec('%s#%d' % (d, n), 32)
    A(r'(rand|random|getpid)$', ext)

    install_bytevector(ex, A)
    install_vector(ex, A)
    install_list(ex, A)
    install_string(ex, A)
    install_map(ex, A)
    install_misc(ex, A)


# ------------------------------------------------------------------ vectors (on the real begin/end layout)
def vec(ex, st, p):
    """(array object id or None, length)"""
    b = ex.raw_load(st, ex.canon(p), 8, True)
    e = ex.raw_load(st, ex.canon(ex.addc(p, 8)), 8, True)
    if isinstance(b, int) or is_null(b):
        return None, 0
    return b.obj, sub(e.idx, b.idx)


def set_vec(ex, st, p, oid, n):
    b = Ptr(oid, 0, 0) if oid else NULL
    e = Ptr(oid, n, 0) if oid else NULL
    for k, v in ((0, b), (8, e), (16, e)):
        ex.raw_store(st, ex.canon(ex.addc(p, k)), 8, v)
    if oid:
        o = ex.objs[oid]
        if o.kind == 'bytes':
            o.size = n if not isinstance(o.size, int) or True else o.size
        else:
            st.cells(oid)['n'] = n


def new_vec(ex, st, stride, n, name='vec'):
    return ex.new_arr(st, '%s%d' % (name, ex.nextobj), stride, n)


def elem_size(ex, c, tyname=None):
    """element size of the container method being called, from the body or the type name"""
    d = ex.prog.demangle(c.name)
    m = re.match(r'std::(?:__cxx11::)?(?:vector|list|deque)<(.*?)(?:, std::allocator| *>)', d)
    t = m.group(1) if m else ''
    prim = {'int': 4, 'unsigned int': 4, 'unsigned char': 1, 'char': 1, 'float': 4, 'double': 8, 'bool': 1,
            'unsigned long': 8, 'long': 8, 'short': 2, 'unsigned short': 2}
    if t.endswith('*'):
        return 8
    if t in prim:
        return prim[t]
    for mod in ex.prog.mods:
        for k in ('struct.' + t, 'class.' + t):
            if k in mod.types and mod.types[k] != 'opaque':
                return elem_of(mod, k)
    raise Unsupported('element type of ' + d)


class ElemSize(int):
    """element size that remembers the element's type"""
    ty = mod = None


def elem_of(mod, k):
    e = ElemSize(mod.sizeof(('named', k)))
    e.ty, e.mod = ('named', k), mod
    return e


def copy_arr(ex, st, oid, n):
    src = st.mem[oid]
    o = ex.objs[oid]
    a = ex.new_arr(st, '%s\'%d' % (o.name, ex.nextobj), o.stride, n)
    a.ty, a.mod = o.ty, o.mod
    d = dict(src)
    # untouched fields keep reading the source
    if not isinstance(d.get('default', 'sym'), int):
        d['default'] = d.get('default', 'sym')
        a.info = ('copyof', oid)
        for k in [k for k in d if isinstance(k, int)]:
            pass
        if not any(isinstance(k, int) for k in d) and o.stride in (1, 2, 4, 8):
            lg = ex.arr_log(st, oid, 0, o.stride)
            d = dict(st.mem[oid])
    d['n'] = n
    st.mem[a.id] = d
    st.owned.add(a.id)
    return a


# byte vectors: immutable contents, every change makes a new one
def bvec(ex, st, p):
    """(content, length)"""
    oid, n = vec(ex, st, p)
    if oid is None:
        return Log.const(0, 1), 0
    return st.mem[oid], n


def bvec_set(ex, st, p, log, n):
    n = simp(n) if not isinstance(n, int) else n
    if isinstance(n, int) and n == 0:
        set_vec(ex, st, p, None, 0)
        return None
    o = ex.new_bytes(st, 'bytes%d' % ex.nextobj, n, log)
    for k, v in ((0, Ptr(o.id, 0, 0)), (8, Ptr(o.id, n, 0)), (16, Ptr(o.id, n, 0))):
        ex.raw_store(st, ex.canon(ex.addc(p, k)), 8, v)
    return o.id


def bvec_splice(ex, st, p, at, fn, k):
    """k bytes fn(i) inserted at index at"""
    lg, n = bvec(ex, st, p)
    new = lg.fill(add(at, k), sub(n, at), lambda o, lg=lg, at=at: lg.read(add(at, o))) if not (isinstance(sub(n, at), int) and sub(n, at) == 0) else lg
    new = new.fill(at, k, fn)
    return bvec_set(ex, st, p, new, add(n, k))


def install_bytevector(ex, A):
    V = r'(?:\S.* )?std::vector<(?:unsigned char|char|signed char)(?:, std::allocator<[a-z ]*> ?)?>::'

    def index(st, p, it):
        oid, n = vec(ex, st, p)
        if not isinstance(it, Ptr):
            return 0
        if it.obj == 0 or oid is None:
            return 0
        if it.obj != oid:
            raise Unsupported('iterator of another vector')
        ex.oblige(st, ule(it.idx, n, 64), 'iterator inside the vector', 'safety')
        return it.idx

    def ins1(ex, st, a, c):
        i = index(st, a[0], a[1])
        v = ex.raw_load(st, ex.range_ok(st, a[2], 1, 'read'), 1)
        oid = bvec_splice(ex, st, a[0], i, lambda o, v=v: v, 1)
        return Ptr(oid, i, 0)
    A(V + r'insert\([^,]*normal_iterator<.*> ?>, unsigned char( const)?&&?\)', ins1)

    def insn(ex, st, a, c):
        i = index(st, a[0], a[1])
        v = ex.raw_load(st, ex.range_ok(st, a[3], 1, 'read'), 1)
        oid = bvec_splice(ex, st, a[0], i, lambda o, v=v: v, a[2])
        return NULL if oid is None else Ptr(oid, i, 0)
    A(V + r'insert\([^,]*normal_iterator<.*> ?>, unsigned long, unsigned char const&\)', insn)

    def rng(st, f, l):
        if not isinstance(f, Ptr) or not isinstance(l, Ptr):
            raise Unsupported('range of unknown pointers')
        f, l = ex.canon(f), ex.canon(l)
        if f.obj == 0 and l.obj == 0:
            return (lambda o: 0), 0
        if f.obj != l.obj or ex.objs[f.obj].stride != 1:
            raise Unsupported('range over two objects')
        ex.oblige(st, ule(f.idx, l.idx, 64), 'the end of the range is not before its start', 'safety')
        n = sub(l.idx, f.idx)
        f = ex.range_ok(st, f, n, 'read')
        m = st.mem[f.obj]
        return (lambda o, m=m, b=f.idx: m.read(add(b, o))), n

    def insr(ex, st, a, c):
        i = index(st, a[0], a[1])
        fn, n = rng(st, a[2], a[3])
        oid = bvec_splice(ex, st, a[0], i, fn, n)
        return NULL if oid is None else Ptr(oid, i, 0)
    A(V + r'insert<', insr)

    def asg(ex, st, a, c):
        fn, n = rng(st, a[1], a[2])
        bvec_set(ex, st, a[0], Log.base(fn, 1), n)
    A(V + r'assign<', asg)

    def push(ex, st, a, c):
        lg, n = bvec(ex, st, a[0])
        v = ex.raw_load(st, ex.range_ok(st, a[1], 1, 'read'), 1)
        oid = bvec_splice(ex, st, a[0], n, lambda o, v=v: v, 1)
        return Ptr(oid, n, 0)
    A(V + r'(push_back\(|emplace_back<)', push)

    def clear(ex, st, a, c):
        bvec_set(ex, st, a[0], Log.const(0, 1), 0)
    A(V + r'(clear|vector)\(\)', clear)

    def copy(ex, st, a, c):
        lg, n = bvec(ex, st, a[1])
        bvec_set(ex, st, a[0], lg, n)
        return a[0]
    A(V + r'(operator=|vector)\(std::vector<.*> const&\)', copy)

    def move(ex, st, a, c):
        lg, n = bvec(ex, st, a[1])
        bvec_set(ex, st, a[0], lg, n)
        bvec_set(ex, st, a[1], lg, 0)
        return a[0]
    A(V + r'(operator=|vector)\(std::vector<.*>&&\)', move)

    def swap(ex, st, a, c):
        x, y = bvec(ex, st, a[0]), bvec(ex, st, a[1])
        bvec_set(ex, st, a[0], *y)
        bvec_set(ex, st, a[1], *x)
    A(V + r'swap\(', swap)
    A(V + r'~vector\(\)', lambda ex, st, a, c: None)


def install_vector(ex, A):
    V = r'std::vector<.*>::'

    def ctor(ex, st, a, c):
        try:
            oid = new_vec(ex, st, elem_size(ex, c), 0).id
        except Unsupported:
            oid = None
        set_vec(ex, st, a[0], oid, 0)
    A(V + r'vector\(\)', ctor)

    def copy(ex, st, a, c):
        oid, n = vec(ex, st, a[1])
        if oid is None:
            set_vec(ex, st, a[0], None, 0)
        else:
            set_vec(ex, st, a[0], copy_arr(ex, st, oid, n).id, n)
    A(V + r'vector\(std::vector<.*> const&\)', copy)

    def move(ex, st, a, c):
        oid, n = vec(ex, st, a[1])
        set_vec(ex, st, a[0], oid, n)
        set_vec(ex, st, a[1], None, 0)
    A(V + r'vector\(std::vector<.*>&&\)', move)

    def dtor(ex, st, a, c):
        oid, n = vec(ex, st, a[0])
        if oid:
            st.mem[oid] = 'FREED'
    A(V + r'~vector\(\)', dtor)

    def assign(ex, st, a, c):
        oid, n = vec(ex, st, a[1])
        if oid is None:
            set_vec(ex, st, a[0], None, 0)
        else:
            set_vec(ex, st, a[0], copy_arr(ex, st, oid, n).id, n)
        return a[0]
    A(V + r'operator=\(std::vector<.*> const&\)', assign)

    def moveassign(ex, st, a, c):
        oid, n = vec(ex, st, a[1])
        set_vec(ex, st, a[0], oid, n)
        set_vec(ex, st, a[1], None, 0)
        return a[0]
    A(V + r'operator=\(std::vector<.*>&&\)', moveassign)

    def push(ex, st, a, c):
        oid, n = vec(ex, st, a[0])
        if oid is None:
            oid = new_vec(ex, st, elem_size(ex, c), 0).id
            n = 0
        o = ex.objs[oid]
        n1 = add(n, 1)
        set_vec(ex, st, a[0], oid, n1)
        src = ex.range_ok(st, a[1], o.stride, 'read')
        for off, sz, v in ex.gather(st, src, o.stride):
            ex.raw_store(st, Ptr(oid, n, off), sz, v)
    A(V + r'push_back\(', push)
    A(V + r'emplace_back<.*>\(', push)

    def size(ex, st, a, c):
        return vec(ex, st, a[0])[1]
    A(V + r'size\(\) const', size)
    A(V + r'empty\(\) const', lambda ex, st, a, c: eq(vec(ex, st, a[0])[1], 0, 64))

    def at(ex, st, a, c):
        oid, n = vec(ex, st, a[0])
        ex.oblige(st, ult(a[1], n, 64), 'vector element exists', 'safety')
        if oid is None:
            from exec import PathEnd
            raise PathEnd()
        return Ptr(oid, a[1], 0)
    A(V + r'(operator\[\]|at)\(unsigned long\)', at)

    def data(ex, st, a, c):
        oid, n = vec(ex, st, a[0])
        return NULL if oid is None else Ptr(oid, 0, 0)
    A(V + r'data\(\)', data)

    def front(ex, st, a, c):
        oid, n = vec(ex, st, a[0])
        ex.oblige(st, ne(n, 0, 64), 'vector not empty', 'safety')
        return Ptr(oid, 0, 0)
    A(V + r'front\(\)', front)

    def back(ex, st, a, c):
        oid, n = vec(ex, st, a[0])
        ex.oblige(st, ne(n, 0, 64), 'vector not empty', 'safety')
        return Ptr(oid, sub(n, 1), 0)
    A(V + r'back\(\)', back)

    def clear(ex, st, a, c):
        oid, n = vec(ex, st, a[0])
        if oid:
            set_vec(ex, st, a[0], oid, 0)
    A(V + r'clear\(\)', clear)

    def pop(ex, st, a, c):
        oid, n = vec(ex, st, a[0])
        ex.oblige(st, ne(n, 0, 64), 'vector not empty', 'safety')
        set_vec(ex, st, a[0], oid, sub(n, 1))
    A(V + r'pop_back\(\)', pop)
    A(V + r'reserve\(', lambda ex, st, a, c: None)

    def erase(ex, st, a, c):
        oid, n = vec(ex, st, a[0])
        pos = a[1]
        if oid is None or not isinstance(pos, Ptr) or pos.obj != oid:
            raise Unsupported('vector erase')
        ex.oblige(st, ult(pos.idx, n, 64), 'erased element exists', 'safety')
        shift_out(ex, st, oid, pos.idx, n)
        set_vec(ex, st, a[0], oid, sub(n, 1))
        return Ptr(oid, pos.idx, 0)
    A(V + r'erase\(__gnu_cxx::__normal_iterator<[^,]*, std::vector<[^,]*(, std::allocator<.*> ?)?> ?>\)$', erase)


def shift_out(ex, st, oid, i, n, k=1):
    """remove k elements of n, from element i"""
    c = st.cells(oid)
    for f in [f for f in c if isinstance(f, int)]:
        lg = c[f]
        c[f] = lg.copy(i, sub(sub(n, i), k), lg, add(i, k))
    if not any(isinstance(f, int) for f in c):
        o = ex.objs[oid]
        if o.stride in (1, 2, 4, 8):
            lg = ex.arr_log(st, oid, 0, o.stride)
            st.cells(oid)[0] = lg.copy(i, sub(sub(n, i), k), lg, add(i, k))
        else:
            raise Unsupported('erase from untyped sequence')


# ------------------------------------------------------------------ lists (header: first = array, size at +16)
def lst(ex, st, p):
    b = ex.raw_load(st, ex.canon(p), 8, True)
    n = ex.raw_load(st, ex.canon(ex.addc(p, 16)), 8)
    if isinstance(b, int) or is_null(b) or not isinstance(b, Ptr):
        raise Unsupported('list without contents')
    return b.obj, n


def set_lst(ex, st, p, oid, n):
    ex.raw_store(st, ex.canon(p), 8, Ptr(oid, 0, 0))
    ex.raw_store(st, ex.canon(ex.addc(p, 8)), 8, Ptr(oid, 0, 0))
    ex.raw_store(st, ex.canon(ex.addc(p, 16)), 8, n)
    st.cells(oid)['n'] = n


def install_list(ex, A):
    Ls = r'std::(__cxx11::)?(list|deque)<.*>::'
    Dit = r'std::_Deque_iterator<.*>::'
    It = r'std::_List_(const_)?iterator<.*>::'

    def ctor(ex, st, a, c):
        set_lst(ex, st, a[0], new_vec(ex, st, elem_size(ex, c), 0, 'list').id, 0)
    A(Ls + r'(list|deque)\(\)', ctor)

    def copy(ex, st, a, c):
        oid, n = lst(ex, st, a[1])
        set_lst(ex, st, a[0], copy_arr(ex, st, oid, n).id, n)
    A(Ls + r'(list|deque)\(std::(__cxx11::)?(list|deque)<.*> const&\)', copy)
    A(Ls + r'(list|deque)\(std::(__cxx11::)?(list|deque)<.*>&&\)', copy)

    def assign(ex, st, a, c):
        copy(ex, st, a, c)
        return a[0]
    A(Ls + r'operator=\(', assign)

    def dtor(ex, st, a, c):
        try:
            oid, n = lst(ex, st, a[0])
        except Unsupported:
            return
        st.mem[oid] = 'FREED'
    A(Ls + r'~(list|deque)\(\)', dtor)

    def push(ex, st, a, c):
        oid, n = lst(ex, st, a[0])
        o = ex.objs[oid]
        n1 = add(n, 1)
        set_lst(ex, st, a[0], oid, n1)
        src = ex.range_ok(st, a[1], o.stride, 'read')
        for off, sz, v in ex.gather(st, src, o.stride):
            ex.raw_store(st, Ptr(oid, n, off), sz, v)
    A(Ls + r'push_back\(', push)

    # iterators of a deque are returned through memory; the model keeps the element pointer in their first word
    def dbegin(ex, st, a, c):
        ex.raw_store(st, a[0], 8, Ptr(lst(ex, st, a[1])[0], 0, 0))

    def dend(ex, st, a, c):
        o, n = lst(ex, st, a[1])
        ex.raw_store(st, a[0], 8, Ptr(o, n, 0))

    def dstep(ex, st, a, c):
        p = ex.raw_load(st, a[0], 8, True)
        ex.raw_store(st, a[0], 8, Ptr(p.obj, add(p.idx, 1), p.off))
        return a[0]

    def dcmp(want):
        def go(ex, st, a, c):
            p, q = (ex.raw_load(st, x, 8, True) for x in a[:2])
            if p.obj != q.obj:
                raise Unsupported('iterators of different sequences')
            r = eq(p.idx, q.idx, 64)
            return r if want else lnot(r)
        return go

    def clear(ex, st, a, c):
        oid, n = lst(ex, st, a[0])
        set_lst(ex, st, a[0], oid, 0)
    A(Ls + r'clear\(\)', clear)
    A(r'std::deque<.*>::begin\(\)', dbegin)
    A(r'std::deque<.*>::end\(\)', dend)
    A(Dit + r'operator(\*|->)\(\) const', lambda ex, st, a, c: ex.raw_load(st, a[0], 8, True))
    A(Dit + r'operator\+\+\(\)', dstep)
    A(r'(bool )?std::operator!=<?.*\(std::_Deque_iterator', dcmp(False))
    A(r'(bool )?std::operator==<?.*\(std::_Deque_iterator', dcmp(True))
    A(Ls + r'begin\(\)', lambda ex, st, a, c: Ptr(lst(ex, st, a[0])[0], 0, 0))

    def end(ex, st, a, c):
        o, n = lst(ex, st, a[0])
        return Ptr(o, n, 0)
    A(Ls + r'end\(\)', end)
    A(Ls + r'size\(\) const', lambda ex, st, a, c: lst(ex, st, a[0])[1])
    A(Ls + r'empty\(\) const', lambda ex, st, a, c: eq(lst(ex, st, a[0])[1], 0, 64))

    def front(ex, st, a, c):
        oid, n = lst(ex, st, a[0])
        ex.oblige(st, ne(n, 0, 64), 'list not empty', 'safety')
        return Ptr(oid, 0, 0)
    A(Ls + r'front\(\)', front)

    def back(ex, st, a, c):
        oid, n = lst(ex, st, a[0])
        ex.oblige(st, ne(n, 0, 64), 'list not empty', 'safety')
        return Ptr(oid, sub(n, 1), 0)
    A(Ls + r'back\(\)', back)

    def pop_front(ex, st, a, c):
        oid, n = lst(ex, st, a[0])
        ex.oblige(st, ne(n, 0, 64), 'list not empty', 'safety')
        shift_out(ex, st, oid, 0, n)
        set_lst(ex, st, a[0], oid, sub(n, 1))
    A(Ls + r'pop_front\(\)', pop_front)

    def erase(ex, st, a, c):
        oid, n = lst(ex, st, a[0])
        pos = a[1]
        if not isinstance(pos, Ptr) or pos.obj != oid:
            raise Unsupported('list erase')
        if len(a) > 2:
            end = a[2]
            if not isinstance(end, Ptr) or end.obj != oid:
                raise Unsupported('list erase')
            ex.oblige(st, land(ule(pos.idx, end.idx, 64), ule(end.idx, n, 64)), 'erased elements exist', 'safety')
            shift_out(ex, st, oid, pos.idx, n, sub(end.idx, pos.idx))
            set_lst(ex, st, a[0], oid, sub(n, sub(end.idx, pos.idx)))
            return Ptr(oid, pos.idx, 0)
        ex.oblige(st, ult(pos.idx, n, 64), 'erased element exists', 'safety')
        shift_out(ex, st, oid, pos.idx, n)
        set_lst(ex, st, a[0], oid, sub(n, 1))
        return Ptr(oid, pos.idx, 0)
    A(Ls + r'erase\(std::_List_const_iterator<[^()]*>\)$', erase)

    def clear(ex, st, a, c):
        oid, n = lst(ex, st, a[0])
        set_lst(ex, st, a[0], oid, 0)
    A(Ls + r'clear\(\)', clear)

    def deref(ex, st, a, c):
        return ex.raw_load(st, ex.canon(a[0]), 8, True)
    A(It + r'operator(\*|->)\(\) const', deref)

    def inc(ex, st, a, c):
        q = ex.canon(a[0])
        p = ex.raw_load(st, q, 8, True)
        ex.raw_store(st, q, 8, Ptr(p.obj, add(p.idx, 1), p.off))
        return a[0]
    A(It + r'operator\+\+\(\)', inc)

    def dec(ex, st, a, c):
        q = ex.canon(a[0])
        p = ex.raw_load(st, q, 8, True)
        ex.raw_store(st, q, 8, Ptr(p.obj, sub(p.idx, 1), p.off))
        return a[0]
    A(It + r'operator--\(\)', dec)

    def postinc(ex, st, a, c):
        q = ex.canon(a[0])
        p = ex.raw_load(st, q, 8, True)
        ex.raw_store(st, q, 8, Ptr(p.obj, add(p.idx, 1), p.off))
        return p
    A(It + r'operator\+\+\(int\)', postinc)


# ------------------------------------------------------------------ strings
class Str:
    """string value: tuple of literal pieces and opaque tokens"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)

    def lit(self):
        if not self.parts:
            return ''
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __repr__(self):
        return 'Str%r' % (self.parts,)

    def __eq__(self, o):
        return isinstance(o, Str) and len(o.parts) == len(self.parts) and all(_pe(x, y) for x, y in zip(self.parts, o.parts))

    def __hash__(self):
        return hash(len(self.parts))


def _pe(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(_pe(p, q) for p, q in zip(x, y))
    if isinstance(x, z3.ExprRef) or isinstance(y, z3.ExprRef):
        return isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y)
    return type(x) == type(y) and x == y


def str_get(ex, st, p):
    if isinstance(p, PtrIte):
        p = ex.pick(st, p)
    p = ex.canon(p)
    o = ex.objs[p.obj]
    m = st.mem.get(p.obj)
    if isinstance(m, dict):
        if p.idx is None:
            c = m.get(p.off)
            if c is not None and isinstance(c[1], Str):
                return c[1]
        elif o.kind == 'arr':
            lg = m.get(p.off)
            if lg is not None:
                v = lg.read(p.idx)
                if isinstance(v, Str):
                    return v
    return Str([('unknown', o.name, p.off, str(p.idx))])


def str_set(ex, st, p, s):
    p = ex.canon(p)
    if ex.objs[p.obj].kind == 'raw':
        ex.objs[p.obj].kind = 'cells'
    # the string occupies its whole 32-byte object, internal buffer region included
    if p.idx is None:
        cells = st.cells(p.obj)
        for f in [f for f in cells if isinstance(f, int) and p.off <= f < p.off + 32]:
            del cells[f]
        cells[p.off] = (32, s)
    else:
        ex.raw_store(st, p, 32, s)


def cstr(ex, st, p):
    """literal of a char pointer"""
    if isinstance(p, PtrIte):
        p = ex.pick(st, p)
    if isinstance(p, StrData):
        return p.s
    if not isinstance(p, Ptr) or p.obj == 0:
        return Str([('cstr', repr(p))])
    p = ex.canon(p)
    m = st.mem.get(p.obj)
    if isinstance(m, Log) and isinstance(p.idx, int):
        out = []
        for k in range(4096):
            b = m.read(p.idx + k)
            if not isinstance(b, int):
                return Str([('cstr', ex.objs[p.obj].name)])
            if b == 0:
                return Str([bytes(out).decode('latin-1')])
            out.append(b)
    return Str([('cstr', ex.objs[p.obj].name)])


class StrData(Opaque):
    """result of c_str()"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.name = 'nn:strdata'
        self.s = s


def install_string(ex, A):
    S = r'std::(__cxx11::)?basic_string<char, .*?>::'
    B = r'std::(__cxx11::)?basic_string<char, [^()]*> '

    def ctor_c(ex, st, a, c):
        str_set(ex, st, a[0], cstr(ex, st, a[1]))
    A(S + r'basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)', ctor_c)
    A(S + r'basic_string\(\)', lambda ex, st, a, c: str_set(ex, st, a[0], Str([])))
    A(S + r'basic_string\(std::(__cxx11::)?basic_string<char, .*> (const&|&&)\)', lambda ex, st, a, c: str_set(ex, st, a[0], str_get(ex, st, a[1])))
    A(S + r'basic_string\(std::(__cxx11::)?basic_string<char, .*>(const&|&&)\)', lambda ex, st, a, c: str_set(ex, st, a[0], str_get(ex, st, a[1])))
    A(S + r'~basic_string\(\)', lambda ex, st, a, c: None)

    def assign(ex, st, a, c):
        d = ex.prog.demangle(c.name)
        str_set(ex, st, a[0], cstr(ex, st, a[1]) if 'char const*)' in d else str_get(ex, st, a[1]))
        return a[0]
    A(S + r'(operator=|assign)\(', assign)

    def plus(ex, st, a, c):
        d = ex.prog.demangle(c.name)
        m = d.rsplit('(', 1)[-1]
        args = d[d.index('operator+') if 'operator+' in d else 0:]
        sig = args[args.index('('):] if '(' in args else ''
        parts = []
        ops = split_args(d)
        for k, o in enumerate(ops):
            if 'char const*' == o.strip():
                parts += list(cstr(ex, st, a[1 + k]).parts)
            elif o.strip() == 'char':
                parts.append(chr(a[1 + k]) if isinstance(a[1 + k], int) else ('char', a[1 + k]))
            else:
                parts += list(str_get(ex, st, a[1 + k]).parts)
        str_set(ex, st, a[0], Str(parts))
    A(B + r'std::operator\+<', plus)

    def append(ex, st, a, c):
        d = ex.prog.demangle(c.name)
        ops = split_args(d)
        if len(ops) != 1:
            raise Unsupported(d)
        o = ops[0].strip()
        ext = [chr(a[1])] if o == 'char' and isinstance(a[1], int) else list(cstr(ex, st, a[1]).parts) if o == 'char const*' \
            else list(str_get(ex, st, a[1]).parts)
        str_set(ex, st, a[0], Str(list(str_get(ex, st, a[0]).parts) + ext))
        return a[0]
    A(S + r'(operator\+=|append|push_back)\(', append)

    def tostr(ex, st, a, c):
        v = simp(a[1])
        ty = split_args(ex.prog.demangle(c.name))[0].strip()
        if isinstance(v, int):
            w = 64 if 'long' in ty else 32
            x = v if 'unsigned' in ty else sgn(v, w)
            str_set(ex, st, a[0], Str([str(x)]))
        else:
            str_set(ex, st, a[0], Str([('num', ty, v)]))
    A(r'std::(__cxx11::)?to_string\(', tostr)

    def empty(ex, st, a, c):
        return str_empty(str_get(ex, st, a[0]))
    A(S + r'empty\(\) const', empty)

    def cs(ex, st, a, c):
        return StrData(str_get(ex, st, a[0]))
    A(S + r'(c_str|data)\(\) const', cs)

    def length(ex, st, a, c):
        s = str_get(ex, st, a[0])
        l = s.lit()
        if l is not None:
            return len(l)
        return z3.BitVec('len:' + repr(s.parts), 64)
    A(S + r'(size|length)\(\) const', length)

    def cmp(ex, st, a, c):
        d = ex.prog.demangle(c.name)
        m = re.search(r'std::operator(==|!=)<', d)
        ops = split_args(d)
        vs = [cstr(ex, st, a[k]) if o.strip() == 'char const*' else str_get(ex, st, a[k]) for k, o in enumerate(ops)]
        r = str_eq(ex, st, vs[0], vs[1])
        return r if m.group(1) == '==' else lnot(r)
    A(r'(bool )?std::operator(==|!=)<char', cmp)
    A(r'(std::__enable_if<[^()]*>::__type) std::operator==<char', cmp)

    def compare(ex, st, a, c):
        d = ex.prog.demangle(c.name)
        ops = split_args(d)
        x = str_get(ex, st, a[0])
        y = cstr(ex, st, a[1]) if ops[0].strip() == 'char const*' else str_get(ex, st, a[1])
        r = str_eq(ex, st, x, y)
        if isinstance(r, bool):
            return 0 if r else 1
        return z3.If(r, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
    A(S + r'compare\(', compare)
    A(r'std::allocator<.*>::~?allocator\(', lambda ex, st, a, c: None)
    A(r'std::(__new_)?allocator<char>', lambda ex, st, a, c: None)


def str_empty(s):
    if not s.parts:
        return True
    if any(isinstance(p, str) or (isinstance(p, tuple) and p[0] == 'num') for p in s.parts):
        return False
    t = s.parts[0]
    if isinstance(t, tuple) and t[0] == 'sym' and len(t) > 2:
        return t[2]     # emptiness predicate of a symbolic string
    return z3.Bool('empty:' + repr(s.parts))


def str_eq(ex, st, x, y):
    if x == y:
        return True
    lx, ly = x.lit(), y.lit()
    if lx is not None and ly is not None:
        return lx == ly
    # a symbolic name compared with a literal: one boolean per literal, mutually exclusive (asserted by the contract)
    if len(x.parts) == 1 and isinstance(x.parts[0], tuple) and x.parts[0][0] == 'sym' and ly is not None:
        return x.parts[0][1](ly)
    if len(y.parts) == 1 and isinstance(y.parts[0], tuple) and y.parts[0][0] == 'sym' and lx is not None:
        return y.parts[0][1](lx)
    raise Unsupported('comparison of strings %r %r' % (x, y))


def split_args(d):
    """parameter list of a demangled signature"""
    d = re.sub(r' const$', '', d)
    depth = 0
    i = len(d) - 1
    assert d[i] == ')', d
    j = i
    while j >= 0:
        if d[j] == ')':
            depth += 1
        elif d[j] == '(':
            depth -= 1
            if depth == 0:
                break
        j -= 1
    s = d[j + 1:i]
    out, cur, depth = [], '', 0
    for ch in s:
        if ch in '<([':
            depth += 1
        elif ch in '>)]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


# ------------------------------------------------------------------ maps
# A map is an array indexed by the key (strings by an id per value) whose elements are the pairs plus a presence flag;
# header: array at +0, number of elements at +40 (as in libstdc++).
def tmpl_args(d):
    """template arguments of the first <...> of a type name"""
    i = d.index('<')
    out, cur, depth = [], '', 0
    for ch in d[i + 1:]:
        if ch in '<([':
            depth += 1
        if ch in '>)]':
            if depth == 0:
                break
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


PRIM = {'int': 32, 'unsigned int': 32, 'unsigned char': 8, 'char': 8, 'bool': 8, 'unsigned long': 64, 'long': 64, 'short': 16,
        'unsigned short': 16, 'unsigned long long': 64, 'long long': 64}


def ir_type(ex, t):
    t = t.strip()
    if t.endswith('const'):
        t = t[:-5].strip()
    if t.endswith('*'):
        return None, ('ptr',)
    if t in PRIM:
        return None, ('i', PRIM[t])
    if t in ('float', 'double'):
        return None, (t,)
    if t.startswith('std::pair<'):
        ts = [ir_type(ex, x) for x in tmpl_args(t)]
        if any(m for m, _ in ts):
            raise Unsupported('pair of classes')
        return None, ('lit', False, [x for _, x in ts])
    if t.startswith('std::shared_ptr<'):
        return None, ('lit', False, [('ptr',), ('ptr',)])
    for mod in ex.prog.mods:
        for k in ('struct.' + t, 'class.' + t):
            if k in mod.types and mod.types[k] != 'opaque':
                return mod, ('named', k)
    # scalar enumeration types
    return None, ('i', 32)


class MapInfo:
    def __init__(self, ex, name):
        """name: std::map<K, V, ...>"""
        self.name = name
        k, v = tmpl_args(name)[:2]
        self.k, self.v = k, v
        if 'basic_string' in k or k == 'std::string':
            self.kw = 0
            mod, kt = None, ('lit', False, tuple([('i', 64)] * 4))
        else:
            mod, kt = ir_type(ex, k)
            self.kw = kt[1]
        m2, vt = ir_type(ex, v)
        self.mod = m2 or mod or ex.prog.mods[0]
        self.vt = vt
        # the presence flag comes after the pair with its padding
        pair = ('lit', False, (kt, hash_ty(vt)))
        self.ty = ('lit', False, (pair, ('i', 8)))
        lay = self.mod.layout(self.ty)
        self.second = self.mod.layout(pair)[2][1]
        self.flag = lay[2][1]
        self.size = ElemSize(lay[0])
        self.size.ty, self.size.mod = self.ty, self.mod

    def index(self, ex, st, p):
        """array index of the key stored at p"""
        if self.kw == 0:
            sv = str_get(ex, st, p)
            return str_id(ex, sv)
        v = ex.raw_load(st, ex.access(st, p, self.kw // 8, 'read'), self.kw // 8)
        return sext(v, self.kw, 64) if self.kw < 64 and not self.k.startswith('unsigned') else zext(v, self.kw, 64) if self.kw < 64 else v


def hash_ty(t):
    return tuple(hash_ty(x) if isinstance(x, list) else x for x in t) if isinstance(t, tuple) else tuple(t)


_strids = {}


def str_id(ex, sv):
    """a number per string value"""
    l = sv.lit()
    if l is not None:
        return _strids.setdefault(l, 1000 + len(_strids))
    if len(sv.parts) == 1 and isinstance(sv.parts[0], tuple) and sv.parts[0][0] == 'sym':
        return z3.BitVec('strid_' + str(sv.parts[0][1]), 64)
    raise Unsupported('map key %r' % (sv,))


def mapinfo(ex, c):
    d = ex.prog.demangle(c.name)
    i = d.index('std::map<')
    return mapinfo_of(ex, d[i:])


def mapinfo_of(ex, name):
    key = ('mapinfo', tuple(tmpl_args(name)[:2]))
    r = ex._mcache.get(key)
    if r is None:
        r = ex._mcache[key] = MapInfo(ex, name)
    return r


def new_map(ex, st, mi, n, default, name='map'):
    o = ex.new_arr(st, '%s%d' % (name, ex.nextobj), mi.size, n)
    st.mem[o.id]['default'] = default
    o.info = ('map', mi.flag)
    if mi.kw:
        st.cells(o.id)[0] = Log.base(lambda i, w=mi.kw: trunc(i, 64, w) if w < 64 else i, mi.kw // 8)
    if default == 0:
        st.cells(o.id)[mi.flag] = Log.const(0, 1)
    else:
        f = z3.Function('%s.present' % o.name, z3.BitVecSort(64), z3.BoolSort())
        st.cells(o.id)[mi.flag] = Log.base(lambda i: zext(f(bv(i, 64)), 1, 8), 1)
    return o


def mp(ex, st, p):
    b = ex.raw_load(st, ex.canon(p), 8, True)
    n = ex.raw_load(st, ex.canon(ex.addc(p, 40)), 8)
    if not isinstance(b, Ptr) or is_null(b):
        raise Unsupported('map without contents')
    return b.obj, n


def set_map(ex, st, p, oid, n):
    ex.raw_store(st, ex.canon(p), 8, Ptr(oid, 0, 0))
    ex.raw_store(st, ex.canon(ex.addc(p, 40)), 8, n)
    st.cells(oid)['n'] = n


def map_has(ex, st, oid, k):
    fl = ex.objs[oid].info[1]
    v = st.mem[oid][fl].read(k)
    return ne(v, 0, 8)


def map_end(ex, p):
    return ex.canon(ex.addc(p, 8))


def map_insert(ex, st, p, mi, k):
    """make key k present, with a zero value if it was absent; the pointer to its element"""
    oid, n = mp(ex, st, p)
    has = map_has(ex, st, oid, k)
    if not isinstance(has, bool) and not ex.feasible(st, lnot(has)):
        has = True
    if has is not True:
        el = Ptr(oid, k, 0)
        for off, sz, isp in ex.typed_leaves(ex.objs[oid]):
            if off < mi.second or off >= mi.flag:
                continue
            z = NULL if isp else 0
            lg = ex.arr_log(st, oid, off, sz, isp)
            old = lg.read(k) if has is not False else None
            if isinstance(old, z3.FPRef):
                z = z3.FPVal(0.0, old.sort())
            v = z if has is False else ex.sel(has, old, z, sz)
            st.cells(oid)[off] = lg.store(k, v)
        st.cells(oid)[mi.flag] = st.mem[oid][mi.flag].store(k, 1)
        if mi.kw == 0:
            pass
        set_map(ex, st, p, oid, add(n, itew(has, 0, 1, 64)))
    return Ptr(oid, k, 0)


def map_erase(ex, st, p, mi, k):
    oid, n = mp(ex, st, p)
    has = map_has(ex, st, oid, k)
    st.cells(oid)[mi.flag] = st.mem[oid][mi.flag].store(k, 0)
    set_map(ex, st, p, oid, sub(n, itew(has, 1, 0, 64)))
    return has


# Iterating a map goes through an enumeration of its keys: key(0..n-1) and its inverse pos.  The facts below hold of
# every finite map and are added for the indices and keys that occur.
class Enum:
    def __init__(self, ex, st, oid, n, kw):
        self.ex, self.oid, self.n, self.kw = ex, oid, n, kw
        o = ex.objs[oid]
        self.flag = st.mem[oid][o.info[1]]
        self.tag = 'enum%d' % ex.nextobj
        B = z3.BitVecSort(64)
        self.k, self.p = z3.Function(self.tag + '.key', B, B), z3.Function(self.tag + '.pos', B, B)
        self.it = ex.new_obj(self.tag, 'arr', 8)
        self.it.info = ('enum', self)
        st.mem[self.it.id] = {}

    def has(self, K):
        return ne(self.flag.read(K), 0, 8)

    def canon(self, K):
        return True if self.kw in (0, 64) else eq(K, sext(trunc(K, 64, self.kw), self.kw, 64), 64)

    def key(self, i):
        K = self.k(bv(i, 64))
        self.ex.solver.fact(implies(ult(i, self.n, 64), land(self.has(K), self.canon(K), eq(self.p(K), i, 64))))
        return K

    def pos(self, K):
        K = bv(K, 64)
        P = self.p(K)
        self.ex.solver.fact(implies(self.has(K), land(ult(P, self.n, 64), eq(self.k(P), K, 64), self.canon(K))))
        return P

    def before(self, K, i):
        """key K is present and among the first i"""
        return land(self.has(K), ult(self.pos(K), i, 64))

    def ok(self, st):
        """since the enumeration was made, keys were only taken away"""
        lg = st.mem[self.oid][self.ex.objs[self.oid].info[1]]
        while lg is not self.flag:
            if lg.k != 'st' or not (isinstance(lg.x[1], int) and lg.x[1] == 0):
                raise Unsupported('a map changes while it is iterated')
            lg = lg.prev


def enum(ex, st, p):
    """enumeration of the map at p"""
    oid, n = mp(ex, st, p)
    fl = ex.objs[oid].info[1]
    lg = st.mem[oid][fl]
    key = (oid, id(lg))
    e = ex.enums.get(key)
    if e is None:
        lg0 = st.mem[oid].get(0)
        e = ex.enums[key] = Enum(ex, st, oid, n, 8 * lg0.size if isinstance(lg0, Log) else 0)
    if e.it.id not in st.mem:
        st.mem[e.it.id] = {}
    return e


def enum_of(ex, v):
    if isinstance(v, Ptr) and v.obj and isinstance(ex.objs[v.obj].info, tuple) and ex.objs[v.obj].info[0] == 'enum':
        return ex.objs[v.obj].info[1]
    return None


def install_map(ex, A):
    M = r'std::map<.*>::'

    def ctor(ex, st, a, c):
        mi = mapinfo(ex, c)
        set_map(ex, st, a[0], new_map(ex, st, mi, 0, 0).id, 0)
    A(M + r'map\(\)', ctor)

    def copy(ex, st, a, c):
        oid, n = mp(ex, st, a[1])
        o = copy_arr(ex, st, oid, n)
        o.info = ex.objs[oid].info
        set_map(ex, st, a[0], o.id, n)
        return a[0]
    A(M + r'map\(std::map<.*> (const&|&&)\)', copy)
    A(M + r'map\(std::map<.*>(const&|&&)\)', copy)
    A(M + r'operator=\(', copy)

    def dtor(ex, st, a, c):
        oid, n = mp(ex, st, a[0])
        st.mem[oid] = 'FREED'
    A(M + r'~map\(\)', dtor)

    def index(ex, st, a, c):
        mi = mapinfo(ex, c)
        k = mi.index(ex, st, a[1])
        return ex.addc(map_insert(ex, st, a[0], mi, k), mi.second)
    A(M + r'operator\[\]\(', index)

    def at(ex, st, a, c):
        mi = mapinfo(ex, c)
        oid, n = mp(ex, st, a[0])
        k = mi.index(ex, st, a[1])
        ex.oblige(st, map_has(ex, st, oid, k), 'map element exists', 'safety')
        return Ptr(oid, k, mi.second)
    A(M + r'at\(', at)

    def count(ex, st, a, c):
        mi = mapinfo(ex, c)
        oid, n = mp(ex, st, a[0])
        return zext(map_has(ex, st, oid, mi.index(ex, st, a[1])), 1, 64)
    A(M + r'count\(', count)

    def find(ex, st, a, c):
        mi = mapinfo(ex, c)
        oid, n = mp(ex, st, a[0])
        k = mi.index(ex, st, a[1])
        has = map_has(ex, st, oid, k)
        if has is True:
            return Ptr(oid, k, 0)
        if has is False:
            return map_end(ex, a[0])
        return PtrIte(has, Ptr(oid, k, 0), map_end(ex, a[0]))
    A(M + r'find\(', find)

    A(M + r'c?end\(\)', lambda ex, st, a, c: map_end(ex, a[0]))
    A(M + r'size\(\) const', lambda ex, st, a, c: mp(ex, st, a[0])[1])
    A(M + r'empty\(\) const', lambda ex, st, a, c: eq(mp(ex, st, a[0])[1], 0, 64))

    def erase(ex, st, a, c):
        mi = mapinfo(ex, c)
        if 'shared_ptr' in mi.v and not getattr(ex, 'shared_plain', False):
            raise Unsupported('erase of owning map elements')
        args = split_args(ex.prog.demangle(c.name))
        if '_Rb_tree' in args[0]:
            it = ex.canon(a[1])
            oid, n = mp(ex, st, a[0])
            e = enum_of(ex, it)
            if e is not None:
                if e.oid != oid:
                    raise Unsupported('erase of another map\'s element')
                e.ok(st)
                k = e.key(it.idx)
                ex.oblige(st, land(ult(it.idx, e.n, 64), map_has(ex, st, oid, k)), 'erased iterator points to an element', 'safety')
                map_erase(ex, st, a[0], mi, k)
                return Ptr(it.obj, add(it.idx, 1), 0)
            ex.oblige(st, it.obj == oid and map_has(ex, st, oid, it.idx), 'erased iterator points to an element', 'safety')
            map_erase(ex, st, a[0], mi, it.idx)
            return None
        has = map_erase(ex, st, a[0], mi, mi.index(ex, st, a[1]))
        return zext(has, 1, 64)
    A(M + r'erase\(', erase)

    def clear(ex, st, a, c):
        mi = mapinfo(ex, c)
        oid, n = mp(ex, st, a[0])
        st.cells(oid)[mi.flag] = Log.const(0, 1)
        set_map(ex, st, a[0], oid, 0)
    A(M + r'clear\(\)', clear)
    It = r'std::_Rb_tree_(const_)?iterator<.*>::'

    def deref(ex, st, a, c):
        v = ex.raw_load(st, ex.canon(a[0]), 8, True)
        e = enum_of(ex, v)
        if e is not None:
            e.ok(st)
            ex.oblige(st, ult(v.idx, e.n, 64), 'iterator points to an element', 'safety')
            return Ptr(e.oid, e.key(v.idx), 0)
        return v
    A(It + r'operator(\*|->)\(\) const', deref)
    A(M + r'c?begin\(\)', lambda ex, st, a, c: Ptr(enum(ex, st, a[0]).it.id, 0, 0))

    def inc(ex, st, a, c):
        q = ex.canon(a[0])
        v = ex.raw_load(st, q, 8, True)
        e = enum_of(ex, v)
        if e is None:
            raise Unsupported('map iterator step')
        e.ok(st)
        ex.raw_store(st, q, 8, Ptr(v.obj, add(v.idx, 1), 0))
        return a[0]
    A(It + r'operator\+\+\(\)', inc)

    def same(ex, st, a, c):
        x, y = (ex.raw_load(st, ex.canon(p), 8, True) for p in a[:2])
        e, f = enum_of(ex, x), enum_of(ex, y)
        if e is None and f is not None:
            x, y, e, f = y, x, f, e
        if e is None:
            return ex.peq(st, x, y)
        if f is not None:
            if e is not f:
                raise Unsupported('iterators of different maps')
            return eq(x.idx, y.idx, 64)
        o = ex.objs[y.obj]
        if not isinstance(y, Ptr) or o.kind == 'arr':
            raise Unsupported('iterator comparison')
        return eq(x.idx, e.n, 64)
    A(r'(bool )?std::operator==\(std::_Rb_tree_(const_)?iterator<', same)
    A(r'(bool )?std::operator!=\(std::_Rb_tree_(const_)?iterator<', lambda ex, st, a, c: lnot(same(ex, st, a, c)))


def install_misc(ex, A):
    def dyncast(ex, st, a, c):
        p = ex.canon(a[0]) if isinstance(a[0], Ptr) else a[0]
        if isinstance(p, PtrIte):
            p = ex.pick(st, p)
        if is_null(p):
            return NULL
        if not isinstance(p, Ptr):
            raise Unsupported('dynamic_cast of %r' % (p,))
        d = ex.prog.demangle(ex.objs[a[2].obj].name.replace('g:', ''))
        if not d.startswith('typeinfo for '):
            raise Unsupported('dynamic_cast to ' + d)
        return p if ex.is_a(ex.class_of(st, p), d[13:]) else NULL
    A(r'__dynamic_cast$', dyncast)

    def forward(ex, st, a, c):
        return a[0]
    A(r'(.* )?std::(forward|move|__addressof|addressof|launder)<', forward)
    # destructors of plain standard types
    A(r'std::(shared_ptr|unique_ptr)<', lambda ex, st, a, c: (_ for _ in ()).throw(Unsupported('smart pointer')))
    # live callbacks to the Jzon configuration layer are outside the claimed properties
