"""P02: the audio ring buffer delivers every accepted sample once, in order, unchanged."""
from verify import *

SRC = ['src/AudioCircularBuffer.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp']
B = 'AudioCircularBuffer'
MAXL = 1 << 30
MAXN = 1 << 26


def urem(a, b):
    return z3.simplify(z3.URem(bv(a, 64), bv(b, 64)))


def wrap(i, L):
    return itew(ult(i, L, 64), i, sub(i, L), 64)


def chan(ex, b, i):
    return ex.canon(ex.addc(ex.fptr(b, B, 'data'), 8 * i))


class View:
    """the ring: capacity, bytes stored, positions, one content per channel"""
    def __init__(self, S, b):
        ex, st = S.ex, S.st
        g = lambda f: ex.get(st, b, B, f)
        self.ch = g('channels')
        self.bps = g('bytesPerSample')
        self.L = zext(g('channelMaxLength'), 32, 64)
        self.n = zext(g('elements'), 32, 64)
        self.rear, self.front = g('rear'), g('front')
        self.data = [ex.canon(ex.raw_load(st, chan(ex, b, i), 8, True)) for i in range(self.ch)]


def inv(v):
    return [lor(eq(v.bps, 1), eq(v.bps, 2), eq(v.bps, 4)), ule(1, v.L, 64), ule(v.L, MAXL, 64), ule(v.n, v.L, 64), eq(v.rear, add(v.front, v.n)), ule(v.rear, 1 << 60, 64)]


def buffer(V, st, ch, name='buffer'):
    ex = V.ex
    b = V.obj(st, 'class.' + B, name, cname=B)
    V.vptr(st, b, B)
    ex.put(st, b, B, 'channels', ch)
    L = zext(ex.get(st, b, B, 'channelMaxLength'), 32, 64)
    for i in range(2):
        p = chan(ex, b, i)
        ex.raw_store(st, p, 8, V.bytes(st, 'channel %d' % i, L) if i < ch else NULL)
    S = Spec(ex, st, [b], [], True)
    # the object keeps rear = front + elements
    ex.put(st, b, B, 'rear', add(ex.get(st, b, B, 'front'), zext(ex.get(st, b, B, 'elements'), 32, 64)))
    st.assume(*inv(View(S, b)))
    ex.guard(b, B, 'elements', 'mtx')
    return b


def held(V, st, b):
    m = V.ex.canon(V.ex.fptr(b, B, 'mtx'))
    st.ghost['locks'] = ((m.obj, m.off),)


def reader(V, b):
    """before the writer gets the lock the reader may take any number of bytes"""
    ex = V.ex

    def f(st, k):
        n = V.bv('stored at lock %d' % k)
        L = zext(ex.get(st, b, B, 'channelMaxLength'), 32, 64)
        st.assume(ule(n, ex.get(st, b, B, 'elements')), ule(zext(n, 32, 64), L, 64))
        ex.put(st, b, B, 'elements', n)
        ex.put(st, b, B, 'front', sub(ex.get(st, b, B, 'rear'), zext(n, 32, 64)))
    m = ex.canon(ex.fptr(b, B, 'mtx'))
    ex.interfere[(m.obj, m.off)] = f


def planes(V, st, ch, size, name):
    """an array of channel pointers"""
    a = V.rawout(st, 16, name)
    V.ex.objs[a.obj].info = None
    for i in range(2):
        st.cells(a.obj)[8 * i] = (8, V.bytes(st, '%s %d' % (name, i), size) if i < ch else NULL)
    return a


def plane(S, a, i):
    return S.ex.canon(S.ex.raw_load(S.st, S.ex.addc(S.ex.canon(a), 8 * i), 8, True))


def content(ex, st, p):
    lg = ex.obj_content(st, p.obj)
    return lambda o: lg.read(add(p.idx or 0, o))


def s_push(S, b, buf, n):
    ex = S.ex
    S.locks(b, B, 'mtx')
    v = View(S, b)
    nb = zext(mul(n, v.bps, 32), 32, 64)
    S.require(inv(v) + [ule(n, MAXN)])
    for T, fits in S.split(ule(nb, sub(v.L, v.n), 64)):
        if not fits:
            T.done(False)
            continue
        at = urem(v.rear, v.L)
        first = itew(ule(nb, sub(v.L, at), 64), nb, sub(v.L, at), 64)
        for i in range(v.ch):
            src = plane(T, buf, i)
            T.require(ule(nb, sub(ex.objs[src.obj].size, src.idx or 0), 64), 'the source holds the samples')
            f = content(ex, T.st, src)
            T.st.mem[v.data[i].obj] = T.st.mem[v.data[i].obj].fill(at, first, f).fill(0, sub(nb, first), lambda o, f=f: f(add(first, o)))
        T.put(b, B, 'elements', trunc(add(v.n, nb), 64, 32))
        T.put(b, B, 'rear', add(v.rear, nb))
        T.done(True)


def s_pop(S, b, buf, n):
    v = View(S, b)
    nb = zext(mul(n, v.bps, 32), 32, 64)
    S.require(inv(v) + [ule(n, MAXN)])
    for T, there in S.split(ule(nb, v.n, 64)):
        if not there:
            T.done(False)
            continue
        take(T, b, v, buf, nb)
        T.done(True)


def take(T, b, v, buf, nb):
    ex = T.ex
    at = urem(v.front, v.L)
    for i in range(v.ch):
        dst = plane(T, buf, i)
        T.require(ule(nb, sub(ex.objs[dst.obj].size, dst.idx or 0), 64), 'the destination has room')
        lg = T.st.mem[v.data[i].obj]
        T.st.mem[dst.obj] = T.st.mem[dst.obj].fill(dst.idx or 0, nb, lambda o, lg=lg: lg.read(wrap(add(at, o), v.L)))
    T.put(b, B, 'elements', trunc(sub(v.n, nb), 64, 32))
    T.put(b, B, 'front', add(v.front, nb))


def s_fill(S, b, buf, nb):
    v = View(S, b)
    nb = zext(nb, 32, 64)
    S.require(inv(v) + [ule(nb, v.n, 64)])
    take(S, b, v, buf, nb)
    S.done()


def s_free(S, b):
    v = View(S, b)
    S.require(inv(v))
    S.done(lambda r: land(sle(0, r, 32), ule(mul(zext(r, 32, 64), zext(v.bps, 32, 64)), sub(v.L, v.n), 64), ult(sub(v.L, v.n), mul(add(zext(r, 32, 64), 1), zext(v.bps, 32, 64)), 64)))


def s_flush(S, b):
    S.locks(b, B, 'mtx')
    for f in ('rear', 'front', 'elements', 'synchronized'):
        S.put(b, B, f, 0)
    S.done()


def setup(kind):
    def go(V):
        for ch in (1, 2):
            st = V.state()
            b = buffer(V, st, ch)
            a = [b]
            if kind in ('pop', 'fill'):
                held(V, st, b)
            elif kind == 'push':
                reader(V, b)
            if kind in ('push', 'pop', 'fill'):
                n = V.bv('samples' if kind != 'fill' else 'bytes')
                cap = V.bv('room', 64)
                st.assume(ule(n, MAXN), ule(cap, 1 << 32, 64))
                v = View(Spec(V.ex, st, a, [], True), b)
                nb = zext(mul(n, v.bps, 32), 32, 64) if kind != 'fill' else zext(n, 32, 64)
                st.assume(ule(nb, cap, 64))
                if kind == 'fill':
                    st.assume(ule(nb, v.n, 64))
                a += [planes(V, st, ch, cap, 'samples'), n]
            yield '%d channels' % ch, st, a
    return go


def lemma_fifo(V):
    """the contracts compose to a first-in first-out queue of bytes"""
    L, f, n, k, j = (V.bv(x, 64) for x in ('L', 'f', 'n', 'k', 'j'))
    st = V.state()
    # fm, rm: front and rear modulo the capacity
    st.assume(ule(1, L, 64), ule(L, MAXL, 64), ult(f, L, 64), ule(n, L, 64))
    rm = wrap(add(f, n), L)
    at = lambda i: wrap(add(f, i), L)
    V.check(st, ult(rm, L, 64), 'positions stay inside the buffer')
    # push k bytes
    a = st.fork()
    a.assume(ule(k, sub(L, n), 64))
    first = itew(ule(k, sub(L, rm), 64), k, sub(L, rm), 64)
    old, new = z3.Function('old', z3.BitVecSort(64), z3.BitVecSort(8)), z3.Function('new', z3.BitVecSort(64), z3.BitVecSort(8))
    lg = Log.base(lambda i: old(bv(i, 64)), 1).fill(rm, first, lambda o: new(bv(o, 64))).fill(0, sub(k, first), lambda o: new(bv(add(first, o), 64)))
    b = a.fork()
    b.assume(ult(j, n, 64))
    V.check(b, eq(lg.read(at(j)), old(bv(at(j), 64)), 8), 'push: the stored bytes stay')
    c = a.fork()
    c.assume(ult(j, k, 64))
    V.check(c, eq(lg.read(at(add(n, j))), new(j), 8), 'push: the new bytes follow the stored ones')
    # pop k bytes
    d = st.fork()
    d.assume(ule(k, n, 64), ult(j, sub(n, k), 64))
    f2 = at(k)
    V.check(d, eq(wrap(add(f2, j), L), at(add(k, j)), 64), 'pop: the other bytes keep their order')
    V.check(d, eq(wrap(add(f2, sub(n, k)), L), rm, 64), 'pop: the end stays')


def lemma_mod(V):
    """moving a position by at most the capacity moves its remainder by as much, around the end (integers)"""
    x, y, q, L = z3.Ints('x y q L')
    s = z3.Solver()
    s.set('timeout', 20000)
    # x = q L + r with 0 <= r < L
    r = x - q * L
    s.add(L >= 1, r >= 0, r < L, y >= 0, y <= L)
    e = z3.If(r + y < L, r + y, r + y - L)
    q2 = z3.If(r + y < L, q, q + 1)
    s.add(z3.Not(z3.And(e >= 0, e < L, x + y == q2 * L + e)))
    V.check(V.state(), s.check() == z3.unsat, 'remainder of a moved position')


def run(V):
    V.helper(B + '::fillOutputBuffers', s_fill, setup('fill'))
    V.prove(B + '::pushBack', s_push, setup('push'))
    V.prove(B + '::popFront', s_pop, setup('pop'))
    V.prove(B + '::getFreeSamples', s_free, setup('free'))
    V.prove(B + '::doFlush', s_flush, setup('flush'))
    V.unit('FIFO lemma', lambda: lemma_fifo(V))
    V.unit('remainder lemma', lambda: lemma_mod(V))


NATIVE = {'driver': 'p02.cpp', 'sources': ['src/AudioCircularBuffer.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp'],
          'libs': ['-llog4cplus', '-lavcodec', '-lavutil', '-lavformat']}
