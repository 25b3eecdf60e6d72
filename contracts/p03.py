"""P03: audio timestamp gaps become silence, overlaps are dropped, jumps resynchronise."""
from verify import *
import p02
from p02 import B, View, buffer, inv
import p01

SRC = ['src/AudioCircularBuffer.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp']
F = 'PlanarAudioFrame'
MAXS = 1 << 16          # samples of a buffer
YEAR = 1 << 45          # microseconds
MAXRATE = 1 << 18


def plane_frame(V, st, ch, name, size, zero=False):
    ex = V.ex
    f = V.obj(st, 'class.' + F, name, cname=F)
    V.vptr(st, f, F)
    ex.put(st, f, F, 'channels', ch)
    for i in range(2):
        p = ex.canon(ex.addc(ex.fptr(f, F, 'frameBuff'), 8 * i))
        ex.raw_store(st, p, 8, V.bytes(st, '%s plane %d' % (name, i), size, Log.const(0, 1) if zero else None))
    ex.put(st, f, F, 'bufferMaxLen', trunc(size, 64, 32))
    t = ex.get(st, f, 'Frame', 'presentationTime')
    st.assume(ule(t, 1 << 58, 64))
    return f


def sane(V, st, b):
    """configuration of a buffer that setup() accepted"""
    ex = V.ex
    g = lambda f: ex.get(st, b, B, f)
    rate, mx, bps = g('sampleRate'), g('chMaxSamples'), g('bytesPerSample')
    st.assume(ule(1000, rate), ule(rate, MAXRATE), ule(1, mx), ule(mx, MAXS))
    st.assume(ule(g('tsDeviationThreshold'), 1 << 20))
    # times of one stream lie within a year of the last synchronisation
    v = View(Spec(ex, st, [], [], True), b)
    st.assume(ule(g('syncTimestamp'), 1 << 58, 64))
    for x in (v.front, v.rear):
        st.assume(ule(x, YEAR, 64))
    return rate, mx, bps


def udiv(a, b, w=32):
    return simpv(z3.UDiv(bv(a, w), bv(b, w)))


def simpv(x):
    x = z3.simplify(x)
    return x.as_long() if z3.is_bv_value(x) else x


def at(S, b, pos):
    """the time of a position, from the samples before it"""
    z = lambda f: zext(S.get(b, B, f), 32, 64)
    return add(udiv(mul(udiv(pos, z('bytesPerSample'), 64), 1000000), z('sampleRate'), 64), S.get(b, B, 'syncTimestamp'))


def setup(kind, ch=1, sync=0, sizes=(1, 2, 4)):
    def go(V):
        ex = V.ex
        for bps in sizes:
            st = V.state()
            b = buffer(V, st, ch)
            ex.put(st, b, B, 'bytesPerSample', bps)
            rate, mx, bps = sane(V, st, b)
            n = zext(V.bv('plane size'), 32, 64)
            st.assume(ule(n, 1 << 26, 64))
            size = {'inputFrame': n, 'outputFrame': n, 'dummyFrame': zext(mul(mx, bps, 32), 32, 64)}
            for x in size:
                f = plane_frame(V, st, ch, x, size[x], x == 'dummyFrame')
                ex.put(st, b, B, x, f)
                if x != 'dummyFrame':
                    k = zext(ex.get(st, f, F, 'samples'), 32, 64)
                    st.assume(ule(k, 1 << 24, 64), ule(mul(k, zext(bps, 32, 64)), n, 64))
            ex.put(st, b, B, 'synchronized', sync)
            ex.put(st, b, B, 'fillNewFrame', sync)
            m = V.bv('nreaders', 64)
            st.assume(ule(m, 1 << 32, 64))
            V.seq(st, ex.fptr(b, B, 'connectionData.readers'), 'readers', 8, m)
            a = [b]
            if kind == 'add':
                a = [V.rawout(st, 24), b]
            yield '%d bytes per sample' % bps, st, a
    return go


def inner(S, f, *args):
    """outcomes of another contract on a copy of the state"""
    outs = []
    R = S.fork()
    f(Spec(S.ex, R.st, (), outs, S.proving), *args)
    return [(Spec(S.ex, st, (), S.outs, S.proving), r) for st, r in outs]


def planes(S, f):
    return S.ex.canon(S.ex.fptr(f, F, 'frameBuff'))


def s_add(S, ret, b):
    ex = S.ex
    S.locks(b, B, 'mtx')
    inp, dummy = (S.get(b, B, x, True) for x in ('inputFrame', 'dummyFrame'))
    t = S.get(inp, 'Frame', 'presentationTime')
    for T, sync in S.split(ne(ex.raw_load(S.st, ex.fptr(b, B, 'synchronized'), 1), 0, 8)):
        if not sync:
            T.put(b, B, 'syncTimestamp', t)
            T.put(b, B, 'synchronized', 1)
        dev = sub(t, at(T, b, T.get(b, B, 'rear')))
        thr = T.get(b, B, 'tsDeviationThreshold')
        for U, early in T.split(slt(dev, sext(sub(0, thr, 32), 32, 64), 64)):
            if early:
                empty(U, ret)
                U.done()
                continue
            for W, late in U.split(slt(sext(thr, 32, 64), dev, 64)):
                if late:
                    pad = sdiv(mul(dev, zext(W.get(b, B, 'sampleRate'), 32, 64)), 1000000)
                    for X, jump in W.split(ule(zext(W.get(b, B, 'chMaxSamples'), 32, 64), pad, 64)):
                        if jump:
                            X.put(b, 'FrameQueue', 'lostBlocs', add(X.get(b, 'FrameQueue', 'lostBlocs'), 1))
                            for f in ('rear', 'front', 'elements', 'synchronized'):
                                X.put(b, B, f, 0)
                            empty(X, ret)
                            X.done()
                            continue
                        for Y, ok in inner(X, p02.s_push, b, planes(X, dummy), trunc(pad, 64, 32)):
                            if ok:
                                store(Y, ret, b, inp)
                            else:
                                empty(Y, ret)
                                Y.done()
                else:
                    store(W, ret, b, inp)


def store(S, ret, b, inp):
    ex = S.ex
    for T, ok in inner(S, p02.s_push, b, planes(S, inp), S.get(inp, F, 'samples')):
        if not ok:
            empty(T, ret)
        else:
            T.put(b, B, 'orgTime', T.get(inp, 'Frame', 'originTime'))
            oid, n = stdmodel.lst(ex, T.st, ex.fptr(b, B, 'connectionData.readers'))
            v = ex.new_arr(T.st, 'ids', 4, n)
            T.st.mem[v.id][0] = ex.arr_log(T.st, oid, 0, 4)
            stdmodel.set_vec(ex, T.st, ret, v.id, n)
        T.done()


def empty(S, ret):
    v = S.ex.new_arr(S.st, 'ids', 4, 0)
    stdmodel.set_vec(S.ex, S.st, ret, v.id, 0)


def sdiv(a, b):
    return z3.simplify(bv(a, 64) / bv(b, 64))


def s_get(S, b):
    ex = S.ex
    S.locks(b, B, 'mtx')
    out = S.get(b, B, 'outputFrame', True)
    for T, fresh in S.split(ne(ex.raw_load(S.st, ex.fptr(b, B, 'fillNewFrame'), 1), 0, 8)):
        if not fresh:
            T.done(out)
            continue
        t = at(T, b, T.get(b, B, 'front'))
        for U, ok in inner(T, p02.s_pop, b, planes(T, out), T.get(out, F, 'samples')):
            U.put(out, 'Frame', 'presentationTime', t if ok else ANY)
            if ok:
                U.put(out, 'Frame', 'originTime', ANY)
                U.put(b, B, 'fillNewFrame', 0)
            U.done(out if ok else NULL)


def s_remove(S, b):
    S.put(b, B, 'fillNewFrame', 1)
    S.done(S.get(b, B, 'connectionData.wFilterId'))


def loop_ids(L, S, k):
    ex = L.ex
    b = L.arg(1)
    oid, n = stdmodel.lst(ex, S, ex.fptr(b, B, 'connectionData.readers'))
    ret = L.arg(0)
    v, n0 = stdmodel.vec(ex, L.st, ret)
    ids = ex.arr_log(S, oid, 0, 4)
    own = ex.arr_log(S, v, 0, 4)
    stdmodel.set_vec(ex, S, ret, v, add(n0, k))
    S.cells(v)[0] = own.fill(n0, k, lambda i: ids.read(i))
    return [('at most one id per reader', ule(k, n, 64))]


def run(V):
    V.solver.quickms = 1
    V.ex.loopspecs[('AudioCircularBuffer::addFrame', 0)] = loop_ids
    V.helper(B + '::fillOutputBuffers', p02.s_fill, p02.setup('fill'))
    V.helper(B + '::popFront', p02.s_pop, p02.setup('pop'))
    V.helper(B + '::pushBack', p02.s_push, p02.setup('push'))
    for ch in (1, 2):
        for y in (0, 1):
            for w in (1, 2, 4):
                n = ' (%d channels, %d bytes, %s)' % (ch, w, ('first', 'later')[y])
                V.prove(B + '::addFrame', s_add, setup('add', ch, y, (w,)), name='addFrame' + n)
                V.prove(B + '::getFront', s_get, setup('get', ch, y, (w,)), name='getFront' + n)
    V.prove(B + '::removeFrame', s_remove, setup('remove'))
    V.assume_note('presentation times of one stream are less than a year apart and positions stay below 2^45 bytes')


def dev_add(V):
    V.solver.quickms = 1
    V.ex.loopspecs[('AudioCircularBuffer::addFrame', 0)] = loop_ids
    V.use(B + '::pushBack', p02.s_push)
    V.prove(B + '::addFrame', s_add, setup('add', 2, 1))


NATIVE = {'driver': 'p02.cpp', 'sources': ['src/AudioCircularBuffer.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp'],
          'libs': ['-llog4cplus', '-lavcodec', '-lavutil', '-lavformat']}
