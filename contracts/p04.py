"""P04: the slices of a frame enter the queue one by one, in order, with the frame's metadata."""
from verify import *
import p01

SRC = ['src/SlicedVideoFrameQueue.cpp', 'src/AVFramedQueue.cpp', 'src/VideoFrame.cpp', 'src/Frame.cpp']
Q, IV, SV = 'SlicedVideoFrameQueue', 'InterleavedVideoFrame', 'SlicedVideoFrame'
SLICES = 16
SEG = 24                                    # slot i's payload is at i << SEG of one memory, everything else out of reach
SRCSEG = 33
META = ['sequenceNumber', 'presentationTime', 'decodeTime', 'originTime', 'width', 'height']


def shl(i, n):
    return mul(i, 1 << n, 64)


class W:
    """the queue with its slots and the frame that is being added"""
    def __init__(self, V, st, cap=None):
        ex = V.ex
        self.V = V
        self.q = q = V.obj(st, 'class.' + Q, 'queue', cname=Q)
        V.vptr(st, q, Q)
        self.fam = V.array(st, 'slots', 'class.' + IV, 250)
        c = st.cells(self.fam)
        fld = lambda f: ex.fptr(Ptr(self.fam, 0, 0), IV, f)
        self.off = {f: fld(f).off for f in META + ['bufferLen', 'bufferMaxLen', 'frameBuff']}
        c[0] = Log.const(ex.vtable(IV), 8)
        self.cap = zext(V.bv('slice capacity'), 32, 64)
        st.assume(ule(1, self.cap, 64), ule(self.cap, 1 << SEG, 64))
        c[self.off['bufferMaxLen']] = Log.const(trunc(self.cap, 64, 32), 4)
        self.size = {f: 4 if f in ('width', 'height', 'bufferLen') else 8 for f in META + ['bufferLen']}
        for f, n in self.size.items():
            c[self.off[f]] = Log.uf('slot ' + f, n)
        self.pay = V.bytes(st, 'payloads', 250 << SEG)
        c[self.off['frameBuff']] = Log.base(lambda i: Ptr(self.pay.obj, shl(i, SEG), 0), 8)
        fr = ex.canon(ex.fptr(q, Q, 'frames'))
        st.cells(fr.obj)[0] = Log.base(lambda i: Ptr(self.fam, i, 0), 8)
        n = V.bv('nreaders', 64)
        st.assume(ule(n, 1 << 32, 64))
        V.seq(st, ex.fptr(q, Q, 'connectionData.readers'), 'readers', 8, n)
        mx, rear, front = (ex.get(st, q, Q, f) for f in ('max', 'rear', 'front'))
        st.assume(*p01.inv(mx, rear, front))
        # the sliced frame
        self.f = f = V.obj(st, 'class.' + SV, 'sliced frame', cname=SV)
        V.vptr(st, f, SV)
        ex.put(st, q, Q, 'inputFrame', f)
        self.n = ex.get(st, f, SV, 'pointedSliceNum')
        st.assume(ule(self.n, SLICES))
        self.sl = ex.canon(ex.fptr(f, SV, 'pointedSlices'))
        self.sdata = V.bytes(st, 'slices', 16 << SRCSEG)
        self.slen = Log.uf('slice length', 4)
        sc = st.cells(self.sl.obj)
        so = {x: ex.canon(ex.fptr(self.sl, 'Slice', x)).off for x in ('data', 'dataSize')}
        self.soff = so
        sc[so['data']] = Log.base(lambda i: Ptr(self.sdata.obj, shl(i, SRCSEG), 0), 8)
        sc[so['dataSize']] = self.slen
        self.src = st.mem[self.sdata.obj]


def now(ex, st, w):
    """what adding slices changes"""
    c = st.cells(w.fam)
    d = {'rear': ex.get(st, w.q, Q, 'rear'), 'lost': ex.get(st, w.q, Q, 'lostBlocs'), 'pay': st.mem[w.pay.obj]}
    for f in w.size:
        d[f] = c[w.off[f]]
    return d


def put(ex, st, w, d):
    ex.put(st, w.q, Q, 'rear', d['rear'])
    ex.put(st, w.q, Q, 'lostBlocs', d['lost'])
    st.mem[w.pay.obj] = d['pay']
    for f in w.size:
        st.cells(w.fam)[w.off[f]] = d[f]


def step(ex, st, w, d, k):
    """slice k: too big: left out; room: the next slot; full: in the place of the newest, which is lost"""
    mx = zext(ex.get(st, w.q, Q, 'max'), 32, 64)
    front = ex.get(st, w.q, Q, 'front')
    rear = d['rear']
    n = zext(w.slen.read(k), 32, 64)
    fits = ule(n, w.cap, 64)
    nxt = p01.wrap(add(rear, 1), mx)
    full = eq(nxt, front)
    slot = itew(full, p01.wrap(sub(add(rear, mx), 1), mx), rear, 64)
    r = {'rear': itew(fits, itew(full, rear, nxt, 64), rear, 64), 'lost': itew(land(fits, full), add(d['lost'], 1), d['lost'], 64)}
    src, at = w.src, shl(k, SRCSEG)
    r['pay'] = d['pay'].fill(shl(slot, SEG), itew(fits, n, 0, 64), lambda o: src.read(add(at, o)))
    one = itew(fits, 1, 0, 64)
    for f in META:
        v = ex.get(st, w.f, SV, f)
        r[f] = d[f].fill(slot, one, lambda o, v=v: v)
    r['bufferLen'] = d['bufferLen'].fill(slot, one, lambda o: trunc(n, 64, 32))
    return r


def at(ex, st, w, d0, k, tag=''):
    """the state after k slices: the recursion state(0) = d0, state(k + 1) = step(state(k), k)"""
    if isinstance(k, int):
        d = d0
        for i in range(k):
            d = step(ex, st, w, d, i)
        return d
    if k.decl().kind() != z3.Z3_OP_BADD:
        B64 = z3.BitVecSort(64)
        d = {}
        for f in ('rear', 'lost'):
            d[f] = z3.Function('%s after%s' % (f, tag), B64, B64)(k)
        for f in list(w.size) + ['pay']:
            n = 1 if f == 'pay' else w.size[f]
            u = z3.Function('%s after%s' % (f, tag), B64, B64, z3.BitVecSort(8 * n))
            d[f] = Log.base(lambda i, u=u: u(k, bv(i, 64)), n)
        return d
    p = z3.simplify(sub(k, 1))
    return step(ex, st, w, at(ex, st, w, d0, p, tag), p)


def loop_slices(w):
    def go(L, S, k):
        ex = L.ex
        d = at(ex, S, w(), now(ex, L.st, w()), k)
        put(ex, S, w(), d)
        mx = zext(ex.get(S, w().q, Q, 'max'), 32, 64)
        return [('rear inside the ring', ult(d['rear'], mx, 64)), ('no more than the slices', ule(k, zext(w().n, 32, 64), 64))]
    return go


def s_push(w):
    def go(S, q, slices, n):
        ex, st = S.ex, S.st
        S.require(ule(n, SLICES), 'at most 16 slices')
        S.require(p01.inv(S.get(q, Q, 'max'), S.get(q, Q, 'rear'), S.get(q, Q, 'front')))
        S.require(eq(n, w().n), 'the frame\'s slices')
        d = at(ex, st, w(), now(ex, st, w()), zext(n, 32, 64))
        put(ex, st, w(), d)
        S.ensure(ult(d['rear'], zext(S.get(q, Q, 'max'), 32, 64), 64))
        S.done()
    return go


def s_addFrame(w):
    def go(S, ret, q):
        ex = S.ex
        S.require(p01.inv(S.get(q, Q, 'max'), S.get(q, Q, 'rear'), S.get(q, Q, 'front')))
        d = at(ex, S.st, w(), now(ex, S.st, w()), zext(w().n, 32, 64))
        put(ex, S.st, w(), d)
        S.put(w().f, SV, 'pointedSliceNum', 0)
        oid, n = p01.reader_ids(S, q)
        ids = ex.arr_log(S.st, oid, 0, 4)
        v = ex.new_arr(S.st, 'ids', 4, n)
        S.st.mem[v.id][0] = ids
        stdmodel.set_vec(ex, S.st, ret, v.id, n)
        S.done()
    return go


def s_getRear(S, q):
    mx, rear, front, cnt, frames = p01.view(S, q)
    S.require(p01.inv(S.get(q, Q, 'max'), rear, front))
    for T, full in S.split(eq(cnt, sub(mx, 1))):
        T.done(NULL if full else T.get(q, Q, 'inputFrame', True))


def s_forceGetRear(S, q):
    S.done(S.get(q, Q, 'inputFrame', True))


def s_clear(S, f):
    S.put(f, SV, 'pointedSliceNum', 0)
    S.done()


def s_setSlice(w):
    def go(S, f, data, n):
        num = S.get(f, SV, 'pointedSliceNum')
        S.require(ule(num, SLICES), 'at most 16 slices')
        for T, full in S.split(eq(num, SLICES)):
            if not full:
                c = T.st.cells(w().sl.obj)
                i = zext(num, 32, 64)
                so = w().soff
                c[so['data']] = c[so['data']].store(i, data)
                c[so['dataSize']] = c[so['dataSize']].store(i, n)
                T.put(f, SV, 'pointedSliceNum', add(num, 1, 32))
            T.done(not full)
    return go


# ---- set up: every slot a frame of the slice capacity
def setup_world(V):
    ex = V.ex
    st = V.state()
    q = V.obj(st, 'class.' + Q, 'queue', cname=Q)
    V.vptr(st, q, Q)
    si = V.obj(st, 'struct.StreamInfo', 'stream')
    ex.put(st, q, 'FrameQueue', 'streamInfo', si)
    st.assume(ule(ex.get(st, q, Q, 'max'), 250))
    fr = ex.canon(ex.fptr(q, Q, 'frames'))
    st.cells(fr.obj)[0] = Log.base(lambda i: NULL, 8)
    V.fam = V.array(st, 'Frame', 1, 250)
    V.cnt = V.rawout(st, 8, 'frames made')
    ex.objs[V.cnt.obj].info = None
    st.cells(V.cnt.obj)[0] = (8, 0)
    V.sliced = V.obj(st, 'class.' + SV, 'sliced frame', cname=SV)
    V.cap = V.bv('slice capacity')
    V.codec = ex.get(st, si, 'StreamInfo', 'video.codec')
    yield '', st, [q, V.cap]


def c_setup(V):
    def go(S, q, cap):
        ex = S.ex
        mx = zext(S.get(q, Q, 'max'), 32, 64)
        fr = ex.canon(ex.fptr(q, Q, 'frames'))
        S.st.cells(fr.obj)[0] = S.st.mem[fr.obj][0].fill(0, mx, lambda i: Ptr(V.fam, i, 0))
        S.st.cells(V.cnt.obj)[0] = (8, mx)
        S.put(q, Q, 'inputFrame', V.sliced)
        S.done(True)
    return go


def made(V):
    def go(S, codec, n):
        S.require(land(eq(codec, V.codec), eq(n, V.cap)), 'a frame of the stream\'s codec and the slice capacity')
        k = S.ex.raw_load(S.st, V.cnt, 8)
        S.st.cells(V.cnt.obj)[0] = (8, add(k, 1))
        S.done(Ptr(V.fam, k, 0))
    return go


def made_sliced(V):
    def go(S, codec):
        S.require(eq(codec, V.codec), 'a frame of the stream\'s codec')
        S.done(V.sliced)
    return go


def loop_setup(V):
    def go(L, S, k):
        ex = L.ex
        q = L.this()
        fr = ex.canon(ex.fptr(q, Q, 'frames'))
        S.cells(fr.obj)[0] = L.st.mem[fr.obj][0].fill(0, k, lambda i: Ptr(V.fam, i, 0))
        S.cells(V.cnt.obj)[0] = (8, k)
        return [('one frame per slot', ule(k, zext(ex.get(L.st, q, Q, 'max'), 32, 64), 64))]
    return go


def lemma(V):
    """what one slice does, in the words of the property"""
    ex = V.ex
    st = V.state()
    w = W(V, st)
    d = now(ex, st, w)
    k = V.bv('slice', 64)
    st.assume(ult(k, zext(w.n, 32, 64), 64))
    e = step(ex, st, w, d, k)
    mx = zext(ex.get(st, w.q, Q, 'max'), 32, 64)
    front = ex.get(st, w.q, Q, 'front')
    cnt = lambda r: itew(ule(front, r, 64), sub(r, front), sub(add(r, mx), front), 64)
    c0, c1 = cnt(d['rear']), cnt(e['rear'])
    n = zext(w.slen.read(k), 32, 64)
    fits = ule(n, w.cap, 64)
    room = ult(c0, sub(mx, 1), 64)
    j, o = V.bv('older', 64), V.bv('byte', 64)
    slot = lambda i: p01.wrap(add(front, i), mx)
    last = slot(sub(c1, 1))

    def go(cond, c, name):
        s = st.fork()
        s.assume(cond)
        V.check(s, c, name)
    go(land(fits, room), eq(c1, add(c0, 1)), 'room: one more queued')
    go(land(fits, lnot(room)), land(eq(c1, c0), eq(e['lost'], add(d['lost'], 1))), 'full: the newest is replaced and counted as lost')
    go(land(fits, room), eq(e['lost'], d['lost']), 'room: nothing lost')
    go(lnot(fits), land(eq(c1, c0), eq(e['rear'], d['rear']), eq(e['lost'], d['lost'])), 'too big: nothing queued')
    go(land(lnot(fits), ult(o, 250 << SEG, 64)), eq(e['pay'].read(o), d['pay'].read(o), 8), 'too big: nothing copied')
    go(land(fits, ult(o, n, 64)), eq(e['pay'].read(add(shl(last, SEG), o)), w.src.read(add(shl(k, SRCSEG), o)), 8), 'the newest element holds the slice')
    go(fits, eq(zext(e['bufferLen'].read(last), 32, 64), n), 'and has its length')
    for f in META:
        go(fits, eq(e[f].read(last), ex.get(st, w.f, SV, f), 8 * w.size[f]), 'and the frame\'s ' + f)
    older = land(ult(j, sub(c1, 1), 64))
    seg = land(ule(1, c1, 64), fits, older, ult(o, 1 << SEG, 64))
    go(seg, eq(e['pay'].read(add(shl(slot(j), SEG), o)), d['pay'].read(add(shl(slot(j), SEG), o)), 8), 'older elements keep their bytes')
    for f in META + ['bufferLen']:
        go(seg, eq(e[f].read(slot(j)), d[f].read(slot(j)), 8 * w.size[f]), 'and their ' + f)
    V.cover(st, land(fits, lnot(room)), 'full')
    V.cover(st, lnot(fits), 'too big')


def run(V):
    ex = V.ex
    box = {}
    w = lambda: box['w']

    def world(args):
        def go(_):
            st = V.state()
            box['w'] = W(V, st)
            yield '', st, args(st)
        return go
    ex.loopspecs[(Q + '::pushBackSliceGroup', 0)] = loop_slices(w)
    ex.loopspecs[(Q + '::addFrame', 0)] = p01.loop_ids
    ex.loopspecs[(Q + '::setup', 0)] = loop_setup(V)
    V.prove(Q + '::pushBackSliceGroup', s_push(w), world(lambda st: [w().q, w().sl, w().n]))
    V.prove(Q + '::getRear()', s_getRear, world(lambda st: [w().q]))
    V.prove(Q + '::forceGetRear()', s_forceGetRear, world(lambda st: [w().q]))
    V.prove(SV + '::setSlice', s_setSlice(w), world(lambda st: [w().f, Ptr(w().sdata.obj, V.bv('at', 64), 0), V.bv('length')]))
    V.prove(SV + '::clear', s_clear, world(lambda st: [w().f]))
    V.use(Q + '::pushBackSliceGroup', s_push(w))
    V.prove(Q + '::addFrame()', s_addFrame(w), world(lambda st: [V.rawout(st, 24), w().q]))
    V.use(IV + '::createNew(VCodecType, unsigned int)', made(V))
    V.use(SV + '::createNew', made_sliced(V))
    V.prove(Q + '::setup', c_setup(V), setup_world)
    V.unit('one slice', lambda: lemma(V))
    V.assume_note('slice capacities up to 16 MB; all slots have the capacity the queue was set up with (proved of setup)')


NATIVE = {'driver': 'p04.cpp', 'sources': ['src/SlicedVideoFrameQueue.cpp', 'src/AVFramedQueue.cpp', 'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp'],
          'libs': ['-llog4cplus', '-lavcodec', '-lavutil', '-lavformat']}
