"""P01: AVFramedQueue is a bounded FIFO."""
from verify import *

SRC = ['src/AVFramedQueue.cpp']
Q = 'AVFramedQueue'


def inv(mx, rear, front):
    m64 = zext(mx, 32, 64)
    return [ule(2, mx, 32), ule(mx, 250, 32), ult(rear, m64, 64), ult(front, m64, 64)]


def queue(V, st, name='q'):
    ex = V.ex
    q = V.obj(st, 'class.AVFramedQueue', name)
    V.vptr(st, q, Q)
    fam = V.array(st, 'Frame', 1, 250)
    fr = ex.canon(ex.fptr(q, Q, 'frames'))
    st.cells(fr.obj)[0] = Log.base(lambda i: Ptr(fam, i, 0), 8)
    n = z3.BitVec('nreaders', 64)
    st.assume(ule(n, 1 << 32, 64))
    V.seq(st, ex.fptr(q, Q, 'connectionData.readers'), 'readers', 8, n)
    mx, rear, front = (ex.get(st, q, Q, f) for f in ('max', 'rear', 'front'))
    st.assume(*inv(mx, rear, front))
    return q


def view(S, q):
    """(capacity, index of oldest, number unread, slot -> frame)"""
    ex, st = S.ex, S.st
    mx = zext(ex.get(st, q, Q, 'max'), 32, 64)
    rear, front = ex.get(st, q, Q, 'rear'), ex.get(st, q, Q, 'front')
    cnt = itew(ule(front, rear, 64), sub(rear, front), sub(add(rear, mx), front), 64)
    fr = ex.canon(ex.fptr(q, Q, 'frames'))
    frames = st.mem[fr.obj][0]
    return mx, rear, front, cnt, frames


def wrap(i, mx):
    """i mod mx for i < 2 mx"""
    return itew(ult(i, mx, 64), i, sub(i, mx), 64)


def s_getRear(S, q):
    mx, rear, front, cnt, frames = view(S, q)
    S.require(inv(S.get(q, Q, 'max'), rear, front))
    for T, full in S.split(eq(cnt, sub(mx, 1))):
        T.done(NULL if full else frames.read(rear))


def s_getFront(S, q):
    mx, rear, front, cnt, frames = view(S, q)
    S.require(inv(S.get(q, Q, 'max'), rear, front))
    for T, empty in S.split(eq(cnt, 0)):
        T.done(NULL if empty else frames.read(front))


def reader_ids(S, q):
    ex = S.ex
    oid, n = stdmodel.lst(ex, S.st, ex.fptr(q, Q, 'connectionData.readers'))
    return oid, n


def s_addFrame(S, ret, q):
    ex = S.ex
    mx, rear, front, cnt, frames = view(S, q)
    S.require(inv(S.get(q, Q, 'max'), rear, front))
    oid, n = reader_ids(S, q)
    ids = ex.arr_log(S.st, oid, 0, 4)
    v = ex.new_arr(S.st, 'ids', 4, n)
    S.st.mem[v.id][0] = ids
    stdmodel.set_vec(ex, S.st, ret, v.id, n)
    for T, full in S.split(eq(cnt, sub(mx, 1))):
        if not full:
            T.put(q, Q, 'rear', wrap(add(rear, 1), mx))
        T.done()


def s_removeFrame(S, q):
    mx, rear, front, cnt, frames = view(S, q)
    S.require(inv(S.get(q, Q, 'max'), rear, front))
    for T, empty in S.split(eq(cnt, 0)):
        if empty:
            T.done(0xffffffff)
        else:
            T.put(q, Q, 'front', wrap(add(front, 1), mx))
            T.done(T.get(q, Q, 'connectionData.wFilterId'))


def s_getElements(S, q):
    mx, rear, front, cnt, frames = view(S, q)
    S.require(inv(S.get(q, Q, 'max'), rear, front))
    S.done(trunc(cnt, 64, 32))


def s_doFlush(S, q):
    mx, rear, front, cnt, frames = view(S, q)
    S.require(inv(S.get(q, Q, 'max'), rear, front))
    S.require(ne(cnt, 0), 'something to flush')
    S.put(q, Q, 'rear', wrap(sub(add(rear, mx), 1), mx))
    S.done()


def s_forceGetRear(S, q):
    """a full queue loses exactly its newest frame, whose slot is handed out for overwriting"""
    mx, rear, front, cnt, frames = view(S, q)
    S.require(inv(S.get(q, Q, 'max'), rear, front))
    for T, full in S.split(eq(cnt, sub(mx, 1))):
        if not full:
            T.done(frames.read(rear))
        else:
            last = wrap(sub(add(rear, mx), 1), mx)
            T.put(q, Q, 'rear', last)
            T.put(q, Q, 'lostBlocs', add(T.get(q, Q, 'lostBlocs'), 1))
            T.done(frames.read(last))


def s_forceGetFront(S, q):
    """the most recently removed frame's slot"""
    mx, rear, front, cnt, frames = view(S, q)
    S.require(inv(S.get(q, Q, 'max'), rear, front))
    S.done(frames.read(wrap(sub(add(front, mx), 1), mx)))


def loop_ids(L, S, k):
    """addFrame collects the ids of the first k readers"""
    ex = L.ex
    q = L.this()
    oid, n = stdmodel.lst(ex, S, ex.fptr(q, Q, 'connectionData.readers'))
    ret = L.arg(0)
    v, n0 = stdmodel.vec(ex, L.st, ret)
    ids = ex.arr_log(S, oid, 0, 4)
    own = ex.arr_log(S, v, 0, 4)
    stdmodel.set_vec(ex, S, ret, v, add(n0, k))
    S.cells(v)[0] = own.fill(n0, k, lambda i: ids.read(i))
    return [('at most one id per reader', ule(k, n, 64))]


def setup(V):
    st = V.state()
    q = queue(V, st)
    yield '', st, [q]


def setup_ret(V):
    st = V.state()
    q = queue(V, st)
    r = V.rawout(st, 24)
    yield '', st, [r, q]


def lemma_fifo(V):
    """the contracts compose to a FIFO: add appends the slot obtained from getRear, remove drops the oldest"""
    st = V.state()
    q = queue(V, st)
    S = Spec(V.ex, st, [q], [], True)
    mx, rear, front, cnt, frames = view(S, q)
    V.check(st, ult(cnt, mx, 64), 'never more than capacity-1 unread')
    j = z3.BitVec('j', 64)
    slot = lambda f, i: wrap(add(f, i), mx)
    # add
    a = st.fork()
    a.assume(ne(cnt, sub(mx, 1)))
    r2 = wrap(add(rear, 1), mx)
    cnt2 = itew(ule(front, r2, 64), sub(r2, front), sub(add(r2, mx), front), 64)
    V.check(a, eq(cnt2, add(cnt, 1)), 'add: one more unread frame')
    V.check(a, eq(slot(front, cnt), rear), 'add: the new last frame is the slot handed out')
    b = a.fork()
    b.assume(ult(j, cnt, 64))
    V.check(b, ne(slot(front, j), rear), 'add: the slot handed out holds no unread frame')
    # remove
    c = st.fork()
    c.assume(ne(cnt, 0))
    f2 = wrap(add(front, 1), mx)
    cnt3 = itew(ule(f2, rear, 64), sub(rear, f2), sub(add(rear, mx), f2), 64)
    V.check(c, eq(cnt3, sub(cnt, 1)), 'remove: one less unread frame')
    d = c.fork()
    d.assume(ult(j, cnt3, 64))
    V.check(d, eq(slot(f2, j), slot(front, add(j, 1))), 'remove: the others keep their order')
    V.cover(st, eq(cnt, sub(mx, 1)), 'a full queue')
    V.cover(st, ult(rear, front, 64), 'a wrapped queue')


def run(V):
    V.ex.loopspecs[('AVFramedQueue::addFrame', 0)] = loop_ids
    V.prove('AVFramedQueue::getRear()', s_getRear, setup)
    V.prove('AVFramedQueue::getFront()', s_getFront, setup)
    V.prove('AVFramedQueue::addFrame()', s_addFrame, setup_ret)
    V.prove('AVFramedQueue::removeFrame()', s_removeFrame, setup)
    V.prove('AVFramedQueue::getElements() const', s_getElements, setup)
    V.helper('AVFramedQueue::doFlush()', s_doFlush, setup)
    V.use('AVFramedQueue::getRear()', s_getRear)
    V.prove('AVFramedQueue::forceGetRear()', s_forceGetRear, setup)
    V.prove('AVFramedQueue::forceGetFront()', s_forceGetFront, setup)
    V.unit('FIFO lemma', lambda: lemma_fifo(V))


NATIVE = {'driver': 'p01.cpp', 'sources': ['src/AVFramedQueue.cpp', 'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp'],
          'libs': ['-llog4cplus', '-lavcodec', '-lavutil', '-lavformat']}
