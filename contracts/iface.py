"""The two ends of a queue: contracts of Reader and Writer (P05, P06)."""
from verify import *
from quant import *

SRC = ['src/IOInterface.cpp', 'src/Frame.cpp', 'src/AVFramedQueue.cpp', 'src/VideoFrame.cpp']
R, WR, Q = 'Reader', 'Writer', 'AVFramedQueue'
MAP = 'std::map<int, std::pair<bool, bool>>'
STATS = ['avgDelay', 'delay', 'lastTs', 'timeCounter', 'frameCounter']
BIG = 1 << 59


class World:
    """a reader on a queue (None, connected or abandoned by the writer) with or without a frame handed out"""
    def __init__(self, V, st, queue, held, name='reader'):
        ex = self.ex = V.ex
        self.V = V
        self.r = r = V.obj(st, 'class.Reader', name, cname=R)
        self.mi = mi = stdmodel.mapinfo_of(ex, MAP)
        self.filters = ex.fptr(r, R, 'filters')
        n = V.bv('consumers', 64)
        st.assume(ule(n, 1 << 31, 64))
        m = stdmodel.new_map(ex, st, mi, n, 'sym', 'filters')
        m.pre = True
        stdmodel.set_map(ex, st, self.filters, m.id, n)
        self.map = m.id
        c = st.cells(m.id)
        f1, f2 = z3.Function('unread', z3.BitVecSort(64), z3.BoolSort()), z3.Function('unreleased', z3.BitVecSort(64), z3.BoolSort())
        # an unread frame is unreleased
        c[mi.second] = Log.base(lambda i: zext(f1(bv(i, 64)), 1, 8), 1)
        c[mi.second + 1] = Log.base(lambda i: zext(z3.Or(f1(bv(i, 64)), f2(bv(i, 64))), 1, 8), 1)
        e = stdmodel.enum(ex, st, self.filters)
        self.q = NULL
        if queue:
            self.q = q = V.obj(st, 'class.AVFramedQueue', 'queue', cname=Q)
            V.vptr(st, q, Q)
            ex.raw_store(st, ex.fptr(q, Q, 'connected'), 1, 1 if queue == 'connected' else 0)
            k = V.bv('registered', 64)
            st.assume(ule(k, 1 << 31, 64))
            self.list = V.seq(st, ex.fptr(q, Q, 'connectionData.readers'), 'readers', 'struct.ReaderData', k)
            for off in (0, 4):
                ex.arr_log(st, self.list, off, 4)
        ex.put(st, r, R, 'queue', self.q)
        self.fam = V.array(st, 'frames of the queue', 'class.InterleavedVideoFrame', 1 << 40)
        self.last = V.array(st, 'frames removed earlier', 'class.InterleavedVideoFrame', 1 << 40)
        for a in (self.fam, self.last):
            st.cells(a)[0] = Log.const(ex.vtable('InterleavedVideoFrame'), 8)
        self.taken = V.rawout(st, 8, 'frames taken from the queue')
        ex.objs[self.taken.obj].info = None
        t = V.bv('taken', 64)
        st.assume(ult(t, 1 << 39, 64))
        st.cells(self.taken.obj)[0] = (8, t)
        ex.put(st, r, R, 'frame', self.front(st) if held else NULL)
        ex.raw_store(st, ex.fptr(r, R, 'ready'), 1, 0 if held else 1)
        if held:
            # somebody has not released it
            self.w = V.bv('who still holds it', 64)
            st.assume(self.has(st, self.w), self.unreleased(st, self.w), e.canon(self.w), ult(e.pos(self.w), n, 64))
        for f in STATS:
            x = ex.get(st, r, R, f)
            st.assume(sle(-BIG, x, 64), sle(x, BIG, 64))
        st.assume(sle(0, ex.get(st, r, R, 'frameCounter'), 64))
        fld = lambda f: ex.fptr(Ptr(self.fam, 0, 0), 'Frame', f).off
        for i in (self.fam, self.last):
            for f in ('presentationTime', 'decodeTime', 'originTime'):
                g = z3.Function('%s%d' % (f, i == self.fam), z3.BitVecSort(64), z3.BitVecSort(56))
                st.cells(i)[fld(f)] = Log.base(lambda j, g=g: sext(g(bv(j, 64)), 56, 64), 8)

    def second(self, st):
        """another queue, with at least one consumer"""
        V, ex = self.V, self.ex
        q = V.obj(st, 'class.AVFramedQueue', 'queue offered', cname=Q)
        V.vptr(st, q, Q)
        ex.raw_store(st, ex.fptr(q, Q, 'connected'), 1, 0)
        k = V.bv('registered there', 64)
        st.assume(ule(k, 1 << 31, 64), ult(0, k, 64))
        oid = V.seq(st, ex.fptr(q, Q, 'connectionData.readers'), 'readers there', 'struct.ReaderData', k)
        for off in (0, 4):
            ex.arr_log(st, oid, off, 4)
        return q

    def front(self, st):
        return Ptr(self.fam, st.mem[self.taken.obj][0][1], 0)

    def has(self, st, K):
        return stdmodel.map_has(self.ex, st, stdmodel.mp(self.ex, st, self.filters)[0], K)

    def log(self, st, off):
        return st.mem[stdmodel.mp(self.ex, st, self.filters)[0]][self.mi.second + off]

    def unread(self, st, K):
        return ne(self.log(st, 0).read(K), 0, 8)

    def unreleased(self, st, K):
        return ne(self.log(st, 1).read(K), 0, 8)

    def set(self, st, off, K, v):
        oid = stdmodel.mp(self.ex, st, self.filters)[0]
        c = st.cells(oid)
        c[self.mi.second + off] = c[self.mi.second + off].store(K, v)

    def key(self, fid):
        return sext(fid, 32, 64)

    def alldone(self, st):
        f, g, fl = self.log(st, 0), self.log(st, 1), st.mem[stdmodel.mp(self.ex, st, self.filters)[0]][self.mi.flag]
        return memo(self.ex, ('done', f, g, fl), lambda: ForAll(self.ex, lambda K: implies(ne(fl.read(K), 0, 8), land(eq(f.read(K), 0, 8), eq(g.read(K), 0, 8))), 'all released'))

    def match(self, st, fid):
        o = stdmodel.lst(self.ex, st, self.ex.fptr(self.q, Q, 'connectionData.readers'))
        lg = self.ex.arr_log(st, o[0], 0, 4)
        F = memo(self.ex, ('first', lg, o[1], fid), lambda: First(self.ex, o[1], lambda j: eq(lg.read(j), fid, 32), 'registered'))
        return o[0], o[1], F

    def connected(self, st):
        return not is_null(self.q) and self.ex.raw_load(st, self.ex.fptr(self.q, Q, 'connected'), 1) == 1


def invariant(S, w, K):
    """K: any consumer.  No frame is handed out exactly when ready; a handed out frame is the oldest of the queue and
    somebody has yet to release it; who has not read it has not released it"""
    ex, st = S.ex, S.st
    fr = S.get(w.r, R, 'frame', True)
    ready = ex.raw_load(st, ex.fptr(w.r, R, 'ready'), 1)
    return fr, ready


class Box:
    w = None


def held(V, box, args, queues=('connected', 'abandoned'), frames=(False, True)):
    def go(_):
        for q in queues:
            for h in frames if q else (False,):
                st = V.state()
                box.w = World(V, st, q, h)
                yield '%s queue%s' % (q or 'no', ', a frame handed out' if h else ''), st, args(box.w, st)
    return go


# ---- sharing
def s_getFront(box):
    def go(S, q):
        w = box.w
        for T, some in S.split(z3.Bool('a frame is queued')):
            T.done(w.front(T.st) if some else NULL)
    return go


def s_forceGetFront(box):
    def go(S, q):
        S.done(Ptr(box.w.last, z3.BitVec('newest removed', 64), 0))
    return go


def s_qremove(box):
    def go(S, q):
        w = box.w
        t = S.st.mem[w.taken.obj][0][1]
        S.st.cells(w.taken.obj)[0] = (8, add(t, 1))
        S.done(z3.BitVec('producer', 32))
    return go


def s_getFrame(box):
    def go(S, r, fid, new):
        w = box.w
        ex = S.ex
        if is_null(w.q) or not w.connected(S.st):
            S.done(NULL)
            return
        K = w.key(fid)
        for T, reg in S.split(w.has(S.st, K)):
            if not reg:
                T.done(NULL)
                continue
            out = [(T, True)]
            if is_null(T.get(r, R, 'frame', True)):
                out = T.split(z3.Bool('a frame is queued'))
            for U, some in out:
                if not some:
                    ex.raw_store(U.st, new, 1, 0)
                    U.done(Ptr(w.last, z3.BitVec('newest removed', 64), 0))
                    continue
                fresh = is_null(U.get(r, R, 'frame', True))
                if fresh:
                    # a new frame: everybody registered now has to read and release it
                    everyone(U.st, w, U.st)
                    U.put(r, R, 'frame', w.front(U.st))
                    ex.raw_store(U.st, ex.fptr(r, R, 'ready'), 1, 0)
                ex.raw_store(U.st, new, 1, zext(w.unread(U.st, K), 1, 8))
                w.set(U.st, 0, K, 0)
                holder = K if fresh else w.w
                U.ensure(land(w.has(U.st, holder), w.unreleased(U.st, holder)))
                A = z3.BitVec('any consumer', 64)
                U.ensure(implies(land(w.has(U.st, A), w.unread(U.st, A)), w.unreleased(U.st, A)))
                U.done(w.front(U.st))
    return go


def everyone(st, w, src, upto=None, e=None):
    """the flags of all registered consumers (of the first upto ones) are raised"""
    oid = stdmodel.mp(w.ex, st, w.filters)[0]
    c = st.cells(oid)
    fl = c[w.mi.flag]
    for off in (0, 1):
        old = c[w.mi.second + off]
        if upto is None:
            c[w.mi.second + off] = Log.base(lambda i, old=old: itew(ne(fl.read(i), 0, 8), 1, old.read(i), 8), 1)
        else:
            c[w.mi.second + off] = Log.base(lambda i, old=old: itew(e.before(i, upto), 1, old.read(i), 8), 1)


def loop_raise(box):
    def go(L, S, k):
        w = box.w
        e = stdmodel.enum(L.ex, L.st, w.filters)
        everyone(S, w, L.st, k, e)
        return [('within the consumers', ule(k, e.n, 64))]
    return go


def s_allRead(box):
    def go(S, r):
        S.done(box.w.alldone(S.st).value)
    return go


def loop_all(box):
    def go(L, S, k):
        w = box.w
        ex = L.ex
        e = stdmodel.enum(ex, L.st, w.filters)
        D = box.D = w.alldone(L.st)
        D.inst(e.key(k))
        if not isinstance(k, int) or k:
            D.inst(e.key(sub(k, 1)))
        W = D.witness
        return [('within the consumers', ule(k, e.n, 64)),
                ('nobody before holds the frame', lnot(land(e.before(W, k), lnot(land(lnot(w.unread(L.st, W)), lnot(w.unreleased(L.st, W)))))))]
    return go


def s_measure(S, r):
    S.require(not is_null(S.get(r, R, 'frame', True)), 'a frame is handed out')
    for f in STATS:
        S.put(r, R, f, ANY)
    S.done()


def release(S, w, r):
    """the frame leaves the queue if nobody holds it any more"""
    D = w.alldone(S.st)
    for T, gone in S.split(D.value):
        if gone:
            for f in STATS:
                T.put(r, R, f, ANY)
            T.put(r, R, 'frame', NULL)
            T.ex.raw_store(T.st, T.ex.fptr(r, R, 'ready'), 1, 1)
            t = T.st.mem[w.taken.obj][0][1]
            T.st.cells(w.taken.obj)[0] = (8, add(t, 1))
        yield T, gone


def s_removeFrame(box):
    def go(S, r, fid):
        w = box.w
        K = w.key(fid)
        if is_null(S.get(r, R, 'frame', True)):
            S.done(0xffffffff)
            return
        for T, reg in S.split(w.has(S.st, K)):
            if not reg:
                T.done(0xffffffff)
                continue
            T.require(lnot(w.unread(T.st, K)), 'only what was read is released')
            w.set(T.st, 1, K, 0)
            for U, gone in release(T, w, r):
                A = z3.BitVec('any consumer', 64)
                if not gone:
                    U.ensure(implies(land(w.has(U.st, A), w.unread(U.st, A)), w.unreleased(U.st, A)))
                U.done(z3.BitVec('producer', 32) if gone else 0xffffffff)
    return go


# ---- registration
def s_addCData(box):
    def go(S, q, fid, rid):
        w = box.w
        oid, n, F = w.match(S.st, fid)
        for T, there in S.split(F.found):
            if not there:
                ex = T.ex
                ex.raw_store(T.st, Ptr(oid, n, 0), 4, fid)
                ex.raw_store(T.st, Ptr(oid, n, 4), 4, rid)
                stdmodel.set_lst(ex, T.st, ex.fptr(q, Q, 'connectionData.readers'), oid, add(n, 1))
            T.done(not there)
    return go


def loop_search(box, fid):
    """the first k registrations are others"""
    def go(L, S, k):
        w = box.w
        oid, n, F = w.match(L.st, fid(L))
        F.inst(k, sub(k, 1))
        return [('within the list', ule(k, n, 64)), ('not passed it', ule(k, F.end, 64))]
    return go


def s_removeCData(box):
    def go(S, q, fid):
        w = box.w
        ex = S.ex
        oid, n, F = w.match(S.st, fid)
        for T, there in S.split(F.found):
            if there:
                stdmodel.shift_out(ex, T.st, oid, F.at, n)
                stdmodel.set_lst(ex, T.st, ex.fptr(q, Q, 'connectionData.readers'), oid, sub(n, 1))
            T.done(there)
    return go


def s_addReader(box):
    def go(S, r, fid, rid):
        w = box.w
        ex = S.ex
        if is_null(w.q) or not w.connected(S.st):
            S.done()
            return
        K = w.key(fid)
        oid, n, F = w.match(S.st, fid)
        S.require(implies(w.has(S.st, K), F.found), 'who is registered with the reader is in the queue\'s list')
        for T, there in S.split(F.found):
            if not there:
                ex.raw_store(T.st, Ptr(oid, n, 0), 4, fid)
                ex.raw_store(T.st, Ptr(oid, n, 4), 4, rid)
                stdmodel.set_lst(ex, T.st, ex.fptr(w.q, Q, 'connectionData.readers'), oid, add(n, 1))
                stdmodel.map_insert(ex, T.st, w.filters, w.mi, K)
                w.set(T.st, 0, K, 0)
                w.set(T.st, 1, K, 0)
            T.done()
    return go


# ---- the end of a connection
def s_destroy(box):
    """a queue is destroyed: never twice"""
    def go(S, q):
        S.require(S.st.mem.get(q.obj) != 'FREED', 'not destroyed before')
        S.st.mem[q.obj] = 'FREED'
        S.done()
    return go


def leave_queue(S, w, r):
    """one end is given up: the first to leave marks the queue, the second destroys it"""
    ex = S.ex
    if is_null(w.q):
        return False
    if w.connected(S.st):
        ex.raw_store(S.st, ex.fptr(w.q, Q, 'connected'), 1, 0)
    else:
        S.st.mem[w.q.obj] = 'FREED'
    S.put(r, R, 'queue', NULL)
    S.put(r, R, 'frame', NULL)
    ex.raw_store(S.st, ex.fptr(r, R, 'ready'), 1, 1)
    return True


def s_disconnectQueue(box):
    def go(S, r):
        S.done(leave_queue(S, box.w, r))
    return go


def s_disconnect(box):
    def go(S, r, fid):
        w = box.w
        ex = S.ex
        K = w.key(fid)
        for T, reg in S.split(w.has(S.st, K)):
            if not reg:
                T.done(False)
                continue
            n = stdmodel.mp(ex, T.st, w.filters)[1]
            e = stdmodel.enum(ex, T.st, w.filters)
            e.pos(K)
            stdmodel.map_erase(ex, T.st, w.filters, w.mi, K)
            outs = [(T, None)]
            if not is_null(w.q):
                oid, k, F = w.match(T.st, fid)
                outs = list(T.split(F.found))
                for U, there in outs:
                    if there:
                        stdmodel.shift_out(ex, U.st, oid, F.at, k)
                        stdmodel.set_lst(ex, U.st, ex.fptr(w.q, Q, 'connectionData.readers'), oid, sub(k, 1))
            for U, _ in outs:
                for X, more in U.split(ult(1, n, 64)):
                    if not more:
                        X.done(leave_queue(X, w, r))
                        continue
                    if is_null(X.get(r, R, 'frame', True)):
                        X.done(True)
                        continue
                    for Y, gone in release(X, w, r):
                        Y.done(True)
    return go


def attach(S, w, q):
    """the reader refers to q from now on and knows its first consumer"""
    ex = S.ex
    if w.connected(S.st):
        return
    if not is_null(w.q) and q.obj != w.q.obj:
        leave_queue(S, w, w.r)
    S.put(w.r, R, 'queue', q)
    oid, n = stdmodel.lst(ex, S.st, ex.fptr(q, Q, 'connectionData.readers'))
    S.require(ne(n, 0, 64), 'the queue has a consumer')
    K = w.key(ex.raw_load(S.st, Ptr(oid, 0, 0), 4))
    stdmodel.map_insert(ex, S.st, w.filters, w.mi, K)
    w.set(S.st, 0, K, 0)
    w.set(S.st, 1, K, 0)


def s_setConnection(box):
    def go(S, r, q):
        if not is_null(q):
            attach(S, box.w, q)
        S.done()
    return go
