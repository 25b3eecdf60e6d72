"""P06: a queue is destroyed exactly once, by whichever end leaves last."""
from iface import *

ENDS = (None, 'connected', 'abandoned')


def writer(V, box, args=lambda w, st: [w.wr], qs=ENDS):
    def go(_):
        for q in qs:
            st = V.state()
            box.w = World(V, st, q, False)
            w = V.obj(st, 'class.Writer', 'writer', cname=WR)
            V.ex.put(st, w, WR, 'queue', box.w.q)
            box.w.wr = w
            yield '%s queue' % (q or 'no'), st, args(box.w, st)
    return go


def quit_queue(S, w, wr):
    """the writer's end: the first to leave marks the queue, the second destroys it"""
    ex = S.ex
    if is_null(w.q):
        return False
    if w.connected(S.st):
        ex.raw_store(S.st, ex.fptr(w.q, Q, 'connected'), 1, 0)
    else:
        S.st.mem[w.q.obj] = 'FREED'
    S.put(wr, WR, 'queue', NULL)
    return True


def s_wdisconnect(box):
    def go(S, wr, *a):
        S.done(quit_queue(S, box.w, wr))
    return go


def s_wend(box):
    def go(S, wr):
        quit_queue(S, box.w, wr)
        S.done()
    return go


def s_rend(box):
    def go(S, r):
        leave_queue(S, box.w, r)
        S.st.mem[stdmodel.mp(S.ex, S.st, box.w.filters)[0]] = 'FREED'
        S.done()
    return go


def s_connect(box):
    """the reader refers to the writer's queue, which is connected then"""
    def go(S, wr, sp):
        w = box.w
        ex = S.ex
        if is_null(w.own):
            S.done(False)
            return
        attach(S, w, w.own)
        ex.raw_store(S.st, ex.fptr(w.own, Q, 'connected'), 1, 1)
        S.done(True)
    return go


def s_setQueue(S, wr, q):
    S.put(wr, WR, 'queue', q)
    S.done()


def run(V):
    ex = V.ex
    box = Box()
    A = lambda *names: (lambda w, st: [w.r] + [V.bv(n) for n in names])
    ex.loopspecs[(R + '::allRead', 0)] = loop_all(box)
    ex.loopspecs[('FrameQueue::removeReaderCData', 0)] = loop_search(box, lambda L: L.arg(1))
    V.prove('FrameQueue::removeReaderCData', s_removeCData(box), held(V, box, lambda w, st: [w.q, V.bv('filter')]), name='FrameQueue::removeReaderCData (shared list)')
    V.use('FrameQueue::removeReaderCData', s_removeCData(box))
    V.use(R + '::allRead()', s_allRead(box))
    V.use(R + '::measureDelay()', s_measure)
    V.use(Q + '::removeFrame()', s_qremove(box))
    V.use('~delete:AVFramedQueue', s_destroy(box))
    V.prove(R + '::disconnectQueue', s_disconnectQueue(box), held(V, box, A(), queues=ENDS))
    V.prove(R + '::disconnect', s_disconnect(box), held(V, box, A('filter'), queues=ENDS))
    V.prove(R + '::~Reader', s_rend(box), held(V, box, A(), queues=ENDS))
    V.prove(WR + '::disconnect() const', s_wdisconnect(box), writer(V, box))
    V.prove(WR + '::disconnect(std::shared_ptr<Reader>) const', s_wdisconnect(box), writer(V, box, lambda w, st: [w.wr, shared(V, st, w.r)]))
    V.prove(WR + '::~Writer', s_wend(box), writer(V, box))
    V.prove(WR + '::setQueue', s_setQueue, writer(V, box, lambda w, st: [w.wr, w.q]))

    def fresh(_):
        for q in ENDS:
            for h in ((False, True) if q else (False,)):
                for new in (None, 'new', 'same'):
                    if new == 'same' and not q:
                        continue
                    st = V.state()
                    w = box.w = World(V, st, q, h)
                    p = {None: NULL, 'same': w.q}.get(new) or None
                    if new == 'new':
                        p = w.second(st)
                    yield '%s queue%s, %s offered' % (q or 'no', ', a frame handed out' if h else '', {None: 'none', 'new': 'another', 'same': 'the same'}[new]), st, [w.r, p]
    V.prove(R + '::setConnection', s_setConnection(box), fresh)
    V.use(R + '::setConnection', s_setConnection(box))

    def joining(_):
        for q in (None, 'abandoned'):
            for h in ((False, True) if q else (False,)):
                for own in (False, True):
                    st = V.state()
                    w = box.w = World(V, st, q, h)
                    w.wr = V.obj(st, 'class.Writer', 'writer', cname=WR)
                    w.own = w.second(st) if own else NULL
                    ex.put(st, w.wr, WR, 'queue', w.own)
                    yield 'reader with %s queue%s, writer with %s queue' % (q or 'no', ', a frame handed out' if h else '', 'a' if own else 'no'), st, [w.wr, shared(V, st, w.r)]
    V.prove(WR + '::connect', s_connect(box), joining)


def shared(V, st, r):
    p = V.rawout(st, 16, 'reader handle')
    V.ex.objs[p.obj].info = None
    st.cells(p.obj)[0] = (8, r)
    st.cells(p.obj)[8] = (8, NULL)
    return p


NATIVE = {'driver': 'p06.cpp', 'sources': ['src/IOInterface.cpp', 'src/AVFramedQueue.cpp', 'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp'],
          'libs': ['-llog4cplus', '-lavcodec', '-lavutil']}
