"""P05: every sharing consumer gets each frame once before it is released."""
import sys
from iface import *


def run(V):
    ex = V.ex
    box = Box()
    A = lambda *names: (lambda w, st: [w.r] + [V.bv(n) for n in names])
    ex.loopspecs[(R + '::getFrame', 0)] = loop_raise(box)
    ex.loopspecs[(R + '::allRead', 0)] = loop_all(box)
    ex.loopspecs[('FrameQueue::addReaderCData', 0)] = loop_search(box, lambda L: L.arg(1))
    ex.loopspecs[('FrameQueue::removeReaderCData', 0)] = loop_search(box, lambda L: L.arg(1))
    V.prove(R + '::allRead()', s_allRead(box), held(V, box, A()))
    V.prove(R + '::measureDelay()', s_measure, held(V, box, A(), frames=(True,)))
    V.prove('FrameQueue::addReaderCData', s_addCData(box), held(V, box, lambda w, st: [w.q, V.bv('filter'), V.bv('reader id')]))
    V.prove('FrameQueue::removeReaderCData', s_removeCData(box), held(V, box, lambda w, st: [w.q, V.bv('filter')]))
    V.use(R + '::allRead()', s_allRead(box))
    V.use(R + '::measureDelay()', s_measure)
    V.use('FrameQueue::addReaderCData', s_addCData(box))
    V.use('FrameQueue::removeReaderCData', s_removeCData(box))
    V.use(Q + '::getFront()', s_getFront(box))
    V.use(Q + '::forceGetFront()', s_forceGetFront(box))
    V.use(Q + '::removeFrame()', s_qremove(box))

    def flag(w, st):
        p = V.rawout(st, 1, 'new')
        ex.objs[p.obj].info = None
        st.cells(p.obj)[0] = (1, z3.BitVec('new before', 8))
        return [w.r, V.bv('filter'), p]
    V.prove(R + '::getFrame', s_getFrame(box), held(V, box, flag, queues=(None, 'connected', 'abandoned')))
    V.prove(R + '::removeFrame', s_removeFrame(box), held(V, box, A('filter'), queues=(None, 'connected', 'abandoned')))
    V.prove(R + '::addReader', s_addReader(box), held(V, box, A('filter', 'reader id'), queues=(None, 'connected', 'abandoned')))
    V.use('~delete:AVFramedQueue', s_destroy(box))
    V.prove(R + '::disconnect', s_disconnect(box), held(V, box, A('filter'), queues=(None, 'connected', 'abandoned')))


NATIVE = {'driver': 'p05.cpp', 'sources': ['src/IOInterface.cpp', 'src/AVFramedQueue.cpp', 'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp'],
          'libs': ['-llog4cplus', '-lavcodec', '-lavutil']}
