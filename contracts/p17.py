"""P17: an event is executable exactly when due; the earlier reference time comes first; a filter runs nothing early."""
from verify import *

SRC = ['src/Event.cpp', 'src/Filter.cpp']
E = 'Event'
MS = 1000000


def due(ts, delay, now, r):
    """the verdict r is right: true from the due time on, false until one millisecond before it"""
    el, d = sub(now, ts), mul(delay, MS)
    return land(implies(lnot(slt(el, d, 64)), r), implies(lnot(slt(sub(d, MS), el, 64)), lnot(r)),
                # a delayed event never runs before its time
                implies(land(slt(0, delay, 64), slt(el, d, 64)), lnot(r)))


def s_can(S, e, now):
    ts, d = S.get(e, E, 'timestamp'), S.get(e, E, 'delay')
    S.done(lambda r: due(ts, d, now, r))


def s_less(S, a, b):
    S.done(slt(S.get(b, E, 'timestamp'), S.get(a, E, 'timestamp'), 64))


def times(st, *ts):
    """times and their differences are representable"""
    for t in ts:
        st.assume(slt(t, 1 << 62, 64), slt((-(1 << 62)) & ((1 << 64) - 1), t, 64))


def delays(st, d):
    """delays are given as an int number of milliseconds"""
    st.assume(slt(d, 1 << 31, 64), slt((-(1 << 31) - 1) & ((1 << 64) - 1), d, 64))


def setup_can(V):
    st = V.state()
    e = V.obj(st, 'class.Event', 'e')
    now = V.bv('now', 64)
    times(st, now, V.ex.get(st, e, E, 'timestamp'))
    delays(st, V.ex.get(st, e, E, 'delay'))
    yield '', st, [e, now]


def setup_less(V):
    st = V.state()
    a, b = V.obj(st, 'class.Event', 'a'), V.obj(st, 'class.Event', 'b')
    yield '', st, [a, b]


def filter_obj(V, st):
    f = V.obj(st, 'class.BaseFilter', 'f')
    n = V.bv('nevents', 64)
    st.assume(ule(n, 1 << 20, 64))
    q = V.ex.fptr(f, 'BaseFilter', 'eventQueue')
    V.seq(st, q, 'events', 'class.Event', n, 'vector')
    return f, q, n


def setup_new(V):
    st = V.state()
    f, q, n = filter_obj(V, st)
    yield '', st, [f]


def s_new(S, f):
    ex = S.ex
    q = ex.fptr(f, 'BaseFilter', 'eventQueue')
    oid, n = stdmodel.vec(ex, S.st, q)
    now = z3.BitVec('now%d' % S.st.ghost.get('now', 0), 64)
    top = Ptr(oid, 0, 0)
    P = State()
    times(P, now, ex.get(S.st, top, E, 'timestamp'))
    delays(P, ex.get(S.st, top, E, 'delay'))
    S.require(list(P.pc))
    for T, empty in S.split(eq(n, 0, 64)):
        if empty:
            T.done(False)
        else:
            ts, d = ex.get(T.st, top, E, 'timestamp'), ex.get(T.st, top, E, 'delay')
            T.st.ghost['now'] = T.st.ghost.get('now', 0) + 1
            T.done(lambda r, ts=ts, d=d, now=now: due(ts, d, now, r))


def run(V):
    V.assume_note('std::priority_queue keeps an element that no other element is after (by operator<) at the front')
    V.assume_note('times lie within 146 years of the clock epoch')
    V.prove('Event::canBeExecuted(std::chrono::time_point<std::chrono::_V2::system_clock, std::chrono::duration<long, std::ratio<1l, 1000000000l> > >)', s_can, setup_can, name='Event::canBeExecuted')
    V.prove('Event::operator<(Event const&) const', s_less, setup_less)
    V.prove('BaseFilter::newEvent()', s_new, setup_new)


FILTER = ['src/Filter.cpp', 'src/IOInterface.cpp', 'src/Event.cpp', 'src/Jzon.cpp', 'src/Utils.cpp', 'src/AVFramedQueue.cpp',
          'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Runnable.cpp']
NATIVE = {'driver': 'p17.cpp', 'sources': FILTER, 'libs': ['-llog4cplus', '-lavutil', '-lavcodec', '-Wl,--unresolved-symbols=ignore-all']}
