"""P15: frames are handed over whole, behind a correct header, and only while the segment belongs to the writer."""
from verify import *
import p11
from p10 import FILTER

SRC = ['src/modules/sharedMemory/SharedMemory.cpp', 'src/VideoFrame.cpp', 'src/Frame.cpp']
SM, F, VF = 'SharedMemory', 'InterleavedVideoFrame', 'VideoFrame'
SIZE, HEADER = 6220824, 24
ROOM = SIZE - HEADER
READING, WRITING = 0x31, 0x30
H264, RAW = 0, 4
CODES = {0: 1, 2: 2, 3: 3, 4: 4}


class World:
    def __init__(self, V, st, codec=None, data='some'):
        ex = self.ex = V.ex
        self.s = V.obj(st, 'class.' + SM, 'shm', cname=SM)
        V.vptr(st, self.s, SM)
        self.seg = V.bytes(st, 'segment', SIZE)
        for f, o in (('SharedMemoryOrigin', 0), ('access', 0), ('buffer', HEADER)):
            ex.put(st, self.s, SM, f, Ptr(self.seg.obj, o, 0))
        st.assume(ule(ex.get(st, self.s, SM, 'newFrame'), 1, 8))
        n = V.bv('assembled', 64) if data else 0
        if data:
            st.assume(ule(1, n, 64), ule(n, 1 << 40, 64))
        stdmodel.bvec_set(ex, st, ex.fptr(self.s, SM, 'frameData'), Log.base(p11.uf8('assembled'), 1), n)
        self.org = p11.nal(V, st)
        if codec is not None:
            ex.put(st, self.org, F, 'codec', codec)
        ex.watch = {self.seg.obj: self.written}

    def flag(self, st):
        return st.mem[self.seg.obj].read(0)

    def written(self, st):
        self.ex.oblige(st, eq(self.flag(st), WRITING, 8), 'the segment is written only while it belongs to the writer', 'pre')


def word(S, w, off, n, v):
    """n bytes, least significant first"""
    for i in range(n):
        S.st.mem[w.seg.obj] = S.st.mem[w.seg.obj].store(off + i, norm(z3.simplify(z3.Extract(8 * i + 7, 8 * i, bv(v, 8 * n)))))


def chain(v, m):
    r = bv(0, 16)
    for k, c in m.items():
        r = bv(itew(eq(v, k, 32), c, r, 16), 16)
    return r


def header(S, w, f, length=None):
    t = bv(S.get(f, F, 'presentationTime'), 64)
    m = z3.BitVecVal(1000000, 64)
    word(S, w, 2, 2, trunc(S.get(f, F, 'sequenceNumber'), 64, 16))
    word(S, w, 4, 2, chain(S.get(f, F, 'pixelFormat'), {i: i + 1 for i in range(7)}))
    word(S, w, 6, 2, chain(S.get(f, F, 'codec'), CODES))
    word(S, w, 8, 2, trunc(S.get(f, F, 'height'), 32, 16))
    word(S, w, 10, 2, trunc(S.get(f, F, 'width'), 32, 16))
    word(S, w, 12, 4, trunc(z3.simplify(t / m), 64, 32))
    word(S, w, 16, 4, trunc(z3.simplify(z3.SRem(t, m)), 64, 32))
    word(S, w, 20, 4, S.get(f, F, 'bufferLen'))


def publish(S, w, fn, n, done):
    """the payload, then the flag"""
    for T, fits in S.split(ule(n, ROOM, 64)):
        if fits:
            T.st.mem[w.seg.obj] = T.st.mem[w.seg.obj].fill(HEADER, n, fn).store(0, READING)
        done(T, fits)


def s_raw(box):
    def go(S, s, buf, n):
        w = box[0]
        lg, b = S.st.mem[buf.obj], buf.idx
        S.require(eq(w.flag(S.st), WRITING, 8), 'the segment belongs to the writer')
        k = sext(n, 32, 64)
        publish(S, w, lambda i: lg.read(add(b, i)), k, lambda T, ok: T.done(0 if ok else 0xffffffff))
    return go


def coded(S, w, done):
    ex = S.ex
    lg, n = stdmodel.bvec(ex, S.st, ex.fptr(w.s, SM, 'frameData'))
    for T, empty in S.split(eq(n, 0, 64)):
        if empty:
            done(T)
            continue
        for U, fits in T.split(ule(n, ROOM, 64)):
            if fits:
                word(U, w, 20, 4, trunc(n, 64, 32))
                publish(U, w, lambda i: lg.read(i), n, lambda X, ok: done(X))
            else:
                done(U)


def s_coded(box):
    def go(S, s):
        S.require(eq(box[0].flag(S.st), WRITING, 8), 'the segment belongs to the writer')
        coded(S, box[0], lambda T: T.done())
    return go


def s_header(box):
    def go(S, s, f):
        S.require(eq(box[0].flag(S.st), WRITING, 8), 'the segment belongs to the writer')
        header(S, box[0], f)
        S.done()
    return go


def unit(S, w, f, done):
    """the unit is appended to the picture that is assembled"""
    ex = S.ex
    n, buf = S.get(f, F, 'bufferLen'), S.get(f, F, 'frameBuff', True)
    fd = ex.fptr(w.s, SM, 'frameData')
    for T, long in S.split(sle(4, n)):
        if not long:
            done(T, False)
            continue

        def coded(U, k):
            for X, there in U.split(land(k != 0, slt(k, n))):
                if not there:
                    done(X, False)
                    continue
                typ = X.ex.raw_load(X.st, X.ex.adds(buf, k, 1), 1)
                typ = typ & 31 if isinstance(typ, int) else z3.simplify(typ & 31)
                for Y, known in X.split(lor(*[eq(typ, t, 8) for t in (1, 5, 6, 7, 8, 9)])):
                    if not known:
                        done(Y, False)
                        continue
                    for Z, opens in Y.split(eq(typ, 9, 8)):
                        ex.raw_store(Z.st, ex.fptr(w.s, SM, 'newFrame'), 1, 1 if opens else 0)
                        if not opens:
                            lg, have = stdmodel.bvec(ex, Z.st, fd)
                            m = Z.st.mem[buf.obj]
                            rest = sub(zext(n, 32, 64), k)
                            new = lg.fill(have, add(rest, 4), lambda i: itew(ult(i, 4, 64), itew(eq(i, 3, 64), 1, 0, 8), m.read(add(sub(i, 4), k)), 8))
                            stdmodel.bvec_set(ex, Z.st, fd, new, add(add(have, rest), 4))
                        done(Z, True)
        p11.code(T, buf, coded)


def s_parse(box):
    def go(S, s, f, flag):
        S.require(S.ex.peq(S.st, flag, S.ex.fptr(s, SM, 'newFrame')), 'the flag of the exporter')
        unit(S, box[0], f, lambda T, ok: T.done(bool(ok)))
    return go


COPIED = ['bufferLen', 'width', 'height', 'pixelFormat', 'presentationTime', 'decodeTime', 'originTime', 'sequenceNumber']


def s_process(box):
    def go(S, s, org, dst):
        w, ex = box[0], S.ex
        n = S.get(org, F, 'bufferLen')
        for f in COPIED:
            S.put(dst, F, f, S.get(org, F, f))
        S.put(dst, F, 'consumed', 1)
        m = S.st.mem[S.get(org, F, 'frameBuff', True).obj]
        d = S.get(dst, F, 'frameBuff', True).obj
        S.st.mem[d] = S.st.mem[d].fill(0, zext(n, 32, 64), lambda i: m.read(i))
        end = lambda T: T.done(True)
        mine = eq(w.flag(S.st), WRITING, 8)
        codec = S.get(org, F, 'codec')
        if codec == RAW:
            for T, yes in S.split(mine):
                if yes:
                    header(T, w, org)
                    publish(T, w, lambda i: m.read(i), sext(n, 32, 64), lambda U, ok: end(U))
                else:
                    end(T)
        elif codec == H264:
            seq = S.get(org, F, 'sequenceNumber')
            other = land(ne(seq, zext(S.get(s, SM, 'seqNum'), 16, 64), 64), ne(S.get(s, SM, 'newFrame'), 0, 8))

            def begin(T):
                T.put(s, SM, 'seqNum', trunc(seq, 64, 16))
                stdmodel.bvec_set(ex, T.st, ex.fptr(s, SM, 'frameData'), Log.const(0, 1), 0)
                unit(T, w, org, lambda U, ok: end(U))
            for T, new in S.split(other):
                if not new:
                    unit(T, w, org, lambda U, ok: end(U))
                    continue
                for U, yes in T.split(mine):
                    if yes:
                        header(U, w, org)
                        coded(U, w, begin)
                    else:
                        begin(U)
        else:
            end(S)
    return go


def run(V):
    ex = V.ex
    box = [None]

    def state(codec=None, data='some'):
        st = V.state()
        box[0] = World(V, st, codec, data)
        return st, box[0]

    def mine(st, w):
        st.mem[w.seg.obj] = st.mem[w.seg.obj].store(0, WRITING)

    def raw(_):
        st, w = state()
        mine(st, w)
        yield '', st, [w.s, ex.get(st, w.org, F, 'frameBuff', True), ex.get(st, w.org, F, 'bufferLen')]
    V.prove(SM + '::writeSharedMemoryRAW', s_raw(box), raw)

    def cod(_):
        for data in ('some', ''):
            st, w = state(data=data)
            mine(st, w)
            yield data or 'nothing assembled', st, [w.s]
    V.prove(SM + '::writeSharedMemoryH264', s_coded(box), cod)

    def head(_):
        st, w = state()
        mine(st, w)
        yield '', st, [w.s, w.org]
    V.prove(SM + '::writeFramePayload', s_header(box), head)
    V.use(SM + '::writeSharedMemoryRAW', s_raw(box))
    V.use(SM + '::writeSharedMemoryH264', s_coded(box))
    V.use(SM + '::writeFramePayload', s_header(box))

    def parse(_):
        for data in ('some', ''):
            st, w = state(data=data)
            yield data or 'nothing assembled', st, [w.s, w.org, ex.fptr(w.s, SM, 'newFrame')]
    V.prove(SM + '::parseNal', s_parse(box), parse)
    V.use(SM + '::parseNal', s_parse(box))

    def process(_):
        for codec in (RAW, H264, 1, 2, 3):
            for data in ('some', '') if codec == H264 else ('some',):
                st, w = state(codec, data)
                dst = p11.frame(V, st, 'output')
                # the output queue is made for the same stream
                st.assume(ule(ex.get(st, w.org, F, 'bufferLen'), ex.get(st, dst, F, 'bufferMaxLen')))
                yield 'codec %d%s' % (codec, '' if data else ', nothing assembled'), st, [w.s, w.org, dst]
    V.prove(SM + '::doProcessFrame', s_process(box), process)
    ex.watch = {}


NATIVE = {'driver': 'p15.cpp', 'sources': sorted(set(SRC + FILTER)), 'libs': ['-llog4cplus', '-lavutil', '-lavcodec', '-Wl,--unresolved-symbols=ignore-all']}
