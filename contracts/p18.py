"""P18: encoder settings are validated atomically; coded pictures carry the times of the raw picture they come from."""
from verify import *

SRC = ['src/modules/videoEncoder/VideoEncoderX264or5.cpp', 'src/modules/videoEncoder/VideoEncoderX264.cpp', 'src/modules/videoEncoder/VideoEncoderX265.cpp', 'src/VideoFrame.cpp', 'src/Frame.cpp', 'src/Filter.cpp']
E = 'VideoEncoderX264or5'
MAP = 'std::map<long, VideoEncoderX264or5::FrameTimeParams>'
DEF_FPS = 25
MIN_GOP = 1000000


def encoder(V, st, name='enc', cls=E):
    ex = V.ex
    e = V.obj(st, 'class.' + cls, name, cname=cls)
    V.vptr(st, e, cls)
    si = V.obj(st, 'struct.StreamInfo' if 'struct.StreamInfo' in sum([list(m.types) for m in V.prog.mods], []) else 'class.StreamInfo', 'info')
    ex.put(st, e, E, 'outputStreamInfo', si)
    stdmodel.str_set(ex, st, ex.fptr(e, E, 'preset'), stdmodel.Str([('sym', 'preset')]))
    mi = stdmodel.mapinfo_of(ex, MAP)
    n = V.bv('pending', 64)
    st.assume(ule(n, 1 << 32, 64))
    m = stdmodel.new_map(ex, st, mi, n, 'sym', 'qFTP')
    m.pre = True
    stdmodel.set_map(ex, st, ex.fptr(e, E, 'qFTP'), m.id, n)
    return e


def setup_cfg(V):
    for nm, s in (('no preset', stdmodel.Str([])), ('preset', stdmodel.Str(['fast'])), ('any preset', stdmodel.Str([('sym', 'newpreset')]))):
        st = V.state()
        e = encoder(V, st)
        p = V.rawout(st, 32, 'presetarg')
        V.ex.objs[p.obj].info = None
        stdmodel.str_set(V.ex, st, p, s)
        a = [V.bv(x) for x in ('bitrate', 'fps', 'gop', 'lookahead', 'bframes', 'threads')]
        yield nm, st, [e] + a + [z3.Bool('annexb'), p, V.bv('gopTime')]


def s_cfg(S, e, bitrate, fps, gop, lookahead, bframes, threads, annexb, preset, gopTime):
    ex = S.ex
    pv = stdmodel.str_get(ex, S.st, preset)
    bad = lor(eq(bitrate, 0), eq(gop, 0), eq(threads, 0), stdmodel.str_empty(pv))
    for T, rej in S.split(bad):
        if rej:
            T.done(False)
            continue
        for f, v in (('bitrate', bitrate), ('gop', gop), ('lookahead', lookahead), ('bFrames', bframes), ('threads', threads)):
            T.put(e, E, f, v)
        si = T.get(e, E, 'outputStreamInfo', True)
        T.put(si, 'StreamInfo', 'video.h264or5.annexb', zext(annexb, 1, 8))
        stdmodel.str_set(ex, T.st, ex.fptr(e, E, 'preset'), pv)
        T.put(e, E, 'needsConfig', 1)
        T.put(e, E, 'fps', itew(eq(fps, 0), DEF_FPS, fps))
        # the time between frames is that of the frame rate, none is imposed when there is no frame rate
        T.put(e, 'BaseFilter', 'frameTime', itew(eq(fps, 0), 0, zext(udiv(1000000, itew(eq(fps, 0), 1, fps), 32), 32, 64), 64))
        T.put(e, E, 'gopTime', itew(eq(gopTime, 0), 0, itew(ult(gopTime, MIN_GOP), MIN_GOP, gopTime)))
        T.done(True)


def frames(V, st):
    org = V.obj(st, 'class.InterleavedVideoFrame', 'raw')
    V.vptr(st, org, 'InterleavedVideoFrame')
    dst = V.obj(st, 'class.SlicedVideoFrame', 'coded')
    V.vptr(st, dst, 'SlicedVideoFrame')
    return org, dst


def setup_process(V):
    st = V.state()
    e = encoder(V, st)
    org, dst = frames(V, st)
    yield 'a picture', st, [e, org, dst]
    st = V.state()
    e = encoder(V, st)
    org, dst = frames(V, st)
    yield 'no target', st, [e, org, NULL]
    st = V.state()
    e = encoder(V, st)
    org, dst = frames(V, st)
    yield 'no picture', st, [e, NULL, dst]


def s_process(S, e, org, dst):
    ex = S.ex
    if is_null(org) or is_null(dst):
        S.done(False)
        return
    st = S.st
    S.put(e, E, 'refTime', ANY)
    S.put(e, E, 'forceIntra', ANY)
    for T, ok in S.split(z3.Bool('reconfigured')):
        if not ok:
            T.done(False)
            continue
        for U, ok in T.split(land(slt(0, z3.BitVec('filled', 32), 32), z3.Bool('planes'))):
            if not ok:
                U.done(False)
                continue
            mi = stdmodel.mapinfo_of(ex, MAP)
            q = ex.fptr(e, E, 'qFTP')
            pts = U.get(e, E, 'inPts')
            U.put(e, E, 'inPts', itew(z3.Bool('accepted'), add(pts, 1), pts, 64))
            el = stdmodel.map_insert(ex, U.st, q, mi, pts)
            F = 'FrameTimeParams'
            for f, g in (('pTime', 'presentationTime'), ('oTime', 'originTime'), ('seqNum', 'sequenceNumber')):
                ex.put(U.st, ex.addc(el, mi.second), F, f, U.get(org, 'Frame', g))
            for W, ok in U.split(z3.Bool('encoded')):
                if not ok:
                    W.done(False)
                    continue
                out, dts = z3.BitVec('encpts', 64), z3.BitVec('encdts', 64)
                oid, _ = stdmodel.mp(ex, W.st, q)
                has = stdmodel.map_has(ex, W.st, oid, out)
                W.require(has, 'the encoder returns a picture it was given')
                W.put(e, E, 'outPts', out)
                W.put(e, E, 'dts', dts)
                o = Ptr(oid, out, mi.second)
                W.put(dst, 'Frame', 'consumed', 1)
                W.put(dst, 'Frame', 'presentationTime', ex.get(W.st, o, F, 'pTime'))
                W.put(dst, 'Frame', 'originTime', ex.get(W.st, o, F, 'oTime'))
                W.put(dst, 'Frame', 'sequenceNumber', ex.get(W.st, o, F, 'seqNum'))
                W.put(dst, 'VideoFrame', 'width', W.get(org, 'VideoFrame', 'width'))
                W.put(dst, 'VideoFrame', 'height', W.get(org, 'VideoFrame', 'height'))
                d = stdmodel.map_insert(ex, W.st, q, mi, dts)
                W.put(dst, 'Frame', 'decodeTime', ex.get(W.st, ex.addc(d, mi.second), F, 'pTime'))
                stdmodel.map_erase(ex, W.st, q, mi, dts)
                W.done(True)


# ---- the two encoders: the picture gets the current time stamp, its NAL units and times are taken over
SV = 'SlicedVideoFrame'
SLICES, SEG = 16, 33
KINDS = {'VideoEncoderX264': ('x264_picture_t', 'i_pts', 'i_dts', 'x264_nal_t', 'p_payload', 'i_payload', 'i_type', 'x264_encoder_encode'),
         'VideoEncoderX265': ('x265_picture', 'pts', 'dts', 'x265_nal', 'payload', 'sizeBytes', 'sliceType', 'x265_encoder_encode')}


class Enc:
    def __init__(self, V, kind, target=True):
        ex = self.ex = V.ex
        self.kind, self.k = kind, KINDS[kind]
        st = self.st = V.state()
        self.e = e = encoder(V, st, cls=kind)
        self.pic = []
        for f in ('picIn', 'picOut'):
            if kind == 'VideoEncoderX265':
                o = V.obj(st, 'struct.' + self.k[0], f, cname=self.k[0])
                ex.put(st, e, kind, f, o)
            else:
                o = ex.fptr(e, kind, f)
            self.pic.append(o)
        self.inner = V.rawout(st, 8, 'codec')
        ex.put(st, e, kind, 'encoder', self.inner)
        self.pts = ex.get(st, e, E, 'inPts')
        self.f = V.obj(st, 'class.' + SV, 'coded', cname=SV)
        V.vptr(st, self.f, SV)
        st.assume(ule(ex.get(st, e, E, 'forceIntra'), 1, 8))
        self.num = ex.get(st, self.f, SV, 'pointedSliceNum')
        st.assume(ule(self.num, SLICES))
        sl = self.sl = ex.canon(ex.fptr(self.f, SV, 'pointedSlices'))
        self.off = {x: ex.canon(ex.fptr(sl, 'Slice', x)).off for x in ('data', 'dataSize')}
        old = V.bytes(st, 'old slices', SLICES << SEG)
        st.cells(sl.obj)[self.off['data']] = Log.base(lambda i: Ptr(old.obj, shl(i), 0), 8)
        st.cells(sl.obj)[self.off['dataSize']] = Log.uf('old length', 4)
        self.n = V.bv('units')
        st.assume(ule(self.n, 1 << 20))
        self.out = V.bytes(st, 'units of the encoder', 1 << 60)
        self.len = Log.uf('length of unit', 4)
        self.nals = V.array(st, 'nals', 'struct.' + self.k[3], zext(self.n, 32, 64))
        c = st.cells(self.nals)
        for f, v in ((self.k[4], Log.base(lambda i: Ptr(self.out.obj, shl(i), 0), 8)), (self.k[5], self.len)):
            c[ex.fptr(Ptr(self.nals, 0, 0), self.k[3], f).off] = v
        self.code, self.newpts, self.newdts = V.bv('coded'), V.bv('encpts', 64), V.bv('encdts', 64)
        self.given = 0

    def encode(self, ex, st, a, c):
        """the encoder's entry: anything may come out"""
        e, nals, n, pin, pout = (ex.canon(x) for x in a)
        i, o = (ex.canon(x) for x in self.pic)
        ex.oblige(st, land(e.obj == self.inner.obj, pin.obj == i.obj, pin.off == i.off, pout.obj == o.obj, pout.off == o.off),
                  'the encoder and its pictures', 'pre')
        ex.oblige(st, eq(ex.get(st, self.pic[0], self.k[0], self.k[1]), self.pts, 64), 'a picture enters the encoder with its own time stamp', 'pre')
        m = ex.prog.type_mod('struct.' + self.k[0])
        ex.store(st, nals, Ptr(self.nals, 0, 0), ('ptr', ('i', 8)), m)
        ex.store(st, n, self.n, ('i', 32), m)
        ex.put(st, self.pic[1], self.k[0], self.k[1], self.newpts)
        ex.put(st, self.pic[1], self.k[0], self.k[2], self.newdts)
        return self.code

    def slices(self, st, k):
        c = st.cells(self.sl.obj)
        i = zext(self.num, 32, 64)
        c[self.off['data']] = c[self.off['data']].fill(i, k, lambda j: Ptr(self.out.obj, shl(j), 0))
        c[self.off['dataSize']] = c[self.off['dataSize']].fill(i, k, lambda j: self.len.read(j))
        self.ex.put(st, self.f, SV, 'pointedSliceNum', simp(bv(self.num, 32) + bv(trunc(k, 64, 32), 32)))


def shl(i):
    return mul(i, 1 << SEG, 64)


def s_encode(w):
    def go(S, e, f):
        w = w_()
        if is_null(f) or is_null(S.get(e, w.kind, 'encoder', True)):
            S.done(False)
            return
        S.put(w.pic[0], w.k[0], w.k[6], itew(ne(S.get(e, E, 'forceIntra'), 0, 8), 1, 0, 32))
        S.put(e, E, 'forceIntra', 0)
        S.put(w.pic[0], w.k[0], w.k[1], w.pts)
        S.put(w.pic[1], w.k[0], w.k[1], w.newpts)
        S.put(w.pic[1], w.k[0], w.k[2], w.newdts)
        for T, bad in S.split(slt(w.code, 0, 32)):
            T.put(e, E, 'outPts', ANY)                       # looked at only when a picture is there
            T.put(e, E, 'dts', ANY)
            if bad:
                T.done(False)
                continue
            T.put(e, E, 'inPts', add(w.pts, 1))
            for U, none in T.split(eq(w.code, 0, 32)):
                if none:
                    U.done(False)
                    continue
                room = sub(SLICES, zext(w.num, 32, 64))
                n = zext(w.n, 32, 64)
                for X, fits in U.split(ule(n, room, 64)):
                    w.slices(X.st, n if fits else room)
                    if fits:
                        X.put(e, E, 'outPts', w.newpts)
                        X.put(e, E, 'dts', w.newdts)
                    X.done(fits)
    w_ = w
    return go


def loop_units(w):
    def units(L, S, k):
        w().slices(S, k)
        return [('no more than there are', ule(k, zext(w().n, 32, 64), 64)), ('no more than fit', ule(k, sub(SLICES, zext(w().num, 32, 64)), 64))]
    return units


def run(V):
    cur = [None]
    for kind in KINDS:
        def setup(V, kind=kind):
            for nm in ('a picture', 'no target', 'no encoder'):
                w = cur[0] = Enc(V, kind)
                if nm == 'no encoder':
                    V.ex.put(w.st, w.e, kind, 'encoder', NULL)
                yield nm, w.st, [w.e, NULL if nm == 'no target' else w.f]
        V.trust(KINDS[kind][7], lambda ex, st, a, c: cur[0].encode(ex, st, a, c), KINDS[kind][7] + ' takes the picture and returns any number of NAL units, times and status')
        V.ex.loopspecs[(kind + '::encodeFrame', 0)] = loop_units(lambda: cur[0])
        V.prove(kind + '::encodeFrame', s_encode(lambda: cur[0]), setup)

    V.prove(E + '::configure0', s_cfg, setup_cfg)

    def t_encode(ex, st, a, c):
        e = a[0]
        n = ex.get(st, e, E, 'inPts')
        ex.put(st, e, E, 'inPts', itew(z3.Bool('accepted'), add(n, 1), n, 64))
        ex.put(st, e, E, 'outPts', itewv('encoded', 'encpts', ex.get(st, e, E, 'outPts')))
        ex.put(st, e, E, 'dts', itewv('encoded', 'encdts', ex.get(st, e, E, 'dts')))
        return z3.Bool('encoded')

    def itewv(c, a, b):
        return itew(z3.Bool(c), z3.BitVec(a, 64), b, 64)
    V.trust(E + r'::encodeFrame\(', t_encode, 'encodeFrame (virtual; both implementations are under contract) counts the pictures the encoder takes and returns a time stamp given to it earlier, or fails')
    V.trust(E + r'::reconfigure\(', lambda ex, st, a, c: z3.Bool('reconfigured'), 'reconfigure (abstract) touches no time stamps')
    V.trust(E + r'::fillPicturePlanes\(', lambda ex, st, a, c: z3.Bool('planes'), 'fillPicturePlanes (abstract) touches only the encoder picture')
    V.trust(r'av_image_fill_arrays', lambda ex, st, a, c: z3.BitVec('filled', 32), 'av_image_fill_arrays touches only the AVFrame')
    V.prove(E + '::doProcessFrame', s_process, setup_process)


FILTER = ['src/Filter.cpp', 'src/IOInterface.cpp', 'src/Event.cpp', 'src/Jzon.cpp', 'src/Utils.cpp', 'src/AVFramedQueue.cpp',
          'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Runnable.cpp', 'src/SlicedVideoFrameQueue.cpp', *SRC[:3]]
NATIVE = {'driver': 'p18.cpp', 'sources': FILTER, 'libs': ['-llog4cplus', '-lavutil', '-lavcodec', '-Wl,--unresolved-symbols=ignore-all']}
