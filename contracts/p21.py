"""P21: a frame's payload never exceeds the buffer it was created with."""
from verify import *

SRC = ['src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp', 'src/AVFramedQueue.cpp', 'src/AudioCircularBuffer.cpp']
IV, IA, PA = 'InterleavedVideoFrame', 'InterleavedAudioFrame', 'PlanarAudioFrame'
RGB24, RGB32, YUV420P, YUV422P, YUV444P, YUYV422, YUVJ420P = range(7)
U8, S16, FLT, U8P, S16P, FLTP = range(6)
WIDTH = {U8: 1, S16: 2, FLT: 4, U8P: 1, S16P: 2, FLTP: 4}
NEED = {RGB24: 3, RGB32: 4, YUYV422: 2}
MAXCH, DEFW, DEFH, MAXQ = 2, 1920, 1080, 250


def buffers(ex, st, f, cls):
    n = 2 if cls == PA else 1
    p = ex.fptr(f, cls, 'frameBuff')
    return [ex.canon(ex.raw_load(st, ex.canon(ex.addc(p, 8 * i)), 8, True)) for i in range(n)]


def owned(ex, st, b):
    """bytes from b to the end of its memory"""
    o = ex.objs[b.obj]
    if st.mem.get(b.obj) is None or isinstance(st.mem.get(b.obj), str):
        return 0
    return sub(bv(o.size, 64) if not isinstance(o.size, int) else o.size, b.idx or 0)


def frame_post(cls, need, fields, planes=1):
    """a new frame of the class: room for need bytes, its capacity within the memory it owns"""
    def holds(ex, st, r):
        if not isinstance(r, Ptr) or not r.obj:
            return [('a frame is made', False)]
        cap = zext(ex.get(st, r, cls, 'bufferMaxLen'), 32, 64)
        out = [('it is of the class', eq_ptr(ex, st, r, cls)), ('room for the largest payload', ule(need, cap, 64)), ('it starts empty', eq(ex.get(st, r, cls, 'bufferLen'), 0))]
        bs = buffers(ex, st, r, cls)[:planes]
        for i, b in enumerate(bs):
            out.append(('capacity within the memory it owns', ule(cap, owned(ex, st, b), 64)))
            out.append(('memory of its own', not any(b.obj == x.obj for x in bs[:i])))
        for f, v in fields.items():
            out.append((f + ' as requested', eq(ex.get(st, r, cls, f), v)))
        return out

    def make(S):
        ex = S.ex
        t = 'class.' + cls
        o = ex.new_typed(S.st, ex.prog.type_mod(t), ('named', t), 'frame%d' % ex.nextobj, 'sym')
        r = Ptr(o.id, None, 0)
        S.st.cells(o.id)[0] = (8, ex.vtable(cls))
        cap = ex.fresh('capacity', 32)
        S.st.assume(ule(need, zext(cap, 32, 64), 64))
        ex.put(S.st, r, cls, 'bufferMaxLen', cap)
        ex.put(S.st, r, cls, 'bufferLen', 0)
        for i in range(2 if cls == PA else 1):
            b = ex.new_bytes(S.st, 'payload%d' % ex.nextobj, zext(cap, 32, 64))
            ex.raw_store(S.st, ex.canon(ex.addc(ex.fptr(r, cls, 'frameBuff'), 8 * i)), 8, Ptr(b.id, 0, 0))
        for f, v in fields.items():
            ex.put(S.st, r, cls, f, v)
        return r
    return Post(holds, make)


def eq_ptr(ex, st, r, cls):
    v = ex.raw_load(st, r, 8, True)
    nm = ex.objs[v.obj].name[7:] if isinstance(v, Ptr) and v.obj else ''
    return nm == cls or ex.prog.demangle(nm) == 'vtable for ' + cls


def vcoded(S, codec, n):
    S.done(frame_post(IV, zext(n, 32, 64), {'codec': codec, 'width': 0, 'height': 0, 'pixelFormat': 0xffffffff}))


def vraw(S, codec, w, h, pix):
    S.require([sle(0, w, 32), sle(w, 16384, 32), sle(0, h, 32), sle(h, 16384, 32)], 'a picture size')
    S.done(frame_post(IV, mul(mul(zext(w, 32, 64), zext(h, 32, 64)), per_pixel(pix)), {'codec': codec, 'width': w, 'height': h, 'pixelFormat': pix}))


def per_pixel(pix):
    """bytes per pixel; planar formats: of their largest representation"""
    r = 3
    for k, v in NEED.items():
        r = itew(eq(pix, k), v, r, 64)
    return r


def width(fmt):
    r = 0
    for k, v in WIDTH.items():
        r = itew(eq(fmt, k), v, r, 64)
    return r


def audio(cls):
    def go(S, ch, rate, mx, codec, fmt):
        S.require([sle(0, mx, 32), sle(mx, 1 << 20, 32), sle(0, ch, 32), sle(ch, 8, 32)], 'a sample count')
        fmts = (U8, S16, FLT) if cls == IA else (U8P, S16P, FLTP)
        ok = lor(*[eq(fmt, k) for k in fmts])
        for T, good in S.split(ok):
            if not good:
                T.done(NULL)
                continue
            fields = {'channels': ch, 'sampleRate': rate, 'maxSamples': mx, 'fCodec': codec, 'sampleFmt': fmt, 'samples': 0}
            n = mul(zext(mx, 32, 64), width(fmt))
            if cls == IA:
                c = itew(sle(0, ch, 32), zext(ch, 32, 64), 0, 64)
                T.done(frame_post(cls, mul(n, c), fields))
                continue
            for U, many in T.split(slt(MAXCH, ch, 32)):
                U.done(NULL if many else frame_post(cls, n, fields, 2))
    return go


def args(*names):
    def go(V):
        st = V.state()
        a = []
        for n in names:
            a.append(n if isinstance(n, int) else V.bv(n))
        yield '', st, a
    return go


def audio_setup(fmts, chs):
    def go(V):
        for f in fmts:
            for c in chs:
                st = V.state()
                yield 'format %d, %s channels' % (f, c), st, [V.bv('channels') if c is None else c, V.bv('rate'), V.bv('samples'), V.bv('codec'), f]
        st = V.state()
        f = V.bv('format')
        st.assume(*[ne(f, x) for x in fmts])
        yield 'other format', st, [V.bv('channels'), V.bv('rate'), V.bv('samples'), V.bv('codec'), f]
    return go


def frame(V, st, cls, ch=None):
    """a frame as its constructor leaves it, with any payload length"""
    ex = V.ex
    f = V.obj(st, 'class.' + cls, 'frame', cname=cls)
    V.vptr(st, f, cls)
    cap = zext(ex.get(st, f, cls, 'bufferMaxLen'), 32, 64)
    for i in range(2 if cls == PA else 1):
        ex.raw_store(st, ex.canon(ex.addc(ex.fptr(f, cls, 'frameBuff'), 8 * i)), 8, V.bytes(st, 'payload %d' % i, add(cap, zext(V.bv('slack'), 32, 64))))
    if ch is not None:
        ex.put(st, f, cls, 'channels', ch)
    return f


def s_fill(cls):
    def go(S, f, v):
        ex = S.ex
        cap = zext(S.get(f, cls, 'bufferMaxLen'), 32, 64)
        bs = buffers(ex, S.st, f, cls)
        ch = S.get(f, cls, 'channels')
        for b in (bs if cls == IA else bs[:ch]):
            S.st.mem[b.obj] = S.st.mem[b.obj].fill(b.idx or 0, cap, lambda o: trunc(v, 32, 8))
        S.done()
    return go


def fill_setup(cls):
    def go(V):
        for ch in ((None,) if cls == IA else (1, 2)):
            st = V.state()
            yield 'any' if ch is None else '%d channels' % ch, st, [frame(V, st, cls, ch), V.bv('value')]
    return go


def one(cls):
    def go(V):
        st = V.state()
        yield '', st, [frame(V, st, cls)]
    return go


def s_capacity(cls):
    def go(S, f):
        S.done(S.get(f, cls, 'bufferMaxLen'))
    return go


# ---- queues: every slot gets a frame of its own, made for the stream
VQ, AQ = 'VideoFrameQueue', 'AudioFrameQueue'
H264, H265, VP8, MJPEG, RAW = range(5)
G711, PCMU, OPUS, PCM, AAC, MP3 = range(6)


def stream_queue(V, st, cls, kind):
    ex = V.ex
    q = V.obj(st, 'class.AVFramedQueue', 'queue', cname=cls)
    V.vptr(st, q, cls)
    V.queue = q
    si = V.obj(st, 'struct.StreamInfo', 'stream')
    ex.put(st, q, 'FrameQueue', 'streamInfo', si)
    st.assume(ule(ex.get(st, q, 'AVFramedQueue', 'max'), MAXQ))
    fr = ex.canon(ex.fptr(q, 'AVFramedQueue', 'frames'))
    st.cells(fr.obj)[0] = Log.base(lambda i: NULL, 8)
    V.fam = V.array(st, 'Frame', 1, MAXQ)
    V.cnt = V.rawout(st, 8, 'frames made')
    ex.objs[V.cnt.obj].info = None
    st.cells(V.cnt.obj)[0] = (8, 0)
    return q, si


def made(V, expect):
    """the frames are made one after the other, each as the stream needs it; the k-th is frame k"""
    def go(S, *a):
        n = S.ex.raw_load(S.st, V.cnt, 8)
        S.require(expect(S, *a), 'the frame suits the stream')
        S.st.cells(V.cnt.obj)[0] = (8, add(n, 1))
        S.done(Ptr(V.fam, n, 0))
    return go


def loop_frames(V, planar=False):
    def go(L, S, k):
        ex = L.ex
        q = L.arg(0)
        fr = ex.canon(ex.fptr(q, 'AVFramedQueue', 'frames'))
        old = ex.arr_log(L.st, fr.obj, 0, 8) if False else L.st.mem[fr.obj][0]
        S.cells(fr.obj)[0] = old.fill(0, k, lambda i: Ptr(V.fam, i, 0))
        S.cells(V.cnt.obj)[0] = (8, k)
        out = [('one frame per slot', ule(k, zext(ex.get(L.st, q, 'AVFramedQueue', 'max'), 32, 64), 64))]
        si = ex.get(L.st, q, 'FrameQueue', 'streamInfo', True)
        if planar:
            f, ch = (ex.get(L.st, si, 'StreamInfo', 'audio.' + x) for x in ('sampleFormat', 'channels'))
            out.append(('planar frames have two channels', implies(land(ne(k, 0, 64), lor(*[eq(f, x) for x in (U8P, S16P, FLTP)])), sle(ch, MAXCH, 32))))
        return out
    return go


def s_setup(V, good):
    def go(S, q):
        ex = S.ex
        si = S.get(q, 'FrameQueue', 'streamInfo', True)
        mx = zext(S.get(q, 'AVFramedQueue', 'max'), 32, 64)
        for T, ok in S.split(good(S, si)):
            if ok:
                fr = ex.canon(ex.fptr(q, 'AVFramedQueue', 'frames'))
                T.st.cells(fr.obj)[0] = T.st.mem[fr.obj][0].fill(0, mx, lambda i: Ptr(V.fam, i, 0))
                T.st.cells(V.cnt.obj)[0] = (8, mx)
            T.done(ok)
    return go


def queue_setup(V, cls, kind, codecs, formats=(None,)):
    def go(_):
        for c in codecs:
            for f in formats:
                st = V.state()
                q, si = stream_queue(V, st, cls, kind)
                put = lambda f, v: V.ex.put(st, si, 'StreamInfo', kind + '.' + f, v)
                if c is None:
                    x = V.bv('codec')
                    st.assume(*[ne(x, k) for k in codecs if k is not None])
                    put('codec', x)
                else:
                    put('codec', c)
                if f is not None:
                    put('sampleFormat', f)
                yield 'codec %s%s' % (c, '' if f is None else ', format %s' % f), st, [q]
    return go


def queues(V):
    ex = V.ex
    si = lambda f: None
    get = lambda S, f: S.get(V.si(S), 'StreamInfo', f)
    N = 'AVFramedQueue'
    for cls, n in ((VQ, 3), (AQ, 4)):
        for i in range(n):
            ex.loopspecs[(cls + '::setup', i)] = loop_frames(V, cls == AQ)
    V.use('InterleavedVideoFrame::createNew(VCodecType, unsigned int)', made(V, lambda S, codec, n: ule(lor_len(codec), n)))
    V.use('InterleavedVideoFrame::createNew(VCodecType, int, int, PixType)', made(V, lambda S, codec, w, h, pix: land(eq(codec, RAW), sle(DEFW, w, 32), sle(DEFH, h, 32), ne(pix, 0xffffffff))))
    V.prove(VQ + '::setup', s_setup(V, lambda S, si: lor(eq(S.get(si, 'StreamInfo', 'video.codec'), H264), eq(S.get(si, 'StreamInfo', 'video.codec'), H265), eq(S.get(si, 'StreamInfo', 'video.codec'), VP8),
            land(eq(S.get(si, 'StreamInfo', 'video.codec'), RAW), ne(S.get(si, 'StreamInfo', 'video.pixelFormat'), 0xffffffff)))), queue_setup(V, VQ, 'video', (H264, H265, VP8, MJPEG, RAW, None)))


    iv = lambda f: lor(*[eq(f, k) for k in (U8, S16, FLT)])
    pl = lambda f: lor(*[eq(f, k) for k in (U8P, S16P, FLTP)])
    room = lambda S, ch, rate, mx, codec, fmt: sle(z3.simplify(bv(mul(rate, 100, 32), 32) / 1000), mx, 32)
    V.use('InterleavedAudioFrame::createNew', made(V, lambda S, *a: land(room(S, *a), iv(a[4]))))

    def planar(S, ch, rate, mx, codec, fmt):
        for T, many in S.split(slt(MAXCH, ch, 32)):
            if many:
                T.done(NULL)
            else:
                made(V, lambda S, *a: land(room(S, *a), pl(a[4])))(T, ch, rate, mx, codec, fmt)
    V.use('PlanarAudioFrame::createNew', planar)

    def good(S, si):
        c, f = (S.get(si, 'StreamInfo', 'audio.' + x) for x in ('codec', 'sampleFormat'))
        coded = lor(*[eq(c, k) for k in (G711, OPUS, AAC, MP3)])
        # coded streams carry an interleaved format (StreamInfo::setCodecDefaults)
        S.require(implies(coded, iv(f)), 'a coded stream has an interleaved format')
        r = S.get(si, 'StreamInfo', 'audio.sampleRate')
        S.require([sle(0, r, 32), sle(r, 10000000, 32)], 'a sample rate')
        # an empty queue asks for no frame
        few = lor(sle(S.get(si, 'StreamInfo', 'audio.channels'), MAXCH, 32), eq(S.get(V.queue, 'AVFramedQueue', 'max'), 0))
        return lor(coded, land(lor(eq(c, PCM), eq(c, PCMU)), lor(iv(f), land(pl(f), few))))
    V.prove(AQ + '::setup', s_setup(V, good), queue_setup(V, AQ, 'audio', (G711, PCMU, OPUS, PCM, AAC, MP3, None)))


# ---- the audio ring buffer as it is created
B = 'AudioCircularBuffer'
MAXRATE, MAXSMP = 1 << 18, 1 << 16


def zeroed(ex, st, b, n, i):
    return implies(ult(i, n, 64), eq(st.mem[b.obj].read(add(b.idx or 0, i)), 0, 8))


def s_ring(S, cd, ch, rate, mx, fmt):
    S.require([ule(rate, MAXRATE), ule(mx, MAXSMP)], 'a buffer size')
    ok = land(ule(1, ch), ule(ch, MAXCH), ne(rate, 0), ne(mx, 0), lor(*[eq(fmt, k) for k in (U8P, S16P, FLTP)]))
    for T, good in S.split(ok):
        if not good:
            T.done(NULL)
            continue

        def holds(ex, st, b):
            if not isinstance(b, Ptr) or not b.obj:
                return [('a buffer is made', False)]
            g = lambda f: ex.get(st, b, B, f)
            w = trunc(width(fmt), 64, 32)
            L = mul(mul(mx, z3.simplify(z3.UDiv(bv(rate, 32), bv(1000, 32))), 32), w, 32)
            i = V_i()
            out = [('channels', eq(g('channels'), ch)), ('rate', eq(g('sampleRate'), rate)), ('width', eq(g('bytesPerSample'), w)), ('size', eq(g('chMaxSamples'), mx)),
                   ('capacity', eq(g('channelMaxLength'), L)), ('empty', land(eq(g('elements'), 0), eq(g('rear'), 0), eq(g('front'), 0))),
                   ('not synchronised', land(eq(ex.raw_load(st, ex.fptr(b, B, 'synchronized'), 1), 0), ne(ex.raw_load(st, ex.fptr(b, B, 'fillNewFrame'), 1), 0))),
                   ('tolerance', eq(sext(g('tsDeviationThreshold'), 32, 64), z3.simplify(z3.UDiv(bv(64000000, 64), bv(zext(rate, 32, 64), 64)))))]
            seen = []
            for k in range(ch):
                d = ex.canon(ex.raw_load(st, ex.canon(ex.addc(ex.fptr(b, B, 'data'), 8 * k)), 8, True))
                out.append(('room for the capacity', ule(zext(L, 32, 64), owned(ex, st, d), 64)))
                out.append(('each channel has its own memory', d.obj not in seen))
                seen.append(d.obj)
            for f in ('inputFrame', 'outputFrame', 'dummyFrame'):
                p = ex.get(st, b, B, f, True)
                n = mx if f == 'dummyFrame' else z3.simplify(z3.UDiv(bv(mul(rate, 100, 32), 32), bv(1000, 32)))
                out += [(f + ': ' + nm, c) for nm, c in frame_post(PA, mul(zext(n, 32, 64), width(fmt)), {'channels': ch, 'sampleRate': rate}, ch).holds(ex, st, p) if 'empty' not in nm]
                bs = buffers(ex, st, p, PA)[:ch]
                for x in bs:
                    out.append((f + ': memory of its own', x.obj not in seen))
                    seen.append(x.obj)
                    if f == 'dummyFrame':
                        out.append(('silence', zeroed(ex, st, x, mul(zext(n, 32, 64), width(fmt)), i)))
                if f == 'outputFrame':
                    out.append(('default number of samples', eq(zext(ex.get(st, p, PA, 'samples'), 32, 64), z3.simplify(z3.UDiv(bv(mul(zext(rate, 32, 64), 20000), 64), bv(1000000, 64))))))
            return out
        T.done(Post(holds))


def V_i():
    return z3.BitVec('any byte', 64)


def ring_setup(ch, fmt):
    def go(V):
        st = V.state()
        cd = V.obj(st, 'struct.ConnectionData', 'connection')
        n = V.bv('nreaders', 64)
        st.assume(ule(n, 1 << 20, 64))
        V.seq(st, V.ex.fptr(cd, 'ConnectionData', 'readers'), 'readers', 8, n)
        c, f = ch, fmt
        if ch is None:
            c = V.bv('channels')
            st.assume(lor(eq(c, 0), ult(MAXCH, c)))
        if fmt is None:
            f = V.bv('format')
            st.assume(*[ne(f, k) for k in (U8P, S16P, FLTP)])
        yield '', st, [cd, c, V.bv('rate'), V.bv('samples'), f]
    return go


def rings(V):
    for ch, fmt in [(c, f) for c in (1, 2) for f in (U8P, S16P, FLTP, None)] + [(None, S16P)]:
        V.prove(B + '::createNew', s_ring, ring_setup(ch, fmt), name='%s::createNew (%s channels, format %s)' % (B, ch, fmt))


def lor_len(codec):
    return itew(eq(codec, VP8), 512 * 1024, 2 * 1024 * 1024, 32)


def run(V):
    V.prove('InterleavedVideoFrame::createNew(VCodecType, unsigned int)', vcoded, args('codec', 'length'))
    V.prove('InterleavedVideoFrame::createNew(VCodecType, int, int, PixType)', vraw, args('codec', 'width', 'height', 'pixels'))
    V.prove('InterleavedAudioFrame::createNew', audio(IA), audio_setup((U8, S16, FLT), range(0, 9)))
    V.prove('PlanarAudioFrame::createNew', audio(PA), audio_setup((U8P, S16P, FLTP), (None,)))
    V.prove('InterleavedAudioFrame::fillWithValue', s_fill(IA), fill_setup(IA))
    V.prove('PlanarAudioFrame::fillWithValue', s_fill(PA), fill_setup(PA))
    for c in (IV, IA, PA):
        V.prove(c + '::getMaxLength', s_capacity(c), one(c))
    rings(V)
    queues(V)
    V.assume_note('pictures up to 16384 x 16384, up to 2^20 samples and 8 channels per audio frame; audio ring: up to 2^18 Hz and 2^16 samples')


NATIVE = {'driver': 'p21.cpp', 'sources': ['src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp', 'src/AVFramedQueue.cpp', 'src/AudioCircularBuffer.cpp'],
          'libs': ['-llog4cplus', '-lavcodec', '-lavutil', '-lavformat']}
