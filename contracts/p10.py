"""P10: segments are cut exactly at the target duration, on key frames for video."""
from verify import *
import p09

D = 'src/modules/dasher/'
SRC = [D + 'i2libdash.c', D + 'i2libisoff.c', D + 'Dasher.cpp', D + 'DashVideoSegmenter.cpp', D + 'DashVideoSegmenterAVC.cpp', D + 'DashVideoSegmenterHEVC.cpp', D + 'DashAudioSegmenter.cpp',
       'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp']
MAXD = p09.MAXD
import isoff
SEG, DS = 'DashSegmenter', 'DashSegment'
KINDS = {'DashVideoSegmenterAVC': 'video', 'DashVideoSegmenterHEVC': 'video', 'DashAudioSegmenter': 'audio'}


def segmenter(V, st, cls, context=True):
    ex = V.ex
    g = V.obj(st, 'class.' + cls, 'segmenter', cname=cls)
    V.vptr(st, g, cls)
    kind = KINDS[cls]
    pp, c, m, s = p09.ctx(V, st, kind)
    ex.put(st, g, SEG, 'dashContext', c if context else NULL)
    if kind == 'video':
        b = ex.raw_load(st, ex.fptr(g, 'DashVideoSegmenter', 'previousIntra'), 1)
        st.assume(ule(b, 1, 8))
        # a context with samples has their bytes: every sample is at least one byte (P09)
        n, k = ex.get(st, m, 'i2ctx_video', 'segment_data_size'), ex.get(st, s, 'i2ctx_sample', 'mdat_sample_length')
        st.assume(implies(ule(1, k), ule(1, n)))
    return g, c, m, s


def segment(V, st):
    s = V.obj(st, 'class.DashSegment', 'segment')
    V.ex.put(st, s, DS, 'data', V.bytes(st, "segment data", isoff.CAP))
    return s


def frame(V, st, kind, cls=None):
    cls = cls or ('InterleavedVideoFrame' if kind == 'video' else 'InterleavedAudioFrame')
    f = V.obj(st, 'class.' + cls, 'frame', cname=cls)
    V.vptr(st, f, cls)
    return f


def base(S, g, t):
    """a time in the time base of the segmenter, counted from its offset"""
    tb = zext(S.get(g, SEG, 'timeBase'), 32, 64)
    return sdiv(mul(sub(t, S.get(g, SEG, 'tsOffset')), tb), 1000000)


def sdiv(a, b):
    return z3.simplify(bv(a, 64) / bv(b, 64))


def setup(cls):
    kind = KINDS[cls]

    def go(V):
        for nm in ('frame', 'forced', 'no frame', 'no context'):
            for force in ((False, True) if nm == 'frame' else (nm == 'forced',)):
                st = V.state()
                g, c, m, s = segmenter(V, st, cls, nm != 'no context')
                f = frame(V, st, kind) if nm in ('frame', 'no context') else NULL
                yield nm + (' and forced' if force and nm == 'frame' else ''), st, [g, segment(V, st), f, force]
    return go


def spec(cls):
    kind = KINDS[cls]

    def go(S, g, seg, f, force):
        ex = S.ex
        force = bool(force)
        if is_null(f) and not force:
            S.done(False)
            return
        t = 0 if is_null(f) else S.get(f, 'Frame', 'presentationTime')
        if is_null(S.get(g, SEG, 'dashContext', True)):
            S.put(seg, DS, 'lastFrameTimestamp', t)
            S.done(False)
            return
        pp = ex.fptr(g, SEG, 'dashContext')
        st = S.st
        o = ex.new_obj('ts', 'cells', 8)
        ts = Ptr(o.id, None, 0)
        o2 = ex.new_obj('dur', 'cells', 4)
        du = Ptr(o2.id, None, 0)
        for x in (o, o2):
            x.stack = True
            st.mem[x.id] = {'default': 'uninit'}
        sub_ = S.fork()
        outs = []
        R = Spec(ex, sub_.st, (), outs, S.proving)
        out = sub_.get(seg, DS, 'data', True)
        if kind == 'video':
            intra = ex.raw_load(sub_.st, ex.fptr(g, 'DashVideoSegmenter', 'previousIntra'), 1)
            p09.s_gen_video(R, intra, trunc(base(R, g, t), 64, 32), out, pp, ts, du)
        else:
            p09.s_gen_audio(force)(R, out, pp, ts, du)
        for st2, r in outs:
            T = Spec(ex, st2, (), S.outs, S.proving)
            if callable(r) or isinstance(r, int):
                # nothing due, or refused
                T.put(seg, DS, 'lastFrameTimestamp', t)
                T.done(False)
                continue
            d = ex.raw_load(st2, du, 4)
            T.put(seg, DS, 'timestamp', ex.raw_load(st2, ts, 8))
            T.put(seg, DS, 'duration', d)
            T.put(seg, DS, 'dataLength', r)
            T.put(seg, DS, 'complete', 1)
            n = add(T.get(g, SEG, 'sequenceNumber'), 1, 32)
            T.put(g, SEG, 'sequenceNumber', n)
            T.put(seg, DS, 'seqNumber', n)
            T.put(g, SEG, 'currentTimestamp', ANY)
            T.done(True)
    return go


def s_fill_video(S, pp, w, h, tb):
    c, m, s = p09.parts(S, pp, 'video')
    if is_null(c) or is_null(m):
        p09.error(S)
        return
    S.put(m, 'i2ctx_video', 'width', trunc(w, 32, 16))
    S.put(m, 'i2ctx_video', 'height', trunc(h, 32, 16))
    S.put(m, 'i2ctx_video', 'time_base', tb)
    S.done(0)


def s_fill_audio(S, pp, ch, rate, size, tb, dur):
    c, m, s = p09.parts(S, pp, 'audio')
    if is_null(c) or is_null(m):
        p09.error(S)
        return
    for f, v in (('channels', ch), ('sample_rate', rate), ('sample_size', size)):
        S.put(m, 'i2ctx_audio', f, trunc(v, 32, 16))
    S.put(m, 'i2ctx_audio', 'time_base', tb)
    S.put(m, 'i2ctx_audio', 'sample_duration', dur)
    S.done(0)


def setup_fill(kind):
    def go(V):
        for nm in ('', 'no context', 'no media context'):
            st = V.state()
            pp, c, m, s = p09.ctx(V, st, kind)
            if nm == 'no context':
                st.cells(pp.obj)[0] = (8, NULL)
            if nm == 'no media context':
                V.ex.put(st, c, 'i2ctx', 'ctx' + kind, NULL)
            yield nm, st, [pp] + [V.bv(x) for x in (('width', 'height', 'base') if kind == 'video' else ('channels', 'rate', 'bits', 'base', 'samples'))]
    return go


def s_duration(S, d, pp):
    S.put(S.ex.raw_load(S.st, pp, 8, True), 'i2ctx', 'duration', d)
    S.done()


def setup_duration(V):
    st = V.state()
    pp, c, m, s = p09.ctx(V, st, 'video')
    yield '', st, [V.bv('duration'), pp]


def setup_setup(cls):
    kind = KINDS[cls]

    def go(V):
        for nm in ('', 'first'):
            st = V.state()
            g, c, m, s = segmenter(V, st, cls, nm != 'first')
            yield nm, st, [g] + [V.bv(x) for x in (('width', 'height') if kind == 'video' else ('channels', 'rate', 'samples', 'bits'))]
    return go


def s_setup(cls):
    kind = KINDS[cls]

    def go(S, g, *a):
        ex = S.ex
        pp = ex.fptr(g, SEG, 'dashContext')
        if is_null(S.get(g, SEG, 'dashContext', True)):
            outs = []
            p09.s_generate(Spec(ex, S.st, (), outs, S.proving), pp, {'DashVideoSegmenterAVC': 1, 'DashVideoSegmenterHEVC': 2, 'DashAudioSegmenter': 3}[cls])
            (st, r), = outs
            S.st = st
        outs = []
        if kind == 'video':
            w, h = a
            s_fill_video(Spec(ex, S.st, (), outs, S.proving), pp, w, h, S.get(g, SEG, 'timeBase'))
            d = S.get(g, SEG, 'segDurInTimeBaseUnits')
        else:
            ch, rate, n, bits = a
            S.put(g, SEG, 'timeBase', rate)
            S.put(g, SEG, 'frameDuration', n)
            # the target is the segment duration in the new time base
            d = trunc(mul(S.get(g, SEG, 'segDur'), zext(rate, 32, 64)), 64, 32)
            S.put(g, SEG, 'segDurInTimeBaseUnits', d)
            s_fill_audio(Spec(ex, S.st, (), outs, S.proving), pp, ch, rate, bits, rate, n)
        for st, r in outs:
            c = ex.raw_load(st, pp, 8, True)
            ex.put(st, c, 'i2ctx', 'duration', d)
            S.outs.append((st, True))
    return go


def s_flush(cls):
    def go(S, g):
        ex = S.ex
        if is_null(S.get(g, SEG, 'dashContext', True)):
            S.done(False)
            return
        p09.empty(S, ex.fptr(g, SEG, 'dashContext'), KINDS[cls])
        S.done(True)
    return go


def setup_flush(cls):
    def go(V):
        for nm in ('', 'no context'):
            st = V.state()
            g, c, m, s = segmenter(V, st, cls, not nm)
            if KINDS[cls] == 'video':
                st.assume(eq(V.ex.get(st, m, 'i2ctx_video', 'video_type'), 1 if cls.endswith('AVC') else 2))
            yield nm, st, [g]
    return go


def s_clear(S, seg):
    for f in ('timestamp', 'duration', 'dataLength', 'complete'):
        S.put(seg, DS, f, 0)
    S.done()


def setup_clear(V):
    st = V.state()
    yield '', st, [segment(V, st)]


def use_c(V):
    """the C library through its contracts"""
    V.use('generate_audio_segment', p09.s_gen_audio(False))
    V.use('force_generate_audio_segment', p09.s_gen_audio(True))
    V.use('generate_video_segment', p09.s_gen_video)
    V.use('generate_context', p09.s_generate)
    V.use('fill_video_context', s_fill_video)
    V.use('fill_audio_context', s_fill_audio)
    V.use('set_segment_duration', s_duration)
    V.use('context_refresh', p09.s_refresh)


def run(V):
    p09.prove_gen(V)
    V.prove('generate_context', p09.s_generate, p09.setup_generate)
    V.prove('fill_video_context', s_fill_video, setup_fill('video'))
    V.prove('fill_audio_context', s_fill_audio, setup_fill('audio'))
    V.prove('set_segment_duration', s_duration, setup_duration)
    for k in ('video', 'audio'):
        V.prove('context_refresh', p09.s_refresh, p09.setup_refresh(k), name='context_refresh (%s)' % k)
    use_c(V)
    for cls in KINDS:
        V.prove(SEG + '::generateSegment', spec(cls), setup(cls), name='generateSegment of ' + cls)
        V.prove(('DashVideoSegmenter' if KINDS[cls] == 'video' else cls) + '::setup', s_setup(cls), setup_setup(cls), name='setup of ' + cls)
        V.prove(cls + '::flushDashContext', s_flush(cls), setup_flush(cls))
    V.prove(DS + '::clear', s_clear, setup_clear)


FILTER = ['src/Filter.cpp', 'src/IOInterface.cpp', 'src/Event.cpp', 'src/Jzon.cpp', 'src/Utils.cpp', 'src/AVFramedQueue.cpp', 'src/Runnable.cpp',
          D + 'MpdManager.cpp']
NATIVE = {'driver': 'p10.cpp', 'sources': SRC + FILTER,
          'libs': ['-llog4cplus', '-lavutil', '-lavcodec', '-ltinyxml2', '-Wl,--unresolved-symbols=ignore-all']}
