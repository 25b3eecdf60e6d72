"""P12: AAC frames lose exactly their ADTS header, which sets the codec configuration."""
from verify import *
import p09, p10

SRC = p10.SRC + ['src/Utils.cpp']
G = 'DashAudioSegmenter'
SEG = 'DashSegmenter'
F = 'InterleavedAudioFrame'
NATIVE = dict(p10.NATIVE, driver='p12.cpp')


def conf(S, g):
    """(profile, object type, frequency index, channels) the segmenter remembers"""
    return [S.get(g, G, f) for f in ('profile', 'audioObjectType', 'samplingFrequencyIndex', 'channelConfiguration')]


def encoding(obj, freq, ch):
    """the two bytes of an AudioSpecificConfig: object type (5 bits), frequency index (4), channel configuration (4), 3 zero bits"""
    w = z3.simplify((z3.ZeroExt(8, bv(obj, 8)) << 11) | (z3.ZeroExt(8, bv(freq, 8)) << 7) | (z3.ZeroExt(8, bv(ch, 8)) << 3))
    return z3.simplify(z3.Extract(15, 8, w)), z3.simplify(z3.Extract(7, 0, w))


def inv(V, st, g, case):
    """a configuration that is there is the encoding of the remembered header"""
    ex = V.ex
    e = ex.fptr(g, SEG, 'extradata')
    S = Spec(ex, st, (), [], True)
    p, o, f, c = conf(S, g)
    if case == 'configured':
        b0, b1 = encoding(o, f, c)
        st.assume(ule(p, 3, 8), eq(o, add(p, 1, 8), 8), ule(f, 15, 8), ule(c, 7, 8))
        stdmodel.bvec_set(ex, st, e, Log.base(lambda i: itew(eq(i, 0, 64), b0, b1, 8), 1), 2)
    else:
        stdmodel.bvec_set(ex, st, e, Log.const(0, 1), 0)


def frame(V, st, case=''):
    ex = V.ex
    if case == 'planar':
        f = V.obj(st, 'class.PlanarAudioFrame', 'frame', cname='PlanarAudioFrame')
        V.vptr(st, f, 'PlanarAudioFrame')
        return f
    f = V.obj(st, 'class.' + F, 'frame', cname=F)
    V.vptr(st, f, F)
    mx = ex.get(st, f, F, 'bufferMaxLen')
    ex.put(st, f, F, 'frameBuff', V.bytes(st, 'aac', zext(mx, 32, 64)))
    st.assume(ule(ex.get(st, f, F, 'bufferLen'), mx))
    return f


def cases(V):
    for conf_ in ('configured', 'not configured'):
        for fr in ('', 'planar', 'video', 'no frame'):
            for cx in ('', 'no context'):
                if cx and fr:
                    continue
                st = V.state()
                g, c, m, s = p10.segmenter(V, st, G, not cx)
                inv(V, st, g, conf_)
                if fr == 'video':
                    f = V.obj(st, 'class.InterleavedVideoFrame', 'picture', cname='InterleavedVideoFrame')
                    V.vptr(st, f, 'InterleavedVideoFrame')
                else:
                    f = NULL if fr == 'no frame' else frame(V, st, fr)
                yield ' '.join((conf_, fr, cx)).strip(), st, [g, f]


def header(S, f):
    b = S.get(f, F, 'frameBuff', True)
    return [S.ex.raw_load(S.st, S.ex.adds(b, i, 1), 1) for i in range(4)]


def update(S, g, f, ok, no):
    """the configuration follows the header of a frame that has one"""
    ex = S.ex
    if is_null(f) or S.ex.objs[f.obj].info != 'class:' + F:
        no(S)
        return
    n = S.get(f, F, 'bufferLen')
    for T, long in S.split(ule(7, n)):
        if not long:
            no(T)
            continue
        h = header(T, f)
        for U, sync in T.split(land(eq(h[0], 0xff, 8), eq(h[1], 0xf1, 8))):
            if not sync:
                no(U)
                continue
            # ADTS: 12 bits sync, 4 bits version/layer/crc, 2 bits profile, 4 bits frequency index, 1 bit private, 3 bits channels
            w = z3.Concat(bv(h[2], 8), bv(h[3], 8))
            profile = z3.simplify(z3.ZeroExt(6, z3.Extract(15, 14, w)))
            freq = z3.simplify(z3.ZeroExt(4, z3.Extract(13, 10, w)))
            chan = z3.simplify(z3.ZeroExt(5, z3.Extract(8, 6, w)))
            obj = add(profile, 1, 8)
            for fld, v in zip(('profile', 'audioObjectType', 'samplingFrequencyIndex', 'channelConfiguration'), (profile, obj, freq, chan)):
                U.put(g, G, fld, v)
            b0, b1 = encoding(obj, freq, chan)
            stdmodel.bvec_set(ex, U.st, ex.fptr(g, SEG, 'extradata'), Log.base(lambda i: itew(eq(i, 0, 64), b0, b1, 8), 1), 2)
            ok(U)


def s_update(S, g, f):
    update(S, g, f, lambda T: T.done(True), lambda T: T.done(False))


def setup_update(V):
    for nm, st, a in cases(V):
        if 'video' not in nm and 'context' not in nm:
            yield nm, st, a


def s_manage(S, g, f):
    """the segmenter takes over the parameters of the audio frame, then its header"""
    ex = S.ex
    if is_null(f) or 'AudioFrame' not in ex.objs[f.obj].info:
        S.done(NULL)
        return
    fmt = S.get(f, 'AudioFrame', 'sampleFmt')
    bits = itew(lor(eq(fmt, 0), eq(fmt, 3)), 8, itew(lor(eq(fmt, 1), eq(fmt, 4)), 16, itew(lor(eq(fmt, 2), eq(fmt, 5)), 32, 0)))
    outs = []
    p10.s_setup(G)(Spec(ex, S.st, (), outs, S.proving), g, *([S.get(f, 'AudioFrame', x) for x in ('channels', 'sampleRate', 'samples')] + [bits]))
    for st, r in outs:
        T = Spec(ex, st, (), S.outs, S.proving)
        update(T, g, f, lambda U: U.done(f), lambda U: U.done(NULL))


def s_append(S, g, f):
    ex = S.ex
    if is_null(f) or ex.objs[f.obj].info != 'class:' + F or is_null(S.get(g, SEG, 'dashContext', True)):
        S.done(False)
        return
    n = S.get(f, F, 'bufferLen')
    for T, ok in S.split(ult(7, n)):
        if not ok:
            T.done(False)
            continue
        t = p10.base(T, g, T.get(f, 'Frame', 'presentationTime'))
        data = ex.adds(T.get(f, F, 'frameBuff', True), 7, 1)
        outs = []
        p09.s_add_audio(Spec(ex, T.st, (), outs, T.proving), data, sub(n, 7, 32), T.get(g, SEG, 'frameDuration'), t, t, T.get(g, SEG, 'sequenceNumber'),
                        ex.fptr(g, SEG, 'dashContext'))
        for st, r in outs:
            S.outs.append((st, isinstance(r, int) and r == 0))


def setup_append(V):
    for nm, st, a in cases(V):
        if 'video' in nm or nm.startswith('not'):
            continue
        yield nm, st, a


def setup_base(V):
    st = V.state()
    g, c, m, s = p10.segmenter(V, st, G)
    yield '', st, [g, V.bv('time', 64)]


def run(V):
    V.prove('generate_context', p09.s_generate, p09.setup_generate)
    V.prove('fill_audio_context', p10.s_fill_audio, p10.setup_fill('audio'))
    V.prove('add_audio_sample', p09.s_add_audio, p09.setup_add('audio'))
    V.use('add_audio_sample', p09.s_add_audio)
    p10.use_c(V)
    V.prove(G + '::setup', p10.s_setup(G), p10.setup_setup(G))
    V.use(G + '::setup', p10.s_setup(G))
    V.prove(SEG + '::microsToTimeBase', lambda S, g, t: S.done(p10.base(S, g, t)), setup_base)
    V.prove(G + '::updateExtradata', s_update, setup_update)
    V.prove(G + '::manageFrame', s_manage, cases)
    V.prove(G + '::appendFrameToDashSegment', s_append, setup_append)
