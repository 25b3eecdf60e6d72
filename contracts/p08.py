"""P08: initialisation segments are well-formed and carry the stream's exact parameters."""
from verify import *
import re
import p09, p10, isoff
from isoff import *

SRC = p10.SRC
SEG, DS = 'DashSegmenter', 'DashSegment'
# a descriptor length of one byte holds the codec configuration of at most this many bytes
MAXA = 104
NATIVE = dict(p10.NATIVE, driver='p08.cpp')


def s_init_handler(kind):
    gen = isoff.s_init(kind)

    def go(S, src, n, out, pp):
        c, m, s = p09.parts(S, pp, kind)
        if is_null(c) or is_null(out) or is_null(src):
            error(S)
            return
        for T, some in S.split(land(ule(1, n), True if kind == 'audio' else land(ule(1, T_get(S, m, 'width'), 16), ule(1, T_get(S, m, 'height'), 16)))):
            if some:
                gen(T, src, n, out, pp)
            else:
                error(T)
    return go


def T_get(S, m, f):
    return S.get(m, 'i2ctx_video', f)


def limit(V, st, kind):
    n = V.bv('configuration length')
    st.assume(ule(n, MAXA if kind == 'audio' else MAXD))
    return n


def setup(kind):
    def go(V):
        for case in ('', 'no context', 'no destination', 'no source'):
            st = V.state()
            pp, c, m, s = p09.ctx(V, st, kind)
            n = limit(V, st, kind)
            src = V.bytes(st, 'configuration', zext(n, 32, 64))
            out = V.bytes(st, 'segment', CAP)
            if case == 'no context':
                st.cells(pp.obj)[0] = (8, NULL)
            yield case, st, [NULL if case == 'no source' else src, n, NULL if case == 'no destination' else out, pp]
    return go


def s_segmenter(kind):
    """an initialisation segment is made once for each codec configuration"""
    handler = s_init_handler(kind)

    def go(S, g, seg):
        ex = S.ex
        e = ex.fptr(g, SEG, 'extradata')
        log, n = stdmodel.bvec(ex, S.st, e)
        if is_null(S.get(g, SEG, 'dashContext', True)) or is_null(seg) or ex.known(S.st, eq(n, 0)):
            S.done(False)
            return
        for T, fits in S.split(ule(n, MAXA if kind == 'audio' else MAXD, 64)):
            if not fits:
                T.done(False)
                continue
            outs = []
            R = Spec(ex, T.st, (), outs, S.proving)
            handler(R, ex.raw_load(T.st, ex.canon(e), 8, True), trunc(n, 64, 32), R.get(seg, DS, 'data', True), ex.fptr(g, SEG, 'dashContext'))
            for st2, r in outs:
                U = Spec(ex, st2, (), S.outs, S.proving)
                if callable(r):
                    U.done(False)
                    continue
                U.put(seg, DS, 'dataLength', r)
                stdmodel.bvec_set(ex, U.st, e, Log.const(0, 1), 0)
                U.done(True)
    return go


def setup_segmenter(cls):
    kind = p10.KINDS[cls]

    def go(V):
        for case in ('', 'no context', 'no segment', 'no configuration'):
            st = V.state()
            g, c, m, s = p10.segmenter(V, st, cls, case != 'no context')
            n = V.bv('configuration length', 64)
            # an audio configuration is two bytes (P12)
            st.assume(ule(1, n, 64), ule(n, 2 if kind == 'audio' else 1 << 31, 64))
            e = V.ex.fptr(g, SEG, 'extradata')
            stdmodel.bvec_set(V.ex, st, e, Log.uf('configuration', 1), 0 if case == 'no configuration' else n)
            yield case, st, [g, NULL if case == 'no segment' else p10.segment(V, st)]
    return go


def s_new_segment(S, g, n):
    """an empty segment with room for a whole media segment of the largest context"""
    S.require(ule(CAP, n), 'room for a whole segment')
    ex = S.ex
    o = ex.new_obj('segment data', 'bytes', zext(n, 32, 64))
    S.st.mem[o.id] = ANY
    S.put(g, DS, 'data', Ptr(o.id, 0, 0))
    for f in ('dataLength', 'seqNumber', 'timestamp', 'duration', 'complete', 'lastFrameTimestamp'):
        S.put(g, DS, f, 0)
    S.done()


def setup_new_segment(V):
    st = V.state()
    n = V.bv('size')
    st.assume(ule(CAP, n))
    yield '', st, [V.out(st, 'class.DashSegment'), n]


def call_sites(V):
    """every segment of the sources is created with that room"""
    sites = 0
    for name in list(V.prog.fn_mod):
        m, f = V.prog.resolve(name) or (None, None)
        if f is None:
            continue
        for b in f.blocks.values():
            for I in b:
                t = getattr(I, 'text', '') or ''
                k = re.search(r'@_ZN11DashSegmentC[12]Ej\(.*i32 (?:noundef )?(\S+?)\)', t)
                if k and '_ZN11DashSegmentC' not in name:
                    sites += 1
                    if not k.group(1).isdigit():
                        raise Unsupported('segment of computed size in ' + V.prog.demangle(name))
                    V.ex.cur = (name, None)
                    V.check(V.state(), int(k.group(1)) >= CAP, 'precondition of DashSegment::DashSegment in %s' % V.prog.demangle(name), 'pre')
    if not sites:
        raise Unsupported('no segment is created')


def prove_segments(V):
    V.prove('DashSegment::DashSegment', s_new_segment, setup_new_segment)
    V.unit('creation of segments', lambda: call_sites(V))


def run(V):
    for kind in ('video', 'audio'):
        f = 'init%sGenerator' % kind.capitalize()
        V.prove(f, isoff.s_init(kind), setup(kind))
        V.use(f, isoff.s_init(kind))
        V.prove('new_init_video_handler' if kind == 'video' else 'init_audio_handler', s_init_handler(kind), setup(kind))
    V.use('new_init_video_handler', s_init_handler('video'))
    V.use('init_audio_handler', s_init_handler('audio'))
    for cls in p10.KINDS:
        f = 'DashVideoSegmenter' if p10.KINDS[cls] == 'video' else cls
        V.prove(f + '::generateInitSegment', s_segmenter(p10.KINDS[cls]), setup_segmenter(cls), name='generateInitSegment of ' + cls)
    prove_segments(V)
    # where the parameters come from
    V.prove('generate_context', p09.s_generate, p09.setup_generate)
    V.prove('fill_video_context', p10.s_fill_video, p10.setup_fill('video'))
    V.prove('fill_audio_context', p10.s_fill_audio, p10.setup_fill('audio'))
    p10.use_c(V)
    for cls in p10.KINDS:
        V.prove(('DashVideoSegmenter' if p10.KINDS[cls] == 'video' else cls) + '::setup', p10.s_setup(cls), p10.setup_setup(cls), name='setup of ' + cls)
