"""P09: segment contexts account every sample once and never overrun their buffers."""
from verify import *
import isoff

SRC = ['src/modules/dasher/i2libdash.c', 'src/modules/dasher/i2libisoff.c']
MAXD = 10 * 1024 * 1024
MAXS = 65536
AVC, HEVC, AUDIO = 1, 2, 3


def ctx(V, st, kind, name='ctx', inv=True):
    """a context as generate_context makes it: pointer variable, context, media context, sample context"""
    ex = V.ex
    pp = V.rawout(st, 8, name + 'var')
    ex.objs[pp.obj].info = None
    c = V.obj(st, 'struct.i2ctx', name)
    m = V.obj(st, 'struct.i2ctx_' + kind, name + kind)
    s = V.obj(st, 'struct.i2ctx_sample', name + 'sample')
    st.cells(pp.obj)[0] = (8, c)
    ex.put(st, c, 'i2ctx', 'ctx' + kind, m)
    ex.put(st, c, 'i2ctx', 'ctx' + ('audio' if kind == 'video' else 'video'), NULL)
    M = 'i2ctx_' + kind
    ex.put(st, m, M, 'ctxsample', s)
    if inv:
        g = lambda f: ex.get(st, s, 'i2ctx_sample', f)
        st.assume(ule(ex.get(st, m, M, 'segment_data_size'), MAXD), ule(g('mdat_sample_length'), MAXS))
        ex.put(st, s, 'i2ctx_sample', 'box_flags', isoff.FLAGS[kind])
        ex.put(st, s, 'i2ctx_sample', 'moof_pos', g('trun_pos'))
    if kind == 'video':
        t = ex.get(st, m, M, 'video_type')
        st.assume(lor(eq(t, AVC), eq(t, HEVC)))
    return pp, c, m, s


def parts(S, pp, kind):
    c = S.ex.raw_load(S.st, S.ex.canon(pp), 8, True)
    if is_null(c):
        return c, None, None
    m = S.get(c, 'i2ctx', 'ctx' + kind, True)
    if is_null(m):
        return c, m, None
    return c, m, S.get(m, 'i2ctx_' + kind, 'ctxsample', True)


def error(S):
    S.done(lambda r: ne(r, 0))



def entry(S, s, i):
    """pointer to sample i of the table"""
    ex = S.ex
    p = ex.fptr(s, 'i2ctx_sample', 'mdat')
    return ex.adds(p, i if isinstance(i, int) else zext(i, 32, 64), 32)


def append(S, kind, m, s, data, n):
    """payload appended, returns the index of the new sample"""
    M = 'i2ctx_' + kind
    size = S.get(m, M, 'segment_data_size')
    S.ex.copy_range(S.st, S.ex.adds(S.ex.fptr(m, M, 'segment_data'), zext(size, 32, 64), 1), data, zext(n, 32, 64))
    S.put(m, M, 'segment_data_size', add(size, n, 32))
    k = S.get(s, 'i2ctx_sample', 'mdat_sample_length')
    S.put(s, 'i2ctx_sample', 'mdat_sample_length', add(k, 1, 32))
    return k


def room(S, kind, m, s, n):
    size = S.get(m, 'i2ctx_' + kind, 'segment_data_size')
    k = S.get(s, 'i2ctx_sample', 'mdat_sample_length')
    S.require([ule(size, MAXD), ule(k, MAXS)])
    return land(ult(k, MAXS), ule(n, sub(MAXD, size, 32)))


def s_add_video(S, data, n, pts, dts, seq, intra, pp):
    c, m, s = parts(S, pp, 'video')
    if is_null(c) or is_null(data):
        error(S)
        return
    k = S.get(s, 'i2ctx_sample', 'mdat_sample_length')
    ok = land(ule(1, n), lor(eq(intra, 1, 8), land(eq(intra, 0, 8), ne(k, 0))), room(S, 'video', m, s, n))
    for T, good in S.split(ok):
        if not good:
            error(T)
            continue
        for U, first in T.split(eq(k, 0)):
            append(U, 'video', m, s, data, n)
            e = entry(U, s, k)
            for f, v in (('size', n), ('presentation_timestamp', pts), ('decode_timestamp', dts)):
                U.put(e, 'mdat_sample', f, v)
            key(U, e, intra)
            if first:
                U.put(m, 'i2ctx_video', 'earliest_presentation_time', pts)
                U.put(m, 'i2ctx_video', 'sequence_number', seq)
                U.put(m, 'i2ctx_video', 'current_video_duration', 0)
            else:
                last = entry(U, s, sub(k, 1, 32))
                d = trunc(sub(dts, U.get(last, 'mdat_sample', 'decode_timestamp')), 64, 32)
                U.put(last, 'mdat_sample', 'duration', d)
                U.put(m, 'i2ctx_video', 'current_video_duration', add(U.get(m, 'i2ctx_video', 'current_video_duration'), d, 32))
            U.done(0)


def key(S, e, v):
    """the one-bit sync flag of a sample"""
    p = S.ex.addc(e, 16)
    old = S.ex.raw_load(S.st, p, 1)
    S.ex.raw_store(S.st, p, 1, bvor(bvand(old, 0xfe), v))


def bvor(a, b):
    return z3.simplify(bv(a, 8) | bv(b, 8))


def bvand(a, b):
    return z3.simplify(bv(a, 8) & bv(b, 8))


def s_add_audio(S, data, n, dur, pts, dts, seq, pp):
    c, m, s = parts(S, pp, 'audio')
    if is_null(c) or is_null(data):
        error(S)
        return
    k = S.get(s, 'i2ctx_sample', 'mdat_sample_length')
    for T, good in S.split(land(ule(1, n), ule(1, dur), room(S, 'audio', m, s, n))):
        if not good:
            error(T)
            continue
        for U, first in T.split(eq(k, 0)):
            append(U, 'audio', m, s, data, n)
            e = entry(U, s, k)
            for f, v in (('size', n), ('presentation_timestamp', pts), ('decode_timestamp', dts), ('duration', dur)):
                U.put(e, 'mdat_sample', f, v)
            key(U, e, 1)
            if first:
                U.put(m, 'i2ctx_audio', 'earliest_presentation_time', pts)
                U.put(m, 'i2ctx_audio', 'sequence_number', seq)
            U.put(m, 'i2ctx_audio', 'current_audio_duration', add(U.get(m, 'i2ctx_audio', 'current_audio_duration'), dur, 32))
            U.done(0)


def setup_add(kind):
    def go(V):
        for case in ('', 'no data', 'no context'):
            st = V.state()
            pp, c, m, s = ctx(V, st, kind)
            n = V.bv('length')
            data = V.bytes(st, 'data', zext(n, 32, 64))
            if case == 'no data':
                data = NULL
            if case == 'no context':
                st.cells(pp.obj)[0] = (8, NULL)
            a = [data, n]
            if kind == 'audio':
                a.append(V.bv('duration'))
            a += [V.bv('pts', 64), V.bv('dts', 64), V.bv('seq')]
            if kind == 'video':
                a.append(V.bv('intra', 8))
            yield case, st, a + [pp]
    return go


def s_refresh(S, pp, t):
    for T, video in S.split(lor(eq(t, AVC), eq(t, HEVC))):
        if video:
            empty(T, pp, 'video')
            T.done()
            continue
        for U, audio in T.split(eq(t, AUDIO)):
            if audio:
                empty(U, pp, 'audio')
            U.done()


def empty(S, pp, kind):
    c, m, s = parts(S, pp, kind)
    M = 'i2ctx_' + kind
    for f in ('earliest_presentation_time', 'sequence_number', 'current_%s_duration' % kind, 'segment_data_size'):
        S.put(m, M, f, 0)
    for f in ('mdat_sample_length', 'mdat_total_size', 'moof_pos', 'trun_pos'):
        S.put(s, 'i2ctx_sample', f, 0)


def setup_refresh(kind):
    def go(V):
        st = V.state()
        pp, c, m, s = ctx(V, st, kind)
        t = V.bv('type')
        st.assume(ne(t, AUDIO) if kind == 'video' else eq(t, AUDIO))
        yield kind, st, [pp, t]
    return go


def fresh(S, cname):
    """a new object that must hold at least the fields the contract sets"""
    ex = S.ex
    o = ex.new_obj('new ' + cname, 'cells', ex.size_of(('named', 'struct.' + cname), ex.prog.type_mod('struct.' + cname)))
    S.st.mem[o.id] = {'default': 'uninit'}
    o.info = 'need'
    return Ptr(o.id, None, 0)


def s_generate(S, pp, t):
    ex = S.ex
    for T, ok in S.split(lor(eq(t, AVC), eq(t, HEVC), eq(t, AUDIO))):
        if not ok:
            ex.raw_store(T.st, pp, 8, NULL)
            error(T)
            continue
        for U, audio in T.split(eq(t, AUDIO)):
            kind, other = ('audio', 'video') if audio else ('video', 'audio')
            c, m, s = fresh(U, 'i2ctx'), fresh(U, 'i2ctx_' + kind), fresh(U, 'i2ctx_sample')
            ex.raw_store(U.st, pp, 8, c)
            U.put(c, 'i2ctx', 'ctx' + kind, m)
            U.put(c, 'i2ctx', 'ctx' + other, NULL)
            U.put(m, 'i2ctx_' + kind, 'ctxsample', s)
            empty(U, pp, kind)
            U.put(s, 'i2ctx_sample', 'box_flags', isoff.FLAGS[kind])
            if not audio:
                U.put(m, 'i2ctx_video', 'video_type', t)
                # the sample duration of a video stream is not fixed
                U.put(m, 'i2ctx_video', 'sample_duration', 0)
            U.done(0)


def setup_generate(V):
    st = V.state()
    pp = V.rawout(st, 8, 'ctxvar')
    V.ex.objs[pp.obj].info = None
    st.cells(pp.obj)[0] = (8, NULL)
    yield '', st, [pp, V.bv('type')]


def segment(S, kind, c, m, s, out, ts, dur, total):
    """the segment of all samples is handed out, the context is empty again"""
    M = 'i2ctx_' + kind
    S.put(m, M, 'current_%s_duration' % kind, total)
    L = isoff.write_segment(S, kind, c, m, s, S.ex.fptr(m, M, 'segment_data'), S.get(m, M, 'segment_data_size'), out)
    S.ex.raw_store(S.st, dur, 4, total)
    S.ex.raw_store(S.st, ts, 8, S.get(m, M, 'earliest_presentation_time'))
    for f in ('earliest_presentation_time', 'sequence_number', 'current_%s_duration' % kind, 'segment_data_size'):
        S.put(m, M, f, 0)
    for f in ('mdat_sample_length', 'mdat_total_size', 'moof_pos', 'trun_pos'):
        S.put(s, 'i2ctx_sample', f, 0)
    S.done(L)


def s_gen_audio(force):
    def spec(S, out, pp, ts, dur):
        c, m, s = parts(S, pp, 'audio')
        if is_null(c) or is_null(out):
            S.done(lambda r: land(ne(r, 0), ule(r, 10)))
            return
        n = S.get(m, 'i2ctx_audio', 'segment_data_size')
        cur = S.get(m, 'i2ctx_audio', 'current_audio_duration')
        for T, due in S.split(True if force else ule(S.get(c, 'i2ctx', 'duration'), cur)):
            if not due:
                T.done(0)
                continue
            for U, some in T.split(ule(1, n)):
                if some:
                    segment(U, 'audio', c, m, s, out, ts, dur, cur)
                else:
                    # nothing to make a segment of
                    U.done(lambda r: ule(r, 10))
    return spec


def s_gen_video(S, intra, nxt, out, pp, ts, dur):
    c, m, s = parts(S, pp, 'video')
    if is_null(c) or is_null(out):
        S.done(lambda r: land(ne(r, 0), ule(r, 10)))
        return
    k = S.get(s, 'i2ctx_sample', 'mdat_sample_length')
    n = S.get(m, 'i2ctx_video', 'segment_data_size')
    S.require([ule(k, MAXS), ule(n, MAXD), implies(ule(1, k), ule(1, n))])
    for T, bad in S.split(lnot(lor(eq(intra, 0, 8), eq(intra, 1, 8)))):
        if bad:
            T.done(lambda r: land(ne(r, 0), ule(r, 10)))
            continue
        for U, some in T.split(ule(1, k)):
            if not some:
                U.done(0)
                continue
            e = entry(U, s, sub(k, 1, 32))
            last = sub(nxt, trunc(U.get(e, 'mdat_sample', 'presentation_timestamp'), 64, 32), 32)
            cur = U.get(m, 'i2ctx_video', 'current_video_duration')
            d = U.get(c, 'i2ctx', 'duration')
            # as close to the target as the frame spacing allows: the target lies at most one frame beyond the next cut
            near = sle(zext(d, 32, 64), add(zext(cur, 32, 64), mul(2, sext(last, 32, 64))), 64)
            for W, cut in U.split(land(eq(intra, 1, 8), near)):
                if not cut:
                    W.done(0)
                    continue
                W.put(e, 'mdat_sample', 'duration', last)
                segment(W, 'video', c, m, s, out, ts, dur, add(cur, last, 32))


def setup_gen(kind):
    def go(V):
        for case in ('', 'no buffer', 'no context'):
            st = V.state()
            pp, c, m, s = ctx(V, st, kind)
            out = V.bytes(st, 'out', isoff.CAP) if case != 'no buffer' else NULL
            if case == 'no context':
                st.cells(pp.obj)[0] = (8, NULL)
            ts, dur = V.rawout(st, 8, 'ts'), V.rawout(st, 4, 'dur')
            for p in (ts, dur):
                V.ex.objs[p.obj].info = None
            a = [out, pp, ts, dur]
            if kind == 'video':
                a = [V.bv('intra', 8), V.bv('nextpts')] + a
            yield case, st, a
    return go


def prove_gen(V):
    V.use('segmentGenerator', isoff.s_segment)
    V.prove('generate_audio_segment', s_gen_audio(False), setup_gen('audio'))
    V.prove('force_generate_audio_segment', s_gen_audio(True), setup_gen('audio'))
    V.prove('generate_video_segment', s_gen_video, setup_gen('video'))


def run(V):
    V.prove('generate_context', s_generate, setup_generate)
    V.prove('add_video_sample', s_add_video, setup_add('video'))
    V.prove('add_audio_sample', s_add_audio, setup_add('audio'))
    for k in ('video', 'audio'):
        V.prove('context_refresh', s_refresh, setup_refresh(k), name='context_refresh (%s)' % k)
    prove_gen(V)


NATIVE = {'driver': 'p09.cpp', 'sources': ['src/modules/dasher/i2libdash.c', 'src/modules/dasher/i2libisoff.c'],
          'libs': ['-Wl,--unresolved-symbols=ignore-all'], 'flags': ''}
