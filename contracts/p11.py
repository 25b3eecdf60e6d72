"""P11: NAL units become length-prefixed access units without loss or overflow."""
from verify import *
import p09, p10

SRC = p10.SRC + ['src/Utils.cpp']
NATIVE = dict(p10.NATIVE, driver='p11.cpp')
F, VF = 'InterleavedVideoFrame', 'VideoFrame'
DV = 'DashVideoSegmenter'
AVC, HEVC = 'DashVideoSegmenterAVC', 'DashVideoSegmenterHEVC'
MAXF = 10 * 1024 * 1024
# NAL unit types: parameter sets, what ends the key state, what keeps it, intra and other picture units
TYPES = {AVC: dict(sets={7: 'sps', 8: 'pps'}, info=[6], keep=[], delimiter=[9], intra=[5], inter=[1]),
         HEVC: dict(sets={32: 'vps', 33: 'sps', 34: 'pps'}, info=[39], keep=[40], delimiter=[35], intra=[19, 20, 21], inter=[0, 1])}
SETS = {AVC: ['sps', 'pps'], HEVC: ['vps', 'sps', 'pps']}


def frame(V, st, name, size=None):
    ex = V.ex
    f = V.obj(st, 'class.' + F, name, cname=F)
    V.vptr(st, f, F)
    if size is None:
        size = ex.get(st, f, F, 'bufferMaxLen')
    else:
        ex.put(st, f, F, 'bufferMaxLen', size)
    ex.put(st, f, F, 'frameBuff', V.bytes(st, name + ' data', zext(size, 32, 64)))
    st.assume(ule(ex.get(st, f, F, 'bufferLen'), size))
    return f


def segmenter(V, st, cls, sets=None):
    ex = V.ex
    g, c, m, s = p10.segmenter(V, st, cls)
    for f in ('vFrame', 'tmpFrame'):
        ex.put(st, g, cls, f, frame(V, st, f, MAXF))
    b = ex.raw_load(st, ex.fptr(g, DV, 'currentIntra'), 1)
    st.assume(ule(b, 1, 8))
    for f in SETS[cls]:
        n = 0
        if sets is not None and sets[f]:
            n = V.bv(f + ' length', 64)
            st.assume(ule(1, n, 64), ule(n, 1 << 31, 64))
        stdmodel.bvec_set(ex, st, ex.fptr(g, cls, f), Log.base(uf8(f), 1), n)
    stdmodel.bvec_set(ex, st, ex.fptr(g, 'DashSegmenter', 'extradata'), Log.const(0, 1), 0)
    return g


def uf8(name):
    f = z3.Function(name + ' bytes', z3.BitVecSort(64), z3.BitVecSort(8))
    return lambda i: f(bv(i, 64))


def nal(V, st):
    f = frame(V, st, 'unit')
    st.assume(ule(4, V.ex.get(st, f, F, 'bufferMaxLen')))
    st.assume(ule(V.ex.get(st, f, F, 'bufferMaxLen'), 0x7fffffff))
    return f


def at(S, p, i):
    return S.ex.raw_load(S.st, S.ex.adds(p, i, 1), 1)


def code(S, p, go):
    """the length of the start code"""
    b = [at(S, p, i) for i in range(4)]
    z = land(eq(b[0], 0, 8), eq(b[1], 0, 8))
    for T, short in S.split(land(z, eq(b[2], 1, 8))):
        if short:
            go(T, 3)
            continue
        for U, long in T.split(land(z, eq(b[2], 0, 8), eq(b[3], 1, 8))):
            go(U, 4 if long else 0)


def setup_code(V):
    for cls in (AVC,):
        st = V.state()
        g = segmenter(V, st, cls)
        yield '', st, [g, V.bytes(st, 'unit', 4)]


def time(S, f):
    d, p = S.get(f, 'Frame', 'decodeTime'), S.get(f, 'Frame', 'presentationTime')
    return itew(land(ne(d, -1, 64), sle(d, p, 64)), d, p, 64)


def append(S, f, data, n, w, h, ts, dts, ok, no):
    """4 bytes of length, the unit"""
    ex = S.ex
    k, mx, buf = S.get(f, F, 'bufferLen'), S.get(f, F, 'bufferMaxLen'), S.get(f, F, 'frameBuff', True)
    S.require([ule(k, mx), ule(mx, MAXF), ule(n, 0x7fffffff)])
    for T, fits in S.split(ule(add(add(n, 4, 32), k, 32), mx)):
        if not fits:
            no(T)
            continue
        for i in range(4):
            ex.raw_store(T.st, ex.adds(buf, zext(add(k, i, 32), 32, 64), 1), 1, z3.simplify(z3.Extract(31 - 8 * i, 24 - 8 * i, bv(n, 32))))
        ex.copy_range(T.st, ex.adds(buf, zext(add(k, 4, 32), 32, 64), 1), data, zext(n, 32, 64))
        T.put(f, F, 'bufferLen', add(add(k, 4, 32), n, 32))
        T.put(f, VF, 'width', w)
        T.put(f, VF, 'height', h)
        T.put(f, 'Frame', 'presentationTime', ts)
        T.put(f, 'Frame', 'decodeTime', dts)
        ok(T)


def s_append(S, g, f, data, n, w, h, ts, dts):
    append(S, f, data, n, w, h, ts, dts, lambda T: T.done(True), lambda T: T.done(False))


def setup_append(V):
    st = V.state()
    g = segmenter(V, st, AVC)
    n = V.bv('length')
    f = V.ex.raw_load(st, V.ex.fptr(g, AVC, 'tmpFrame'), 8)
    yield '', st, [g, f, V.bytes(st, 'unit', zext(n, 32, 64)), n, V.bv('width'), V.bv('height'), V.bv('pts', 64), V.bv('dts', 64)]


def s_parse(cls):
    K = TYPES[cls]

    def go(S, g, f):
        data, n = S.get(f, F, 'frameBuff', True), S.get(f, F, 'bufferLen')
        code(S, data, lambda T, off: body(T, g, f, data, n, off))

    def body(S, g, f, data, n, off):
        ex = S.ex
        for T, some in S.split(ult(off, n)):
            if not some:
                T.done(NULL)
                continue
            p, k = ex.adds(data, off, 1), sub(n, off, 32)
            b = at(T, p, 0)
            t = z3.simplify(bv(b, 8) & 0x1f) if cls == AVC else z3.simplify(z3.LShR(bv(b, 8) & 0x7e, 1))
            T.put(g, DV, 'previousIntra', T.get(g, DV, 'currentIntra'))
            kinds = [(x, [x]) for x in K['sets']] + [(x, K[x]) for x in ('info', 'keep', 'delimiter', 'intra', 'inter')]
            kinds = [(a, lor(*[eq(t, v, 8) for v in l])) for a, l in kinds if l]
            U = T
            for kind, c in kinds:
                nxt = None
                for W, yes in U.split(c):
                    if yes:
                        unit(W, g, f, kind, p, k)
                    else:
                        nxt = W
                U = nxt
                if U is None:
                    break
            if U is not None:
                U.done(NULL)

    def unit(S, g, f, kind, p, k):
        ex = S.ex
        if kind in K['sets']:
            lg = Log.base(lambda i, m=S.st.mem[p.obj], p=p: m.read(add(p.idx, i)), 1)
            stdmodel.bvec_set(ex, S.st, ex.fptr(g, cls, K['sets'][kind]), lg, zext(k, 32, 64))
        if kind not in ('keep', 'delimiter'):
            S.put(g, DV, 'currentIntra', 1 if kind == 'intra' else 0)
        tmp, v = S.get(g, cls, 'tmpFrame', True), S.get(g, cls, 'vFrame', True)
        c = True if kind == 'delimiter' else slt(time(S, tmp), time(S, f), 64)
        if cls == AVC:
            c = land(c, ne(S.get(tmp, F, 'bufferLen'), 0))
        for T, complete in S.split(c):
            if complete:
                T.put(g, cls, 'tmpFrame', v)
                T.put(g, cls, 'vFrame', tmp)
                T.put(v, F, 'bufferLen', 0)
            cur, r = (v, tmp) if complete else (tmp, NULL)
            if kind in ('intra', 'inter'):
                append(T, cur, p, k, T.get(f, VF, 'width'), T.get(f, VF, 'height'), T.get(f, 'Frame', 'presentationTime'), T.get(f, 'Frame', 'decodeTime'),
                       lambda U: U.done(r), lambda U: U.done(r))
            else:
                T.done(r)
    return go


def setup_parse(cls):
    def go(V):
        st = V.state()
        g = segmenter(V, st, cls)
        yield '', st, [g, nal(V, st)]
    return go


def content(S, g, cls, f):
    return stdmodel.bvec(S.ex, S.st, S.ex.fptr(g, cls, f))


def u16(n):
    n = bv(n, 64)
    return [z3.simplify(z3.Extract(15, 8, n)), z3.simplify(z3.Extract(7, 0, n))]


def s_update(cls):
    """the codec configuration of a complete group of parameter sets"""
    def go(S, g):
        have = {f: content(S, g, cls, f) for f in SETS[cls]}
        least = {f: 3 if cls == AVC and f == 'sps' else 1 for f in SETS[cls]}
        for T, all_ in S.split(land(*[ule(least[f], n, 64) for f, (l, n) in have.items()])):
            if all_:
                if cls == AVC:
                    sps = have['sps'][0]
                    parts = [1] + [sps.read(i) for i in range(3)] + [0xff, 0xe1] + u16(have['sps'][1]) + [have['sps'], 1] + u16(have['pps'][1]) + [have['pps']]
                else:
                    parts = [1, 1, 0x60, 0, 0, 0, 0x90, 0, 0, 0, 0, 0, 93, 0xf0, 0, 0xfc, 0xf9, 0xf8, 0xf8, 0, 0, 0x0f, 3]
                    for t, f in ((32, 'vps'), (33, 'sps'), (34, 'pps')):
                        parts += [t, 0, 1] + u16(have[f][1]) + [have[f]]
                lg, n = Log.const(0, 1), 0
                for x in parts:
                    if isinstance(x, tuple):
                        lg = lg.fill(n, x[1], lambda o, l=x[0]: l.read(o))
                        n = add(n, x[1])
                    else:
                        lg = lg.fill(n, 1, lambda o, x=x: x)
                        n = add(n, 1)
                stdmodel.bvec_set(T.ex, T.st, T.ex.fptr(g, 'DashSegmenter', 'extradata'), lg, n)
                for f in SETS[cls]:
                    stdmodel.bvec_set(T.ex, T.st, T.ex.fptr(g, cls, f), Log.const(0, 1), 0)
            T.done(None)
    return go


def setup_update(cls):
    def go(V):
        names = SETS[cls]
        for mask in range(1 << len(names)):
            st = V.state()
            have = {f: bool(mask >> i & 1) for i, f in enumerate(names)}
            yield ' '.join(f for f in names if have[f]) or 'none', st, [segmenter(V, st, cls, have)]
    return go


def s_manage(cls):
    def go(S, g, f):
        ex = S.ex
        if is_null(f) or 'VideoFrame' not in ex.objs[f.obj].info:
            S.done(NULL)
            return
        outs = []
        s_parse(cls)(Spec(ex, S.st, (), outs, S.proving), g, f)
        for st, v in outs:
            outs2 = []
            s_update(cls)(Spec(ex, st, (), outs2, S.proving), g)
            for st2, _ in outs2:
                T = Spec(ex, st2, (), S.outs, S.proving)
                if is_null(v):
                    T.done(NULL)
                    continue
                for U, some in T.split(ne(T.get(v, F, 'bufferLen'), 0)):
                    if not some:
                        U.done(NULL)
                        continue
                    outs3 = []
                    p10.s_setup(cls)(Spec(ex, U.st, (), outs3, S.proving), g, U.get(v, VF, 'width'), U.get(v, VF, 'height'))
                    for st3, r in outs3:
                        S.outs.append((st3, v))
    return go


def setup_manage(cls):
    def go(V):
        st = V.state()
        yield 'no frame', st, [segmenter(V, st, cls), NULL]
        st = V.state()
        g = segmenter(V, st, cls)
        a = V.obj(st, 'class.InterleavedAudioFrame', 'sound', cname='InterleavedAudioFrame')
        V.vptr(st, a, 'InterleavedAudioFrame')
        yield 'audio', st, [g, a]
        for all_ in (False, True):
            st = V.state()
            g = segmenter(V, st, cls, {f: all_ for f in SETS[cls]})
            yield 'with parameter sets' if all_ else 'without parameter sets', st, [g, nal(V, st)]
    return go


def run(V):
    V.prove(DV + '::detectStartCode', lambda S, g, p: code(S, p, lambda T, n: T.done(n)), setup_code)
    V.prove(DV + '::appendNalToFrame', s_append, setup_append)
    V.use(DV + '::appendNalToFrame', s_append)
    V.prove('generate_context', p09.s_generate, p09.setup_generate)
    V.prove('fill_video_context', p10.s_fill_video, p10.setup_fill('video'))
    p10.use_c(V)
    for cls in (AVC, HEVC):
        V.prove(cls + '::updateExtradata', s_update(cls), setup_update(cls))
        V.prove(cls + '::parseNal', s_parse(cls), setup_parse(cls))
        V.prove('DashVideoSegmenter::setup', p10.s_setup(cls), p10.setup_setup(cls), name='setup of ' + cls)
    for cls in (AVC, HEVC):
        V.use(cls + '::updateExtradata', s_update(cls))
        V.use(cls + '::parseNal', s_parse(cls))
    for cls in (AVC, HEVC):
        V.prove(DV + '::manageFrame', s_manage(cls), setup_manage(cls), name='manageFrame of ' + cls)
