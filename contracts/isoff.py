"""Contracts of the ISO base media file writers (i2libisoff.c): what the boxes of a segment contain, as a function of the context."""
from verify import *

AVC, HEVC, AUDIO = 1, 2, 3
MAXD = 10 * 1024 * 1024
MAXS = 65536
CAP = MAXD + 16 * MAXS + 4096       # room of a DashSegment
FLAGS = {'audio': 769, 'video': 3841}


class Run:
    """a stretch of symbolic length: byte o is fn(o)"""
    def __init__(self, n, fn):
        self.n, self.fn = n, fn


def u8(*v):
    return list(v)


def word(v, n):
    if isinstance(v, int):
        return [(v >> 8 * (n - 1 - i)) & 255 for i in range(n)]
    v = bv(v, 8 * n)
    return [z3.simplify(z3.Extract(8 * (n - i) - 1, 8 * (n - i) - 8, v)) for i in range(n)]


def u16(*v):
    return [b for x in v for b in word(x, 2)]


def u32(*v):
    return [b for x in v for b in word(x, 4)]


def u64(*v):
    return [b for x in v for b in word(x, 8)]


def length(parts):
    """length of a list of bytes and runs as a 32 bit word"""
    n, sym = 0, None
    for p in parts:
        if isinstance(p, Run):
            sym = p.n if sym is None else add(sym, p.n, 32)
        else:
            n += 1
    return n if sym is None else add(sym, n, 32)


def box(name, *parts):
    """a box: its size, its type, its contents"""
    body = [b for p in parts for b in p]
    return u32(add(length(body), 8, 32)) + [ord(c) for c in name] + body


def emit(S, out, parts):
    """the parts written one after the other at out; the total length"""
    ex = S.ex
    out = ex.canon(out)
    total = length(parts)
    size = ex.objs[out.obj].size
    S.require(ule(zext(total, 32, 64) if not isinstance(total, int) else total, sub(size, out.idx or 0), 64), 'the destination has room')
    lg = S.st.mem[out.obj]
    at = out.idx or 0
    seq = []

    def flush():
        nonlocal lg, at, seq
        if seq:
            lg = lg.fill(at, len(seq), lambda o, seq=seq: pick(seq, o))
            at = add(at, len(seq))
            seq = []
    for p in parts:
        if isinstance(p, Run):
            flush()
            n = zext(p.n, 32, 64)
            lg = lg.fill(at, n, p.fn)
            at = add(at, n)
        else:
            seq.append(p)
    flush()
    S.st.mem[out.obj] = lg
    return total


def pick(seq, o):
    if isinstance(o, int):
        return seq[o] if 0 <= o < len(seq) else 0
    r = z3.BitVecVal(0, 8)
    for k in range(len(seq) - 1, -1, -1):
        r = z3.If(o == k, bv(seq[k], 8), r)
    return simp(r)


def content(ex, st, p):
    """the bytes behind a pointer as a function"""
    p = ex.canon(p)
    lg = ex.obj_content(st, p.obj) if ex.objs[p.obj].kind == 'bytes' else None
    if lg is not None:
        return lambda o: lg.read(add(p.idx or 0, o))
    s = st.fork()
    return lambda o: ex.raw_load(s, ex.adds(p, o, 1), 1)


def sample(ex, st, s, i):
    """sample i: (duration, size, key, composition offset)"""
    e = ex.adds(ex.fptr(s, 'i2ctx_sample', 'mdat'), i, 32)
    g = lambda f: ex.get(st, e, 'mdat_sample', f)
    key = z3.simplify(z3.Extract(0, 0, bv(ex.raw_load(st, ex.addc(e, 16), 1), 8)))
    off = trunc(sub(g('presentation_timestamp'), g('decode_timestamp')), 64, 32)
    return g('duration'), g('size'), key, off


def record(ex, st, s, kind, o):
    """byte o of the table of the fragment run"""
    w = 16 if kind == 'video' else 8
    i = z3.simplify(z3.LShR(bv(o, 64), 4 if w == 16 else 3)) if not isinstance(o, int) else o // w
    d, n, key, off = sample(ex, st, s, i)
    b = u32(d, n)
    if kind == 'video':
        b += u32(z3.simplify(z3.If(key == 1, z3.BitVecVal(0, 32), z3.BitVecVal(0x10000, 32))), off)
    r = z3.simplify(bv(o, 64) & (w - 1)) if not isinstance(o, int) else o % w
    return pick(b, r)


def styp():
    return box('styp', b'iso6', u32(1), b'isom', b'iso6', b'dash')


def sidx(tb, start, ref, dur):
    return box('sidx', u8(1, 0, 0, 0), u32(1, tb), u64(start), u64(0), u16(0, 1), u32(ref, dur), u8(0x90, 0, 0, 0))


def table(ex, st, s, kind, k):
    """the fragment run: one record for each of the k samples"""
    w = 16 if kind == 'video' else 8
    return Run(mul(k, w, 32), lambda o: record(ex, st, s, kind, o))


def trun(flags, k, data, rows):
    return box('trun', u32(flags, k, data), [rows])


def moof(seq, start, run):
    return box('moof', box('mfhd', u32(0, seq)), box('traf', box('tfhd', u32(0x20000, 1)), box('tfdt', u8(1, 0, 0, 0), u64(start)), run))


def view(S, c, kind):
    m = S.get(c, 'i2ctx', 'ctx' + kind, True)
    s = S.get(m, 'i2ctx_' + kind, 'ctxsample', True)
    return m, s


def error(S):
    S.done(lambda r: land(ne(r, 0), ult(r, 10)))


def kinds(S, t):
    """[(spec, kind or None)]"""
    for T, video in S.split(lor(eq(t, AVC), eq(t, HEVC))):
        if video:
            yield T, 'video'
            continue
        for U, audio in T.split(eq(t, AUDIO)):
            yield U, 'audio' if audio else None


def s_segment(S, src, n, out, t, pp):
    """a media segment of the samples in the context, or an error that changes nothing"""
    ex = S.ex
    c = ex.raw_load(S.st, ex.canon(pp), 8, True)
    if is_null(c) or is_null(out) or is_null(src):
        error(S)
        return
    for T, some in S.split(ule(1, n)):
        if not some:
            error(T)
            continue
        for U, kind in kinds(T, t):
            if kind is None:
                error(U)
                continue
            m, s = view(U, c, kind)
            U.done(write_segment(U, kind, c, m, s, src, n, out))


def write_segment(U, kind, c, m, s, src, n, out):
    """the whole segment at out; its length"""
    ex = U.ex
    M = 'i2ctx_' + kind
    g = lambda f: U.get(m, M, f)
    k = U.get(s, 'i2ctx_sample', 'mdat_sample_length')
    U.require([ule(k, MAXS), ule(n, MAXD), eq(U.get(s, 'i2ctx_sample', 'moof_pos'), U.get(s, 'i2ctx_sample', 'trun_pos')),
               eq(U.get(s, 'i2ctx_sample', 'box_flags'), FLAGS[kind])], 'a context with its invariant')
    st0 = U.st.fork()
    start = g('earliest_presentation_time')
    rows = table(ex, st0, s, kind, k)
    frag = lambda off: moof(g('sequence_number'), start, trun(FLAGS[kind], k, off, rows))
    mlen = length(frag(0))
    # the data offset points from the fragment's first byte to the payload
    ref = add(add(mlen, 8, 32), n, 32)
    parts = styp() + sidx(g('time_base'), start, ref, g('current_%s_duration' % kind)) + frag(add(mlen, 8, 32)) + box('mdat', [Run(n, content(ex, st0, src))])
    L = emit(U, out, parts)
    U.put(c, 'i2ctx', 'reference_size', ref)
    for f in ('moof_pos', 'trun_pos'):
        U.put(s, 'i2ctx_sample', f, ANY)
    return L


def loop_trun(L, S, k):
    """the records of the first k samples have been written"""
    ex = L.ex
    st = L.st
    data = ex.canon(L.arg(0))
    c = L.arg(2)
    kind = 'audio' if is_null(ex.get(st, c, 'i2ctx', 'ctxvideo', True)) else 'video'
    m = ex.get(st, c, 'i2ctx', 'ctx' + kind, True)
    s = ex.get(st, m, 'i2ctx_' + kind, 'ctxsample', True)
    w = 16 if kind == 'video' else 8
    S.mem[data.obj] = st.mem[data.obj].fill(add(data.idx or 0, 20), mul(k, w), lambda o: record(ex, st, s, kind, o))
    return [('at most one record per sample', ule(k, zext(ex.get(st, s, 'i2ctx_sample', 'mdat_sample_length'), 32, 64), 64))]


# ---------------------------------------------------------------- initialisation segments
MATRIX = u32(1 << 16, 0, 0, 0, 1 << 16, 0, 0, 0, 1 << 30)


def ftyp():
    return box('ftyp', b'iso6', u32(1), b'isom', b'iso6', b'dash')


def visual(name, conf, w, h, config):
    return box(name, u8(0, 0, 0, 0, 0, 0), u16(1), u8(*[0] * 16), u16(w, h), u32(0x480000, 0x480000, 0), u16(1), u8(*[0] * 32), u16(0x18, 0xffff), box(conf, [config]))


def sound(g, n, config):
    """the sample entry of an AAC stream: its decoder specific information is the codec configuration"""
    tail = lambda k: trunc(add(n, k, 32), 32, 8)
    seven = lambda v: z3.simplify(bv(v, 8) & 0x7f)
    esds = box('esds', u32(0), u8(3, seven(tail(23))), u16(1), u8(0), u8(4, seven(tail(15)), 0x40, 0x15, 0, 0, 0), u32(0x1f151, 0x1f14d),
               u8(5, seven(tail(0))), [config], u8(6, 1, 2))
    return box('mp4a', u8(0, 0, 0, 0, 0, 0), u16(1), u32(0, 0), u16(g('channels'), g('sample_size')), u32(0), u16(trunc(g('time_base'), 32, 16), g('sample_rate')), esds)


def moov(tb, dur, w, h, video, entry):
    mvhd = box('mvhd', u32(0, 0, 0, 1000, 0, 0x10000), u16(0x100, 0), u32(0, 0), MATRIX, u32(0, 0, 0, 0, 0, 0, 1))
    trex = box('trex', u32(0, 1, 1, dur, 0, 0))
    size = u32(z3.simplify(z3.ZeroExt(16, bv(w, 16)) << 16), z3.simplify(z3.ZeroExt(16, bv(h, 16)) << 16)) if video else u32(0, 0)
    tkhd = box('tkhd', u32(0xf, 0, 0, 1, 0, 0, 0, 0, 0), u16(0 if video else 0x100, 0), MATRIX, size)
    mdhd = box('mdhd', u32(0, 0, 0, tb, 0), u16(0x15c7, 0))
    hdlr = box('hdlr', u32(0, 0), b'vide' if video else b'soun', u32(0, 0, 0), b'VideoHandler\0' if video else b'SoundHandler\0')
    head = box('vmhd', u32(1, 0, 0)) if video else box('smhd', u32(0, 0))
    dinf = box('dinf', box('dref', u32(0, 1), box('url ', u32(1))))
    stbl = box('stbl', box('stsd', u32(0, 1), entry), box('stts', u32(0, 0)), box('stsc', u32(0, 0)), box('stsz', u32(0, 0, 0)), box('stco', u32(0, 0)))
    return box('moov', mvhd, box('mvex', trex), box('trak', tkhd, box('mdia', mdhd, hdlr, box('minf', head, dinf, stbl))))


def s_init(kind):
    """the initialisation segment: a function of the stream's parameters and the codec configuration"""
    M = 'i2ctx_' + kind
    conf = ('pps_sps_data', 'pps_sps_data_length') if kind == 'video' else ('aac_data', 'aac_data_length')

    def go(S, src, n, out, pp):
        ex = S.ex
        c = ex.raw_load(S.st, ex.canon(pp), 8, True)
        if is_null(c) or is_null(out) or is_null(src):
            error(S)
            return
        for T, some in S.split(ule(1, n)):
            if not some:
                error(T)
                continue
            m, s = view(T, c, kind)
            T.require(ule(n, MAXD))
            st0 = T.st.fork()
            config = Run(n, content(ex, st0, src))
            g = lambda f: ex.get(st0, m, M, f)
            cases = [(T, None)] if kind == 'audio' else [(U, 'avc1' if avc else 'hev1') for U, avc in T.split(eq(g('video_type'), AVC))]
            for U, nm in cases:
                if kind == 'video':
                    entry = visual(nm, 'avcC' if nm == 'avc1' else 'hvcC', g('width'), g('height'), config)
                    mv = moov(g('time_base'), g('sample_duration'), g('width'), g('height'), True, entry)
                else:
                    mv = moov(g('time_base'), g('sample_duration'), 0, 0, False, sound(g, n, config))
                L = emit(U, out, ftyp() + mv)
                U.put(m, M, conf[1], n)
                U.put(m, M, conf[0], ANY)
                U.done(L)
    return go
