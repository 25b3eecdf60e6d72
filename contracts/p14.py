"""P14: pictures are composed and cut inside their bounds, and only from valid configurations."""
from verify import *
from quant import First, memo
import cvmat

SRC = ['src/modules/videoMixer/VideoMixer.cpp', 'src/modules/videoSplitter/VideoSplitter.cpp', 'src/VideoFrame.cpp', 'src/Frame.cpp', 'src/Filter.cpp']
MX, CH, SP, CR, IV = 'VideoMixer', 'ChannelConfig', 'VideoSplitter', 'CropConfig', 'InterleavedVideoFrame'
W, H = 1920, 1080
F32 = z3.Float32()
BIG = 1 << 31


def fp(x):
    return z3.FPVal(float(x), F32)


def within(x, lo, hi, open_=False):
    return z3.And((z3.fpGT if open_ else z3.fpGEQ)(x, fp(lo)), z3.fpLEQ(x, fp(hi)))


def valid(x, y, w, h, o):
    return land(within(x, 0, 1), within(y, 0, 1), within(w, 0, 1, True), within(h, 0, 1, True), within(o, 0, 1))


NUM = ['width', 'height', 'x', 'y']


def mixer(V, st, channel=True):
    ex = V.ex
    m = V.obj(st, 'class.' + MX, 'mixer', cname=MX)
    V.vptr(st, m, MX)
    mi = stdmodel.mapinfo_of(ex, 'std::map<int, ChannelConfig*>')
    n = V.bv('channels', 64)
    st.assume(ule(n, BIG, 64))
    o = stdmodel.new_map(ex, st, mi, n, 'sym', 'channelsConfig')
    o.pre = True
    stdmodel.set_map(ex, st, ex.fptr(m, MX, 'channelsConfig'), o.id, n)
    fam = V.array(st, 'channels', 'class.' + CH, BIG)
    st.cells(o.id)[mi.second] = Log.base(lambda i: Ptr(fam, zext(trunc(i, 64, 30), 30, 64), 0), 8)
    for f in NUM + ['opacity']:
        u = z3.Function('channel ' + f, z3.BitVecSort(64), F32)
        st.cells(fam)[ex.fptr(Ptr(fam, 0, 0), CH, f).off] = Log.base(lambda i, u=u: u(bv(i, 64)), 4)
    return m, o.id, fam


def key(K):
    return sext(K, 32, 64)


def chan(S, fam, K):
    return Ptr(fam, zext(trunc(key(K), 64, 30), 30, 64), 0)


def s_channel(box):
    def go(S, m, K, w, h, x, y, layer, enabled, opacity):
        ex = S.ex
        oid, fam = box
        ok = land(stdmodel.map_has(ex, S.st, oid, key(K)), valid(x, y, w, h, opacity), sle(0, layer), sle(layer, S.get(m, MX, 'maxChannels')))
        for T, good in S.split(ok):
            if good:
                p = chan(T, fam, K)
                for f, v in zip(['width', 'height', 'x', 'y', 'layer', 'opacity'], [w, h, x, y, layer, opacity]):
                    T.put(p, CH, f, v)
                T.put(p, CH, 'enabled', z3.If(enabled, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if not isinstance(enabled, (bool, int)) else int(enabled))
            T.done(1 if good else 0)
    return go


class Painted:
    """ghost record of one painting: where, how large, with which weight"""
    F = dict(count=0, x=8, y=16, w=24, h=32, sw=40, sh=48)

    def __init__(self, V, st, target):
        self.ex, self.target = V.ex, target
        self.g = V.rawout(st, 64, 'painted')
        V.ex.objs[self.g.obj].info = None
        for f, o in self.F.items():
            st.cells(self.g.obj)[o] = (4 if f in ('sw', 'sh') else 8, 0)
        st.cells(self.g.obj)[56] = (8, z3.FPVal(0.0, z3.Float64()))

    def set(self, st, f, v):
        st.cells(self.g.obj)[self.F[f]] = (4 if f in ('sw', 'sh') else 8, v)

    def weight(self, st, v):
        st.cells(self.g.obj)[56] = (8, v)

    def get(self, st, f):
        return st.cells(self.g.obj)[self.F[f]][1]

    def record(self, cv):
        def go(st, s, d, weight):
            cv.ob(st, self.ex.peq(st, cv.g(st, d, cvmat.DATA, 8, True), self.target), 'the picture is painted into the output')
            cv.ob(st, land(eq(cv.g(st, s, cvmat.X, 8), 0, 64), eq(cv.g(st, s, cvmat.Y, 8), 0, 64)), 'the picture is shown from its upper left corner')
            cv.ob(st, self.ex.peq(st, cv.origin(st, s), self.frame), 'the picture that is shown is the frame')
            self.set(st, 'sh', cv.g(st, s, cvmat.PROWS, 4))
            self.set(st, 'sw', cv.g(st, s, cvmat.PCOLS, 4))
            h, w = cv.size(st, d)
            self.set(st, 'count', add(self.get(st, 'count'), 1))
            for f, v in (('x', cv.g(st, d, cvmat.X, 8)), ('y', cv.g(st, d, cvmat.Y, 8)), ('w', zext(w, 32, 64)), ('h', zext(h, 32, 64))):
                self.set(st, f, v)
            one = z3.FPVal(1.0, z3.Float64())
            if weight:
                a, b, c = weight
                f64 = lambda v: v if isfp(v) else z3.FPVal(float(v), z3.Float64())
                if not complement(f64(a), f64(b)):
                    cv.ob(st, z3.fpEQ(z3.fpToFP(z3.RNE(), z3.fpSub(z3.RNE(), one, f64(a)), F32), z3.fpToFP(z3.RNE(), f64(b), F32)), 'the weights add up')
                cv.ob(st, z3.fpIsZero(f64(c)), 'nothing is added')
                self.weight(st, f64(a))
            else:
                self.weight(st, one)
        return go


def complement(a, b):
    """b is by its form the float 1 - a"""
    if not (z3.is_app(a) and a.num_args() == 2 and a.arg(1).sort() == F32):
        return False
    return z3.eq(b, z3.fpToFP(z3.RNE(), z3.fpSub(z3.RNE(), fp(1), a.arg(1)), z3.Float64()))


def scaled(rel, whole):
    return z3.fpMul(z3.RNE(), rel, z3.fpSignedToFP(z3.RNE(), whole, F32))


def pixels(ex, rel, whole):
    e = scaled(rel, whole)
    hit = ex.fpabs.get(('fptosi', e.get_id(), 32))
    return hit[1] if hit else z3.fpToSBV(z3.RTZ(), e, z3.BitVecSort(32))


def name_pixels(V, st, rel, whole, what):
    """lemma: the pixels of a fraction of a length are between 0 and that length; from here on the value is a name for itself"""
    ex = V.ex
    e = scaled(rel, whole)
    lem = st.fork()
    ex.oblige(lem, z3.And(z3.fpGEQ(e, fp(0)), z3.fpLEQ(e, z3.fpSignedToFP(z3.RNE(), whole, F32))), 'a fraction of the %s is between 0 and the %s' % (what, what), 'lemma')
    v = z3.fpToSBV(z3.RTZ(), e, z3.BitVecSort(32))
    ex.oblige(lem, land(sle(0, v), sle(v, whole)), 'the pixels of a fraction of the %s are between 0 and the %s' % (what, what), 'lemma')
    n = V.bv('pixels of ' + str(rel), 32)
    st.assume(sle(0, n), sle(n, whole))
    sw = z3.fpMul(z3.RNE(), z3.fpSignedToFP(z3.RNE(), whole, F32), rel)
    ex.fpabs[('fptosi', e.get_id(), 32)] = (e, n)
    ex.fpabs[('fptosi', sw.get_id(), 32)] = (sw, n)


def prove_mixer(V, cv):
    ex = V.ex
    box = [None, None]

    def configuring(_):
        st = V.state()
        m, box[0], box[1] = mixer(V, st)
        fl = [z3.FP(n, F32) for n in NUM]
        yield '', st, [m, V.bv('channel')] + fl + [V.bv('layer'), z3.Bool('enabled'), z3.FP('opacity', F32)]
    V.prove(MX + '::configChannel0', s_channel(box), configuring)

    pbox = [None]

    def s_paste(S, m, K, frame):
        oid, fam = box
        p = pbox[0]
        ow, oh = S.get(m, MX, 'outputWidth'), S.get(m, MX, 'outputHeight')
        fw, fh = S.get(frame, IV, 'width'), S.get(frame, IV, 'height')
        c = chan(S, fam, K)
        cw, chh, cx, cy, op = (S.get(c, CH, f) for f in NUM + ['opacity'])
        S.require(stdmodel.map_has(ex, S.st, oid, key(K)), 'the channel exists')
        S.require(valid(cx, cy, cw, chh, op), 'its configuration was accepted')
        w, h, x, y = (pixels(ex, a, b) for a, b in ((cw, ow), (chh, oh), (cx, ow), (cy, oh)))
        for T, hidden in S.split(lor(eq(fw, 0), eq(fh, 0), sle(w, 0), sle(h, 0), sle(ow, x), sle(oh, y))):
            if not hidden:
                low = lambda a, lim: itew(slt(lim, a), lim, a)
                p.set(T.st, 'count', 1)
                p.set(T.st, 'x', sext(x, 32, 64))
                p.set(T.st, 'y', sext(y, 32, 64))
                p.set(T.st, 'w', zext(low(w, sub(ow, x, 32)), 32, 64))
                p.set(T.st, 'h', zext(low(h, sub(oh, y, 32)), 32, 64))
                p.set(T.st, 'sw', w)
                p.set(T.st, 'sh', h)
                p.weight(T.st, z3.fpToFP(z3.RNE(), op, z3.Float64()))
            T.done()

    def pasting(_):
        st = V.state()
        m, box[0], box[1] = mixer(V, st)
        ow, oh = (ex.get(st, m, MX, f) for f in ('outputWidth', 'outputHeight'))
        st.assume(sle(1, ow), sle(ow, W), sle(1, oh), sle(oh, H))
        out = V.rawout(st, 8, 'output picture')
        cv.put(st, ex.fptr(m, MX, 'layoutImg'), oh, ow, out)
        f = V.obj(st, 'class.' + IV, 'frame', cname=IV)
        V.vptr(st, f, IV)
        fw, fh = (ex.get(st, f, IV, x) for x in ('width', 'height'))
        st.assume(sle(0, fw), sle(0, fh))
        data = V.rawout(st, 8, 'frame data')
        ex.put(st, f, IV, 'frameBuff', data)
        pbox[0] = Painted(V, st, out)
        pbox[0].frame = data
        cv.record = pbox[0].record(cv)
        K = V.bv('channel')
        c = Ptr(box[1], zext(trunc(key(K), 64, 30), 30, 64), 0)
        cw, chh, cx, cy, op = (ex.get(st, c, CH, f) for f in NUM + ['opacity'])
        st.assume(stdmodel.map_has(ex, st, box[0], key(K)), valid(cx, cy, cw, chh, op))
        for rel, whole, what in ((cw, ow, 'width'), (chh, oh, 'height'), (cx, ow, 'width'), (cy, oh, 'height')):
            name_pixels(V, st, rel, whole, what)
        yield '', st, [m, K, f]
    V.prove(MX + '::pasteToLayout', s_paste, pasting)


# ---- splitter
IDS = 1 << 30
COPIED = ['presentationTime', 'decodeTime', 'originTime', 'sequenceNumber']
CF = ['width', 'height', 'x', 'y', 'degree']


def crops(V, st, s):
    """the crop of every output; the picture of a crop has its size"""
    ex = V.ex
    mi = stdmodel.mapinfo_of(ex, 'std::map<int, CropConfig*>')
    n = V.bv('crops', 64)
    st.assume(ule(n, IDS, 64))
    o = stdmodel.new_map(ex, st, mi, n, 'sym', 'cropsConfig')
    o.pre = True
    present = z3.Function('crop is there', z3.BitVecSort(64), z3.BoolSort())
    st.cells(o.id)[mi.flag] = Log.base(lambda i: zext(land(present(bv(i, 64)), ult(i, IDS, 64)), 1, 8), 1)
    stdmodel.set_map(ex, st, ex.fptr(s, SP, 'cropsConfig'), o.id, n)
    fam = V.array(st, 'crops', 'class.' + CR, IDS)
    st.cells(o.id)[mi.second] = Log.base(lambda i: Ptr(fam, i, 0), 8)
    lg = {}
    for f in CF:
        u = z3.Function('crop ' + f, z3.BitVecSort(30), z3.BitVecSort(32))
        lg[f] = st.cells(fam)[ex.fptr(Ptr(fam, 0, 0), CR, f).off] = Log.base(lambda i, u=u: u(bv(trunc(i, 64, 30), 30)), 4)
    b = ex.fptr(Ptr(fam, 0, 0), CR, 'crop').off
    c = st.cells(fam)
    c[b], c[b + cvmat.ROWS], c[b + cvmat.COLS] = Log.const(U8C3, 4), lg['height'], lg['width']
    c[b + cvmat.STEP] = Log.base(lambda i: mul(zext(lg['width'].read(i), 32, 64), 3, 64), 8)
    c[b + cvmat.PROWS], c[b + cvmat.PCOLS] = lg['height'], lg['width']
    c[b + cvmat.X] = c[b + cvmat.Y] = Log.const(0, 8)
    return o.id, fam, present


U8C3 = cvmat.U8C3


def accepts(w, h, x, y, d):
    return land(sle(0, x), sle(0, y), slt(0, w), slt(0, h), sle(-360, d), sle(d, 360))


def put_crop(T, p, w, h, x, y, d, data=None):
    for f, v in zip(CF, (w, h, x, y, d)):
        T.put(p, CR, f, v)


class Outputs:
    """the frames offered to the outputs and the ghost record of what was cut for each"""
    def __init__(self, V, st, present):
        ex = self.ex = V.ex
        mi = stdmodel.mapinfo_of(ex, 'std::map<int, Frame*>')
        self.m = V.rawout(st, 48, 'output frames')
        ex.objs[self.m.obj].info = None
        n = V.bv('outputs', 64)
        st.assume(ule(n, IDS, 64))
        o = stdmodel.new_map(ex, st, mi, n, 'sym', 'dstFrames')
        o.pre = True
        offered = z3.Function('frame is offered', z3.BitVecSort(64), z3.BoolSort())
        # every output that exists has a crop (it is made with the output: specificWriterConfig)
        st.cells(o.id)[mi.flag] = Log.base(lambda i: zext(land(offered(bv(i, 64)), present(bv(i, 64)), ult(i, IDS, 64)), 1, 8), 1)
        stdmodel.set_map(ex, st, self.m, o.id, n)
        self.fam = V.array(st, 'frames', 'class.' + IV, IDS)
        self.bufs = V.array(st, 'frame buffers', 8, IDS)
        self.cut = V.array(st, 'cuts', 40, IDS)
        st.cells(o.id)[mi.second] = Log.base(lambda i: Ptr(self.fam, i, 0), 8)
        c = st.cells(self.fam)
        c[0] = Log.const(ex.vtable(IV), 8)
        c[self.off('frameBuff')] = Log.base(lambda i: Ptr(self.bufs, i, 0), 8)
        for f in (0, 8, 16, 24, 32):
            ex.arr_log(st, self.cut, f, 8)

    def off(self, f):
        return self.ex.fptr(Ptr(self.fam, 0, 0), IV, f).off

    def record(self, cv):
        def go(st, s, d, weight):
            buf = cv.g(st, d, cvmat.DATA, 8, True)
            cv.ob(st, isinstance(buf, Ptr) and buf.obj == self.bufs, 'the region is cut into the buffer of an output frame')
            cv.ob(st, self.ex.peq(st, cv.g(st, s, cvmat.DATA, 8, True), self.source), 'the region is cut out of the input picture')
            cv.ob(st, land(eq(cv.g(st, d, cvmat.X, 8), 0, 64), eq(cv.g(st, d, cvmat.Y, 8), 0, 64)), 'the buffer is filled from its start')
            h, w = cv.size(st, d)
            # the rows of the output follow each other without gaps
            cv.ob(st, eq(cv.g(st, d, cvmat.STEP, 8), mul(zext(w, 32, 64), 3, 64), 64), 'no gaps between the rows')
            K = buf.idx
            vals = [add(self.ex.arr_log(st, self.cut, 0, 8).read(K), 1), cv.g(st, s, cvmat.X, 8), cv.g(st, s, cvmat.Y, 8), zext(w, 32, 64), zext(h, 32, 64)]
            for i, v in enumerate(vals):
                self.ex.raw_store(st, Ptr(self.cut, K, 8 * i), 8, v)
        return go


def fits(ex, S, fam, fw, fh, K):
    w, h, x, y = (S.get(Ptr(fam, K, 0), CR, f) for f in ('width', 'height', 'x', 'y'))
    return land(sle(0, x), sle(0, y), slt(0, w), slt(0, h), sle(w, fw), sle(h, fh), sle(x, sub(fw, w, 32)), sle(y, sub(fh, h, 32)))


def split_first(ex, S, o, fam, org, st, k):
    """the outputs among the first k have got their region, if it lies inside the picture"""
    e = stdmodel.enum(ex, st, o.m)
    B = Spec(ex, st, (), [], False)
    fw, fh = B.get(org, IV, 'width'), B.get(org, IV, 'height')
    cg = lambda i, f: B.get(Ptr(fam, i, 0), CR, f)
    ok = lambda i: fits(ex, B, fam, fw, fh, i)
    done = lambda i: land(e.before(i, k), ok(i))

    def upd(obj, off, size, new, cond=done, isp=False):
        old = ex.arr_log(st, obj, off, size, isp)
        S.cells(obj)[off] = Log.base(lambda i: ex.sel(cond(i), new(i), old.read(i), size), size)
    area = lambda i: mul(cg(i, "width"), cg(i, "height"), 32)
    upd(o.fam, o.off('bufferLen'), 4, area)
    upd(o.fam, o.off('width'), 4, lambda i: cg(i, 'width'))
    upd(o.fam, o.off('height'), 4, lambda i: cg(i, 'height'))
    for f in COPIED:
        v = B.get(org, IV, f)
        upd(o.fam, o.off(f), ex.fsize(IV, f), lambda i, v=v: v)
    upd(o.fam, o.off('consumed'), 1, lambda i: zext(ok(i), 1, 8), lambda i: e.before(i, k))
    old = ex.arr_log(st, o.cut, 0, 8)
    upd(o.cut, 0, 8, lambda i: add(old.read(i), 1))
    for n, f in ((8, 'x'), (16, 'y'), (24, 'width'), (32, 'height')):
        upd(o.cut, n, 8, lambda i, f=f: sext(cg(i, f), 32, 64))
    b = ex.fptr(Ptr(fam, 0, 0), CR, 'crop').off
    upd(fam, b + cvmat.DATA, 8, lambda i: Ptr(o.bufs, i, 0), isp=True)
    key = ('some output is served', o.m.obj, *[B.st.mem[fam][ex.fptr(Ptr(fam, 0, 0), CR, f).off] for f in CF])
    F = memo(ex, key, lambda: First(ex, e.n, lambda j: ok(e.key(j)), 'served'))
    return e, F


def resize_crop(cv, T, p, w, h, x, y, d):
    for f, v in zip(CF, (w, h, x, y, d)):
        T.put(p, CR, f, v)
    cv.put(T.st, cv.ex.fptr(p, CR, 'crop'), h, w, cv.memory(T.st))


def crop_spec(cv, box):
    def go(S, s, K, w, h, x, y, d):
        oid, fam = box[0][:2]
        ok = land(stdmodel.map_has(S.ex, S.st, oid, key(K)), accepts(w, h, x, y, d))
        for T, good in S.split(ok):
            if good:
                resize_crop(cv, T, Ptr(fam, key(K), 0), w, h, x, y, d)
            T.done(1 if good else 0)
    return go


def crop_def(cv):
    def config(S, p, w, h, x, y, d):
        S.require(accepts(w, h, x, y, d), 'a valid region')
        resize_crop(cv, S, p, w, h, x, y, d)
        S.done()

    def new(S, p):
        for f, v in zip(CF, (0, 0, 0xffffffff, 0xffffffff, 0)):
            S.put(p, CR, f, v)
        cv.put(S.st, S.ex.fptr(p, CR, 'crop'), 0, 0, NULL)
        S.done()
    return config, new


def prove_crops(V, cv):
    ex = V.ex
    box = [None]
    config, new = crop_def(cv)
    A = lambda: [V.bv(f) for f in CF]

    def one(_):
        st = V.state()
        p = V.obj(st, 'class.' + CR, 'crop', cname=CR)
        a = A()
        st.assume(accepts(*a))
        yield '', st, [p] + a
    V.prove(CR + '::config', config, one)

    def fresh(_):
        st = V.state()
        yield '', st, [V.out(st, 'class.' + CR)]
    V.prove(CR + '::' + CR, new, fresh)
    V.use(CR + '::config', config)
    V.use(CR + '::' + CR, new)

    def some(_):
        st = V.state()
        s = V.obj(st, 'class.' + SP, 'splitter', cname=SP)
        box[0] = crops(V, st, s)
        yield '', st, [s, V.bv('output')] + A()
    V.prove(SP + '::configCrop0', crop_spec(cv, box), some)


def prove_splitter(V, cv):
    ex = V.ex
    box = [None] * 4

    def s_split(S, s, org, dst):
        o = box[1]
        e, F = split_first(ex, S.st, o, box[0][1], org, S.st, stdmodel.enum(ex, S.st, o.m).n)
        S.done(F.found)

    def loop(L, S, k):
        o = box[1]
        e, F = split_first(ex, S, o, box[0][1], box[2], L.st, k)
        F.inst(k, sub(k, 1, 64))
        L.cand(lambda j: zext(land(F.found, ult(F.at, j, 64)), 1, 8), 1)
        return [('within the outputs', ule(k, e.n, 64))]
    ex.loopspecs[(SP + '::doProcessFrame', 0)] = loop

    def setup(_):
        st = V.state()
        s = V.obj(st, 'class.' + SP, 'splitter', cname=SP)
        box[0] = crops(V, st, s)
        o = box[1] = Outputs(V, st, box[0][2])
        f = box[2] = V.obj(st, 'class.' + IV, 'picture', cname=IV)
        V.vptr(st, f, IV)
        fw, fh = (ex.get(st, f, IV, x) for x in ('width', 'height'))
        st.assume(sle(0, fw), sle(0, fh), sle(fw, W), sle(fh, H))
        o.source = V.rawout(st, 8, 'picture data')
        ex.put(st, f, IV, 'frameBuff', o.source)
        cv.record = o.record(cv)
        yield '', st, [s, f, o.m]
    V.prove(SP + '::doProcessFrame', s_split, setup)


# ---- the whole picture of the mixer
class Layers:
    """the input frames, the channels and the counts the layers are stopped by"""
    def __init__(self, V, st, m):
        ex = self.ex = V.ex
        self.V, self.mixer = V, m
        B30, B32, BO = z3.BitVecSort(30), z3.BitVecSort(32), z3.BoolSort()
        mi = stdmodel.mapinfo_of(ex, 'std::map<int, Frame*>')
        ci = stdmodel.mapinfo_of(ex, 'std::map<int, ChannelConfig*>')
        self.m = V.rawout(st, 48, 'input frames')
        ex.objs[self.m.obj].info = None
        self.n, nc = V.bv('inputs', 64), V.bv('channels', 64)
        st.assume(ule(self.n, IDS, 64), ule(nc, IDS, 64))
        o = stdmodel.new_map(ex, st, mi, self.n, 'sym', 'orgFrames')
        o.pre = True
        fun = lambda x, r: (lambda i, f=z3.Function(x, B30, r): f(bv(trunc(i, 64, 30), 30)))
        off, ch, gone = (fun(x, BO) for x in ('frame is offered', 'channel is there', 'no frame'))
        st.cells(o.id)[mi.flag] = Log.base(lambda i: zext(land(off(bv(i, 64)), ult(i, IDS, 64)), 1, 8), 1)
        stdmodel.set_map(ex, st, self.m, o.id, self.n)
        self.frames = V.array(st, 'frames', 'class.' + IV, IDS)
        st.cells(o.id)[mi.second] = Log.base(lambda i: ex.sel(gone(bv(i, 64)), NULL, Ptr(self.frames, i, 0), 8), 8)
        self.gone = lambda i: gone(bv(i, 64))
        st.cells(self.frames)[0] = Log.const(ex.vtable(IV), 8)
        self.fam = V.array(st, 'channels', 'class.' + CH, IDS)
        c = st.cells(self.fam)
        at = lambda f: ex.fptr(Ptr(self.fam, 0, 0), CH, f).off
        lay = fun('channel layer', B32)
        on = fun('channel enabled', BO)
        c[at('layer')] = Log.base(lambda i: lay(bv(i, 64)), 4)
        c[at('enabled')] = Log.base(lambda i: zext(on(bv(i, 64)), 1, 8), 1)
        self.maxc = ex.get(st, m, MX, 'maxChannels')
        st.assume(sle(0, self.maxc), slt(self.maxc, IDS))
        # only accepted configurations are stored (configChannel0): here that is the layer; the fractions are for pasteToLayout
        good = lambda i: land(sle(0, lay(bv(i, 64))), sle(lay(bv(i, 64)), self.maxc))
        cm = stdmodel.new_map(ex, st, ci, nc, 'sym', 'channelsConfig')
        cm.pre = True
        self.has = lambda i: land(ch(bv(i, 64)), ult(i, IDS, 64), good(i))
        st.cells(cm.id)[ci.flag] = Log.base(lambda i: zext(self.has(i), 1, 8), 1)
        st.cells(cm.id)[ci.second] = Log.base(lambda i: Ptr(self.fam, i, 0), 8)
        stdmodel.set_map(ex, st, ex.fptr(m, MX, 'channelsConfig'), cm.id, nc)
        self.cfg = cm.id
        self.layer = lambda i: sext(lay(bv(i, 64)), 32, 64)
        self.on = lambda i: on(bv(i, 64))
        self.visible = lambda i: land(self.has(i), lnot(self.gone(i)), self.on(i))
        self.e = stdmodel.enum(ex, st, self.m)
        self.painted = V.array(st, 'painted', 8, IDS)
        st.cells(self.painted)[0] = Log.const(0, 8)
        self.top = V.rawout(st, 8, 'topmost layer')
        ex.objs[self.top.obj].info = None
        st.cells(self.top.obj)[0] = (8, 0)
        B = z3.BitVecSort(32)
        two = lambda x: (lambda l, k, f=z3.Function(x, B, B, B): zext(f(bv(trunc(l, 64, 32), 32), bv(trunc(k, 64, 32), 32)), 32, 64))
        # c(l, k): frames of layer l among the first k; d(l, k): frames of the layers below l among the first k; t(l) = d(l, n)
        self.c, self.d, self.tops = (two(x) for x in ('in layer', 'below layer', 'topmost'))
        self.lemmas(st)

    def ofl(self, i, l):
        K = self.e.key(i)
        return land(self.has(K), eq(self.layer(K), l, 64))

    def below(self, i, l):
        K = self.e.key(i)
        return land(self.has(K), slt(self.layer(K), l, 64))

    def rec(self, f, p, l, k):
        """the defining equation of a count at k"""
        l, k = bv(l, 64), bv(k, 64)
        return implies(ult(0, k, 64), f(l, k) == bv(add(f(l, sub(k, 1)), zext(p(sub(k, 1), l), 1, 64)), 64)), f(l, bv(0, 64)) == 0

    def sum(self, l, k):
        return eq(self.d(bv(add(l, 1), 64), bv(k, 64)), add(self.d(bv(l, 64), bv(k, 64)), self.c(bv(l, 64), bv(k, 64))), 64)

    def full(self, l, k, i):
        d = self.d(bv(l, 64), bv(k, 64))
        return land(ule(d, k, 64), implies(land(eq(d, k, 64), ult(i, k, 64)), self.below(i, l)))

    def lemmas(self, st):
        V, ex = self.V, self.ex
        l, k, i = (V.bv('lemma ' + x, 64) for x in 'lki')
        b = st.fork()
        b.assume(ule(0, l, 64), ult(l, IDS, 64), ult(k, self.n, 64))
        k1 = add(k, 1)
        for f, p, x in ((self.c, self.ofl, l), (self.d, self.below, l), (self.d, self.below, add(l, 1))):
            for kk in (k, k1):
                b.assume(*self.rec(f, p, x, kk))
        q = b.fork()
        ex.oblige(q, self.sum(l, 0), 'counts of the layers add up (none)', 'lemma')
        q.assume(self.sum(l, k))
        ex.oblige(q, self.sum(l, k1), 'counts of the layers add up (one more)', 'lemma')
        q = b.fork()
        ex.oblige(q, self.full(l, 0, i), 'a full count is a count of all (none)', 'lemma')
        q.assume(self.full(l, k, i))
        ex.oblige(q, self.full(l, k1, i), 'a full count is a count of all (one more)', 'lemma')
        # no layer is below 0
        q = b.fork()
        z = bv(0, 64)
        q.assume(*self.rec(self.d, self.below, z, k), *self.rec(self.d, self.below, z, k1))
        q.assume(self.d(z, bv(k, 64)) == 0)
        ex.oblige(q, self.d(z, bv(k1, 64)) == 0, 'no frame is below the lowest layer', 'lemma')

    def at(self, S, l, k, st):
        """layers below l and the first k frames of layer l are painted"""
        ex, e = self.ex, self.e
        l64 = sext(l, 32, 64) if not isinstance(l, int) else l
        fact = ex.solver.fact
        for x in self.rec(self.c, self.ofl, l64, k) + self.rec(self.c, self.ofl, l64, add(k, 1)):
            fact(x)
        fact(self.d(bv(0, 64), self.n) == 0)
        for x in (l64, sub(l64, 1)):
            fact(implies(sle(0, x, 64), self.sum(x, self.n)))

        def paint(K):
            p = e.pos(K)
            for x in (l64, add(l64, 1)):
                fact(implies(sle(0, x, 64), self.full(x, self.n, p)))
            return zext(land(self.visible(K), e.has(K), lor(slt(self.layer(K), l64, 64), land(eq(self.layer(K), l64, 64), e.before(K, k)))), 1, 64)
        S.cells(self.painted)[0] = Log.base(paint, 8)
        t = self.tops
        k64 = bv(k, 64)
        K = e.key(sub(k, 1))
        fact(implies(ult(0, k, 64), t(bv(l64, 64), k64) == bv(itew(land(self.visible(K), eq(self.layer(K), l64, 64)), l64, t(bv(l64, 64), bv(sub(k, 1), 64)), 64), 64)))
        fact(implies(slt(0, l64, 64), t(bv(l64, 64), bv(0, 64)) == t(bv(sub(l64, 1), 64), self.n)))
        fact(t(bv(0, 64), bv(0, 64)) == 0)
        T = t(bv(l64, 64), k64)
        S.cells(self.top.obj)[0] = (8, T)
        return l64, land(sle(0, T, 64), sle(T, l64, 64))

    def left(self, l64, k):
        return trunc(sub(sub(self.n, self.d(bv(l64, 64), self.n)), self.c(bv(l64, 64), bv(k, 64))), 64, 32)


def prove_layout(V, cv):
    """the size of the output and new channels"""
    ex = V.ex
    box = [None, None]

    def s_conf(S, m, w, h, fps):
        for T, ok in S.split(land(slt(0, w), sle(w, W), slt(0, h), sle(h, H))):
            if ok:
                for U, rate in T.split(slt(0, fps)):
                    if rate:
                        U.put(m, MX, 'frameTime', sdiv(1000000, sext(fps, 32, 64)))
                    U.put(m, MX, 'outputWidth', w)
                    U.put(m, MX, 'outputHeight', h)
                    cv.put(U.st, ex.fptr(m, MX, 'layoutImg'), h, w, cv.memory(U.st))
                    U.done(1)
            else:
                T.done(0)

    def conf(_):
        st = V.state()
        m, _, _ = mixer(V, st)
        yield '', st, [m, V.bv('width'), V.bv('height'), V.bv('fps')]
    V.prove(MX + '::configure0', s_conf, conf)

    def s_chan(S, c):
        for f, v in zip(NUM + ['opacity'], (1, 1, 0, 0, 1)):
            S.put(c, CH, f, fp(v))
        S.put(c, CH, 'layer', 0)
        S.put(c, CH, 'enabled', 0)
        # a new channel has a valid configuration
        ex.oblige(S.st, valid(*(fp(v) for v in (0, 0, 1, 1, 1))), 'the initial configuration is a valid one', 'lemma')
        S.done()

    def fresh(_):
        st = V.state()
        yield '', st, [V.out(st, 'class.' + CH)]
    V.prove(CH + '::' + CH, s_chan, fresh)


def sdiv(a, b):
    return z3.BitVecVal(a, 64) / b


def prove_layers(V, cv):
    ex = V.ex
    box = [None]
    layout = [None]

    def use_paste(S, m, K, frame):
        w = box[0]
        ex = S.ex
        k = key(K)
        S.require(stdmodel.map_has(ex, S.st, w.cfg, k), 'the channel exists')
        S.require(land(w.on(k), eq(ex.arr_log(S.st, w.painted, 0, 8).read(k), 0, 64)), 'an enabled channel is painted once')
        S.require(ex.peq(S.st, frame, Ptr(w.frames, k, 0)), 'with its own frame')
        S.require(sle(S.st.mem[w.top.obj][0][1], w.layer(k), 64), 'the layers are painted in ascending order')
        L = ex.fptr(m, MX, 'layoutImg')
        r, c = cv.size(S.st, L)
        S.require(land(eq(r, S.get(m, MX, 'outputHeight')), eq(c, S.get(m, MX, 'outputWidth')), ex.peq(S.st, cv.g(S.st, L, cvmat.DATA, 8, True), layout[0])), 'the layout is the output picture')
        ex.raw_store(S.st, Ptr(w.painted, k, 0), 8, 1)
        S.st.cells(w.top.obj)[0] = (8, w.layer(k))
        S.done()
    V.use(MX + '::pasteToLayout', use_paste)

    def inner(L, S, k):
        w = box[0]
        l64, inv = w.at(S, L.local('lay'), k, L.st)
        L.cand(lambda j: w.left(l64, j), 4)
        return [('within the frames', ule(k, w.n, 64)), ('layers ascend', inv)]

    def outer(L, S, k):
        w = box[0]
        l64, inv = w.at(S, trunc(k, 64, 32) if not isinstance(k, int) else k, 0, L.st)
        L.cand(lambda j: trunc(sub(w.n, w.d(bv(j, 64), w.n)), 64, 32), 4)
        return [('within the layers', ule(k, add(sext(w.maxc, 32, 64), 1), 64)), ('layers ascend', inv)]
    ex.loopspecs[(MX + '::doProcessFrame', 0)] = outer
    ex.loopspecs[(MX + '::doProcessFrame', 1)] = inner

    def spec(S, m, org, dst, new):
        w = box[0]
        ow, oh = S.get(m, MX, 'outputWidth'), S.get(m, MX, 'outputHeight')
        cv.s(S.st, ex.fptr(m, MX, 'layoutImg'), cvmat.DATA, 8, layout[0])
        S.put(dst, IV, 'bufferLen', mul(mul(ow, 3, 32), oh, 32))
        S.put(dst, IV, 'width', ow)
        S.put(dst, IV, 'height', oh)
        S.put(dst, IV, 'consumed', 1)
        for f in ('presentationTime', 'decodeTime'):
            S.put(dst, IV, f, ANY)
        S.put(m, MX, 'syncTs', ANY)
        S.st.cells(w.painted)[0] = Log.base(lambda K: zext(land(w.visible(K), w.e.has(K)), 1, 64), 8)
        S.st.cells(w.top.obj)[0] = (8, ANY)
        S.done(1)

    def setup(_):
        st = V.state()
        m = V.obj(st, 'class.' + MX, 'mixer', cname=MX)
        V.vptr(st, m, MX)
        box[0] = Layers(V, st, m)
        ow, oh = (ex.get(st, m, MX, f) for f in ('outputWidth', 'outputHeight'))
        st.assume(sle(1, ow), sle(ow, W), sle(1, oh), sle(oh, H))
        cv.put(st, ex.fptr(m, MX, 'layoutImg'), oh, ow, V.rawout(st, 8, 'previous picture'))
        f = V.obj(st, 'class.' + IV, 'result', cname=IV)
        V.vptr(st, f, IV)
        layout[0] = V.rawout(st, 8, 'output picture')
        ex.put(st, f, IV, 'frameBuff', layout[0])
        yield '', st, [m, box[0].m, f, V.rawout(st, 24, 'new frames')]
    V.prove(MX + '::doProcessFrame', spec, setup)


def run(V):
    cv = cvmat.Cv(V)
    prove_crops(V, cv)
    prove_splitter(V, cv)
    prove_mixer(V, cv)
    prove_layout(V, cv)
    prove_layers(V, cv)


from p10 import FILTER
NATIVE = {'driver': 'p14.cpp', 'sources': sorted(set(SRC + FILTER)), 'libs': ['-llog4cplus', '-lavutil', '-lavcodec', '-lopencv_core', '-lopencv_imgproc', '-Wl,--unresolved-symbols=ignore-all']}
