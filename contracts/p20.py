"""P20: gains stay in range, mixed samples never leave full scale, samples are mixed and delivered at their own place."""
from verify import *
from p10 import FILTER

SRC = ['src/modules/audioMixer/AudioMixer.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Utils.cpp', 'src/Jzon.cpp']
M, AF, PF = 'AudioMixer', 'AudioFrame', 'PlanarAudioFrame'
RATE, CH, FLTP, S16P = 48000, 2, 5, 4
OUT = RATE * 20 // 1000
ROOM, ENOUGH = 5 * OUT, 3 * OUT
F32, F64, RM = z3.Float32(), z3.Float64(), z3.RNE()
IDS = 1 << 30
AUDIO_MIXER = 8
ONE = 0x3f800000


def fp(x):
    return z3.FPVal(float(x), F32)


TH = z3.simplify(z3.fpToFP(RM, z3.FPVal(0.6, F64), F32))


def fin(b):
    """a sample, given by its bits, within full scale"""
    return ule(z3.simplify(bv(b, 32) & 0x7fffffff), ONE)


def unit(b):
    """a permitted gain, given by its bits (a negative zero is zero)"""
    return lor(ule(b, ONE), eq(b, 0x80000000))


def ufp(x):
    """the same of a number"""
    return norm(z3.simplify(z3.And(z3.fpLEQ(fp(0), x), z3.fpLEQ(x, fp(1)))))


def sfp(x):
    return norm(z3.simplify(z3.And(z3.fpLEQ(fp(-1), x), z3.fpLEQ(x, fp(1)))))


def bits(v):
    if isfp(v):
        if v.num_args() == 1 and v.decl().kind() == z3.Z3_OP_FPA_TO_FP and z3.is_bv(v.arg(0)):
            return norm(v.arg(0))
        return norm(z3.simplify(z3.fpToIEEEBV(v)))
    return v


def num(b):
    return b if isfp(b) else norm(z3.simplify(z3.fpBVToFP(bv(b, 32), F32)))


B32 = z3.BitVecSort(32)
mixed = z3.Function('mixed', B32, B32, B32, B32, B32)
from16 = z3.Function('number of 16 bits', z3.BitVecSort(16), B32)
to16 = z3.Function('16 bits of number', B32, z3.BitVecSort(16))


def mix(old, s, g, m):
    """what a sample becomes: within full scale by the contract of mixSample"""
    r = mixed(bv(old, 32), bv(s, 32), bv(g, 32), bv(m, 32))
    return itew(fin(r), r, 0, 32)


class World:
    def __init__(self, V, st, plain=False, silent=False):
        ex = self.ex = V.ex
        m = self.m = V.obj(st, 'class.' + M, 'mixer', cname=M)
        V.vptr(st, m, M)
        for f, v in (('channels', CH), ('sampleRate', RATE), ('inputFrameSamples', OUT), ('sampleFormat', FLTP), ('mixBufferMaxSamples', ROOM),
                     ('outputSamples', OUT), ('mixingThreshold', ENOUGH), ('th', TH)):
            ex.put(st, m, M, f, v)
        f, r = self.pos(st)
        st.assume(ule(f, r, 64), ule(sub(r, f), ROOM, 64), ule(r, 1 << 44, 64))
        u = z3.BitVec('master gain', 32)
        self.master = itew(unit(u), u, 0, 32)
        ex.put(st, m, M, 'masterGain', z3.FP('master gain', F32) if plain else num(self.master))
        self.buf, self.first = [], []
        for i in range(CH):
            a = V.array(st, 'mixed channel %d' % i, 4, ROOM)
            g = z3.Function('mixed channel %d' % i, z3.BitVecSort(13), B32)
            # every cell is within full scale, and silent outside of the samples that wait
            def cell(k, g=g, f=f, r=r):
                k = bv(k, 64)
                v = g(bv(trunc(k, 64, 13), 13))
                return itew(land(fin(v), waiting(f, r, k) if silent else True), v, 0, 32)
            st.cells(a)[0] = Log.base(lambda k, g=z3.Function('cells %d' % i, z3.BitVecSort(64), F32): g(bv(k, 64)), 4) if plain else Log.base(cell, 4)
            self.buf.append(a)
            self.first.append(st.cells(a)[0])
            ex.raw_store(st, ex.canon(ex.addc(ex.fptr(m, M, 'mixBuffers'), 8 * i)), 8, Ptr(a, 0, 0))
        mi = self.mi = stdmodel.mapinfo_of(ex, 'std::map<int, float>')
        n = V.bv('readers', 64)
        st.assume(ule(n, IDS, 64))
        o = stdmodel.new_map(ex, st, mi, n, 'sym', 'gains')
        o.pre = True
        self.map = o.id
        v = z3.Function('gain', z3.BitVecSort(30), B32)

        def gain(i):
            x = v(bv(trunc(i, 64, 30), 30))
            return num(itew(unit(x), x, 0, 32))
        st.cells(o.id)[mi.second] = Log.base(gain, 4)
        there = z3.Function('reader is there', z3.BitVecSort(64), z3.BoolSort())
        st.cells(o.id)[mi.flag] = Log.base(lambda i: zext(land(there(bv(i, 64)), ult(i, IDS, 64)), 1, 8), 1)
        stdmodel.set_map(ex, st, ex.fptr(m, M, 'gains'), o.id, n)

    def pos(self, st):
        g = lambda f: self.ex.get(st, self.m, M, f)
        w = lambda v: zext(v, 32, 64) if self.ex.fsize(M, 'front') == 4 else v
        return w(g('front')), w(g('rear'))

    def gains(self, st):
        return st.cells(self.map)[self.mi.second]

    def set_gain(self, st, k, v):
        c = st.cells(self.map)
        c[self.mi.second] = c[self.mi.second].store(k, v)

    def has(self, st, id):
        return stdmodel.map_has(self.ex, st, self.map, self.key(id))

    def key(self, id):
        return sext(id, 32, 64)


def mod(p):
    return z3.simplify(z3.URem(bv(p, 64), z3.BitVecVal(ROOM, 64))) if not isinstance(p, int) else p % ROOM


def dist(k, f):
    """how far cell k is ahead of position f in the ring"""
    return dist_at(k, mod(f))


def dist_at(k, at):
    return itew(ule(at, k, 64), sub(k, at), sub(add(k, ROOM), at), 64)


def waiting(f, r, k):
    return ult(dist(k, f), sub(r, f), 64)


# ---------------------------------------------------------------- conversions
def s_from(S, p, dst, fmt):
    ex = S.ex
    for T, k in cases(S, fmt):
        if k == S16P:
            b = [ex.raw_load(T.st, ex.adds(p, i, 1) if i else p, 1) for i in (0, 1)]
            v = from_bytes(b)
            if S.proving:
                r = z3.fpDiv(RM, z3.fpSignedToFP(RM, bv(v, 16), F32), fp(32768))
            else:
                r = from16(bv(v, 16))
            ex.raw_store(T.st, dst, 4, r)
        elif k == FLTP:
            ex.raw_store(T.st, dst, 4, num(word(ex, T.st, p)))
        T.done(k is not None)


def word(ex, st, p):
    return from_bytes([ex.raw_load(st, ex.adds(p, i, 1) if i else p, 1) for i in range(4)])


def cases(S, fmt):
    for T, a in S.split(eq(fmt, S16P)):
        if a:
            yield T, S16P
            continue
        for U, b in T.split(eq(fmt, FLTP)):
            yield U, FLTP if b else None


def s_to(S, dst, x, fmt):
    ex = S.ex
    for T, k in cases(S, fmt):
        if k == S16P:
            T.require(sfp(num(x)), 'a sample within full scale')
            if S.proving:
                v = z3.BitVec('nearest16', 16)
                d = z3.fpMul(RM, z3.fpToFP(RM, x, F64), z3.FPVal(32768.0, F64))
                r = z3.fpToSBV(z3.RTZ(), d, z3.BitVecSort(16))
                v = z3.If(z3.fpGEQ(x, fp(1)), z3.BitVecVal(32767, 16), r)
            else:
                v = to16(bv(bits(x), 32))
            for i in (0, 1):
                ex.raw_store(T.st, ex.adds(dst, i, 1) if i else dst, 1, norm(z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))))
        elif k == FLTP:
            b = bits(x)
            for i in range(4):
                ex.raw_store(T.st, ex.adds(dst, i, 1) if i else dst, 1, byte_of(b, 4, i))
        T.done(k is not None)


# ---------------------------------------------------------------- mixing
def cell(ex, buf, i):
    return ex.adds(buf, sext(i, 32, 64), 4)


def s_mix(box):
    def go(S, m, s, buf, i, g):
        ex = S.ex
        k = sext(i, 32, 64)
        S.require(land(sle(0, i), slt(i, ROOM)), 'a cell of the mixing buffer')
        o = ex.canon(buf)
        lg = ex.arr_log(S.st, o.obj, 0, 4)
        at = add(o.idx or 0, k)
        old, master = lg.read(at), S.get(m, M, 'masterGain')
        S.require(sfp(old) if isfp(old) else fin(old), 'the mixed sample is within full scale')
        S.require(ufp(num(g)), 'the gain is permitted')
        S.require(ufp(num(master)), 'the master gain is permitted')
        if not S.proving:
            S.st.cells(o.obj)[0] = lg.store(at, mix(bits(old), bits(s), bits(g), bits(master)))
            S.done()
            return
        # one outcome: the new value is described, not computed
        def holds(ex, st, r):
            new = num(ex.arr_log(st, o.obj, 0, 4).read(at))
            s1 = z3.If(z3.fpIsNaN(s), fp(0), z3.If(z3.fpGT(s, fp(1)), fp(1), z3.If(z3.fpLT(s, fp(-1)), fp(-1), s)))
            total = lambda x: z3.fpAdd(RM, num(old), z3.fpMul(RM, z3.fpMul(RM, x, num(g)), num(master)))
            v = total(s1)
            # the sum is generalised: by the lemmas on samples it lies between -2 and 2
            u = z3.FP('sum', F32)
            gen = st.fork()
            pc, known = [bv_bool(c) for c in st.pc], set()
            while True:
                t = find(z3.And(new == new, *pc), lambda e: e.decl().kind() == z3.Z3_OP_FPA_ADD and (e.arg(1).eq(num(old)) or e.arg(2).eq(num(old))))
                if t is None:
                    break
                # the code's own sum: of the limited sample, or equal to it as a whole
                part = lambda e: z3.fpMul(RM, z3.fpMul(RM, e, num(g)), num(master))
                x = find(t, lambda e: any(part(e).eq(y) for y in t.children()))
                ex.oblige(st, z3.Or(s1 == x, z3.And(z3.fpIsZero(s1), z3.fpIsZero(x))) if x is not None else t == v, 'samples beyond full scale are limited', 'post')
                new, pc = z3.substitute(new, (t, u)), [z3.substitute(c, (t, u)) for c in pc]
                known.add(t)
            if not known:
                gen.assume(u == v)
            gen.pc = tuple(c for c in pc if z3.is_bool(c)) + gen.pc[len(pc):]
            gen.assume(norm(z3.And(z3.fpLEQ(fp(-2), u), z3.fpLEQ(u, fp(2)))))
            for n, c in (('mixed samples stay within full scale', sfp(new)),
                         ('up to the threshold samples are added', z3.Implies(z3.fpLEQ(z3.fpAbs(u), TH), z3.fpEQ(new, u))),
                         ('beyond the threshold samples stay beyond it', z3.Implies(z3.fpGT(u, TH), z3.fpGEQ(new, TH))),
                         ('beyond the threshold samples stay beyond it (negative)', z3.Implies(z3.fpLT(u, z3.fpNeg(TH)), z3.fpLEQ(new, z3.fpNeg(TH))))):
                ex.oblige(gen, norm(z3.simplify(bv_bool(c))), n, 'post', assume=False)
            return []
        S.st.ghost['dc'] = {**S.st.ghost.get('dc', {}), o.obj: lambda i: eq(i, at, 64)}
        S.done(Post(holds))
    return go


# ---------------------------------------------------------------- a frame's samples
def sdiv(a, b):
    return norm(z3.simplify(bv(a, 64) / z3.BitVecVal(b, 64)))


NO_DTS = (1 << 64) - 1


def planes(ex, st, f):
    return [ex.canon(ex.raw_load(st, ex.canon(ex.addc(ex.fptr(f, PF, 'frameBuff'), 8 * i)), 8, True)) for i in range(CH)]


def frame(V, st, name, fmt=None):
    ex = V.ex
    f = V.obj(st, 'class.' + PF, name, cname=PF)
    V.vptr(st, f, PF)
    n = ex.get(st, f, AF, 'samples')
    size = V.bv(name + ' room', 64)
    st.assume(ule(size, 1 << 32, 64), ule(zext(n, 32, 64), 1 << 28, 64))
    if fmt is not None:
        ex.put(st, f, AF, 'sampleFmt', fmt)
        # a frame's payload never exceeds its buffers (P21)
        st.assume(ule(mul(zext(n, 32, 64), 2 if fmt == S16P else 4), size, 64))
    for i in range(CH):
        ex.raw_store(st, ex.canon(ex.addc(ex.fptr(f, PF, 'frameBuff'), 8 * i)), 8, V.bytes(st, '%s plane %d' % (name, i), size))
    return f


def ring(lg, at, n, fn):
    """n cells from position at of the ring become fn(cell, distance)"""
    def read(c):
        d = dist_at(c, at)
        return itew(ult(d, n, 64), fn(c, d), lg.read(c), 32)
    return Log.base(read, 4)


def place(ex, st, m, f):
    """the position a frame's time stands for"""
    return sdiv(mul(sub(ex.get(st, f, 'Frame', 'presentationTime'), ex.get(st, m, M, 'syncTs')), RATE), 1000000)


def sample(lg, p, j, fmt):
    b = add(p.idx or 0, mul(j, 2 if fmt == S16P else 4))
    if fmt == S16P:
        return from16(bv(lg.readn(b, 2), 16))
    return lg.readn(b, 4)


def added(ex, st, w, f, i, n, fmt, at, g):
    """channel i after the first n samples of frame f were mixed"""
    lg = ex.arr_log(st, w.buf[i], 0, 4)
    p = planes(ex, st, f)[i]
    src = st.mem[p.obj]
    ms = ex.get(st, w.m, M, 'masterGain')
    return ring(lg, at, n, lambda c, d: mix(bits(lg.read(c)), sample(src, p, d, fmt), bits(g), bits(ms)))


def s_push(box):
    def go(S, m, id, f):
        w, ex = box[0], S.ex
        S.require(w.has(S.st, id), 'the reader has a gain')
        for T, all_ in S.split(ule(CH, S.get(f, AF, 'channels'))):
            if not all_:
                T.done(False)
                continue
            n = zext(T.get(f, AF, 'samples'), 32, 64)
            fr, r = w.pos(T.st)
            for U, fits in T.split(ule(n, sub(ROOM, sub(r, fr)), 64)):
                if not fits:
                    U.done(False)
                    continue
                for X, first in U.split(slt(U.get(m, M, 'syncTs'), 0, 64)):
                    if first:
                        X.put(m, M, 'syncTs', X.get(f, 'Frame', 'presentationTime'))
                    at = place(ex, X.st, m, f)
                    for Y, past in X.split(ult(at, fr, 64)):
                        if past:
                            Y.done(False)
                            continue
                        for Z, near in Y.split(ule(at, sub(add(fr, ROOM), n), 64)):
                            if not near:
                                # the samples of another timeline are dropped
                                Z.put(m, M, 'front', 0)
                                Z.put(m, M, 'rear', 0)
                                Z.put(m, M, 'syncTs', Z.get(f, 'Frame', 'presentationTime'))
                                for b in w.buf:
                                    Z.st.cells(b)[0] = Log.const(0, 4)
                            put(Z, w, f, id, n, at if near else 0)
    return go


def put(S, w, f, id, n, at):
    ex = S.ex
    fmt = S.get(f, AF, 'sampleFmt')
    if fmt not in (S16P, FLTP):
        for T, none in S.split(eq(n, 0, 64)):
            if none:
                advance(T, w, at)
            T.done(bool(none))
        return
    g = w.gains(S.st).read(w.key(id))
    for b, l in [(w.buf[i], added(ex, S.st, w, f, i, n, fmt, mod(at), g)) for i in range(CH)]:
        S.st.cells(b)[0] = l
    advance(S, w, add(at, n))
    S.done(True)


def advance(S, w, to):
    fr, r = w.pos(S.st)
    v = itew(ult(r, to, 64), to, r, 64)
    S.put(w.m, M, 'rear', v if S.ex.fsize(M, 'rear') == 8 else trunc(v, 64, 32))


def loop_push(box):
    def go(L, S, k):
        w, ex = box[0], L.ex
        f = L.arg(2)
        st = L.st
        fmt = ex.get(st, f, AF, 'sampleFmt')
        n = zext(ex.get(st, f, AF, 'samples'), 32, 64)
        at = mod(place(ex, st, w.m, f))
        g = w.gains(st).read(w.key(L.arg(1)))
        # the first channel nothing was mixed into yet
        i = channel(ex, st, w)
        if fmt in (S16P, FLTP):
            S.cells(w.buf[i])[0] = added(ex, st, w, f, i, k, fmt, at, g)
        L.cand(lambda j: trunc(itew(ult(add(at, j), ROOM, 64), add(at, j), sub(add(at, j), ROOM), 64), 64, 32), 4)
        return [('within the samples', ule(k, n, 64))]
    return go


def s_extract(box):
    def go(S, m, f):
        w, ex = box[0], S.ex
        fr, r = w.pos(S.st)
        for T, enough in S.split(ule(ENOUGH, sub(r, fr), 64)):
            if not enough:
                T.done(False)
                continue
            T.require([ule(OUT * 4, ex.objs[p.obj].size, 64) for p in planes(ex, T.st, f)], 'room for a frame')
            for i in range(CH):
                taken(ex, T.st, T.st, w, f, i, OUT)
            T.put(f, 'Frame', 'presentationTime', add(z3.simplify(z3.UDiv(bv(mul(fr, 1000000), 64), z3.BitVecVal(RATE, 64))), T.get(m, M, 'syncTs')))
            T.put(f, 'Frame', 'decodeTime', NO_DTS)
            for fld, v in (('samples', OUT), ('channels', CH), ('sampleRate', RATE)):
                T.put(f, AF, fld, v)
            T.put(f, PF, 'bufferLen', OUT * 4)
            T.put(m, M, 'front', add(fr, OUT) if ex.fsize(M, 'front') == 8 else trunc(add(fr, OUT), 64, 32))
            T.done(True)
    return go


def taken(ex, st0, st, w, f, i, n):
    """the first n waiting samples of channel i are in the frame, and silent in the buffer"""
    at = mod(w.pos(st0)[0])
    lg = ex.arr_log(st0, w.buf[i], 0, 4)
    p = planes(ex, st0, f)[i]

    def byte(o):
        c = add(at, lshr(o, 2))
        v = lg.read(itew(ult(c, ROOM, 64), c, sub(c, ROOM), 64))
        bs = [byte_of(bits(v), 4, q) for q in range(4)]
        o = trunc(o, 64, 2)
        return itew(eq(o, 0, 2), bs[0], itew(eq(o, 1, 2), bs[1], itew(eq(o, 2, 2), bs[2], bs[3], 8), 8), 8)
    st.mem[p.obj] = st0.mem[p.obj].fill(p.idx or 0, mul(n, 4), byte)
    st.cells(w.buf[i])[0] = ring(lg, at, n, lambda c, d: 0)


def loop_take(box):
    def go(L, S, k):
        w, ex = box[0], L.ex
        i = channel(ex, L.st, w)
        taken(ex, L.st, S, w, L.arg(1), i, k)
        return [('within the frame', ule(k, OUT, 64))]
    return go


def channel(ex, st, w):
    """the channel a loop over samples is at: those before were changed"""
    n = 0
    while n < CH and ex.arr_log(st, w.buf[n], 0, 4) is not w.first[n] and ex.arr_log(st, w.buf[n], 0, 4).k == 'fn' and not zero(ex.arr_log(st, w.buf[n], 0, 4)):
        n += 1
    return min(n, CH - 1)


def zero(lg):
    return isinstance(lg.read(7), int)


def lshr(v, n):
    return v >> n if isinstance(v, int) else z3.simplify(z3.LShR(v, n))


# ---------------------------------------------------------------- gains
def norm_gain(v):
    """the nearest permitted gain; not a number is silence"""
    return z3.If(z3.fpGT(v, fp(1)), fp(1), z3.If(z3.fpGEQ(v, fp(0)), v, fp(0)))


def s_set(box):
    def go(S, m, id, v):
        w = box[0]
        for T, there in S.split(w.has(S.st, id)):
            if there:
                w.set_gain(T.st, w.key(id), norm_gain(num(v)))
            T.done(bool(there))
    return go


class Json:
    """the parameters of a request"""
    def __init__(self, V, st, fields):
        ex = self.ex = V.ex
        self.p = V.obj(st, 'class.Jzon::Object', 'params', cname='Object')
        V.vptr(st, self.p, 'Object')
        self.val = {}
        for f in ('id', 'gain'):
            v = V.obj(st, 'class.Jzon::Value', 'param ' + f, cname='Value')
            V.vptr(st, v, 'Value')
            self.val[f] = v
        self.there = {f: f in fields for f in self.val}
        self.id, self.gain = V.bv('id'), z3.FP('requested gain', F32)

    @staticmethod
    def install(V, box):
        def has(ex, st, a, c):
            return box[0].there[name(ex, st, a[1])]

        def name(ex, st, p):
            s = stdmodel.str_get(ex, st, p).parts
            if len(s) != 1 or s[0] not in ('id', 'gain'):
                raise Structural('request parameter %r' % (s,))
            return s[0]

        def get(ex, st, a, c):
            f = name(ex, st, a[1])
            ex.oblige(st, box[0].there[f], 'only parameters that were given are read', 'pre')
            return box[0].val[f]
        num_ = lambda f: lambda ex, st, a, c: (ex.oblige(st, ex.peq(st, a[0], box[0].val[f]), 'the right parameter', 'pre'), getattr(box[0], f))[1]
        V.trust(r'Jzon::Object::Has\(', has, 'Jzon: whether a request has a parameter')
        V.trust(r'Jzon::Object::Get\(', get, 'Jzon: the parameter of a request')
        V.trust(r'Jzon::Value::ToInt\(', num_('id'), 'Jzon: the number a parameter holds (a request of another type makes Jzon throw, and changes nothing)')
        V.trust(r'Jzon::Value::ToFloat\(', num_('gain'), '')


def run(V):
    ex = V.ex
    ex.solver.quickms, ex.solver.abfirst = 1, True
    box, js = [None], [None]
    Json.install(V, js)

    def state(plain=False):
        st = V.state()
        box[0] = World(V, st, plain)
        return st, box[0]

    # ------------------------------------------------------------ conversions
    def conv(_):
        for fmt in (S16P, FLTP, 'other'):
            st = V.state()
            p = V.bytes(st, 'sample', 4)
            d = V.rawout(st, 4, 'number')
            f = V.bv('format') if fmt == 'other' else fmt
            if fmt == 'other':
                st.assume(ne(f, S16P), ne(f, FLTP))
            yield str(fmt), st, [p, d, f]
    V.prove(M + '::bytesToFloat', s_from, conv)

    def back(_):
        for fmt in (S16P, FLTP, 'other'):
            st = V.state()
            p = V.bytes(st, 'sample', 4)
            f = V.bv('format') if fmt == 'other' else fmt
            if fmt == 'other':
                st.assume(ne(f, S16P), ne(f, FLTP))
            yield str(fmt), st, [p, z3.FP('number', F32), f]
    V.prove(M + '::floatToBytes', s_to, back)

    def lemmas(_=None):
        st = V.state()
        x = z3.BitVec('sixteen bits', 16)
        r = z3.fpDiv(RM, z3.fpSignedToFP(RM, x, F32), fp(32768))
        a, b = z3.FP('a', F32), z3.FP('b', F32)
        V.check(st, bv_bool(implies(land(sfp(a), ufp(b)), sfp(z3.fpMul(RM, a, b)))), 'a gain keeps a sample within full scale')
        s2 = z3.fpAdd(RM, a, b)
        V.check(st, bv_bool(implies(land(sfp(a), sfp(b)), norm(z3.And(z3.fpLEQ(fp(-2), s2), z3.fpLEQ(s2, fp(2)))))), 'the sum of two samples')
        V.check(st, sfp(r), '16 bit samples are within full scale')
        d = z3.fpMul(RM, z3.fpToFP(RM, r, F64), z3.FPVal(32768.0, F64))
        V.check(st, z3.And(z3.Not(z3.fpGEQ(r, fp(1))), z3.fpToSBV(z3.RTZ(), d, z3.BitVecSort(16)) == x), '16 bit samples survive the conversions')
        y = z3.BitVec('bits', 32)
        V.check(st, z3.And(bv_bool(fin(y)) == bv_bool(sfp(num(y))), bv_bool(unit(y)) == bv_bool(ufp(num(y)))), 'ranges of numbers and of their bits')
    V.unit('lemmas on samples', lemmas)

    # ------------------------------------------------------------ mixing one sample
    def one(_):
        st, w = state(True)
        i = V.bv('index')
        yield '', st, [w.m, z3.FP('sample', F32), Ptr(w.buf[0], 0, 0), i, z3.FP('gain of channel', F32)]
    V.prove(M + '::mixSample', s_mix(box), one)

    # ------------------------------------------------------------ gains
    def setg(_):
        st, w = state()
        yield '', st, [w.m, V.bv('id'), z3.FP('requested gain', F32)]
    V.prove(M + '::setChannelGain', s_set(box), setg)
    V.use(M + '::setChannelGain', s_set(box))

    # ------------------------------------------------------------ mixing frames
    V.use(M + '::bytesToFloat', s_from)
    V.use(M + '::floatToBytes', s_to)
    V.use(M + '::mixSample', s_mix(box))
    ex.loopspecs[(M + '::pushToBuffer', 2)] = loop_push(box)
    ex.loopspecs[(M + '::extractMixedFrame', 1)] = loop_take(box)

    def push(_):
        for fmt in (S16P, FLTP, 'other'):
            st, w = state()
            f = frame(V, st, 'input', fmt if fmt != 'other' else None)
            if fmt == 'other':
                v = ex.get(st, f, AF, 'sampleFmt')
                st.assume(ne(v, S16P), ne(v, FLTP))
            for x in (ex.get(st, f, 'Frame', 'presentationTime'), ex.get(st, w.m, M, 'syncTs')):
                st.assume(slt(x, 1 << 45, 64), slt(-(1 << 45) & ((1 << 64) - 1), x, 64))
            yield str(fmt), st, [w.m, V.bv('id'), f]
    V.prove(M + '::pushToBuffer', s_push(box), push)

    def extract(_):
        st, w = state()
        yield '', st, [w.m, frame(V, st, 'output')]
    V.prove(M + '::extractMixedFrame', s_extract(box), extract)

    # ------------------------------------------------------------ the ring stays silent outside of the waiting samples
    def silence(_=None):
        st = V.state()
        w = World(V, st, silent=True)
        f, r = w.pos(st)
        n, at, c = V.bv('mixed', 64), V.bv('position', 64), V.bv('cell', 64)
        st.assume(ule(f, at, 64), ule(n, ROOM, 64), ule(at, sub(add(f, ROOM), n), 64), ult(c, ROOM, 64))
        # remainders of positions at most one turn apart (positions stay below 2^45: no overflow)
        F, D = z3.Ints('F D')
        Q, R = F / ROOM, F % ROOM
        V.check(st, z3.Implies(z3.And(F >= 0, D >= 0, D <= ROOM), (F + D) % ROOM == z3.If(R + D < ROOM, R + D, R + D - ROOM)), 'remainders of positions')

        def near(x):
            d = sub(x, f)
            s = add(mod(f), d)
            st.assume(eq(mod(x), itew(ult(s, ROOM, 64), s, sub(s, ROOM), 64), 64))
        near(at)
        near(add(f, OUT))
        lg = ex.arr_log(st, w.buf[0], 0, 4)
        to = itew(ult(r, add(at, n), 64), add(at, n), r, 64)
        new = ring(lg, mod(at), n, lambda k, d: z3.BitVec('something', 32))
        V.check(st, implies(lnot(waiting(f, to, c)), eq(new.read(c), 0, 32)), 'mixing a frame only makes waiting cells sound')
        st.assume(ule(ENOUGH, sub(r, f), 64))
        out = ring(lg, mod(f), OUT, lambda k, d: 0)
        V.check(st, implies(lnot(waiting(add(f, OUT), r, c)), eq(out.read(c), 0, 32)), 'delivered cells are silent')
    V.unit('silent cells', silence)

    # ------------------------------------------------------------ requests
    def request(*fields):
        def go(_):
            import itertools
            for k in range(len(fields) + 1):
                for have in itertools.combinations(fields, k):
                    st, w = state()
                    js[0] = Json(V, st, have)
                    yield ' and '.join(have) or 'nothing given', st, [w.m, js[0].p]
            st, w = state()
            yield 'no parameters', st, [w.m, NULL]
        return go

    def given(*fields):
        return lambda a: not is_null(a) and all(js[0].there[f] for f in fields)

    def s_volume(S, m, p):
        if not given('id', 'gain')(p):
            S.done(False)
        else:
            s_set(box)(S, m, js[0].id, js[0].gain)
    V.prove(M + '::changeChannelVolumeEvent', s_volume, request('id', 'gain'))

    def s_mute(S, m, p):
        if not given('id')(p):
            S.done(False)
        else:
            s_set(box)(S, m, js[0].id, fp(0))
    V.prove(M + '::muteChannelEvent', s_mute, request('id'))

    def s_master(S, m, p):
        if not given('gain')(p):
            S.done(False)
        else:
            S.put(m, M, 'masterGain', norm_gain(js[0].gain))
            S.done(True)
    V.prove(M + '::changeMasterVolumeEvent', s_master, request('gain'))

    def s_mute_master(S, m, p):
        S.put(m, M, 'masterGain', fp(0))
        S.done(True)
    V.prove(M + '::muteMasterEvent', s_mute_master, request())

    def alone(st0, st, w, id, upto=None):
        """only this reader is heard (of the first upto ones)"""
        lg = w.gains(st0)
        k = w.key(id)
        e = stdmodel.enum(ex, st0, ex.fptr(w.m, M, 'gains'))

        def read(i):
            quiet = ne(bv(i, 64), k, 64)
            if upto is not None:
                quiet = land(quiet, e.before(i, upto))
            return z3.If(bv_bool(quiet), fp(0), z3.If(bv_bool(eq(bv(i, 64), k, 64)), fp(1), lg.read(i)))
        st.cells(w.map)[w.mi.second] = Log.base(read, 4)

    def s_solo(S, m, p):
        w = box[0]
        if not given('id')(p):
            S.done(False)
            return
        for T, there in S.split(w.has(S.st, js[0].id)):
            if there:
                alone(T.st, T.st, w, js[0].id)
            T.done(bool(there))

    def loop_solo(L, S, k):
        w = box[0]
        e = stdmodel.enum(ex, L.st, ex.fptr(w.m, M, 'gains'))
        alone(L.st, S, w, js[0].id, k)
        return [('within the readers', ule(k, e.n, 64))]
    ex.loopspecs[(M + '::soloChannelEvent', 0)] = loop_solo
    V.prove(M + '::soloChannelEvent', s_solo, request('id'))

    # ------------------------------------------------------------ readers
    def delete(_):
        st, w = state()
        yield '', st, [w.m, V.bv('id')]

    def s_delete(S, m, id):
        w = box[0]
        k = w.key(id)
        for T, there in S.split(w.has(S.st, id)):
            if there:
                c = T.st.cells(w.map)
                c[w.mi.flag] = c[w.mi.flag].store(k, 0)
                stdmodel.set_map(ex, T.st, ex.fptr(m, M, 'gains'), w.map, sub(stdmodel.mp(ex, T.st, ex.fptr(m, M, 'gains'))[1], 1))
            T.done(bool(there))
    V.prove(M + '::specificReaderDelete', s_delete, delete)

    # ------------------------------------------------------------ the whole filter step
    class Step:
        pass

    def use_push(S, m, id, f):
        w = box[0]
        x = w.step
        i = S.st.cells(x.count.obj)[0][1]
        S.require(ult(i, x.n, 64), 'one call per new frame')
        S.require(eq(id, x.id(i), 32), 'the new frames are mixed in turn')
        S.require(ex.peq(S.st, f, Ptr(x.frames, zext(x.id(i), 32, 64), 0)), 'the frame of its reader')
        S.require(w.has(S.st, id), 'the reader has a gain')
        S.st.cells(x.count.obj)[0] = (8, add(i, 1))
        S.done(eq(ex.fresh('pushed', 8), 0, 8))

    def use_extract(S, m, f):
        w = box[0]
        x = w.step
        S.require(eq(S.st.cells(x.count.obj)[0][1], x.n, 64), 'delivered after the new frames were mixed')
        S.require(ex.peq(S.st, f, x.dst), 'the output frame')
        S.done(x.delivered)

    def step_setup(_):
        st, w = state()
        x = w.step = Step()
        x.n = V.bv('new frames', 64)
        st.assume(ule(x.n, IDS, 64))
        B30 = z3.BitVecSort(30)
        pick = z3.Function('new frame', B30, B30)
        x.id = lambda i: zext(pick(bv(trunc(bv(i, 64), 64, 30), 30)), 30, 32)
        new = V.rawout(st, 24, 'newFrames')
        ids = V.seq(st, new, 'ids', 4, x.n, 'vector')
        # every new frame belongs to a reader that was configured
        c = st.cells(w.map)
        old = c[w.mi.flag]
        st.cells(ids)[0] = Log.base(x.id, 4)
        mi = stdmodel.mapinfo_of(ex, 'std::map<int, Frame*>')
        no = V.bv('frames', 64)
        st.assume(ule(no, IDS, 64))
        o = stdmodel.new_map(ex, st, mi, no, 'sym', 'orgFrames')
        o.pre = True
        p = V.rawout(st, 48, 'orgFrames')
        for q in (p, new):
            ex.objs[q.obj].info = None
        stdmodel.set_map(ex, st, p, o.id, no)
        all_ = lambda i: zext(ult(i, IDS, 64), 1, 8)
        st.cells(o.id)[mi.flag] = Log.base(all_, 1)
        c[w.mi.flag] = Log.base(all_, 1)
        x.frames = V.array(st, 'frames', 'class.' + PF, IDS)
        st.cells(o.id)[mi.second] = Log.base(lambda i: Ptr(x.frames, i, 0), 8)
        st.cells(x.frames)[0] = Log.const(ex.vtable(PF), 8)
        x.count = V.rawout(st, 8, 'mixed frames')
        ex.objs[x.count.obj].info = None
        st.cells(x.count.obj)[0] = (8, 0)
        x.dst = frame(V, st, 'output')
        x.delivered = z3.Bool('delivered')
        yield '', st, [w.m, p, x.dst, new]

    def s_step(S, m, org, dst, new):
        x = box[0].step
        S.st.cells(x.count.obj)[0] = (8, x.n)
        for T, there in S.split(x.delivered):
            if there:
                T.put(dst, 'Frame', 'consumed', 1)
            T.done(bool(there))

    def loop_step(L, S, k):
        x = box[0].step
        S.cells(x.count.obj)[0] = (8, k)
        return [('within the new frames', ule(k, x.n, 64))]
    V.use(M + '::pushToBuffer', use_push)
    V.use(M + '::extractMixedFrame', use_extract)
    ex.loopspecs[(M + '::doProcessFrame', 0)] = loop_step
    V.prove(M + '::doProcessFrame', s_step, step_setup)

    # ------------------------------------------------------------ a new mixer
    V.trust(r'ManyToOneFilter::ManyToOneFilter\(', lambda ex, st, a, c: None, 'the constructor of the filter base class')
    V.trust(r'AudioMixer::initializeEventMap\(', lambda ex, st, a, c: None, 'the table of requests (std::function): exercised by the native driver')

    def fresh(_):
        st = V.state()
        yield '', st, [V.out(st, 'class.' + M), V.bv('input channels')]

    def s_new(S, m, n):
        for f, v in (('fType', AUDIO_MIXER), ):
            S.put(m, 'BaseFilter', f, v)
        for f, v in (('channels', CH), ('sampleRate', RATE), ('inputFrameSamples', OUT), ('sampleFormat', FLTP), ('mixBufferMaxSamples', ROOM),
                     ('outputSamples', OUT), ('mixingThreshold', ENOUGH), ('th', TH), ('maxMixingChannels', n), ('front', 0), ('rear', 0), ('masterGain', TH), ('syncTs', NO_DTS)):
            S.put(m, M, f, v)
        for i in range(CH):
            o = ex.new_obj('mix%d' % i, 'bytes', 4 * ROOM)
            o.stride = 1
            S.st.mem[o.id] = Log.const(0, 1)
            ex.raw_store(S.st, ex.canon(ex.addc(ex.fptr(m, M, 'mixBuffers'), 8 * i)), 8, Ptr(o.id, 0, 0))
        stdmodel.set_map(ex, S.st, ex.fptr(m, M, 'gains'), stdmodel.new_map(ex, S.st, stdmodel.mapinfo_of(ex, 'std::map<int, float>'), 0, 0).id, 0)
        S.done()
    V.prove(M + '::' + M, s_new, fresh)


def find(e, p):
    """a subterm of e with this property"""
    todo, seen = [e] if isinstance(e, z3.ExprRef) else [], set()
    while todo:
        y = todo.pop()
        if isfp(y) and p(y):
            return y
        if y.get_id() not in seen:
            seen.add(y.get_id())
            todo += y.children()
    return None


def occurs(x, e):
    return find(e, lambda y: y.eq(x)) is not None


def bv_bool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


NATIVE = {'driver': 'p20.cpp', 'sources': sorted(set(SRC + FILTER + ['src/AudioCircularBuffer.cpp'])), 'libs': ['-llog4cplus', '-lavutil', '-lavcodec', '-Wl,--unresolved-symbols=ignore-all']}
