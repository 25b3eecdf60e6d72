"""P13: the manifest lists exactly the newest segments of its sliding window."""
from verify import *
from quant import First, memo

SRC = ['src/modules/dasher/MpdManager.cpp', 'src/modules/dasher/Dasher.cpp']
M, AS = 'MpdManager', 'AdaptationSet'
MIN = 2
BIG = 1 << 31


def adset(V, st, cls='VideoAdaptationSet', name='set'):
    ex = V.ex
    a = V.obj(st, 'class.' + cls, name, cname=cls)
    V.vptr(st, a, cls)
    n = V.bv('segments', 64)
    st.assume(ule(n, BIG, 64))
    oid = V.seq(st, ex.fptr(a, AS, 'timestamps'), 'window', 16, n)
    for off in (0, 8):
        ex.arr_log(st, oid, off, 8)
    return a


def window(ex, st, a):
    oid, n = stdmodel.lst(ex, st, ex.fptr(a, AS, 'timestamps'))
    return oid, n, [ex.arr_log(st, oid, off, 8) for off in (0, 8)]


def drop(ex, S, a, oid, n, logs, k, ret, own=0):
    """the k oldest segments have left the window, and are reported in this order"""
    c = S.cells(oid)
    for off, lg in zip((0, 8), logs):
        c[off] = lg.copy(0, sub(n, k), lg, k)
    stdmodel.set_lst(ex, S, ex.fptr(a, AS, 'timestamps'), oid, sub(n, k))
    v, _ = stdmodel.vec(ex, S, ret)
    old = ex.arr_log(S, v, 0, 8)
    S.cells(v)[0] = old.copy(0, k, logs[0], 0)
    stdmodel.set_vec(ex, S, ret, v, k)


def loop_drop(L, S, k):
    a, ret = L.this(), L.arg(0)
    ex = L.ex
    oid, n, logs = window(ex, L.st, a)
    drop(ex, S, a, oid, n, logs, k, ret)
    mx = zext(L.arg(4), 32, 64)
    return [('only what is too much leaves', lor(eq(k, 0, 64), ule(add(mx, k), add(n, 1), 64))), ('within the window', ule(k, n, 64))]


def leave(S, ret, a, ts, dur, mx):
    """announcing a segment: the oldest leave so that at most mx remain, the new one comes last"""
    ex = S.ex
    oid, n, logs = window(ex, S.st, a)
    mx = zext(mx, 32, 64)
    v = ex.new_arr(S.st, 'left', 8, 0)
    stdmodel.set_vec(ex, S.st, ret, v.id, 0)
    k = itew(ule(mx, n, 64), sub(add(n, 1), mx), 0, 64)
    drop(ex, S.st, a, oid, n, logs, k, ret)
    c = S.st.cells(oid)
    c[0] = c[0].store(sub(n, k), ts)
    c[8] = c[8].store(sub(n, k), zext(dur, 32, 64))
    stdmodel.set_lst(ex, S.st, ex.fptr(a, AS, 'timestamps'), oid, add(sub(n, k), 1))


def s_updateTimestamp(S, ret, a, ts, dur, mx):
    S.require(ne(mx, 0), 'the window has room')
    leave(S, ret, a, ts, dur, mx)
    S.done()


def s_flush(S, a):
    ex = S.ex
    oid, n, logs = window(ex, S.st, a)
    stdmodel.set_lst(ex, S.st, ex.fptr(a, AS, 'timestamps'), oid, 0)
    S.done()


def s_configure(S, m, buf, mx, dur):
    ex = S.ex
    n = itew(ule(MIN, mx), mx, MIN)
    total = mul(zext(n, 32, 64), zext(dur, 32, 64), 64)
    S.require(ult(total, 1 << 32, 64), 'the window lasts less than 2^32 s')
    whole, least = trunc(total, 64, 32), trunc(mul(zext(dur, 32, 64), 2, 64), 64, 32)
    S.put(m, M, 'maxSeg', n)
    t = itew(ule(whole, buf), whole, itew(ule(least, buf), buf, least))
    S.put(m, M, 'minBufferTime', t)
    S.ensure(ule(least, t), ule(t, whole), ule(MIN, n))
    num = lambda v: stdmodel.Str(['PT', ('num', 'unsigned int', v), '.0S'])
    stdmodel.str_set(ex, S.st, ex.fptr(m, M, 'timeShiftBufferDepth'), num(whole))
    stdmodel.str_set(ex, S.st, ex.fptr(m, M, 'minimumUpdatePeriod'), num(dur))
    S.done()


def manager(V, st):
    ex = V.ex
    m = V.obj(st, 'class.' + M, 'manager', cname=M)
    for f in ('timeShiftBufferDepth', 'minimumUpdatePeriod'):
        stdmodel.str_set(ex, st, ex.fptr(m, M, f), stdmodel.Str([('sym', f)]))
    st.assume(ule(MIN, ex.get(st, m, M, 'maxSeg')))
    return m


MAP = 'std::map<std::__cxx11::basic_string<char>, AdaptationSet*>'


def named(V, st, name='id'):
    p = V.rawout(st, 32, name)
    V.ex.objs[p.obj].info = None
    stdmodel.str_set(V.ex, st, p, stdmodel.Str([('sym', name)]))
    return p


def sets(V, st, m):
    """the sets of the manifest: the one asked for, and others"""
    ex = V.ex
    mi = stdmodel.mapinfo_of(ex, MAP)
    n = V.bv('sets', 64)
    st.assume(ule(n, BIG, 64))
    o = stdmodel.new_map(ex, st, mi, n, 'sym', 'adaptationSets')
    o.pre = True
    stdmodel.set_map(ex, st, ex.fptr(m, M, 'adaptationSets'), o.id, n)
    K = stdmodel.str_id(ex, stdmodel.Str([('sym', 'id')]))
    a, b = adset(V, st, name='set asked for'), adset(V, st, name='another set')
    st.cells(o.id)[mi.second] = Log.base(lambda i: ite(eq(i, K, 64), a, b), 8)
    return K, a


def s_update(box):
    def go(S, ret, m, ident, ts, dur):
        ex = S.ex
        K, a = box
        mx = S.get(m, M, 'maxSeg')
        S.require(ule(MIN, mx))
        has = stdmodel.map_has(ex, S.st, stdmodel.mp(ex, S.st, ex.fptr(m, M, 'adaptationSets'))[0], K)
        for T, known in S.split(has):
            if known:
                leave(T, ret, a, ts, dur, mx)
            else:
                v = ex.new_arr(T.st, 'left', 8, 0)
                stdmodel.set_vec(ex, T.st, ret, v.id, 0)
            T.done()
    return go


def s_flushSet(box):
    def go(S, m, ident):
        ex = S.ex
        K, a = box
        has = stdmodel.map_has(ex, S.st, stdmodel.mp(ex, S.st, ex.fptr(m, M, 'adaptationSets'))[0], K)
        for T, known in S.split(has):
            if known:
                oid, n, logs = window(ex, T.st, a)
                stdmodel.set_lst(ex, T.st, ex.fptr(a, AS, 'timestamps'), oid, 0)
            T.done(known)
    return go


# ---- writing the manifest: the XML library is trusted to build the tree it is asked for
class Xml:
    """ghost document: S elements with their t and d, in the order they were put into the timeline"""
    NODES = ('SegmentTimeline', 'SegmentTemplate')

    def __init__(self, V, st):
        ex = self.ex = V.ex
        self.node = {}
        for n in self.NODES + ('adaptation set', 'count'):
            p = V.rawout(st, 24, n)
            ex.objs[p.obj].info = None
            c = st.cells(p.obj)
            c[0], c[8], c[16] = (8, NULL), (8, 0), (8, 0)
            self.node[n] = p
        self.s = V.array(st, 'S elements', 16, BIG * 2)
        self.order = V.array(st, 'timeline', 8, BIG * 2)
        for o, f in ((self.s, 0), (self.s, 8), (self.order, 0)):
            ex.arr_log(st, o, f, 8)
        self.other = V.rawout(st, 8, 'other element')

    def num(self, st, name, off=0, v=None):
        c = st.cells(self.node[name].obj)
        if v is not None:
            c[off] = (8, v)
        return c[off][1]

    def element(self, ex, st, a, c):
        tag = stdmodel.cstr(ex, st, a[1]).lit()
        if tag == 'S':
            k = self.num(st, 'count', 8)
            self.num(st, 'count', 8, add(k, 1))
            return Ptr(self.s, k, 0)
        if tag in self.NODES:
            ex.oblige(st, eq(self.num(st, tag, 8), 0, 64), 'one %s' % tag, 'pre')
            self.num(st, tag, 8, 1)
            return self.node[tag]
        return self.other

    def attribute(self, ex, st, a, c):
        if a[0].obj != self.s:
            return
        name = stdmodel.cstr(ex, st, a[1]).lit()
        if name in ('t', 'd'):
            v = stdmodel.cstr(ex, st, a[2])
            if len(v.parts) != 1 or v.parts[0][0] != 'num' or 'unsigned long' not in v.parts[0][1]:
                raise Unsupported('the %s of a segment is no 64 bit number' % name)
            ex.raw_store(st, Ptr(self.s, a[0].idx, 0 if name == 't' else 8), 8, v.parts[0][2])

    def insert(self, ex, st, a, c):
        par, ch = a[0], ex.canon(a[1])
        if ch.obj == self.s:
            ex.oblige(st, par.obj == self.node['SegmentTimeline'].obj, 'segments are put into the timeline', 'pre')
            k = self.num(st, 'SegmentTimeline', 16)
            ex.raw_store(st, Ptr(self.order, k, 0), 8, ch.idx)
            self.num(st, 'SegmentTimeline', 16, add(k, 1))
        for n in self.NODES:
            if ch.obj == self.node[n].obj:
                st.cells(ch.obj)[0] = (8, par)
        return a[1]


def listed(ex, S, x, a, st, k):
    """the first k segments are listed in their order"""
    oid, n, logs = window(ex, st, a)
    c = S.cells(x.s)
    for off, lg in zip((0, 8), logs):
        c[off] = ex.arr_log(st, x.s, off, 8).copy(0, k, lg, 0)
    S.cells(x.order)[0] = ex.arr_log(st, x.order, 0, 8).fill(0, k, lambda i: i)
    x.num(S, 'count', 8, k)
    x.num(S, 'SegmentTimeline', 16, k)
    return n


def s_toMpd(box):
    def go(S, a, doc, el):
        ex, x = S.ex, box[0]
        n = listed(ex, S.st, x, a, S.st, window(ex, S.st, a)[1])
        for nd, par in (('SegmentTimeline', x.node['SegmentTemplate']), ('SegmentTemplate', x.node['adaptation set'])):
            x.num(S.st, nd, 8, 1)
            S.st.cells(x.node[nd].obj)[0] = (8, par)
        S.done()
    return go


def loop_list(box):
    def go(L, S, k):
        n = listed(L.ex, S, box[0], L.this(), L.st, k)
        return [('within the window', ule(k, n, 64))]
    return go


def loop_repr(cls):
    def go(L, S, k):
        e = stdmodel.enum(L.ex, L.st, L.ex.fptr(L.this(), cls, 'representations'))
        return [('within the representations', ule(k, e.n, 64))]
    return go


def prove_mpd(V):
    ex = V.ex
    box = [None]
    X = r'tinyxml2::XML(Document|Element|Node)::'
    V.trust(X + r'NewElement', lambda *a: box[0].element(*a), 'tinyxml2 elements are created empty')
    V.trust(X + r'SetAttribute', lambda *a: box[0].attribute(*a), 'tinyxml2 stores the attributes it is given')
    V.trust(X + r'InsertEndChild', lambda *a: box[0].insert(*a), 'tinyxml2 appends children at the end')
    for cls, rep in (('VideoAdaptationSet', 'VideoRepresentation'), ('AudioAdaptationSet', 'AudioRepresentation')):
        ex.loopspecs[(cls + '::toMpd', 0)] = loop_list(box)
        ex.loopspecs[(cls + '::toMpd', 1)] = loop_repr(cls)

        def write(_, cls=cls, rep=rep):
            st = V.state()
            a = adset(V, st, cls)
            x = box[0] = Xml(V, st)
            for f in [f for f in ('mimeType', 'segTemplate', 'initTemplate')]:
                stdmodel.str_set(ex, st, ex.fptr(a, AS, f), stdmodel.Str([('sym', f)]))
            for f in ('lang', 'roleSchemeIdUri', 'roleValue') if cls[0] == 'A' else ():
                stdmodel.str_set(ex, st, ex.fptr(a, cls, f), stdmodel.Str([('sym', f)]))
            mi = stdmodel.mapinfo_of(ex, 'std::map<std::__cxx11::basic_string<char>, %s*>' % rep)
            n = V.bv('representations', 64)
            st.assume(ule(n, BIG, 64))
            o = stdmodel.new_map(ex, st, mi, n, 'sym', 'representations')
            o.pre = True
            stdmodel.set_map(ex, st, ex.fptr(a, cls, 'representations'), o.id, n)
            fam = V.array(st, 'representations', 'class.' + rep, BIG)
            st.cells(o.id)[mi.second] = Log.base(lambda i: Ptr(fam, zext(trunc(i, 64, 30), 30, 64), 0), 8)
            doc = V.rawout(st, 8, 'document')
            el = V.rawout(st, 8, 'element')
            ex.objs[el.obj].info = None
            st.cells(el.obj)[0] = (8, x.node['adaptation set'])
            yield '', st, [a, doc, el]
        V.prove(cls + '::toMpd', s_toMpd(box), write)


# ---- the files of the segments
D = 'Dasher'
SEGS = 'std::map<int, DashSegment*>'


class Files:
    """ghost record: the removals asked for, in order, as (representation, time)"""
    def __init__(self, V, st, d, ext, ts):
        ex = self.ex = V.ex
        self.count = V.rawout(st, 8, 'removals')
        ex.objs[self.count.obj].info = None
        self.num(st, 0)
        self.log = V.array(st, 'removed files', 16, BIG)
        for f in (0, 8):
            ex.arr_log(st, self.log, f, 8)
        self.ext = ext

    def num(self, st, v=None):
        c = st.cells(self.count.obj)
        if v is not None:
            c[0] = (8, v)
        return c[0][1]

    def remove(self, ex, st, a, c):
        p = stdmodel.cstr(ex, st, a[0]).parts
        if len(p) != 7 or [x[1] for x in (p[0], p[1], p[6])] != ['basePath', 'baseName', self.ext] or [p[2], p[4]] != ['_', '_'] or \
                [x[0] for x in (p[3], p[5])] != ['num'] * 2 or 'unsigned int' not in p[3][1] or 'unsigned long' not in p[5][1]:
            raise Unsupported('removed file %r' % (p,))
        k = self.num(st)
        ex.raw_store(st, Ptr(self.log, k, 0), 8, zext(p[3][2], 32, 64))
        ex.raw_store(st, Ptr(self.log, k, 8), 8, p[5][2])
        self.num(st, add(k, 1))
        return ex.fresh('remove', 32)


def segments(V, st, p, name):
    ex = V.ex
    mi = stdmodel.mapinfo_of(ex, SEGS)
    n = V.bv(name, 64)
    st.assume(ule(n, BIG, 64))
    o = stdmodel.new_map(ex, st, mi, n, 'sym', name)
    o.pre = True
    stdmodel.set_map(ex, st, p, o.id, n)
    fam = V.array(st, name, 'class.DashSegment', BIG)
    st.cells(o.id)[mi.second] = Log.base(lambda i: Ptr(fam, zext(trunc(i, 64, 30), 30, 64), 0), 8)
    return o


def dasher(V, st):
    ex = V.ex
    d = V.obj(st, 'class.' + D, 'dasher', cname=D)
    for f in ('basePath', 'baseName', 'mpdPath'):
        stdmodel.str_set(ex, st, ex.fptr(d, D, f), stdmodel.Str([('sym', f)]))
    return d


def removed(x, S, st, m, ts, k):
    """the files of the first k representations are removed"""
    ex = x.ex
    e = stdmodel.enum(ex, st, m)
    c = S.cells(x.log)
    c[0] = ex.arr_log(st, x.log, 0, 8).fill(0, k, lambda i: zext(trunc(e.key(i), 64, 32), 32, 64))
    c[8] = ex.arr_log(st, x.log, 8, 8).fill(0, k, lambda i: ts)
    x.num(S, k)
    return e


def prove_clean(V):
    ex = V.ex
    box = [None]
    V.trust(r'remove$', lambda *a: box[0].remove(*a), 'std::remove removes the file it is given')

    def spec(S, d, m, ts, ext):
        x = box[0]
        e = stdmodel.enum(S.ex, S.st, m)
        removed(x, S.st, S.st, m, ts, e.n)
        S.done(Post(lambda ex, st, r: [], lambda S: ne(S.ex.fresh('cleaned', 1), 0, 1)))

    def loop(L, S, k):
        e = removed(box[0], S, L.st, L.arg(1), L.arg(2), k)
        return [('within the representations', ule(k, e.n, 64))]
    ex.loopspecs[(D + '::cleanSegments', 0)] = loop

    def setup(_):
        st = V.state()
        d = dasher(V, st)
        m = V.rawout(st, 48, 'segments')
        ex.objs[m.obj].info = None
        segments(V, st, m, 'segments')
        ts = V.bv('time', 64)
        box[0] = Files(V, st, d, 'extension', ts)
        yield '', st, [d, m, ts, named(V, st, 'extension')]
    V.prove(D + '::cleanSegments', spec, setup)


class World:
    """ghost record of one round of writing: what was announced, and whose files were removed"""
    def __init__(self, V, st):
        ex = self.ex = V.ex
        self.g = V.rawout(st, 64, 'round')
        ex.objs[self.g.obj].info = None
        for f in (0, 8, 16, 24, 32):
            st.cells(self.g.obj)[f] = (8, 0)
        self.left = ex.new_arr(st, 'times that left', 8, 0)
        self.n = V.bv('segments that left', 64)
        st.assume(ule(self.n, BIG, 64))
        st.cells(self.left.id)['n'] = self.n
        st.cells(self.left.id)[0] = Log.uf('times that left', 8)
        self.log = V.array(st, 'times removed', 8, BIG)
        ex.arr_log(st, self.log, 0, 8)
        self.written = V.bv('written', 1)

    ANNOUNCED, SET, TIME, DURATION, REMOVED = 0, 8, 16, 24, 32

    def num(self, st, f, v=None):
        c = st.cells(self.g.obj)
        if v is not None:
            c[f] = (8, v)
        return c[f][1]


def prove_round(V):
    ex = V.ex
    box = [None]
    kinds = {'Video': ('vSegments', '.m4v', '0'), 'Audio': ('aSegments', '.m4a', '1')}
    kind = [None]
    V.trust(r'Dasher::forceAudioSegmentsGeneration\(\)', lambda ex, st, a, c: ne(ex.fresh('forced', 1), 0, 1),
            'finishing the audio segments changes nothing that writing the video segments reads afterwards')
    V.trust(r'Dasher::sendSetReferenceEvent\(', lambda *a: None, 'asking the encoders for a key frame changes no segment')
    V.trust(r'MpdManager::writeToDisk\(', lambda *a: None, 'writing the manifest file changes nothing in memory')

    def own(S, d, m):
        """the argument is the map of the kind of segments in question"""
        (x, n), (y, k) = (stdmodel.mp(S.ex, S.st, p) for p in (m, S.ex.fptr(d, D, kinds[kind[0]][0])))
        cx, cy = S.st.cells(x), S.st.cells(y)
        S.require(land(eq(n, k, 64), *[cx[f] is cy[f] for f in cy if isinstance(f, int)]), 'the segments are those of this kind')

    def ext(S, p):
        S.require(stdmodel.str_get(S.ex, S.st, p).lit() == kinds[kind[0]][1], 'the files are of this kind')

    def s_write(S, d, m, ts, e):
        own(S, d, m)
        ext(S, e)
        w = box[0]
        S.require(eq(w.num(S.st, w.ANNOUNCED), 0, 64), 'files are written before they are announced')
        S.done(ne(w.written, 0, 1))

    def s_announce(S, ret, m, ident, ts, dur):
        w = box[0]
        S.require(stdmodel.str_get(S.ex, S.st, ident).lit() == kinds[kind[0]][2], 'the set of this kind')
        w.num(S.st, w.ANNOUNCED, add(w.num(S.st, w.ANNOUNCED), 1))
        w.num(S.st, w.TIME, ts)
        w.num(S.st, w.DURATION, zext(dur, 32, 64))
        v = ex.new_arr(S.st, 'left', 8, 0)
        S.st.cells(v.id)[0] = S.st.cells(w.left.id)[0]
        stdmodel.set_vec(ex, S.st, ret, v.id, w.n)
        S.done()

    def s_clean(S, d, m, ts, e):
        own(S, d, m)
        ext(S, e)
        w = box[0]
        k = w.num(S.st, w.REMOVED)
        S.ex.raw_store(S.st, Ptr(w.log, k, 0), 8, ts)
        w.num(S.st, w.REMOVED, add(k, 1))
        S.done(ne(ex.fresh('cleaned', 1), 0, 1))

    def segs(st, d):
        return stdmodel.enum(ex, st, ex.fptr(d, D, kinds[kind[0]][0]))

    def seg(st, e, j, f):
        mi = stdmodel.mapinfo_of(ex, SEGS)
        return ex.get(st, st.mem[e.oid][mi.second].read(e.key(j)), 'DashSegment', f)

    def incomplete(st, d):
        e = segs(st, d)
        return memo(ex, ('incomplete', e.tag), lambda: First(ex, e.n, lambda j: eq(trunc(seg(st, e, j, 'complete'), 8, 1), 0, 1), 'incomplete'))

    def s_round(S, d):
        w = box[0]
        e = segs(S.st, d)
        for T, some in S.split(ne(e.n, 0, 64)):
            if not some:
                T.done(0)
                continue
            F = incomplete(T.st, d)
            for U, bad in T.split(lor(F.found, eq(w.written, 0, 1))):
                if bad:
                    U.done(0)
                    continue
                w.num(U.st, w.ANNOUNCED, 1)
                w.num(U.st, w.TIME, seg(U.st, e, 0, 'timestamp'))
                w.num(U.st, w.DURATION, zext(seg(U.st, e, 0, 'duration'), 32, 64))
                c = U.st.cells(w.log)
                c[0] = c[0].copy(0, w.n, U.st.cells(w.left.id)[0], 0)
                w.num(U.st, w.REMOVED, w.n)
                U.done(1)

    def loop_complete(L, S, k):
        e, F = segs(L.st, L.arg(0)), incomplete(L.st, L.arg(0))
        F.inst(k)
        return [('within the segments', ule(k, e.n, 64)), ('complete so far', ule(k, F.end, 64))]

    def loop_plain(L, S, k):
        return [('within the segments', ule(k, segs(L.st, L.arg(0)).n, 64))]

    def loop_remove(L, S, k):
        w = box[0]
        c = S.cells(w.log)
        c[0] = c[0].copy(0, k, S.cells(w.left.id)[0], 0)
        w.num(S, w.REMOVED, k)
        return [('within those that left', ule(k, w.n, 64))]

    V.use(D + '::writeSegmentsToDisk', s_write)
    V.use(D + '::cleanSegments', s_clean)
    V.use(M + '::updateAdaptationSetTimestamp', s_announce)
    for k in kinds:
        fn = D + '::write%sSegments' % k
        ex.loopspecs[(fn, 0)] = loop_complete
        ex.loopspecs[(fn, 1)] = loop_plain
        ex.loopspecs[(fn, 2)] = loop_remove

        def setup(_, k=k):
            kind[0] = k
            st = V.state()
            d = dasher(V, st)
            p = ex.fptr(d, D, kinds[k][0])
            segments(V, st, p, kinds[k][0])
            ex.put(st, d, D, 'mpdMngr', V.rawout(st, 8, 'manager'))
            box[0] = World(V, st)
            yield '', st, [d]
        V.prove(fn, s_round, setup)


def prove_update(V):
    """describing a set again changes neither its window nor another set"""
    ex = V.ex

    def put(S, a, scale, seg, init):
        S.put(a, AS, 'timescale', scale)
        for f, p in (('segTemplate', seg), ('initTemplate', init)):
            stdmodel.str_set(ex, S.st, ex.fptr(a, AS, f), stdmodel.str_get(ex, S.st, p))

    def s_set(S, a, scale, seg, init):
        put(S, a, scale, seg, init)
        S.done()

    def strings(st, a):
        for f in ('segTemplate', 'initTemplate'):
            stdmodel.str_set(ex, st, ex.fptr(a, AS, f), stdmodel.Str([('sym', f)]))

    def one(_):
        st = V.state()
        a = adset(V, st)
        strings(st, a)
        yield '', st, [a, V.bv('time base'), named(V, st, 'segments'), named(V, st, 'start')]
    V.prove(AS + '::update', s_set, one)
    V.use(AS + '::update', s_set)
    box = [None, None]

    def s_known(S, m, ident, scale, seg, init):
        K, a = box
        S.require(stdmodel.map_has(ex, S.st, stdmodel.mp(ex, S.st, ex.fptr(m, M, 'adaptationSets'))[0], K), 'the set exists')
        put(S, a, scale, seg, init)
        S.done()
    for k in ('Video', 'Audio'):
        def known(_):
            st = V.state()
            m = manager(V, st)
            box[:] = sets(V, st, m)
            strings(st, box[1])
            yield '', st, [m, named(V, st), V.bv('time base'), named(V, st, 'segments'), named(V, st, 'start')]
        V.prove(M + '::update%sAdaptationSet' % k, s_known, known, name='update%sAdaptationSet of a set that exists' % k)

    def s_add(S, m, ident, new):
        K, a = box
        p = ex.fptr(m, M, 'adaptationSets')
        mi = stdmodel.mapinfo_of(ex, MAP)
        oid = stdmodel.mp(ex, S.st, p)[0]
        for T, known in S.split(stdmodel.map_has(ex, S.st, oid, K)):
            if not known:
                stdmodel.map_insert(ex, T.st, p, mi, K)
                ex.raw_store(T.st, Ptr(oid, K, mi.second), 8, new)
            T.done(0 if known else 1)

    def adding(_):
        st = V.state()
        m = manager(V, st)
        box[:] = sets(V, st, m)
        yield '', st, [m, named(V, st), adset(V, st, name='new set')]
    V.prove(M + '::addAdaptationSet', s_add, adding)


def run(V):
    ex = V.ex
    prove_update(V)
    prove_clean(V)
    prove_round(V)
    ex.loopspecs[(AS + '::updateTimestamp', 0)] = loop_drop

    def upd(_):
        for cls in ('VideoAdaptationSet',):
            st = V.state()
            a = adset(V, st, cls)
            ret = V.rawout(st, 24, 'times of the segments that left')
            yield '', st, [ret, a, V.bv('time', 64), V.bv('duration'), V.bv('max')]
    V.prove(AS + '::updateTimestamp', s_updateTimestamp, upd)

    def one(_):
        st = V.state()
        yield '', st, [adset(V, st)]
    V.prove(AS + '::flushTimestamps', s_flush, one)

    def conf(_):
        st = V.state()
        yield '', st, [manager(V, st)] + [V.bv(n) for n in ('buffer time', 'max segments', 'segment duration')]
    V.prove(M + '::configure', s_configure, conf)
    V.use(AS + '::updateTimestamp', s_updateTimestamp)
    V.use(AS + '::flushTimestamps', s_flush)
    box = [None, None]

    def ask(*names):
        def go(_):
            st = V.state()
            m = manager(V, st)
            box[:] = sets(V, st, m)
            yield '', st, [m, named(V, st)] + [V.bv(*n) for n in names]
        return go

    def announce(_):
        for c, st, a in ask(('time', 64), ('duration',))(_):
            yield c, st, [V.rawout(st, 24, 'times of the segments that left')] + a
    V.prove(M + '::updateAdaptationSetTimestamp', s_update(box), announce)
    V.prove(M + '::flushAdaptationSetTimestamps', s_flushSet(box), ask())
    prove_mpd(V)


from p10 import SRC as DASH, FILTER
NATIVE = {'driver': 'p13.cpp', 'sources': sorted(set(DASH + SRC + FILTER)),
          'libs': ['-llog4cplus', '-lavutil', '-lavcodec', '-ltinyxml2', '-Wl,--unresolved-symbols=ignore-all']}
