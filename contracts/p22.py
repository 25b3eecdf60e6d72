"""P22: two filters connect completely or not at all, within their limits; disconnecting forgets exactly one connection."""
from verify import *

SRC = ['src/Filter.cpp', 'src/IOInterface.cpp', 'src/AVFramedQueue.cpp', 'src/Frame.cpp', 'src/Runnable.cpp']
F, R, WR, Q = 'BaseFilter', 'Reader', 'Writer', 'AVFramedQueue'
N = 1 << 32
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
IDX = lambda i: zext(trunc(i, 64, 32), 32, 64)


def pointers(V):
    """std::shared_ptr: the pointer it holds (what it releases, and when, is left out)"""
    ex = V.ex
    get = lambda st, p: ex.raw_load(st, ex.access(st, p, 8, 'read'), 8, True)

    def put(st, p, v):
        p = ex.access(st, p, 8, 'write')
        ex.raw_store(st, p, 8, v)
        ex.raw_store(st, ex.canon(ex.addc(p, 8)), 8, NULL)

    def copy(ex, st, a, c):
        put(st, a[0], get(st, a[1]))
        return a[0]

    def move(ex, st, a, c):
        v = get(st, a[1])
        put(st, a[1], NULL)
        put(st, a[0], v)
        return a[0]

    def deref(ex, st, a, c):
        p = get(st, a[0])
        n = ex.is_null_cond(p) if hasattr(ex, 'is_null_cond') else null_cond(p)
        ex.oblige(st, lnot(n), 'the handle is not empty', 'safety')
        return nonnull(p)

    T = lambda rx, h: V.trust(rx, h, 'std::shared_ptr holds the pointer it was given; the objects it releases are not followed')
    P = r'std::(__)?shared_ptr(_access)?<(Reader|Writer)\b[^>]*>::'
    T(P + r'shared_ptr\((decltype\(nullptr\)|std::nullptr_t)?\)', lambda ex, st, a, c: put(st, a[0], NULL))
    T(P + r'shared_ptr<(Reader|Writer), void>\((Reader|Writer)\*\)', lambda ex, st, a, c: put(st, a[0], a[1]))
    T(P + r'(shared_ptr|operator=)\(std::shared_ptr<\w+> ?const&\)', copy)
    T(P + r'(shared_ptr|operator=)\(std::shared_ptr<\w+> ?&&\)', move)
    T(P + r'~shared_ptr\(\)', lambda ex, st, a, c: None)
    T(P + r'reset\(\)', lambda ex, st, a, c: put(st, a[0], NULL))
    T(P + r'operator bool\(\)', lambda ex, st, a, c: lnot(null_cond(get(st, a[0]))))
    T(P + r'operator->\(\)', deref)
    T(P + r'operator\*\(\)', deref)


def null_cond(p):
    if isinstance(p, PtrIte):
        return lor(land(p.c, null_cond(p.a)), land(lnot(p.c), null_cond(p.b)))
    return is_null(p)


def nonnull(p):
    if isinstance(p, PtrIte):
        if null_cond(p.a) is True:
            return nonnull(p.b)
        if null_cond(p.b) is True:
            return nonnull(p.a)
    return p


class World:
    """two filters with any number of connections"""
    def __init__(self, V, same_ids=False):
        ex, self.V = V.ex, V
        self.ex = ex
        st = self.st = V.state()
        self.w, self.r = self.filter(st, 'source'), self.filter(st, 'destination')
        self.ids = [V.bv('id of the source', 32), V.bv('id of the destination', 32)]
        for f, i in zip((self.w, self.r), self.ids):
            ex.put(st, f, 'Runnable', 'id', i)
        st.assume(ne(self.ids[0], self.ids[1], 32))
        self.pre = st

    def filter(self, st, name):
        V, ex = self.V, self.ex
        f = V.obj(st, 'class.BaseFilter', name, cname=F)
        V.vptr(st, f, F)
        for field, cls in (('readers', R), ('writers', WR)):
            fam = V.array(st, '%s of the %s' % (field, name), 'class.' + cls, N)
            qs = V.array(st, 'queues of the %s of the %s' % (field, name), 'class.' + Q, N)
            has = z3.Function('%s %s has a queue' % (name, field), B64, z3.BoolSort())
            off = ex.fptr(Ptr(fam, 0, 0), cls, 'queue').off
            st.cells(fam)[off] = Log.base(lambda i, has=has, qs=qs: PtrIte(has(bv(i, 64)), Ptr(qs, i, 0), NULL), 8)
            st.cells(qs)[0] = Log.const(ex.vtable(Q), 8)
            con = z3.Function('%s %s is connected' % (name, field), B64, z3.BoolSort())
            o2 = ex.fptr(Ptr(qs, 0, 0), Q, 'connected').off
            st.cells(qs)[o2] = Log.base(lambda i, con=con: zext(con(bv(i, 64)), 1, 8), 1)
            mi = stdmodel.mapinfo_of(ex, 'std::map<int, std::shared_ptr<%s>>' % cls)
            n = V.bv('number of %s of the %s' % (field, name), 64)
            st.assume(ule(n, ex.get(st, f, F, 'max' + field.capitalize()) if False else bv(1 << 31, 64), 64))
            m = stdmodel.new_map(ex, st, mi, n, 'sym', '%s map of the %s' % (field, name))
            stdmodel.set_map(ex, st, ex.fptr(f, F, field), m.id, n)
            c = st.cells(m.id)
            c[mi.second] = Log.base(lambda i, fam=fam: Ptr(fam, IDX(i), 0), 8)
            c[mi.second + 8] = Log.const(NULL, 8)
            setattr(self, field[0] + 'mi', mi)
            mx = zext(ex.get(st, f, F, 'max' + field.capitalize()), 32, 64)
            st.assume(ule(n, mx, 64))
            # what the concrete filter keeps per connection
            k = V.rawout(st, 8, '%s state of the %s' % (field, name))
            g = ex.new_arr(st, '%s configured in the %s' % (field, name), ElemSizeOf(ex, 8), N)
            st.mem[g.id] = {'n': N, 'default': 'sym', 0: Log.base(lambda i, m=m, fl=c[mi.flag]: zext(fl.read(i), 8, 64) if False else fl.read(i), 1)}
            setattr(self, 'cfg_%s_%s' % (field, name), g.id)
            if field == 'writers':
                mi2 = self.smi = stdmodel.mapinfo_of(ex, 'std::map<int, unsigned long>')
                s = stdmodel.new_map(ex, st, mi2, n, 'sym', 'sequence numbers of the %s' % name)
                st.cells(s.id)[mi2.flag] = c[mi.flag]
                stdmodel.set_map(ex, st, ex.fptr(f, F, 'seqNums'), s.id, n)
        return f

    def cfg(self, f, field):
        return getattr(self, 'cfg_%s_%s' % (field, 'source' if f.obj == self.w.obj else 'destination'))

    # ---- reading a state
    def table(self, st, f, field):
        oid, n = stdmodel.mp(self.ex, st, self.ex.fptr(f, F, field))
        return oid, n

    def has(self, st, f, field, K):
        return stdmodel.map_has(self.ex, st, self.table(st, f, field)[0], K)

    def value(self, st, f, field, K):
        return st.mem[self.table(st, f, field)[0]][self.rmi.second].read(K)

    def same(self, st, f, field, A, but=None):
        """entry A is what it was, and so is the number of entries, unless one was added (1) or removed (-1)"""
        pre, ex = self.pre, self.ex
        n0, n1 = self.table(pre, f, field)[1], self.table(st, f, field)[1]
        h0, h1 = self.has(pre, f, field, A), self.has(st, f, field, A)
        out = [iff(h0, h1), eq(n1, add(n0, but or 0), 64)]
        if field == 'seqNums':
            g = lambda s: s.mem[self.table(s, f, field)[0]][self.smi.second]
            out.append(implies(h0, eq(g(pre).read(A) if isinstance(g(pre), Log) else 0, g(st).read(A), 64)) if self.smi.second in pre.mem[self.table(pre, f, field)[0]] else True)
        else:
            out.append(implies(h0, ex.peq(st, self.value(pre, f, field, A), self.value(st, f, field, A))))
        return land(*out)

    def cfgsame(self, st, f, field, A):
        g = self.cfg(f, field)
        return eq(self.pre.mem[g][0].read(A), st.mem[g][0].read(A), 8)

    def cfgset(self, st, f, field, K, v):
        g = self.cfg(f, field)
        st.cells(g)[0] = st.mem[g][0].store(K, v)

    def unchanged(self, st, f, A):
        return land(*([self.same(st, f, x, A) for x in ('readers', 'writers', 'seqNums')] + [self.cfgsame(st, f, x, A) for x in ('readers', 'writers')]))


def ElemSizeOf(ex, n):
    return n


def iff(a, b):
    return land(implies(a, b), implies(b, a))


def key(x):
    return sext(x, 32, 64)


def runs(V, dem, st, args):
    ex = V.ex
    ln = V.fn(dem)
    V.functions.add(V.prog.demangle(ln))
    ex.cur = (ln, None)
    out = [(s, r) for s, r in ex.call(st.fork(), ln, list(args)) if not ex.infeasible(s)]
    if not out:
        raise Structural('no feasible exit of ' + dem)
    for s, r in out:
        if s.ghost.get('locks') != st.ghost.get('locks'):
            ex.oblige(s, False, dem + ': every lock taken is released', 'post', assume=False)
    V.proved.append(dem)
    return out


def truth(r):
    return r if isinstance(r, bool) or z3.is_bool(r) else ne(r, 0, 8 if not isinstance(r, int) else 8)


def run(V):
    ex = V.ex
    box = []
    pointers(V)
    ex.shared_plain = True
    V.trust(r'BaseFilter::processEvent\(', lambda ex, st, a, c: None, 'requests of a filter do not change its connections')
    for kind, field in (('Reader', 'readers'), ('Writer', 'writers')):
        def config(ex, st, a, c, field=field):
            w = box[0]
            ok = z3.Bool('%s accepted' % field)
            K = key(a[1])
            g = w.cfg(a[0], field)
            st.cells(g)[0] = st.mem[g][0].store(K, ex.sel(ok, 1, st.mem[g][0].read(K), 1))
            return ok
        V.trust(r'BaseFilter::specific%sConfig\(' % kind, config, 'a concrete filter that refuses a %s keeps nothing of it, and does not touch its connections' % kind.lower())

        def delete(ex, st, a, c, field=field):
            box[0].cfgset(st, a[0], field, key(a[1]), 0)
            return z3.Bool('%s deleted' % field)
        V.trust(r'BaseFilter::specific%sDelete\(' % kind, delete, 'a concrete filter forgets the %s it is told to' % kind.lower())

    def alloc(ex, st, a, c):
        w = box[0]
        L = stdmodel.lst(ex, st, ex.fptr(a[1], 'ConnectionData', 'readers'))
        q = V.obj(st, 'class.' + Q, 'new queue', cname=Q)
        V.vptr(st, q, Q)
        ex.raw_store(st, ex.fptr(q, Q, 'connected'), 1, 0)
        for f in ('wFilterId', 'writerId'):
            ex.put(st, q, Q, 'connectionData.' + f, ex.get(st, a[1], 'ConnectionData', f))
        oid = V.seq(st, ex.fptr(q, Q, 'connectionData.readers'), 'readers of the new queue', 'struct.ReaderData', L[1])
        for off in (0, 4):
            v = ex.arr_log(st, L[0], off, 4).read(0)
            st.cells(oid)[off] = Log.base(lambda i, v=v: v, 4)
        fits = z3.Bool('a queue fits')
        no = st.fork()
        no.assume(lnot(fits))
        no.mem[q.obj] = 'FREED'
        st.assume(fits)
        st.ghost['queue'] = q
        return [(st, q), (no, NULL)]
    V.trust(r'BaseFilter::allocQueue\(', alloc, 'a concrete filter makes a queue for the connection it was given, or none')

    def destroy(S, q):
        S.st.mem[q.obj] = 'FREED'
        S.done()
    V.use('~delete:' + Q, destroy)

    def connect():
        w = World(V)
        box[:] = [w]
        st = w.st
        wid, rid = V.bv('writer id', 32), V.bv('reader id', 32)
        A = key(V.bv('any id', 32))
        W, D = key(wid), key(rid)
        room = land(lnot(w.has(st, w.w, 'writers', W)), ult(w.table(st, w.w, 'writers')[1], zext(ex.get(st, w.w, F, 'maxWriters'), 32, 64), 64),
                    lnot(w.has(st, w.r, 'readers', D)), ult(w.table(st, w.r, 'readers')[1], zext(ex.get(st, w.r, F, 'maxReaders'), 32, 64), 64),
                    z3.Bool('writers accepted'), z3.Bool('a queue fits'), z3.Bool('readers accepted'))
        n = 0
        for s, r in runs(V, F + '::connect', st, [w.w, w.r, wid, rid]):
            r = truth(r)
            V.check(s, iff(r, room), 'filters connect exactly when both have room and a queue fits')
            t = s.fork()
            t.assume(lnot(r))
            if not ex.infeasible(t):
                for f, nm in ((w.w, 'source'), (w.r, 'destination')):
                    V.check(t, w.unchanged(t, f, A), 'a refused connection leaves the %s as it was' % nm)
                q = t.ghost.get('queue')
                if q is not None:
                    V.check(t, isinstance(t.mem[q.obj], str), 'the queue of a refused connection is destroyed')
            t = s
            t.assume(r)
            if ex.infeasible(t):
                continue
            n += 1
            V.check(t, land(w.same(t, w.w, 'writers', A, 1) if False else implies(ne(A, W, 64), w.same(t, w.w, 'writers', A, 1)), implies(ne(A, W, 64), w.same(t, w.w, 'seqNums', A, 1)), w.same(t, w.w, 'readers', A), w.cfgsame(t, w.w, 'readers', A), implies(ne(A, W, 64), w.cfgsame(t, w.w, 'writers', A))), 'the source gets one writer')
            V.check(t, land(implies(ne(A, D, 64), w.same(t, w.r, 'readers', A, 1)), w.same(t, w.r, 'writers', A), w.same(t, w.r, 'seqNums', A), w.cfgsame(t, w.r, 'writers', A), implies(ne(A, D, 64), w.cfgsame(t, w.r, 'readers', A))), 'the destination gets one reader')
            V.check(t, land(w.has(t, w.w, 'writers', W), w.has(t, w.w, 'seqNums', W), w.has(t, w.r, 'readers', D)), 'the ends are there')
            V.check(t, land(ule(w.table(t, w.w, 'writers')[1], zext(ex.get(t, w.w, F, 'maxWriters'), 32, 64), 64), ule(w.table(t, w.r, 'readers')[1], zext(ex.get(t, w.r, F, 'maxReaders'), 32, 64), 64)), 'the limits are kept')
            q = t.ghost['queue']
            ends = [ex.get(t, w.value(t, w.w, 'writers', W), WR, 'queue', True), ex.get(t, w.value(t, w.r, 'readers', D), R, 'queue', True)]
            V.check(t, not isinstance(t.mem[q.obj], str) and land(*[ex.peq(t, e, q) for e in ends]), 'both ends refer to the new queue')
            V.check(t, eq(ex.raw_load(t, ex.fptr(q, Q, 'connected'), 1), 1, 8), 'the queue is connected')
            L = stdmodel.lst(ex, t, ex.fptr(q, Q, 'connectionData.readers'))
            cd = lambda f: ex.get(t, q, Q, 'connectionData.' + f)
            V.check(t, land(eq(cd('wFilterId'), w.ids[0], 32), eq(cd('writerId'), wid, 32), eq(L[1], 1, 64), eq(ex.arr_log(t, L[0], 0, 4).read(0), w.ids[1], 32), eq(ex.arr_log(t, L[0], 4, 4).read(0), rid, 32)), 'the queue knows its ends')
        if not n:
            raise Structural('no connection is possible')
    V.unit(F + '::connect', connect)


    def leaves(rdr):
        """Reader::disconnect / Writer::disconnect: an end that is told to leave its queue (their own contracts: P06)"""
        def spec(S, e, *a):
            w = box[0]
            field = 'readers' if rdr else 'writers'
            if rdr:
                me = w.ids[0] if w.acting.obj == w.w.obj else w.ids[1]
                S.require(eq(a[0], me, 32), 'a filter leaves in its own name')
            n = S.st.ghost.get('left', ())
            S.st.ghost['left'] = n + ((e, len(n)),)
            S.done(z3.Bool('the end left') if not n else z3.Bool('the end left again'))
        return spec

    def disconnecting(name, field, rdr):
        def go():
            w = World(V)
            box[:] = [w]
            f = w.acting = w.w
            V.use(R + '::disconnect' if rdr else WR + '::disconnect() const', leaves(rdr))
            st = w.st
            x = V.bv('which', 32)
            K, A = key(x), key(V.bv('any id', 32))
            for s, r in runs(V, F + '::' + name, st, [f, x]):
                r = truth(r)
                left = s.ghost.get('left', ())
                there = w.has(st, f, field, K)
                gone = z3.Bool('the end left')
                V.check(s, iff(lnot(there), len(left) == 0), 'an end leaves exactly when it is there')
                V.check(s, land(*[ex.peq(s, e, w.value(st, f, field, K)) for e, _ in left]), 'the end that leaves is the one that was asked for')
                V.check(s, implies(lnot(land(there, gone)), w.unchanged(s, f, A)), 'otherwise nothing changes')
                V.check(s, iff(r, lor(lnot(there), land(gone, z3.Bool('%s deleted' % field)))), 'the answer')
                t = s.fork()
                t.assume(land(there, gone))
                if ex.infeasible(t):
                    continue
                V.check(t, land(lnot(w.has(t, f, field, K)), eq(t.mem[w.cfg(f, field)][0].read(K), 0, 8)), 'the connection is forgotten')
                V.check(t, implies(ne(A, K, 64), land(w.same(t, f, field, A, -1), w.cfgsame(t, f, field, A))), 'every other connection stays')
                other = 'writers' if rdr else 'readers'
                V.check(t, land(w.same(t, f, other, A), w.cfgsame(t, f, other, A)), 'the other side stays')
                V.check(t, w.same(t, f, 'seqNums', A) if rdr else land(lnot(w.has(t, f, 'seqNums', K)), implies(ne(A, K, 64), w.same(t, f, 'seqNums', A, -1))), 'sequence numbers')
        V.unit(F + '::' + name, go)
    disconnecting('disconnectReader', 'readers', True)
    disconnecting('disconnectWriter', 'writers', False)

    def share():
        w = World(V)
        box[:] = [w]
        st = w.st
        told = []

        def add(S, e, fid, rid):
            S.st.ghost['told'] = S.st.ghost.get('told', ()) + ((e, fid, rid),)
            S.done()
        V.use(R + '::addReader', add)
        there, org = V.bv('reader of the destination', 32), V.bv('reader of the source', 32)
        D, O, A = key(there), key(org), key(V.bv('any id', 32))
        q = ex.get(st, w.value(st, w.w, 'readers', O), R, 'queue', True)
        n, mx = w.table(st, w.r, 'readers')[1], zext(ex.get(st, w.r, F, 'maxReaders'), 32, 64)
        some = False
        for s, r in runs(V, F + '::shareReader', st, [w.w, w.r, there, org]):
            r = truth(r)
            told = s.ghost.get('told', ())
            V.check(s, w.unchanged(s, w.w, A), 'the filter that shares keeps everything')
            V.check(s, implies(lnot(r), w.unchanged(s, w.r, A)), 'a refused reader changes nothing')
            V.check(s, iff(r, len(told) == 1) if len(told) < 2 else False, 'the reader learns about its new filter')
            t = s.fork()
            t.assume(r)
            if ex.infeasible(t):
                continue
            some = True
            e, fid, rid = told[0]
            V.check(t, land(w.has(st, w.w, 'readers', O), ex.peq(t, e, w.value(st, w.w, 'readers', O)), eq(fid, w.ids[1], 32), eq(rid, there, 32)), 'the right reader is shared')
            V.check(t, land(w.has(t, w.r, 'readers', D), ex.peq(t, w.value(t, w.r, 'readers', D), w.value(st, w.w, 'readers', O))), 'both filters have the same reader')
            V.check(t, ule(w.table(t, w.r, 'readers')[1], mx, 64), 'the limit is kept')
            V.check(t, implies(ne(A, D, 64), land(iff(w.has(t, w.r, 'readers', A), w.has(st, w.r, 'readers', A)), implies(w.has(st, w.r, 'readers', A), ex.peq(t, w.value(t, w.r, 'readers', A), w.value(st, w.r, 'readers', A))))), 'other readers stay')
            V.check(t, land(w.same(t, w.r, 'writers', A), w.same(t, w.r, 'seqNums', A)), 'the other side stays')
        if not some:
            raise Structural('no reader can be shared')
    V.unit(F + '::shareReader', share)

    def ids(name, field):
        def go():
            w = World(V)
            box[:] = [w]
            st = w.st
            ex.loopspecs[(F + '::' + name, 0)] = lambda L, S, k: []
            A = key(V.bv('any id', 32))
            mx = ex.get(st, w.w, F, 'max' + field.capitalize())
            for s, r in runs(V, F + '::' + name, st, [w.w]):
                V.check(s, w.unchanged(s, w.w, A), 'nothing changes')
                V.check(s, implies(ne(mx, 1, 32), lnot(w.has(st, w.w, field, key(r)))), 'a new id is not in use')
                V.check(s, implies(eq(mx, 1, 32), eq(r, 1, 32)), 'the only connection has the default id')
        V.unit(F + '::' + name, go)
    V.trust(r'rand$', lambda ex, st, a, c: ex.fresh('random', 32), 'rand() returns any number')
    ids('generateReaderID', 'readers')
    ids('generateWriterID', 'writers')


FILTER = ['src/Filter.cpp', 'src/IOInterface.cpp', 'src/Event.cpp', 'src/Jzon.cpp', 'src/Utils.cpp', 'src/AVFramedQueue.cpp',
          'src/VideoFrame.cpp', 'src/AudioFrame.cpp', 'src/Frame.cpp', 'src/Runnable.cpp']
NATIVE = {'driver': 'p22.cpp', 'sources': FILTER, 'libs': ['-llog4cplus', '-lavutil', '-lavcodec', '-Wl,--unresolved-symbols=ignore-all']}
