"""P16: names and codes of formats convert back and forth without loss."""
from verify import *

SRC = ['src/Utils.cpp', 'src/modules/sharedMemory/SharedMemory.cpp']
SHM = 'SharedMemory::'
# (to name, from name, number of supported values)
NAMES = [('getFilterTypeAsString', 'getFilterTypeFromString', 14), ('getRoleAsString', 'getRoleTypeFromString', 2),
         ('getAudioCodecAsString', 'getAudioCodecFromString', 6), ('getVideoCodecAsString', 'getVideoCodecFromString', 5),
         ('getSampleFormatAsString', 'getSampleFormatFromString', 6), ('getTxFormatAsString', 'getTxFormatFromString', 3)]
NONE = 0xffffffff
CODES = [('getCodecFromVCodec', 'getVCodecFromCodecType', 5, (0, 2, 3, 4)), ('getPixelFormatFromPixType', 'getPixTypeFromPixelFormat', 7, range(7))]
BYTES = {0: 1, 1: 2, 2: 4, 3: 1, 4: 2, 5: 4}


def names(V, to, n):
    """the table the naming function really uses, read off its exits: [(value condition, string)]"""
    ex = V.ex
    ln = V.fn('utils::' + to)
    V.functions.add(V.prog.demangle(ln))
    st = V.state()
    v = V.bv('value')
    ret = V.rawout(st, 32, 'name')
    ex.cur = (ln, None)
    outs = []
    for s, _ in ex.call(st, ln, [ret, v]):
        if not ex.infeasible(s):
            outs.append((s, stdmodel.str_get(ex, s, ret)))
    table = {}
    for k in range(n):
        hit = [(s, x) for s, x in outs if ex.feasible(s, eq(v, k))]
        if len(hit) != 1 or hit[0][1].lit() is None:
            raise Unsupported('%s: value %d has no constant name' % (to, k))
        table[k] = hit[0][1].lit()
    for k in range(n):
        for j in range(k):
            V.check(st, table[k] != table[j], '%s: values %d and %d have different names' % (to, j, k), 'post')
    # every other value has a name that is none of these
    for s, x in outs:
        if x.lit() in table.values():
            V.check(s, ult(v, n), '%s: only a supported value is called %s' % (to, x.lit()), 'post')
    V.cases += 1
    return table


def pair(V, to, fr, n):
    def go():
        table = names(V, to, n)

        def spec(S, s):
            x = stdmodel.str_get(S.ex, S.st, s)
            r = NONE
            for k, nm in table.items():
                r = itew(stdmodel.str_eq(S.ex, S.st, x, stdmodel.Str([nm])), k, r)
            S.done(r)

        def setup(V):
            for k, nm in list(table.items()) + [('any', None)]:
                st = V.state()
                p = V.rawout(st, 32, 'str')
                V.ex.objs[p.obj].info = None
                sid = z3.BitVec('strid', 64)
                x = [nm] if nm is not None else [('sym', lambda l: sid == stdmodel.str_id(V.ex, stdmodel.Str([l])))]
                stdmodel.str_set(V.ex, st, p, stdmodel.Str(x))
                yield 'name %r' % nm if nm is not None else 'any other name', st, [p]
        V._prove('utils::' + fr, spec, setup)
    V.unit(fr, go)


def codes(V, to, fr, n, supported):
    ex = V.ex

    def go():
        lt, lf = V.fn(SHM + to), V.fn(SHM + fr)
        V.functions.update((V.prog.demangle(lt), V.prog.demangle(lf)))
        st = V.state()
        v = V.bv('value')
        w = V.bv('value2')
        st.assume(ult(v, n))
        o = V.obj(st, 'class.SharedMemory', 'shm')
        ok = lor(*[eq(v, k) for k in supported])
        ex.cur = (lt, None)
        for s, c in ex.call(st, lt, [o, v]):
            for t, r in ex.call(s, lf, [o, c]):
                if not ex.infeasible(t):
                    V.check(t, eq(r, itew(ok, v, NONE)), '%s undoes %s' % (fr, to), 'post')
        # an unknown code converts to the invalid value: a code that converts is the code of what it converts to
        st = V.state()
        o = V.obj(st, 'class.SharedMemory', 'shm')
        c = V.bv('code', 16)
        for s, r in ex.call(st, lf, [o, c]):
            for t, d in ex.call(s, lt, [o, r]):
                if not ex.infeasible(t):
                    V.check(t, implies(ne(r, NONE), eq(d, c, 16)), '%s accepts no other code' % fr, 'post')
        V.cases += 2
    V.unit(SHM + fr, go)


def s_bytes(S, f):
    r = 0
    for k, n in BYTES.items():
        r = itew(eq(f, k), n, r)
    S.done(r)


def setup_bytes(V):
    yield '', V.state(), [V.bv('format')]


def run(V):
    for to, fr, n in NAMES:
        pair(V, to, fr, n)
    for to, fr, n, sup in CODES:
        codes(V, to, fr, n, sup)
    V.prove('utils::getBytesPerSampleFromFormat', s_bytes, setup_bytes)


NATIVE = {'driver': 'p16.cpp', 'sources': ['src/Filter.cpp', 'src/IOInterface.cpp', 'src/Event.cpp', 'src/Jzon.cpp', 'src/AVFramedQueue.cpp', 'src/VideoFrame.cpp', 'src/AudioFrame.cpp',
                                           'src/Frame.cpp', 'src/Runnable.cpp'] + SRC, 'libs': ['-llog4cplus', '-lavutil', '-lavcodec', '-Wl,--unresolved-symbols=ignore-all']}
