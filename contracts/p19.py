"""P19: the H.264 parameter set parser stays inside its buffers and decodes what the bits encode."""
from verify import *

SRC = ['src/modules/transmitter/SPSparser/h264_stream.c']
BS, SPS = 'bs_t', 'sps_t'
B64, B32 = z3.BitVecSort(64), z3.BitVecSort(32)
FAR = 1 << 40                                # bit positions are below this: a parameter set is read in less than 2^20 bits
F = lambda name, *s: z3.Function(name, *s)
UE, UELEN = F('value of the ue(v) code at', B64, B32), F('length of the ue(v) code at', B64, B64)
SLP, SLL, SLN = (F('scaling list: %s' % x, B64, B64, B) for x, B in (('position', B64), ('last', B32), ('next', B32)))
OFFP, HRDP = F('offsets: position', B64, B64, B64), F('hrd entries: position', B64, B64, B64)
ZEROS = F('leading zeros of the code at', B64, B64)
BIT, UN = F('bit', B64, z3.BitVecSort(1)), F('bits', B64, B64, B32)
z64 = lambda x: zext(x, 32, 64)


def inner(x):
    """a choice inside the arithmetic of x"""
    todo = [x] if isinstance(x, z3.ExprRef) else []
    while todo:
        y = todo.pop()
        if z3.is_app_of(y, z3.Z3_OP_ITE):
            return y
        if not z3.is_app_of(y, z3.Z3_OP_UNINTERPRETED):
            todo += y.children()


def under(x, c, t):
    """x where c is t"""
    for _ in range(20):
        todo, hit = [x] if isinstance(x, z3.ExprRef) else [], None
        while todo and hit is None:
            y = todo.pop()
            if z3.is_app_of(y, z3.Z3_OP_ITE) and y.arg(0).eq(c):
                hit = y
            elif not z3.is_app_of(y, z3.Z3_OP_UNINTERPRETED):
                todo += y.children()
        if hit is None:
            break
        x = simp(z3.substitute(x, (hit, hit.arg(1 if t else 2))))
    return x


def atoms(c, out):
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
        for x in c.children():
            atoms(x, out)
    elif not z3.is_true(c) and not z3.is_false(c) and not any(x.eq(c) for x in out):
        out.append(c)
    return out


def plain(c):
    """comparisons of single bits written in one way"""
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
        return c.decl()(*[plain(x) for x in c.children()])
    if z3.is_eq(c):
        a, b = c.children()
        if z3.is_bv_value(a):
            a, b = b, a
        if z3.is_bv_value(b) and b.as_long() < 2:
            if a.decl().kind() == z3.Z3_OP_ZERO_EXT:
                a = a.arg(0)
            elif a.decl().kind() == z3.Z3_OP_CONCAT and a.num_args() == 2 and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0:
                a = a.arg(1)
            if a.size() == 1:
                r = a == z3.BitVecVal(0, 1)
                return z3.Not(r) if b.as_long() else r
    return c


KEEP = []                                    # terms keep their place in the order


def excluded(x, at, val):
    """x can not hold: it compares a value that is known to be something else"""
    if not (z3.is_eq(x) and any(z3.is_bv_value(y) for y in x.children())):
        return False
    k, v = sorted(x.children(), key=z3.is_bv_value)
    for y, t in zip(at, val):
        if t and z3.is_eq(y):
            l, w = sorted(y.children(), key=z3.is_bv_value)
            if z3.is_bv_value(w) and l.eq(k) and not w.eq(v):
                return True
    return False


def choose(c, a, b, of=lambda x: None):
    """a position that depends on conditions, written in one way however they are; of(x) = (condition, one, other) if x is such a choice"""
    c = simp(c)
    if isinstance(c, bool):
        return a if c else b
    c, a, b = plain(c), bv(a, 64), bv(b, 64)
    tree = {}                                # id of a choice: (the choice, condition, one, other)
    at = atoms(c, [])
    for deep in (True, False):
        tree.clear()
        at = atoms(c, [])
        todo = [a, b] if deep else []
        while todo and len(at) < 10:
            x = todo.pop()
            y = of(x)
            if y is not None and x.get_id() not in tree:
                d = plain(y[0])
                atoms(d, at)
                tree[x.get_id()] = (x, d) + y[1:]
                todo += y[1:]
        if len(at) <= 8:
            break
    if len(at) > 8:
        return itew(c, a, b, 64)
    at.sort(key=lambda x: x.get_id())
    names = [z3.Bool('atom!%d' % q) for q in range(len(at))]
    KEEP.extend(at)
    sub = list(zip(at, names))
    c = z3.simplify(z3.substitute(c, *sub))
    tree = {k: (z3.simplify(z3.substitute(d, *sub)), x, y) for k, (_, d, x, y) in tree.items()}

    def go(c, a, b, tree, val):
        """the leaf, or the choice by the next atom"""
        x = None
        while True:
            if z3.is_true(c) or z3.is_false(c):
                x = a if z3.is_true(c) else b
                if x.get_id() not in tree:
                    return x
                c, a, b = tree[x.get_id()]
                continue
            break
        q = len(val)
        r = []
        for t in (True, False):
            if t and excluded(at[q], at, val):
                r.append(None)
                continue
            put = lambda d: z3.simplify(z3.substitute(d, (names[q], z3.BoolVal(t))))
            r.append(go(put(c), a, b, {k: (put(d), x, y) for k, (d, x, y) in tree.items()}, val + [t]))
        x, y = r
        return y if x is None or x.eq(y) else z3.If(at[q], x, y)
    return go(c, a, b, tree, [])


class W:
    """a bit reader over a buffer of any size; a position counts the bits from the start of the buffer"""
    def __init__(self, V, sps=False):
        ex = self.ex = V.ex
        self.V = V
        st = self.st = V.state()
        self.n = V.bv('buffer size', 64)
        self.buf = V.bytes(st, 'buffer', self.n)
        st.assume(ule(self.n, 1 << 31, 64))
        self.b = V.obj(st, 'struct.bs_t', 'reader', cname=BS)
        self.memo, self.sought, self.names, self.meaning, self.seen = {}, {}, {}, {}, {}
        self.concrete = False
        self.abstract = self.exact = False
        for f, i in (('start', 0), ('end', self.n)):
            ex.put(st, self.b, BS, f, Ptr(self.buf.obj, i, 0))
        i, bl = V.bv('byte', 64), V.bv('bits left', 32)
        ex.put(st, self.b, BS, 'p', Ptr(self.buf.obj, i, 0))
        ex.put(st, self.b, BS, 'bits_left', bl)
        if sps:
            self.sps = V.obj(st, 'struct.sps_t', 'parameter set', cname=SPS)

    # ---- the position of the reader
    def pos(self, st):
        p, bl = self.ex.canon(self.ex.get(st, self.b, BS, 'p', True)), self.ex.get(st, self.b, BS, 'bits_left')
        if p.obj != self.buf.obj:
            raise Unsupported('the reader left its buffer')
        return self.of(self.under_path(st, p.idx), self.under_path(st, bl))

    def under_path(self, st, x):
        """x with what the path already says left out of the conditions of its choices"""
        if not self.abstract or not isinstance(x, z3.ExprRef):
            return x
        for _ in range(20):
            y = inner(x)
            if y is None:
                break
            c = y.arg(0)
            k = c.get_id()
            if k not in self.seen:
                at = atoms(c, [])
                d = c
                if len(at) > 1:
                    names = [z3.Bool('path!%d' % q) for q in range(len(at))]
                    d = z3.substitute(c, *zip(at, names))
                    for a in names:
                        for t in (True, False):
                            e = z3.simplify(z3.substitute(d, (a, z3.BoolVal(t))))
                            if not z3.is_true(e) and not z3.is_false(e) and not e.eq(z3.simplify(d)) and \
                               self.ex.prove(st, z3.substitute(e, *zip(names, at)) == c):
                                d = e
                                break
                    d = z3.substitute(d, *zip(names, at))
                self.seen[k] = (d, c)
            d = self.seen[k][0]
            if d.eq(c):
                break
            x = z3.simplify(z3.substitute(x, (c, d)))
        return x

    def choose(self, c, a, b):
        return self.named(choose(c, a, b, self.choice))

    def choice(self, x):
        t = self.meaning.get(x.get_id(), (x,))[0]
        return (t.arg(0), t.arg(1), t.arg(2)) if z3.is_app_of(t, z3.Z3_OP_ITE) and not self.exact else None

    def named(self, t):
        """a name for a position, so that what depends on it stays small"""
        if not self.abstract or self.exact or not isinstance(t, z3.ExprRef) or t.num_args() == 0:
            return t
        if z3.is_app_of(t, z3.Z3_OP_BADD) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(1).num_args() == 0:
            return t
        k = t.get_id()
        if k not in self.names:
            p = z3.BitVec('pos!%d' % len(self.names), 64)
            self.names[k] = (p, t)
            self.meaning[p.get_id()] = (t, self.reach(t), p)
        return self.names[k][0]

    def reach(self, t, facts=None):
        """no more than this many bits behind the first position: worked out here, proved by far()"""
        if t.get_id() in self.meaning:
            n, w = self.meaning[t.get_id()][1], t
        elif not self.meaning or t.eq(self.meaning[min(self.meaning, key=lambda x: str(self.meaning[x][2]) != 'pos!0')][2]):
            n, w = 0, t
        elif z3.is_app_of(t, z3.Z3_OP_BADD):
            pos = [x for x in t.children() if not z3.is_bv_value(x) and not x.decl().eq(UELEN)]
            for x in t.children():
                if x.decl().eq(UELEN) and facts is not None:
                    facts.append(land(ule(1, x, 64), ule(x, 65, 64)))                    # proved where ue(v) is
            add = sum(x.as_long() if z3.is_bv_value(x) else 65 if x.decl().eq(UELEN) else 0 for x in t.children())
            n = self.reach(pos[0], facts) if len(pos) == 1 else None
            return None if n is None or add > FAR else n + add
        elif z3.is_app_of(t, z3.Z3_OP_ITE):
            a, b = (self.reach(x, facts) for x in t.children()[1:])
            return None if a is None or b is None else max(a, b)
        elif z3.is_app_of(t, z3.Z3_OP_CONCAT) and z3.is_app_of(t.arg(0), z3.Z3_OP_EXTRACT):
            return self.reach(t.arg(0).arg(0), facts)
        else:
            more = [m for f, m in LISTS if t.decl().eq(f)]
            n = self.reach(t.arg(0), facts) if more else None
            if n is not None and facts is not None:
                facts.append(land(ule(t.arg(0), t, 64), ule(t, simp(t.arg(0) + more[0]), 64)))     # the invariants of the loops
            return None if n is None else n + more[0]
        if facts is not None and n is not None:
            p0 = self.start()
            facts.append(land(ule(p0, w, 64), ule(w, simp(p0 + n), 64)))
        return n

    def start(self):
        return next(p for t, n, p in self.meaning.values() if str(p) == 'pos!0')

    def far(self, V):
        """no position is out of reach"""
        p0 = self.start()
        for t, n, p in list(self.meaning.values()):
            if p.eq(p0) or n is None:
                continue
            s = V.state()
            facts = [ult(p0, FAR, 64)]
            self.reach(t, facts)
            s.assume(*facts)
            V.check(s, land(ule(p0, t, 64), ule(t, simp(p0 + n), 64)), 'a position is at most %d bits on' % n, 'lemma')

    def key(self, i, bl):
        return tuple(x.get_id() if isinstance(x, z3.ExprRef) else x for x in (i, bl))

    def of(self, i, bl):
        """the position of byte i with bl bits left in it"""
        k = self.key(i, bl)
        if k in self.memo:
            return self.memo[k][0]
        r = None
        for x in (i, bl):
            y = inner(x)
            if y is not None:
                c = y.arg(0)
                r = self.choose(c, *[self.of(under(i, c, t), under(bl, c, t)) for t in (True, False)])
                break
        if r is None:
            r = self.named(sub(add(mul(i, 8, 64), 8), zext(bl, 32, 64)))
        self.memo[k] = (r, i, bl)
        return r

    def seek(self, st, pos, name=True):
        pos = self.named(pos) if name else pos
        if isinstance(pos, z3.ExprRef) and pos.get_id() in self.meaning and z3.is_app_of(self.meaning[pos.get_id()][0], z3.Z3_OP_ITE):
            pos = self.meaning[pos.get_id()][0]
        if isinstance(pos, z3.ExprRef) and z3.is_app_of(pos, z3.Z3_OP_ITE):
            (i, bl), (j, bm) = self.cells(pos.arg(1)), self.cells(pos.arg(2))
            i, bl = (bv(itew(pos.arg(0), x, y, n), n) for x, y, n in ((i, j, 64), (bl, bm, 32)))
        else:
            i, bl = self.cells(pos)
        self.memo[self.key(i, bl)] = self.sought[self.key(i, bl)] = (pos, i, bl)
        self.ex.put(st, self.b, BS, 'p', Ptr(self.buf.obj, i, 0))
        self.ex.put(st, self.b, BS, 'bits_left', bl)

    def cells(self, pos):
        pos = simp(bv(pos, 64))
        i, bl = simp(z3.LShR(pos, 3)), simp(8 - z3.ZeroExt(29, z3.Extract(2, 0, pos)))
        self.memo[self.key(i, bl)] = (pos, i, bl)
        return i, bl

    def ready(self, S, b, room=0):
        """what every reading function needs"""
        if b.obj != self.b.obj:
            raise Unsupported('another reader')
        p, e, s = (self.ex.canon(self.ex.get(S.st, self.b, BS, f, True)) for f in ('p', 'end', 'start'))
        ok = land(p.obj == e.obj == s.obj == self.buf.obj, eq(s.idx, 0, 64), eq(e.idx, self.n, 64))
        bl = self.ex.get(S.st, self.b, BS, 'bits_left')
        pos = self.pos(S.st)
        n = None
        if self.abstract and not self.exact and not S.proving:
            n = self.reach(simp(bv(pos, 64)))        # far()
        if n is None or n > FARS['near'] - FARS['hrd']:
            ok = land(ok, ult(p.idx, FAR, 64), ult(pos, FAR + room, 64))
        if self.key(p.idx, bl) not in self.sought:
            ok = land(ok, ule(1, bl, 32), ule(bl, 8, 32))
        S.require(ok, 'a reader inside its buffer')
        return pos

    # ---- what the bits at a position encode
    def bit(self, pos):
        """one bit; there are zeros behind the buffer"""
        if not self.concrete:
            return zext(BIT(bv(pos, 64)), 1, 32)
        i = simp(z3.LShR(pos, 3))
        c = self.st.mem[self.buf.obj].read(i)
        r = simp(z3.LShR(bv(c, 8), 7 - z3.ZeroExt(5, z3.Extract(2, 0, pos))) & 1)
        return itew(ult(i, self.n, 64), zext(r, 8, 32), 0, 32)

    def bits(self, pos, n):
        """n bits, the first one is the most significant"""
        if isinstance(n, int):
            if n == 0:
                return 0
            if n == 1:
                return self.bit(pos)
            if not self.abstract and n <= 8:
                return simp(self.bits(pos, n - 1) * 2 + self.bit(add(pos, n - 1)))
            return UN(bv(pos, 64), bv(n, 64))
        if z3.is_app_of(n, z3.Z3_OP_BADD):
            m = z3.simplify(sub(n, 1))
            return simp(self.bits(pos, m) * 2 + self.bit(add(pos, m)))
        return UN(bv(pos, 64), n)

    def eof(self, pos):
        return ule(self.n, z3.LShR(bv(pos, 64), 3), 64)

    def stops(self, pos, j):
        """the code at pos has no more than j leading zeros"""
        return lor(eq(self.bit(add(pos, j)), 1, 32), eq(j, 32, 64), self.eof(add(pos, add(j, 1))))

    def zeros(self, pos):
        """leading zeros of the code at pos: at most 32, and none behind the end of the buffer"""
        return ZEROS(bv(pos, 64))

    def ue(self, pos):
        """(value, length) of an Exp-Golomb code"""
        if self.abstract:
            return UE(bv(pos, 64)), UELEN(bv(pos, 64))
        z = self.zeros(pos)
        v = self.bits(add(pos, add(z, 1)), z)
        v = simp(bv(trunc(simp((z3.BitVecVal(1, 64) << bv(z, 64)) - 1), 64, 32), 32) + bv(v, 32))
        return v, add(mul(z, 2, 64), 1)

    @staticmethod
    def signed(v):
        """1, -1, 2, -2, ..."""
        h = simp(z3.LShR(bv(v, 32), 1))
        return itew(eq(simp(bv(v, 32) & 1), 1, 32), simp(h + 1), simp(-h), 32)


def reader(w, val, room):
    """a function that decodes something and moves on: val(pos, ...) = (value, length)"""
    def go(S, b, *a):
        pos = w.ready(S, b, room)
        v, n = val(S, pos, *a)
        if isinstance(n, z3.ExprRef) and room == 0 and (w.exact or not w.abstract):
            S.ensure(ule(1, n, 64), ule(n, 65, 64))
        w.seek(S.st, w.named(simp(add(pos, n))))
        S.done(v)
    return go


def s_u1(w):
    return reader(w, lambda S, pos: (w.bit(pos), 1), 200)


def s_u(w):
    def val(S, pos, n):
        S.require(ule(n, 32, 32), 'at most 32 bits')
        return w.bits(pos, z64(n)), z64(n)
    return reader(w, val, 100)


def s_u8(w):
    return reader(w, lambda S, pos: (w.bits(pos, 8), 8), 100)


def s_ue(w):
    return reader(w, lambda S, pos: w.ue(pos), 0)


def s_se(w):
    def val(S, pos):
        v, n = w.ue(pos)
        return w.signed(v), n
    return reader(w, val, 0)


def loop_u(w):
    def bits_so_far(L, S, k):
        pos = w.pos(L.st)
        n = z64(L.arg(1))
        w.seek(S, simp(add(pos, k)))
        L.cand(lambda k: w.bits(pos, k), 4)
        L.cand(lambda k: simp(bv(w.bits(pos, k), 32) << bv(trunc(sub(n, k), 64, 32), 32)), 4)
        return [('no more than the bits asked for', ule(k, n, 64))]
    return bits_so_far


def loop_ue(w):
    def leading_zeros(L, S, k):
        pos = w.pos(L.st)
        w.seek(S, simp(add(pos, k)))
        z = w.zeros(pos)
        S.assume(ule(z, 32, 64), w.stops(pos, z), implies(w.stops(pos, k), ule(z, k, 64)))      # z is the first one
        return [('only zeros so far', ule(k, z, 64))]
    return leading_zeros


# ------------------------------------------------------------ the parameter set
def step_of(k):
    """k as k' + 1, None if it is not written so"""
    if isinstance(k, int):
        return k - 1 if k else None
    return z3.simplify(sub(k, 1)) if z3.is_app_of(k, z3.Z3_OP_BADD) else None


def scaling(w, p0, k):
    """(position, last, next) after k entries of the scaling list at p0"""
    if isinstance(k, int) and k == 0:
        return p0, 8, 8
    m = step_of(k) if not isinstance(k, int) else None
    if m is None:
        k = bv(k, 64)
        return SLP(p0, k), SLL(p0, k), SLN(p0, k)
    p, last, nxt = scaling(w, p0, m)
    more = ne(nxt, 0, 32)
    v, n = w.ue(p)
    n2 = itew(more, simp((bv(last, 32) + bv(w.signed(v), 32) + 256) & 255), 0, 32)
    return itew(more, add(p, n), p, 64), itew(eq(n2, 0, 32), last, n2, 32), n2


def positions(fn, length):
    """position before entry k of a list at p0"""
    def at(w, p0, k):
        if isinstance(k, int) and k == 0:
            return p0
        m = step_of(k)
        if m is None:
            return fn(p0, k)
        p = at(w, p0, m)
        return length(w, p)
    return at


def after_se(w, p):
    return simp(add(p, w.ue(p)[1]))


def hrd_entry(w, p):
    """(bit rate, buffer size, constant rate), position after it"""
    v1, n1 = w.ue(p)
    p = simp(add(p, n1))
    v2, n2 = w.ue(p)
    p = simp(add(p, n2))
    return (v1, v2, w.bit(p)), simp(add(p, 1))


offsets = positions(OFFP, after_se)
hrds = positions(HRDP, lambda w, p: hrd_entry(w, p)[1])
HRD = ['hrd.bit_rate_value_minus1', 'hrd.cpb_size_value_minus1', 'hrd.cbr_flag']
ARRAYS = HRD + ['offset_for_ref_frame']


def array(w, st, field):
    a = w.ex.canon(w.ex.fptr(w.sps, SPS, field))
    return a.obj, w.ex.arr_log(st, a.obj, 0, 4)


def offset_lists(w, p0, k):
    """{array: element j} of the first k offsets"""
    return {'offset_for_ref_frame': lambda j: w.signed(w.ue(OFFP(p0, j))[0])}


def hrd_lists(w, p0, k):
    return {f: (lambda j, q=q: hrd_entry(w, HRDP(p0, j))[0][q]) for q, f in enumerate(HRD)}


def most(fn, k):
    """k entries, as many as there can be"""
    m = 32 if fn.eq(HRDP) else 255
    return simp(bv(itew(ule(k, m, 64), k, m, 64), 64))


def put(w, st, lists, k):
    for f, val in lists.items():
        o, old = array(w, st, f)
        st.cells(o)[0] = old.fill(0, bv(k, 64), lambda j, val=val: val(bv(j, 64)))


def short(w, S, p):
    """the length of the code at p; proved where ue(v) is"""
    n = w.ue(p)[1]
    S.assume(ule(1, n, 64), ule(n, 65, 64))


def loop_scaling(w):
    def entries(L, S, k):
        p0 = w.pos(L.st)
        p, last, nxt = scaling(w, p0, k)
        short(w, S, p)
        w.seek(S, p)
        L.cand(lambda k: scaling(w, p0, k)[1], 4, 'lastScale')
        L.cand(lambda k: scaling(w, p0, k)[2], 4, 'nextScale')
        return [('bits read', land(ule(p0, p, 64), ule(p, add(p0, mul(k, 65, 64)), 64))), ('last and next', land(ult(last, 256, 32), ult(nxt, 256, 32))),
                ('no more than the list', ule(k, z64(L.arg(2)), 64))]
    return entries


def loop_offsets(w):
    def offsets_read(L, S, k):
        p0 = w.pos(L.st)
        S.assume(OFFP(p0, bv(0, 64)) == p0)
        n = w.reach(p0)
        if n is not None:
            S.assume(ult(p0, FAR + n, 64))                   # far()
        p = offsets(w, p0, k)
        short(w, S, p)
        w.seek(S, p, z3.is_app_of(bv(k, 64), z3.Z3_OP_BADD))
        put(w, S, offset_lists(w, p0, k), k)
        n = z64(L.ex.get(L.st, w.sps, SPS, 'num_ref_frames_in_pic_order_cnt_cycle'))

        def leave(r, k):
            if r[0] != 'exit':
                return
            st, m = r[1][-1], most(OFFP, n)
            L.ex.oblige(st, eq(k, m, 64), 'loop offsets_read: all entries are read', 'loop')
            w.seek(st, OFFP(p0, m))
            for f in offset_lists(w, p0, k):
                o, old = array(w, L.st, f)
                st.cells(o)[0] = old
            put(w, st, offset_lists(w, p0, k), n)
        if isinstance(n, z3.ExprRef):
            L.leave = leave
        return [('bits read', land(ule(p0, p, 64), ule(p, add(p0, mul(k, 65, 64)), 64))), ('no more than there are', ule(k, n, 64))]
    return offsets_read


def loop_hrd(w):
    def schedules(L, S, k):
        p0 = w.pos(L.st)
        S.assume(HRDP(p0, bv(0, 64)) == p0)
        p = hrds(w, p0, k)
        short(w, S, p)
        short(w, S, simp(add(p, w.ue(p)[1])))
        w.seek(S, p)
        put(w, S, hrd_lists(w, p0, k), k)
        n = z64(L.ex.get(L.st, w.sps, SPS, 'hrd.cpb_cnt_minus1'))
        return [('bits read', land(ule(p0, p, 64), ule(p, add(p0, mul(k, 131, 64)), 64))), ('no more than there are', ule(k, add(n, 1), 64))]
    return schedules


def loop_trailing(w):
    def padding(L, S, k):
        p0 = w.pos(L.st)
        w.seek(S, simp(add(p0, k)))
        return [('up to the next byte', ule(k, simp((8 - (bv(p0, 64) & 7)) & 7), 64))]
    return padding


class Syntax:
    """the syntax tables of the standard, as written there"""
    def __init__(self, w, S, limit):
        self.w, self.S = w, S
        self.p = w.ready(S, w.b, limit)
        self.f, self.guard, self.fails = {}, [], []

    def get(self, f):
        if f not in self.f and f in ARRAYS:
            self.f[f] = array(self.w, self.S.st, f)[1]
        elif f not in self.f:
            self.f[f] = self.start(f)
        return self.f[f]

    def start(self, f):
        return self.w.ex.load(self.S.st, self.ptr(f), ('i', 32), self.w.V.prog.type_mod('struct.sps_t'))

    def ptr(self, f):
        a = self.w.ex.fptr(self.w.sps, SPS, f.split('[')[0])
        return self.w.ex.addc(a, 4 * int(f.split('[')[1][:-1])) if '[' in f else a

    def rd(self, v, n, f):
        if f:
            self.f[f] = v
        self.p = self.w.named(simp(add(self.p, n)))
        return v

    def u(self, n, *fs):
        for f in fs:
            self.rd(self.w.bits(self.p, n), n, f)

    def ue(self, *fs):
        for f in fs:
            self.rd(*self.code(), f)

    def code(self):
        v, n = self.w.ue(self.p)
        return v, n

    def se(self, *fs):
        for f in fs:
            v, n = self.code()
            self.rd(self.w.signed(v), n, f)

    def list(self, lists, fn, k):
        """k entries, those of entry j from position fn(start, j)"""
        p0 = bv(self.p, 64)
        for f, val in lists(self.w, p0, k).items():
            self.f[f] = self.get(f).fill(0, bv(k, 64), lambda j, val=val: val(bv(j, 64)))
        self.p = self.w.named(fn(p0, most(fn, k)))

    def skip(self, p):
        self.p = self.w.named(p)

    def when(self, c, body, other=lambda: None):
        p, f = self.p, dict(self.f)
        self.guard.append(c)
        body()
        self.guard.pop()
        mine, q = self.f, self.p
        self.p, self.f = p, f
        self.guard.append(lnot(c))
        other()
        self.guard.pop()
        self.p = self.w.choose(c, q, self.p)
        for k in self.f:
            if k not in mine:
                mine[k] = array(self.w, self.S.st, k)[1] if k in ARRAYS else self.start(k)
        for k, v in mine.items():
            u = self.get(k)
            if v is not u:
                self.f[k] = Log("ite", None, (c, v, u), v.size) if isinstance(v, Log) else itew(c, v, u, 32)

    def flag(self, f, body):
        self.u(1, f)
        self.when(ne(self.get(f), 0, 32), body)

    def refuse(self, c):
        """the parameter set is not read any further"""
        self.fails.append((land(*self.guard, c, *[lnot(f[0]) for f in self.fails]), self.p, dict(self.f)))

    def store(self, st, p, f):
        m = self.w.V.prog.type_mod('struct.sps_t')
        for k, v in f.items():
            if isinstance(v, Log):
                st.cells(array(self.w, st, k)[0])[0] = v
                continue
            self.w.ex.store(st, self.ptr(k), v, ('i', 32), m)
        self.w.seek(st, p)

    def done(self, bound=None, ret=True):
        S = self.S
        ok = land(*[lnot(c) for c, *_ in self.fails])
        for c, p, f in self.fails:
            s = S.fork()
            s.st.assume(c)
            self.store(s.st, p, f)
            s.done(mask(32))
        S.st.assume(ok)
        self.store(S.st, self.p, self.f)
        if bound and S.proving:
            S.ensure(bound(self.p))
        S.done(0 if ret else None)


LISTS = [(HRDP, 32 * 131), (OFFP, 255 * 65), (SLP, 64 * 65)]
FARS = {'near': 1 << 20, 'hrd': -1 << 30, 'vui': -2 << 30, 'sps': -4 << 30}


def s_scaling(w):
    def go(S, b, lst, n, flag):
        p0 = w.ready(S, b, FARS['hrd'])
        S.require(is_null(lst), 'there are no lists to store in')
        S.require(lor(eq(n, 16, 32), eq(n, 64, 32)), 'a list of 16 or 64 entries')
        p = scaling(w, p0, z64(n))[0]
        p = w.named(p)
        w.seek(S.st, p)
        if S.proving:
            S.ensure(ule(p0, p, 64), ule(p, add(p0, 64 * 65), 64))
        S.done()
    return go


def s_trailing(w):
    def go(S, b):
        p = w.ready(S, b, FARS['hrd'])
        w.seek(S.st, simp((bv(p, 64) + 8) & ~z3.BitVecVal(7, 64)))
        S.done()
    return go


def hrd(x):
    x.ue('hrd.cpb_cnt_minus1')
    x.refuse(ult(31, x.get('hrd.cpb_cnt_minus1'), 32))
    x.u(4, 'hrd.bit_rate_scale', 'hrd.cpb_size_scale')
    x.list(hrd_lists, HRDP, simp(z64(x.get('hrd.cpb_cnt_minus1')) + 1))
    x.u(5, 'hrd.initial_cpb_removal_delay_length_minus1', 'hrd.cpb_removal_delay_length_minus1', 'hrd.dpb_output_delay_length_minus1',
        'hrd.time_offset_length')


def s_hrd(w):
    def go(S, sps, b):
        x = Syntax(w, S, FARS['hrd'])
        p0 = x.p
        hrd(x)
        x.done(lambda p: land(ule(p0, p, 64), ule(p, add(p0, 5000), 64)))
    return go


def vui(x):
    v = lambda s: ['vui.' + f for f in s.split()]

    def aspect():
        x.u(8, 'vui.aspect_ratio_idc')
        x.when(eq(x.get('vui.aspect_ratio_idc'), 255, 32), lambda: x.u(16, *v('sar_width sar_height')))

    def signal():
        x.u(3, 'vui.video_format')
        x.u(1, 'vui.video_full_range_flag')
        x.flag('vui.colour_description_present_flag', lambda: x.u(8, *v('colour_primaries transfer_characteristics matrix_coefficients')))

    def timing():
        x.u(32, *v('num_units_in_tick time_scale'))
        x.u(1, 'vui.fixed_frame_rate_flag')

    def restriction():
        x.u(1, 'vui.motion_vectors_over_pic_boundaries_flag')
        x.ue(*v('max_bytes_per_pic_denom max_bits_per_mb_denom log2_max_mv_length_horizontal log2_max_mv_length_vertical '
                'num_reorder_frames max_dec_frame_buffering'))
    x.flag('vui.aspect_ratio_info_present_flag', aspect)
    x.flag('vui.overscan_info_present_flag', lambda: x.u(1, 'vui.overscan_appropriate_flag'))
    x.flag('vui.video_signal_type_present_flag', signal)
    x.flag('vui.chroma_loc_info_present_flag', lambda: x.ue(*v('chroma_sample_loc_type_top_field chroma_sample_loc_type_bottom_field')))
    x.flag('vui.timing_info_present_flag', timing)
    x.flag('vui.nal_hrd_parameters_present_flag', lambda: hrd(x))
    x.flag('vui.vcl_hrd_parameters_present_flag', lambda: hrd(x))
    x.when(lor(*[ne(x.get('vui.%s_hrd_parameters_present_flag' % c), 0, 32) for c in ('nal', 'vcl')]), lambda: x.u(1, 'vui.low_delay_hrd_flag'))
    x.u(1, 'vui.pic_struct_present_flag')
    x.flag('vui.bitstream_restriction_flag', restriction)


def s_vui(w):
    def go(S, sps, b):
        x = Syntax(w, S, FARS['vui'])
        vui(x)
        x.done()
    return go


def s_sps(w):
    def go(S, sps, b):
        x = Syntax(w, S, FARS['sps'])
        ex = S.ex
        ex.fill_range(S.st, w.sps, ex.objs[w.sps.obj].size, 0)

        def lists():
            for i in range(8):
                x.flag('seq_scaling_list_present_flag[%d]' % i, lambda: x.skip(scaling(w, x.p, bv(16 if i < 6 else 64, 64))[0]))

        def high():
            x.ue('chroma_format_idc')
            x.when(eq(x.get('chroma_format_idc'), 3, 32), lambda: x.u(1, 'residual_colour_transform_flag'))
            x.ue('bit_depth_luma_minus8', 'bit_depth_chroma_minus8')
            x.u(1, 'qpprime_y_zero_transform_bypass_flag')
            x.flag('seq_scaling_matrix_present_flag', lists)

        def type1():
            x.u(1, 'delta_pic_order_always_zero_flag')
            x.se('offset_for_non_ref_pic', 'offset_for_top_to_bottom_field')
            x.ue('num_ref_frames_in_pic_order_cnt_cycle')
            n = x.get('num_ref_frames_in_pic_order_cnt_cycle')
            x.refuse(ult(255, n, 32))
            x.list(offset_lists, OFFP, z64(n))
        x.u(8, 'profile_idc')
        x.u(1, *['constraint_set%d_flag' % i for i in range(6)])
        x.u(2, 'reserved_zero_2bits')
        x.u(8, 'level_idc')
        x.ue('seq_parameter_set_id')
        x.f['chroma_format_idc'] = 1
        x.when(lor(*[eq(x.get('profile_idc'), k, 32) for k in (100, 110, 122, 144)]), high)
        x.ue('log2_max_frame_num_minus4', 'pic_order_cnt_type')
        t = x.get('pic_order_cnt_type')
        x.when(eq(t, 0, 32), lambda: x.ue('log2_max_pic_order_cnt_lsb_minus4'),
               lambda: x.when(eq(t, 1, 32), type1))
        x.ue('num_ref_frames')
        x.u(1, 'gaps_in_frame_num_value_allowed_flag')
        x.ue('pic_width_in_mbs_minus1', 'pic_height_in_map_units_minus1')
        x.u(1, 'frame_mbs_only_flag')
        x.when(eq(x.get('frame_mbs_only_flag'), 0, 32), lambda: x.u(1, 'mb_adaptive_frame_field_flag'))
        x.u(1, 'direct_8x8_inference_flag')
        x.flag('frame_cropping_flag', lambda: x.ue(*['frame_crop_%s_offset' % c for c in ('left', 'right', 'top', 'bottom')]))
        x.flag('vui_parameters_present_flag', lambda: vui(x))
        x.skip(simp((bv(x.p, 64) + 8) & ~z3.BitVecVal(7, 64)))
        x.done()
    return go


# ------------------------------------------------------------ removing the emulation prevention
class NAL:
    """any payload; byte k that is delivered comes from byte e(k) of the input, i(k) is the place the search for it starts at
    and z(k) the number of zeros just before it"""
    def __init__(self, V, aliased):
        ex, self.V = V.ex, V
        st = self.st = V.state()
        self.n, self.cap = V.bv('nal size', 32), V.bv('nal size' if aliased else 'rbsp size', 32)
        size = itew(slt(self.n, 0, 32), 0, z64(self.n), 64)
        self.nal = V.bytes(st, 'nal', size)
        self.out = V.bytes(st, 'rbsp', itew(slt(self.cap, 0, 32), 0, z64(self.cap), 64))
        self.src, self.old = st.mem[self.nal.obj], st.mem[self.out.obj]
        a = []
        for x, v in (('nal_size', self.n), ('rbsp_size', self.cap)):
            p = V.rawout(st, 4, x)
            st.cells(p.obj)[0] = (4, v)
            a.append(p)
        if aliased:
            a[1] = a[0]
        self.psize, self.pcap = a
        self.args = [self.nal, a[0], self.out, a[1]]
        self.I, self.Z = F('input before', B64, B64), F('zeros before', B64, B64)
        self.K = V.bv('number of bytes delivered', 64)
        self.size = size
        st.assume(self.end(self.K), ule(self.K, size, 64))

    def at(self, k):
        if isinstance(k, int):
            return (1, 0) if k == 0 else self.next(k - 1)
        if z3.is_app_of(k, z3.Z3_OP_BADD):
            return self.next(z3.simplify(sub(k, 1)))
        return self.I(k), self.Z(k)

    def byte(self, i):
        return self.src.read(i)

    def dropped(self, k):
        i, z = self.at(k)
        return land(ult(i, self.size, 64), eq(z, 2, 64), eq(self.byte(i), 3, 8))

    def e(self, k):
        return add(self.at(k)[0], itew(self.dropped(k), 1, 0, 64))

    def next(self, k):
        i, z = self.at(k)
        e = self.e(k)
        zz = itew(self.dropped(k), 0, z, 64)
        return add(e, 1), itew(eq(self.byte(e), 0, 8), add(zz, 1), 0, 64)

    def last(self, k):
        """the 3 of a trailing cabac zero word"""
        return land(self.dropped(k), eq(add(self.at(k)[0], 1), self.size, 64))

    def bad(self, k):
        """a pattern that must not occur"""
        i, z = self.at(k)
        more = land(ult(add(i, 1), self.size, 64), ult(3, self.byte(add(i, 1)), 8))
        return land(ult(i, self.size, 64), eq(z, 2, 64), lor(ult(self.byte(i), 3, 8), land(eq(self.byte(i), 3, 8), more)))

    def good(self, k):
        return land(lnot(self.bad(k)), lor(ule(self.size, self.at(k)[0], 64), self.last(k)))

    def end(self, k):
        return lor(self.good(k), self.bad(k), sle(self.cap, trunc(k, 64, 32), 32))


def s_nal(x):
    def go(S, nal, psize, out, pcap):
        w = x()
        S.require(land(nal.obj == w.nal.obj, psize.obj == w.psize.obj, out.obj == w.out.obj, pcap.obj == w.pcap.obj))
        K = w.K
        ex, st = S.ex, S.st
        st.mem[w.out.obj] = w.old.fill(0, K, lambda j: w.byte(w.e(bv(j, 64))))
        for s, ok in S.split(w.good(K)):
            if ok:
                s.st.cells(psize.obj)[0] = (4, trunc(w.at(K)[0], 64, 32))
                s.st.cells(pcap.obj)[0] = (4, trunc(K, 64, 32))
                s.done(trunc(K, 64, 32))
            else:
                s.done(mask(32))
    return go


def loop_nal(x):
    def payload(L, S, k):
        w = x()
        i, z = w.at(k)
        S.assume(implies(w.end(k), ule(w.K, k, 64)))
        S.mem[w.out.obj] = w.old.fill(0, k, lambda j: w.byte(w.e(bv(j, 64))))
        L.cand(lambda k: trunc(w.at(k)[0], 64, 32), 4, 'i')
        L.cand(lambda k: trunc(w.at(k)[1], 64, 32), 4, 'count')
        return [('not behind the end', ule(k, w.K, 64)), ('the place in the input', land(ule(add(k, 1), i, 64),
                 lor(ule(i, w.size, 64), eq(i, 1, 64)))), ('at most two zeros', ule(z, 2, 64))]
    return payload


def run(V):
    cur = [None]

    def setup(**kw):
        def go(V):
            w = cur[0] = W(V)
            for k, v in kw.items():
                setattr(w, k, v)
            yield '', w.st, [w.b]
        return go

    def with_n(V):
        w = cur[0] = W(V)
        yield '', w.st, [w.b, V.bv('n')]

    class Cur:
        def __getattr__(self, a):
            return getattr(cur[0], a)
    w = Cur()
    ex = V.ex
    ex.merge_untouched = True
    V.prove('bs_read_u1', s_u1(w), setup(concrete=True))
    V.use('bs_read_u1', s_u1(w))
    ex.loopspecs[('bs_read_u', 0)] = loop_u(w)
    V.prove('bs_read_u', s_u(w), with_n)
    V.use('bs_read_u', s_u(w))
    V.prove('bs_read_u8', s_u8(w), setup(concrete=True))
    V.use('bs_read_u8', s_u8(w))
    ex.loopspecs[('bs_read_ue', 0)] = loop_ue(w)
    V.prove('bs_read_ue', s_ue(w), setup())
    V.use('bs_read_ue', s_ue(w))
    V.prove('bs_read_se', s_se(w), setup())
    V.use('bs_read_se', s_se(w))

    def sps(*extra, first=True, exact=True):
        def go(V):
            w = cur[0] = W(V, True)
            w.abstract, w.exact = True, exact
            yield '', w.st, ([w.sps] if first else []) + [w.b] + list(extra)
        return go
    ex.loopspecs[('read_scaling_list', 0)] = loop_scaling(w)
    V.prove('read_scaling_list', s_scaling(w), sps(NULL, V.bv('size of the list'), V.bv('default'), first=False))
    V.use('read_scaling_list', s_scaling(w))
    ex.loopspecs[('read_rbsp_trailing_bits', 0)] = loop_trailing(w)
    V.prove('read_rbsp_trailing_bits', s_trailing(w), sps(first=False))
    V.use('read_rbsp_trailing_bits', s_trailing(w))
    ex.loopspecs[('read_hrd_parameters', 0)] = loop_hrd(w)
    V.prove('read_hrd_parameters', s_hrd(w), sps())
    V.use('read_hrd_parameters', s_hrd(w))

    ex.loopspecs[('read_seq_parameter_set_rbsp', 1)] = loop_offsets(w)

    def prove(f, spec):
        def go():
            V._prove(f, spec, sps(exact=False), None)
            w.far(V)
        V.unit(f, go, 500)
    prove('read_vui_parameters', s_vui(w))
    V.use('read_vui_parameters', s_vui(w))
    prove('read_seq_parameter_set_rbsp', s_sps(w))

    nal = [None]

    def s(V):
        for al in (True, False):
            nal[0] = NAL(V, al)
            yield ('one size' if al else 'two sizes'), nal[0].st, nal[0].args
    ex.loopspecs[('nal_to_rbsp', 0)] = loop_nal(lambda: nal[0])
    V.prove('nal_to_rbsp', s_nal(lambda: nal[0]), s)


NATIVE = {'driver': 'p19.cpp', 'sources': SRC}
