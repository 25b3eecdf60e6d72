"""OpenCV matrices as the values rows x columns, memory and, for a region, its position; the library's preconditions"""
from verify import *

ROWS, COLS, DATA, X, Y, STEP = 8, 12, 16, 32, 40, 80
PROWS, PCOLS = 24, 28      # size of the whole picture a region is taken of
U8C3 = 16


class Cv:
    def __init__(self, V):
        self.V, self.ex = V, V.ex
        self.record = None
        self.scaled = {}
        T = lambda rx, h: V.trust(r'cv::' + rx, h, 'OpenCV: contracts of the matrix functions in contracts/cvmat.py')
        T(r'Mat::Mat\(\)$', lambda ex, st, a, c: self.put(st, a[0], 0, 0, NULL))
        T(r'Mat::~Mat\(\)$', lambda ex, st, a, c: None)
        T(r'Mat::release\(\)$', lambda ex, st, a, c: self.put(st, a[0], 0, 0, NULL))
        T(r'Mat::Mat\(int, int, int\)$', lambda ex, st, a, c: self.new(st, a[0], a[1], a[2], a[3]))
        T(r'Mat::Mat\(cv::Size_<int>, int\)$', lambda ex, st, a, c: self.new(st, a[0], lshr(a[1], 32), trunc(a[1], 64, 32), a[2]))
        T(r'Mat::Mat\(int, int, int, void\*, unsigned long\)$', self.over)
        T(r'Mat::Mat\(cv::Mat const&, cv::Rect_<int> const&\)$', self.region)
        T(r'Mat::operator=\(cv::Mat&&\)$', self.assign)
        T(r'Mat::operator=\(cv::Mat const&\)$', self.assign)
        T(r'Mat::operator=\(cv::Scalar_<double> const&\)$', lambda ex, st, a, c: a[0])
        T(r'Mat::empty\(\) const$', lambda ex, st, a, c: self.empty(st, a[0]))
        T(r'Mat::copyTo\(cv::_OutputArray const&\) const$', self.copy)
        T(r'swap\(cv::Mat&, cv::Mat&\)$', self.swap)
        T(r'resize\(', self.resize)
        T(r'addWeighted\(', self.blend)
        T(r'MatStep::operator unsigned long\(\) const$', lambda ex, st, a, c: self.g(st, a[0], 8, 8))

    def g(self, st, p, f, n, isp=False):
        return self.ex.raw_load(st, self.ex.canon(self.ex.addc(p, f)), n, isp)

    def s(self, st, p, f, n, v):
        self.ex.raw_store(st, self.ex.canon(self.ex.addc(p, f)), n, v)

    def put(self, st, p, rows, cols, data, x=0, y=0, step=None, whole=None):
        self.s(st, p, PROWS, 4, whole[0] if whole else rows)
        self.s(st, p, PCOLS, 4, whole[1] if whole else cols)
        self.s(st, p, 0, 4, U8C3)
        self.s(st, p, ROWS, 4, rows)
        self.s(st, p, COLS, 4, cols)
        self.s(st, p, DATA, 8, data)
        self.s(st, p, X, 8, x)
        self.s(st, p, Y, 8, y)
        self.s(st, p, STEP, 8, mul(zext(cols, 32, 64), 3, 64) if step is None else step)

    def size(self, st, p):
        return self.g(st, p, ROWS, 4), self.g(st, p, COLS, 4)

    def empty(self, st, p):
        r, c = self.size(st, p)
        return lor(eq(r, 0), eq(c, 0))

    def ob(self, st, c, what):
        self.ex.oblige(st, c, 'OpenCV: ' + what, 'pre')

    def new(self, st, p, rows, cols, typ):
        self.ob(st, land(eq(typ, U8C3), sle(0, rows), sle(0, cols)), 'the size of a matrix is not negative')
        self.put(st, p, rows, cols, self.memory(st))

    def memory(self, st):
        m = self.V.rawout(st, 8, 'pixels')
        self.ex.objs[m.obj].info = None
        self.ex.objs[m.obj].pre = False
        return m

    def over(self, ex, st, a, c):
        self.ob(st, land(eq(a[3], U8C3), sle(0, a[1]), sle(0, a[2]), eq(a[5], 0, 64)), 'the size of a matrix is not negative')
        self.put(st, a[0], a[1], a[2], a[4])

    def region(self, ex, st, a, c):
        x, y, w, h = (self.g(st, a[2], o, 4) for o in (0, 4, 8, 12))
        r, k = self.size(st, a[1])
        self.ob(st, land(eq(self.g(st, a[1], X, 8), 0, 64), eq(self.g(st, a[1], Y, 8), 0, 64)), 'regions are taken of whole pictures')
        self.ob(st, land(sle(0, x), sle(0, w), sle(w, k), sle(x, sub(k, w, 32))), 'a region lies inside the picture (columns)')
        self.ob(st, land(sle(0, y), sle(0, h), sle(h, r), sle(y, sub(r, h, 32))), 'a region lies inside the picture (rows)')
        self.put(st, a[0], h, w, self.g(st, a[1], DATA, 8, True), sext(x, 32, 64), sext(y, 32, 64), self.g(st, a[1], STEP, 8), (r, k))

    def move(self, st, d, vals):
        for (f, n, _), v in zip(self.FIELDS, vals):
            self.s(st, d, f, n, v)

    FIELDS = [(0, 4, False), (ROWS, 4, False), (COLS, 4, False), (PROWS, 4, False), (PCOLS, 4, False), (DATA, 8, True), (X, 8, False), (Y, 8, False), (STEP, 8, False)]

    def read(self, st, p):
        return [self.g(st, p, *f) for f in self.FIELDS]

    def assign(self, ex, st, a, c):
        self.move(st, a[0], self.read(st, a[1]))
        return a[0]

    def swap(self, ex, st, a, c):
        x, y = self.read(st, a[0]), self.read(st, a[1])
        self.move(st, a[0], y)
        self.move(st, a[1], x)

    def arr(self, st, p):
        """the matrix behind an InputArray or OutputArray"""
        return self.g(st, p, 8, 8, True)

    def same(self, st, *ms):
        r, c = self.size(st, ms[0])
        for m in ms[1:]:
            r2, c2 = self.size(st, m)
            self.ob(st, land(eq(r, r2), eq(c, c2)), 'pictures that are combined have the same size')

    def copy(self, ex, st, a, c):
        d = self.arr(st, a[1])
        self.same(st, a[0], d)
        self.record(st, a[0], d, None)

    def blend(self, ex, st, a, c):
        s, t, d = self.arr(st, a[0]), self.arr(st, a[2]), self.arr(st, a[5])
        self.same(st, s, t, d)
        for f in (DATA, X, Y):
            x, y = (self.g(st, m, f, 8, f == DATA) for m in (t, d))
            self.ob(st, ex.peq(st, x, y) if f == DATA else eq(x, y, 64), 'the picture is blended with what it covers')
        self.record(st, s, d, (a[1], a[3], a[4]))

    def resize(self, ex, st, a, c):
        s, d = self.arr(st, a[0]), self.arr(st, a[1])
        w, h = trunc(a[2], 64, 32), trunc(lshr(a[2], 32), 64, 32)
        self.ob(st, lnot(self.empty(st, s)), 'a picture that is scaled is not empty')
        self.ob(st, land(slt(0, w), slt(0, h)), 'a picture is scaled to a size that is not empty')
        r, k = self.size(st, d)
        m = self.memory(st)
        self.scaled[m.obj] = self.origin(st, s)
        self.put(st, d, h, w, m)

    def origin(self, st, p):
        """the memory a picture comes from, scaled or not"""
        d = self.g(st, p, DATA, 8, True)
        return self.scaled.get(d.obj, d) if isinstance(d, Ptr) else d


def lshr(v, n):
    return v >> n if isinstance(v, int) else z3.LShR(v, n)
