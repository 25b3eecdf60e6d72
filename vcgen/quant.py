"""definitions with a quantifier, as a truth value with a witness; instances are added as facts where a proof needs them"""
import z3
from core import *


def link(ex, d, w):
    """instances of a new definition at the witnesses of the earlier ones, and the other way round"""
    ds = ex.enums.setdefault(type(d).__name__, [])
    for e in ds:
        d.inst(w(e))
        e.inst(w(d))
    ds.append(d)


def memo(ex, key, make):
    """one definition per content: key is a tuple of logs and numbers (kept alive by the entry)"""
    k = tuple(x.get_id() if isinstance(x, z3.ExprRef) else x if isinstance(x, (int, str)) else id(x) for x in key)
    d = ex.enums.setdefault('memo', {})
    if k not in d:
        d[k] = (make(), key)
    return d[k][0]


class ForAll:
    """value: fn(K) for every K; witness: some K with not fn(K), if there is one"""
    def __init__(self, ex, fn, tag='all'):
        self.ex, self.fn = ex, fn
        n = ex.nextobj
        ex.nextobj += 1
        self.value = z3.Bool('%s!%d' % (tag, n))
        self.witness = z3.BitVec('%s.witness!%d' % (tag, n), 64)
        ex.solver.fact(lor(self.value, lnot(fn(self.witness))))
        link(ex, self, lambda o: o.witness)

    def inst(self, *Ks):
        for K in Ks:
            self.ex.solver.fact(implies(self.value, self.fn(K)))


class First:
    """found: match(j) for some j < n; at: the first such j"""
    def __init__(self, ex, n, match, tag='first'):
        self.ex, self.n, self.match = ex, n, match
        i = ex.nextobj
        ex.nextobj += 1
        self.found = z3.Bool('%s!%d' % (tag, i))
        self.at = z3.BitVec('%s.at!%d' % (tag, i), 64)
        ex.solver.fact(implies(self.found, land(ult(self.at, n, 64), match(self.at))))
        self.end = itew(self.found, self.at, n, 64)
        link(ex, self, lambda o: o.at)

    def inst(self, *js):
        """no match before it"""
        for j in js:
            self.ex.solver.fact(implies(ult(j, self.end, 64), lnot(self.match(j))))
