"""Symbolic input descriptions: build engine values, read them back from a
model, sample them, and describe the bound they stand for."""
from fractions import Fraction
import numpy as np
import z3
from . import values as V
from .values import E, FD, SB, Lin, TRUE
from .arr import Arr, o_empty, INT


class Spec:
    pass


class Const(Spec):
    def __init__(self, v):
        self.v = v

    def sym(self, name):
        from .arr import wrap
        return wrap(_copy(self.v))

    def lits(self):
        return 1

    def conc(self, ev):
        return _copy(self.v)

    def sample(self, rng):
        return [], self.v

    def domain(self):
        return 1


def _copy(v):
    import copy
    return copy.deepcopy(v)


class OneOf(Spec):
    """one of the given concrete values"""

    def __init__(self, vals):
        self.vals = list(vals)

    def sym(self, name):
        self.ls = E.store.onehot(name, len(self.vals))
        return V.merge([(l, self._w(v)) for l, v in zip(self.ls, self.vals)])

    def _w(self, v):
        from .arr import wrap
        return wrap(v)

    def conc(self, ev):
        for l, v in zip(self.ls, self.vals):
            if ev(l):
                return _copy(v)
        return _copy(self.vals[-1])

    def sample(self, rng):
        i = rng.randrange(len(self.vals))
        return [self.ls[i]], self.vals[i]

    def domain(self):
        return len(self.vals)


class Bool(OneOf):
    def __init__(self):
        OneOf.__init__(self, [True, False])


class Int(OneOf):
    def __init__(self, lo, hi):
        OneOf.__init__(self, list(range(lo, hi + 1)))


class ArrOf(Spec):
    """array with every element ranging over vals"""

    def __init__(self, shape, vals, dtype=int):
        self.shape = (shape,) if isinstance(shape, int) else tuple(shape)
        self.dt = np.dtype(dtype)
        self.vals = [self.dt.type(v) for v in vals]

    def sym(self, name):
        o = o_empty(self.shape)
        f = o.reshape(-1)
        self.ls = []
        for i in range(f.size):
            ls = E.store.onehot('%s[%d]' % (name, i), len(self.vals))
            self.ls.append(ls)
            f[i] = V.mkfd(list(zip(self.vals, ls)))
        return Arr.new(o, self.dt)

    def conc(self, ev):
        a = np.empty(self.shape, self.dt)
        f = a.reshape(-1)
        for i, ls in enumerate(self.ls):
            f[i] = self.vals[-1]
            for l, v in zip(ls, self.vals):
                if ev(l):
                    f[i] = v
                    break
        return a

    def sample(self, rng):
        # biased towards runs so that rare structures are sampled too
        lits, idx = [], []
        prev = rng.randrange(len(self.vals))
        for i in range(len(self.ls)):
            if rng.random() < 0.5:
                prev = rng.randrange(len(self.vals))
            idx.append(prev)
            lits.append(self.ls[i][prev])
        a = np.array([self.vals[j] for j in idx], self.dt).reshape(self.shape)
        return lits, a

    def domain(self):
        return len(self.vals) ** int(np.prod(self.shape))


class Stack(ArrOf):
    def __init__(self, n, angles=(0, 45, 90, -45)):
        ArrOf.__init__(self, n, angles, int)


class Real(Spec):
    def __init__(self, lo, hi):
        self.lo, self.hi = Fraction(lo), Fraction(hi)

    def sym(self, name):
        self.name = name
        self.v = V.real_var('in_' + name, self.lo, self.hi)
        return self.v

    def conc(self, ev):
        return float(ev.real(self.v))

    def sample(self, rng):
        k = rng.randrange(0, 65)
        x = self.lo + (self.hi - self.lo) * Fraction(k, 64)
        x = Fraction(float(x))
        e = V.binop('==', self.v, x)
        return [V.truth_lit(e)], float(x)

    def domain(self):
        return 'real [%s,%s]' % (float(self.lo), float(self.hi))


class RealArr(Spec):
    def __init__(self, n, lo, hi):
        self.shape = (n,) if isinstance(n, int) else tuple(n)
        self.parts = [Real(lo, hi) for _ in range(int(np.prod(self.shape)))]

    def sym(self, name):
        o = o_empty(self.shape)
        f = o.reshape(-1)
        for i, p in enumerate(self.parts):
            f[i] = p.sym('%s[%d]' % (name, i))
        return Arr.new(o, np.dtype(float))

    def conc(self, ev):
        return np.array([p.conc(ev) for p in self.parts], float).reshape(self.shape)

    def sample(self, rng):
        lits, vals = [], []
        for p in self.parts:
            l, v = p.sample(rng)
            lits += l
            vals.append(v)
        return lits, np.array(vals, float).reshape(self.shape)

    def domain(self):
        return '%d x %s' % (len(self.parts), self.parts[0].domain())


class ListOf(Spec):
    """fixed-length list (or tuple) of specs"""

    def __init__(self, parts, kind=list):
        self.parts = [mk(p) for p in parts]
        self.kind = kind

    def sym(self, name):
        return self.kind([p.sym('%s.%d' % (name, i)) for i, p in enumerate(self.parts)])

    def conc(self, ev):
        return self.kind([p.conc(ev) for p in self.parts])

    def sample(self, rng):
        lits, vals = [], []
        for p in self.parts:
            l, v = p.sample(rng)
            lits += l
            vals.append(v)
        return lits, self.kind(vals)

    def domain(self):
        return dom([p.domain() for p in self.parts])


def dom(ds):
    n = 1
    rest = []
    for d in ds:
        if isinstance(d, int):
            n *= d
        else:
            rest.append(d)
    return n if not rest else ' x '.join(rest + ([str(n)] if n > 1 else []))


def mk(p):
    if isinstance(p, (list, tuple)) and _has_spec(p):
        return ListOf(p, type(p))
    return p if isinstance(p, Spec) else Const(p)


def _has_spec(p):
    return isinstance(p, Spec) or isinstance(p, (list, tuple)) and any(_has_spec(x) for x in p)
