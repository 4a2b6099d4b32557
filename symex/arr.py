"""Arr: numpy arrays whose elements may be symbolic, and models of the numpy
functions.  Any call whose arguments are all concrete is executed by numpy
itself; only calls that touch symbolic elements go through the models here."""
import math
import operator
import types
import numpy as np
import numpy.matlib
from . import values as V
from .values import (Sym, SB, FD, Lin, Choice, E, EngineError, NeedSplit, Overflow, DeadPath,
                     binop, unop, merge, ite, lift, blit, truth_lit, mkbool, decide, feasible,
                     note_write, TRUE, FALSE, AND, OR, deref)


def o_empty(shape):
    return np.empty(shape, dtype=object)


def box(v):
    """0-d object array holding v"""
    b = np.empty((), dtype=object)
    b[()] = v
    return b


def root_of(o):
    while o.base is not None and isinstance(o.base, np.ndarray) and o.base.dtype == object:
        o = o.base
    return o


OBJ = np.dtype(object)
BOOL = np.dtype(bool)
INT = np.dtype(int)
FLT = np.dtype(float)


def cast(v, dt):
    """value stored in an array of dtype dt"""
    if dt == OBJ:
        return v
    if isinstance(v, SB):
        if dt == BOOL:
            return v
        one, zero = dt.type(1), dt.type(0)
        return V.mkfd([(one, v.lit), (zero, v.lit ^ 1)])
    if isinstance(v, Lin):
        if dt.kind == 'f':
            return v
        if dt == BOOL:
            return mkbool(truth_lit(v))
        raise EngineError('real term stored in an array of %s' % dt)
    if isinstance(v, Choice):
        v = deref(v)
    if isinstance(v, (FD, Choice)):
        if dt == BOOL:
            return mkbool(truth_lit(v))
        return lift(lambda x: _cast1(x, dt), v)
    if isinstance(v, Arr):
        if v.o.size == 1:
            return cast(v.o.reshape(-1)[0], dt)
        raise ValueError('setting an array element with a sequence.')
    return _cast1(v, dt)


def _cast1(v, dt):
    if type(v) is dt.type:
        return v
    if isinstance(v, V.Fraction):
        v = float(v)
    a = np.empty(1, dt)
    a[0] = v
    return a[0]


def elem_dtype(v):
    if isinstance(v, SB):
        return BOOL
    if isinstance(v, Lin):
        return FLT
    if isinstance(v, (FD, Choice)):
        dts = [elem_dtype(x) for x, _ in v.alts]
        r = dts[0]
        for d in dts[1:]:
            r = _promote(r, d)
        return r
    if isinstance(v, Arr):
        return v.dt
    if v is None:
        return OBJ
    a = np.asarray(v) if not isinstance(v, V.Fraction) else np.asarray(0.0)
    return a.dtype


def _promote(a, b):
    try:
        return np.promote_types(a, b)
    except TypeError:
        return OBJ


class Arr:
    __array_ufunc__ = None
    __slots__ = ('o', 'dt', '__weakref__')

    def __init__(self, o, dt):
        self.o = o
        self.dt = dt

    # -- construction
    @staticmethod
    def of(a):
        """from a native ndarray"""
        o = o_empty(a.shape)
        if a.size:
            if a.dtype == OBJ:
                for i, x in enumerate(a.reshape(-1)):
                    o.reshape(-1)[i] = wrap(x)
            else:
                fl = a.reshape(-1)
                oo = o.reshape(-1)
                for i in range(fl.size):
                    oo[i] = fl[i]
        V.created(root_of(o))
        return Arr(o, a.dtype)

    @staticmethod
    def merged(alts):
        x0 = alts[0][0]
        o = o_empty(x0.o.shape)
        fl = o.reshape(-1)
        srcs = [(l, x.o.reshape(-1)) for x, l in alts]
        for i in range(fl.size):
            fl[i] = merge([(l, s[i]) for l, s in srcs])
        dt = x0.dt
        for x, _ in alts[1:]:
            dt = _promote(dt, x.dt)
        V.created(o)
        return Arr(o, dt)

    @staticmethod
    def new(o, dt):
        V.created(root_of(o))
        return Arr(o, np.dtype(dt))

    def sym(self):
        for x in self.o.reshape(-1):
            if isinstance(x, (Sym, Arr)):
                return True
        return False

    def native(self):
        if self.dt == OBJ:
            r = o_empty(self.o.shape)
            fl = r.reshape(-1)
            for i, x in enumerate(self.o.reshape(-1)):
                fl[i] = unwrap(x)
            return r
        if self.o.size == 0:
            return np.empty(self.o.shape, self.dt)
        return self.o.astype(self.dt)

    # -- attributes
    shape = property(lambda s: s.o.shape)
    size = property(lambda s: s.o.size)
    ndim = property(lambda s: s.o.ndim)
    dtype = property(lambda s: s.dt)
    T = property(lambda s: Arr(s.o.T, s.dt))
    flat = property(lambda s: list(s.o.flat))

    def __len__(self):
        return len(self.o)

    def __iter__(self):
        if self.o.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return iter([self[i] for i in range(len(self.o))])

    def __repr__(self):
        return 'Arr(%s,%s)' % (self.o.tolist(), self.dt)

    def __bool__(self):
        return V.branch(truth_lit(self))

    def _one(self):
        if self.o.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return self.o.reshape(-1)[0]

    def __int__(self):
        return int(self._one())

    def __float__(self):
        return float(self._one())

    def __index__(self):
        if self.o.ndim:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return operator.index(self._one())

    __hash__ = None

    def __add__(self, o): return binop('+', self, o)
    def __radd__(self, o): return binop('+', o, self)
    def __sub__(self, o): return binop('-', self, o)
    def __rsub__(self, o): return binop('-', o, self)
    def __mul__(self, o): return binop('*', self, o)
    def __rmul__(self, o): return binop('*', o, self)
    def __truediv__(self, o): return binop('/', self, o)
    def __rtruediv__(self, o): return binop('/', o, self)
    def __floordiv__(self, o): return binop('//', self, o)
    def __mod__(self, o): return binop('%', self, o)
    def __pow__(self, o): return binop('**', self, o)
    def __rpow__(self, o): return binop('**', o, self)
    def __matmul__(self, o): return NP[np.matmul](self, o)
    def __and__(self, o): return binop('&', self, o)
    def __or__(self, o): return binop('|', self, o)
    def __xor__(self, o): return binop('^', self, o)
    def __neg__(self): return unop('-', self)
    def __invert__(self): return unop('~', self)
    def __abs__(self): return unop('abs', self)
    def __eq__(self, o): return binop('==', self, o)
    def __ne__(self, o): return binop('!=', self, o)
    def __lt__(self, o): return binop('<', self, o)
    def __le__(self, o): return binop('<=', self, o)
    def __gt__(self, o): return binop('>', self, o)
    def __ge__(self, o): return binop('>=', self, o)

    def __contains__(self, v):
        return truthy(contains(self, v))

    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, v):
        setitem(self, idx, v)

    # -- methods
    def copy(self, order=None):
        return Arr.new(self.o.copy(), self.dt)

    def astype(self, dt, copy=True):
        dt = np.dtype(dtypeof(dt))
        r = o_empty(self.o.shape)
        a, b = r.reshape(-1), self.o.reshape(-1)
        for i in range(a.size):
            a[i] = cast(b[i], dt)
        return Arr.new(r, dt)

    def tolist(self):
        def py(x):
            if isinstance(x, np.generic):
                return x.item()
            if isinstance(x, FD):
                return lift(lambda y: y.item() if isinstance(y, np.generic) else y, x)
            return x
        def rec(o):
            if o.ndim == 0:
                return py(o[()])
            return [rec(o[i, ...]) if o.ndim > 1 else py(o[i]) for i in range(len(o))]
        return rec(self.o)

    def item(self, *a):
        return self.reshape(-1)[a[0] if a else 0]

    def reshape(self, *shape, **k):
        if len(shape) == 1:
            shape = shape[0]
        return Arr(self.o.reshape(shape), self.dt)

    def ravel(self):
        return Arr(self.o.ravel(), self.dt)

    def flatten(self):
        return Arr.new(self.o.flatten(), self.dt)

    def squeeze(self):
        return Arr(self.o.squeeze(), self.dt)

    def transpose(self, *a):
        return Arr(self.o.transpose(*a), self.dt)

    def fill(self, v):
        note_write('a', root_of(self.o))
        self.o.fill(cast(v, self.dt))

    def sort(self, axis=-1):
        r = NP[np.sort](self, axis) if self.sym() else Arr.of(np.sort(self.native(), axis))
        note_write('a', root_of(self.o))
        self.o[...] = r.o

    def put(self, *a):
        raise EngineError('ndarray.put')


def _meth(npf):
    def f(self, *a, **k):
        return call_np(npf, (self,) + a, k)
    return f


for _n in ('sum', 'min', 'max', 'argmin', 'argmax', 'any', 'all', 'prod', 'mean', 'argsort',
           'cumsum', 'nonzero', 'dot', 'round', 'repeat', 'std', 'var', 'take', 'clip',
           'swapaxes', 'trace', 'diagonal', 'searchsorted'):
    setattr(Arr, _n, _meth({'round': np.around, 'dot': np.dot}.get(_n) or getattr(np, _n)))

V.Arr = Arr


def dtypeof(d):
    """dtype argument as given by interpreted code"""
    return d


def truthy(v):
    if isinstance(v, (Sym, Arr)):
        return V.branch(truth_lit(v))
    return bool(v)


# ------------------------------------------------------------ conversions
def is_sym(v, depth=0):
    """does v contain symbolic data?"""
    if isinstance(v, Sym):
        return True
    if isinstance(v, Arr):
        return v.sym()
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(is_sym(x, depth + 1) for x in v)
    if isinstance(v, dict):
        return any(is_sym(x, depth + 1) for x in v.values())
    if isinstance(v, slice):
        return is_sym((v.start, v.stop, v.step))
    return False


def unwrap(v):
    """concrete engine value -> native value"""
    if isinstance(v, Arr):
        return v.native()
    t = type(v)
    if t is list:
        return [unwrap(x) for x in v]
    if t is tuple:
        return tuple(unwrap(x) for x in v)
    if t is dict:
        return {k: unwrap(x) for k, x in v.items()}
    if t is slice:
        return slice(unwrap(v.start), unwrap(v.stop), unwrap(v.step))
    return v


def wrap(v):
    """native result -> engine value"""
    if isinstance(v, np.ndarray):
        return Arr.of(v)
    t = type(v)
    if t is list:
        return V.created([wrap(x) for x in v])
    if t is tuple:
        return tuple(wrap(x) for x in v)
    if t is dict:
        return V.created({k: wrap(x) for k, x in v.items()})
    return v


def first_sym(v):
    if isinstance(v, Sym):
        return v
    if isinstance(v, Arr):
        for x in v.o.reshape(-1):
            r = first_sym(x)
            if r is not None:
                return r
    elif isinstance(v, (list, tuple, set)):
        for x in v:
            r = first_sym(x)
            if r is not None:
                return r
    elif isinstance(v, dict):
        for x in v.values():
            r = first_sym(x)
            if r is not None:
                return r
    elif isinstance(v, slice):
        return first_sym((v.start, v.stop, v.step))
    return None


def concretise(v):
    """replace symbolic parts by their single value, or split"""
    if isinstance(v, Choice):
        return concretise(deref(v)) if not isinstance(deref(v), Choice) else v.concrete()
    if isinstance(v, Sym):
        return v.concrete()
    if isinstance(v, Arr):
        if not v.sym():
            return v
        r = o_empty(v.o.shape)
        a, b = r.reshape(-1), v.o.reshape(-1)
        for i in range(a.size):
            a[i] = concretise(b[i])
        return Arr.new(r, v.dt)
    t = type(v)
    if t is list:
        return [concretise(x) for x in v]
    if t is tuple:
        return tuple(concretise(x) for x in v)
    if t is dict:
        return {k: concretise(x) for k, x in v.items()}
    if t is slice:
        return slice(concretise(v.start), concretise(v.stop), concretise(v.step))
    return v


# ------------------------------------------------------------ array()
def build(x):
    """nested sequences -> (object array, dtype)"""
    if isinstance(x, Choice):
        x = deref(x)
    if isinstance(x, Choice) and any(isinstance(v, (list, tuple, np.ndarray)) for v, _ in x.alts):
        subs = [build(v) if isinstance(v, (list, tuple, np.ndarray, Arr)) else None for v, _ in x.alts]
        if any(b is None or b[0].shape != subs[0][0].shape or b[1] != subs[0][1] for b in subs):
            return build(x.concrete())
        m = Arr.merged([(Arr.new(o, dt), l) for (o, dt), (_, l) in zip(subs, x.alts)])
        return m.o, m.dt
    if isinstance(x, Arr):
        return x.o.copy(), x.dt
    if isinstance(x, np.ndarray):
        a = Arr.of(x)
        return a.o, a.dt
    if isinstance(x, (list, tuple)):
        subs = [build(y) for y in x]
        if not subs:
            return o_empty((0,)), FLT
        shapes = {s.shape for s, _ in subs}
        if len(shapes) > 1:
            raise ValueError('setting an array element with a sequence. The requested array has '
                             'an inhomogeneous shape after 1 dimensions.')
        r = o_empty((len(subs),) + subs[0][0].shape)
        for i, (s, _) in enumerate(subs):
            r[i, ...] = s if s.ndim else s
        dt = subs[0][1]
        for _, d in subs[1:]:
            dt = _promote(dt, d)
        return r, dt
    return box(x), elem_dtype(x)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    o, dt = build(x)
    if dtype is not None:
        dt = np.dtype(dtypeof(dtype))
    r = o_empty(o.shape)
    a, b = r.reshape(-1), o.reshape(-1)
    for i in range(a.size):
        a[i] = cast(b[i], dt)
    while r.ndim < ndmin:
        r = r[np.newaxis, ...]
    return Arr.new(r, dt)


def asarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, Choice):
        x = deref(x)
        return array(x) if isinstance(x, Choice) else asarr(x)
    return array(x)


# ------------------------------------------------------------ elementwise
_DT_CACHE = {}


def uf_dtype(f, args):
    """result dtype of ufunc-like f on these arguments (run on dummies)"""
    key = (id(f),) + tuple(a.dt if isinstance(a, Arr) else type(a) if not isinstance(a, Sym)
                           else elem_dtype(a) for a in args)
    r = _DT_CACHE.get(key)
    if r is None:
        d = []
        for a in args:
            if isinstance(a, Arr):
                d.append(np.ones(1, a.dt))
            elif isinstance(a, Sym):
                dt = elem_dtype(a)
                d.append(dt.type(1) if dt != OBJ else 1)
            else:
                d.append(a)
        try:
            with np.errstate(all='ignore'):
                r = np.asarray(f(*d)).dtype
        except Exception:
            r = OBJ
        _DT_CACHE[key] = (r, f)
    else:
        r = r[0]
    return r


def elementwise(f, args, scalar=None, dt=None):
    """broadcast and apply scalar(f) to every element"""
    scalar = scalar or f
    os_ = [a.o if isinstance(a, Arr) else box(a) for a in args]
    if dt is None:
        dt = uf_dtype(f, args)
    if len(os_) == 1:
        bs = os_
    else:
        bs = np.broadcast_arrays(*os_)
    r = o_empty(bs[0].shape)
    fl = r.reshape(-1)
    its = [b.reshape(-1) for b in bs]
    for i in range(fl.size):
        v = scalar(*[t[i] for t in its])
        fl[i] = v if dt == OBJ else cast(v, dt)
    if r.ndim == 0:
        return r[()]
    return Arr.new(r, dt)


UFOP = {np.add: '+', np.subtract: '-', np.multiply: '*', np.divide: '/', np.floor_divide: '//',
        np.mod: '%', np.remainder: '%', np.power: '**', np.equal: '==', np.not_equal: '!=',
        np.less: '<', np.less_equal: '<=', np.greater: '>', np.greater_equal: '>=',
        np.bitwise_and: '&', np.bitwise_or: '|', np.bitwise_xor: '^'}
OPUF = {v: k for k, v in UFOP.items() if k is not np.mod}


def conc(v):
    return not isinstance(v, Sym) and not (isinstance(v, Arr) and v.sym())


def coerce(a):
    if isinstance(a, (list, tuple)):
        return array(a)
    if isinstance(a, np.ndarray):
        return Arr.of(a)
    if isinstance(a, Choice) and all(isinstance(v, (list, tuple)) for v, _ in a.alts):
        return array(a)
    return a


def scalar_op(op, x, y):
    if isinstance(x, (Sym, Arr)) or isinstance(y, (Sym, Arr)):
        return binop(op, x, y)
    u = OPUF.get(op)
    if u is None:
        return V.OPS[op](x, y)
    with np.errstate(all='ignore'):
        return u(x, y)


def arr_binop(op, a, b):
    a, b = coerce(a), coerce(b)
    if op == '@':
        return call_np(np.matmul, (a, b), {})
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        if op in ('==', '!='):
            arr = a if isinstance(a, Arr) else b
            if arr.dt.kind not in 'UO':
                return Arr.of(np.full(arr.o.shape, op == '!='))
    if conc(a) and conc(b) and (not isinstance(a, Arr) or a.dt != OBJ) \
            and (not isinstance(b, Arr) or b.dt != OBJ):
        with np.errstate(all='ignore'):
            r = V.OPS[op](unwrap(a), unwrap(b))
        return wrap(r)
    u = OPUF.get(op)
    try:
        return elementwise(u or V.OPS[op], (a, b), lambda x, y: scalar_op(op, x, y))
    except ValueError as e:
        if op == '==' and 'broadcast' in str(e):
            raise
        raise


def arr_unop(op, a):
    if op == 'not':
        return mkbool(truth_lit(a) ^ 1)
    f = {'-': np.negative, '+': np.positive, '~': np.invert, 'abs': np.abs}[op]
    if not a.sym():
        return wrap(f(a.native()))
    return elementwise(f, (a,), lambda x: V.sabs(x) if op == 'abs' else unop(op, x))


V.arr_binop = arr_binop
V.arr_unop = arr_unop


# ------------------------------------------------------------ indexing
def norm_index(idx):
    """turn engine values inside an index into native ones; report symbolic ones"""
    if isinstance(idx, Choice):
        idx = deref(idx)
    if isinstance(idx, tuple):
        return tuple(norm_index(i) for i in idx)
    if isinstance(idx, slice):
        return concretise(idx)
    if isinstance(idx, Arr):
        if idx.o.ndim == 0:
            return norm_index(idx.o[()])
        return idx if idx.sym() else idx.native()
    if isinstance(idx, list):
        return norm_index(array(idx)) if idx else np.array([], dtype=int)
    return idx


def idx_sym(idx):
    if isinstance(idx, tuple):
        return any(idx_sym(i) for i in idx)
    return isinstance(idx, (Sym, Arr))


def wrap_view(r, dt, o):
    """result of o[idx] (object array) as engine value"""
    if isinstance(r, np.ndarray):
        return Arr(r, dt)
    return r


def getitem(a, idx):
    idx = norm_index(idx)
    o = a.o
    if not idx_sym(idx):
        nd_obj = False
        r = o[idx]
        if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, Arr):
            if a.dt == OBJ and r.ndim == 0:
                return r[()]
            return Arr(r, a.dt)
        return r
    if isinstance(idx, Arr):
        if idx.dt == BOOL:
            return getitem(a, concretise(idx))
        # array of symbolic positions
        r = o_empty(idx.o.shape + o.shape[1:])
        fl = idx.o.reshape(-1)
        rr = r.reshape((fl.size,) + o.shape[1:])
        for i in range(fl.size):
            x = getitem(a, fl[i])
            rr[i] = x.o if isinstance(x, Arr) else x
        return Arr.new(r, a.dt)
    if isinstance(idx, Sym):
        if isinstance(idx, SB):
            return getitem(a, idx.concrete())
        return lift_index(lambda k: getitem(a, k), idx)
    # tuple with symbolic components
    syms = [i for i, x in enumerate(idx) if isinstance(x, (Sym, Arr))]
    for i in syms:
        if isinstance(idx[i], Arr):
            c = list(idx)
            c[i] = concretise(idx[i])
            return getitem(a, tuple(c))

    def f(*vals):
        c = list(idx)
        for i, v in zip(syms, vals):
            c[i] = v
        return getitem(a, tuple(c))
    return lift_index(f, *[idx[i] for i in syms])


def lift_index(f, *idx):
    r = lift(f, *[concrete_index(i) for i in idx])
    return deref(r) if isinstance(r, Choice) else r


def concrete_index(i):
    if isinstance(i, Lin):
        raise EngineError('index with a real term')
    return i


def setitem(a, idx, v):
    idx = norm_index(idx)
    if isinstance(v, Choice):
        v = deref(v)
    o = a.o
    if isinstance(v, (list, tuple)) and a.dt != OBJ:
        v = array(v)
    if isinstance(v, np.ndarray):
        v = Arr.of(v)
    if not idx_sym(idx):
        note_write('a', root_of(o))
        if isinstance(v, Arr) and a.dt != OBJ:
            tgt = o[idx]
            if not isinstance(tgt, np.ndarray):
                o[idx] = cast(v, a.dt)
                return
            c = v if v.dt == a.dt else v.astype(a.dt)
            o[idx] = c.o
        elif isinstance(v, Arr):
            tgt = o[idx]
            if isinstance(tgt, np.ndarray) and tgt.shape == v.o.shape:
                o[idx] = v.o
            elif isinstance(tgt, np.ndarray):
                o[idx] = box(v)
            else:
                o[idx] = v
        else:
            c = cast(v, a.dt)
            if isinstance(o[idx], np.ndarray):
                o[idx] = box(c)
            else:
                # every index is an integer: the element itself
                o[idx] = c
        return
    if isinstance(idx, Arr):
        if idx.dt == BOOL and not isinstance(v, Arr):
            if idx.o.shape != o.shape[:idx.o.ndim]:
                raise IndexError('boolean index did not match indexed array')
            note_write('a', root_of(o))
            c = cast(v, a.dt)
            for pos in np.ndindex(*idx.o.shape):
                m = idx.o[pos]
                l = blit(m)
                if l == FALSE:
                    continue
                if o.ndim == idx.o.ndim:
                    o[pos] = ite(l, c, o[pos])
                else:
                    for q in np.ndindex(*o.shape[idx.o.ndim:]):
                        o[pos + q] = ite(l, c, o[pos + q])
            return
        return setitem(a, concretise(idx), v)
    if isinstance(idx, Sym) and not isinstance(idx, (SB, Lin)):
        _cond_set(a, [(k, l) for k, l in idx.alts], v)
        return
    if isinstance(idx, tuple):
        syms = [i for i, x in enumerate(idx) if isinstance(x, (Sym, Arr))]
        if all(isinstance(idx[i], FD) for i in syms):
            cs = []
            for t, l in V.combos([idx[i] for i in syms]):
                c = list(idx)
                for i, x in zip(syms, t):
                    c[i] = x
                cs.append((tuple(c), l))
            _cond_set(a, cs, v)
            return
    setitem(a, concretise(idx), v)


def _cond_set(a, cs, v):
    bad = []
    good = []
    for k, l in cs:
        try:
            t = a.o[k]
            good.append((k, l, t))
        except IndexError:
            bad.append(l)
    if bad:
        bl = E.store.or_all(bad)
        d = decide(bl)
        if d:
            raise IndexError('index out of bounds')
        if d is None:
            raise NeedSplit([bl, bl ^ 1])
    note_write('a', root_of(a.o))
    for k, l, t in good:
        if isinstance(t, np.ndarray):
            vo = v.o if isinstance(v, Arr) else box(v)
            vb = np.broadcast_to(vo, t.shape)
            for q in np.ndindex(*t.shape):
                t[q] = ite(l, cast(vb[q], a.dt), t[q])
        else:
            # read again: two alternatives may name the same cell (-1 and n-1)
            a.o[k] = ite(l, cast(v, a.dt), a.o[k])


# ------------------------------------------------------------ containment
def contains(seq, v):
    """v in seq as an engine boolean"""
    if isinstance(seq, Choice):
        seq = deref(seq)
        if isinstance(seq, Choice):
            return lift(lambda s: contains(s, v), seq)
    if isinstance(v, Choice):
        v = deref(v)
    if isinstance(seq, Arr):
        items = list(seq.o.reshape(-1))
        if isinstance(v, Arr):
            if v.o.size == 1:
                v = v.o.reshape(-1)[0]
            else:
                r = asarr(binop('==', seq, v))
                return call_np(np.any, (r,), {})
    elif isinstance(seq, (list, tuple, set, frozenset, range)):
        items = list(seq)
        if isinstance(seq, range) and not isinstance(v, Sym):
            return v in seq
    elif isinstance(seq, dict):
        items = list(seq.keys())
    elif isinstance(seq, np.ndarray):
        items = list(seq.reshape(-1))
    elif hasattr(type(seq), '__contains__') and not is_sym(v):
        return v in seq
    elif isinstance(seq, str):
        return lift(lambda x: x in seq, v)
    elif hasattr(seq, '__iter__'):
        items = list(seq)
    else:
        raise TypeError("argument of type '%s' is not iterable" % type(seq).__name__)
    if isinstance(seq, (set, frozenset, dict)) and not is_sym(v):
        return v in seq
    r = []
    for x in items:
        if x is v:
            return True
        e = binop('==', x, v) if isinstance(x, (Sym, Arr)) or isinstance(v, (Sym, Arr)) else (x == v)
        r.append(truth_lit(e))
        if r[-1] == TRUE:
            return True
    return mkbool(E.store.or_all(r))


# ------------------------------------------------------------ numpy models
NP = {}


def model(*fs):
    def deco(g):
        for f in fs:
            NP[f] = g
        return g
    return deco


def along(a, axis, f, dt=None):
    """reduce with f over 1-d lists along axis"""
    a = asarr(a)
    if axis is None:
        return f(list(a.o.reshape(-1)))
    if isinstance(axis, tuple):
        raise EngineError('tuple axis')
    m = np.moveaxis(a.o, axis, -1)
    if m.ndim == 1:
        return f(list(m))
    r = o_empty(m.shape[:-1])
    for pos in np.ndindex(*m.shape[:-1]):
        r[pos] = f(list(m[pos]))
    return Arr.new(r, dt if dt is not None else a.dt)


def _num(x):
    if isinstance(x, SB):
        return lift(int, x)
    if isinstance(x, (bool, np.bool_)):
        return np.int64(x)
    return x


def sum_list(xs):
    """sum with small intermediate domains: count booleans by symmetric merging"""
    acc = None
    for x in xs:
        x = _num(x)
        acc = x if acc is None else binop('+', acc, x)
    return acc


@model(np.sum)
def _sum(a, axis=None, dtype=None, **k):
    a = asarr(a)
    dt = INT if a.dt == BOOL else a.dt
    return along(a, axis, lambda xs: cast(sum_list(xs), dt) if xs else dt.type(0), dt)


@model(np.prod, np.product)
def _prod(a, axis=None, **k):
    a = asarr(a)

    def f(xs):
        acc = a.dt.type(1)
        for x in xs:
            acc = binop('*', acc, _num(x))
        return acc
    return along(a, axis, f, a.dt)


@model(np.mean, np.average)
def _mean(a, axis=None, weights=None, **k):
    a = asarr(a)
    if weights is not None:
        w = asarr(weights)
        return binop('/', _sum(binop('*', a, w), axis), _sum(w, axis))
    n = a.o.size if axis is None else a.o.shape[axis]
    return along(a, axis, lambda xs: binop('/', sum_list(xs), np.float64(n)), FLT)


def _red(op):
    def f(a, axis=None, **k):
        a = asarr(a)

        def g(xs):
            if not xs:
                raise ValueError('zero-size array to reduction operation %s which has no identity'
                                 % ('minimum' if op is V.smin else 'maximum'))
            acc = xs[0]
            for x in xs[1:]:
                acc = op(acc, x)
            return acc
        return along(a, axis, g, a.dt)
    return f


NP[np.min] = NP[np.amin] = _red(V.smin)
NP[np.max] = NP[np.amax] = _red(V.smax)
NP[np.nanmin] = NP[np.min]
NP[np.nanmax] = NP[np.max]


def _arg(less):
    def f(a, axis=None, **k):
        a = asarr(a)

        def g(xs):
            if not xs:
                raise ValueError('attempt to get argmin of an empty sequence')
            best, ind = xs[0], np.int64(0)
            for i, x in enumerate(xs[1:], 1):
                c = truth_lit(binop(less, x, best))
                best = ite(c, x, best)
                ind = ite(c, np.int64(i), ind)
            return ind
        return along(a, axis, g, INT)
    return f


NP[np.argmin] = NP[np.nanargmin] = _arg('<')
NP[np.argmax] = NP[np.nanargmax] = _arg('>')


@model(np.any)
def _any(a, axis=None, **k):
    return along(asarr(a), axis, lambda xs: mkbool(E.store.or_all([truth_lit(x) for x in xs])), BOOL)


@model(np.all)
def _all(a, axis=None, **k):
    return along(asarr(a), axis, lambda xs: mkbool(E.store.and_all([truth_lit(x) for x in xs])), BOOL)


@model(np.count_nonzero)
def _cnz(a, axis=None, **k):
    return along(asarr(a), axis,
                 lambda xs: sum_list([mkbool(truth_lit(x)) for x in xs] or [np.int64(0)]), INT)


def sort_list(xs):
    xs = list(xs)
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            c = truth_lit(binop('>', xs[j], xs[j + 1]))
            if c != FALSE:
                xs[j], xs[j + 1] = ite(c, xs[j + 1], xs[j]), ite(c, xs[j], xs[j + 1])
    return xs


@model(np.sort)
def _sort(a, axis=-1, **k):
    a = asarr(a)
    if a.o.ndim != 1:
        m = np.moveaxis(a.o, axis, -1)
        r = o_empty(m.shape)
        for pos in np.ndindex(*m.shape[:-1]):
            q = sort_list(m[pos])
            for i, x in enumerate(q):
                r[pos + (i,)] = x
        return Arr.new(np.moveaxis(r, -1, axis), a.dt)
    r = o_empty(a.o.shape)
    for i, x in enumerate(sort_list(a.o)):
        r[i] = x
    return Arr.new(r, a.dt)


@model(np.argsort)
def _argsort(a, axis=-1, kind=None, **k):
    a = asarr(a)
    if a.o.ndim != 1:
        raise EngineError('argsort on a matrix')
    # numpy's default sort is not stable: ties are not modelled, they split
    n = a.o.size
    xs = list(a.o)
    ranks = []
    for i in range(n):
        r = np.int64(0)
        for j in range(n):
            if j == i:
                continue
            lt = binop('<' if j > i else '<=', xs[j], xs[i])
            r = binop('+', r, _num(mkbool(truth_lit(lt))))
        ranks.append(r)
    out = o_empty((n,))
    for p in range(n):
        out[p] = merge([(truth_lit(binop('==', ranks[i], np.int64(p))), np.int64(i)) for i in range(n)])
    return Arr.new(out, INT)


@model(np.cumsum)
def _cumsum(a, axis=None, **k):
    a = asarr(a)
    if a.o.ndim != 1:
        raise EngineError('cumsum on a matrix')
    r = o_empty(a.o.shape)
    acc = None
    for i, x in enumerate(a.o):
        acc = _num(x) if acc is None else binop('+', acc, _num(x))
        r[i] = acc
    return Arr.new(r, INT if a.dt == BOOL else a.dt)


@model(np.dot, np.matmul)
def _matmul(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.o.ndim == 0 or b.o.ndim == 0:
        return binop('*', a, b)
    dt = _promote(a.dt, b.dt)
    A = a.o if a.o.ndim > 1 else a.o[np.newaxis, :]
    B = b.o if b.o.ndim > 1 else b.o[:, np.newaxis]
    if A.shape[-1] != B.shape[0]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    r = o_empty((A.shape[0], B.shape[1]))
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            r[i, j] = sum_list([binop('*', A[i, q], B[q, j]) for q in range(B.shape[0])]) \
                if B.shape[0] else dt.type(0)
    if a.o.ndim == 1 and b.o.ndim == 1:
        return r[0, 0]
    if a.o.ndim == 1:
        r = r[0]
    elif b.o.ndim == 1:
        r = r[:, 0]
    return Arr.new(r, dt)


@model(np.linalg.norm)
def _norm(a, ord=None, axis=None, keepdims=False):
    a = asarr(a)
    if axis is not None or keepdims or not (ord is None or (ord == 2 and a.o.ndim == 1)):
        raise EngineError('norm options')
    s = sum_list([binop('*', x, x) for x in a.o.reshape(-1)])
    return V.lin_sqrt(s) if isinstance(s, Lin) else lift(np.sqrt, s)


@model(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = coerce(a), coerce(b)

    def f(x, y):
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            return np.isclose(x, y, rtol, atol)
        if isinstance(x, Lin) or isinstance(y, Lin):
            d = V.sabs(binop('-', x, y))
            t = binop('+', atol, binop('*', rtol, V.sabs(y)))
            return binop('<=', d, t)
        return lift(lambda p, q: bool(np.isclose(p, q, rtol, atol)), x, y)
    return elementwise(np.isclose, (a, b), f, BOOL)


@model(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = _isclose(a, b, rtol, atol)
    return _all(r) if isinstance(r, Arr) else r


@model(np.array_equal)
def _array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.o.shape != b.o.shape:
        return False
    return _all(binop('==', a, b))


@model(np.where)
def _where(c, *xy):
    if not xy:
        return _nonzero(c)
    x, y = coerce(xy[0]), coerce(xy[1])
    c = coerce(c)
    if isinstance(c, Choice):
        c = deref(c)
    dt = _promote(x.dt if isinstance(x, Arr) else elem_dtype(x), y.dt if isinstance(y, Arr) else elem_dtype(y))
    return elementwise(np.where, (c, x, y), lambda p, q, r: ite(truth_lit(p), q, r), dt)


def bool_arr(a):
    a = asarr(a)
    r = o_empty(a.o.shape)
    p, q = r.reshape(-1), a.o.reshape(-1)
    for i in range(p.size):
        p[i] = mkbool(truth_lit(q[i]))
    return Arr.new(r, BOOL)


@model(np.nonzero, np.flatnonzero)
def _nonzero(c):
    return wrap(np.nonzero(concretise(bool_arr(c)).native()))


NP[np.flatnonzero] = lambda c: wrap(np.flatnonzero(concretise(bool_arr(c)).native()))


@model(np.argwhere)
def _argwhere(c):
    return wrap(np.argwhere(concretise(bool_arr(c)).native()))


@model(np.isin, np.in1d)
def _isin(a, b, invert=False, **k):
    b = list(asarr(b).o.reshape(-1))
    a = coerce(a)

    def f(x):
        l = truth_lit(contains(b, x))
        return mkbool(l ^ 1 if invert else l)
    if not isinstance(a, Arr):
        return f(a)
    return elementwise(np.isin, (a,), f, BOOL)


@model(np.abs, np.absolute, np.fabs)
def _abs(a):
    a = coerce(a)
    if isinstance(a, Arr):
        return elementwise(np.abs, (a,), V.sabs)
    return V.sabs(a)


@model(np.sqrt)
def _sqrt(a):
    a = coerce(a)
    f = lambda x: V.lin_sqrt(x) if isinstance(x, Lin) else lift(np.sqrt, x)
    return elementwise(np.sqrt, (a,), f) if isinstance(a, Arr) else f(a)


@model(np.square)
def _square(a):
    return binop('*', a, a)


@model(np.logical_and)
def _land(a, b):
    return elementwise(np.logical_and, (coerce(a), coerce(b)),
                       lambda x, y: mkbool(AND(truth_lit(x), truth_lit(y))), BOOL)


@model(np.logical_or)
def _lor(a, b):
    return elementwise(np.logical_or, (coerce(a), coerce(b)),
                       lambda x, y: mkbool(OR(truth_lit(x), truth_lit(y))), BOOL)


@model(np.logical_not)
def _lnot(a):
    return elementwise(np.logical_not, (coerce(a),), lambda x: mkbool(truth_lit(x) ^ 1), BOOL)


@model(np.invert)
def _inv(a):
    return unop('~', a)


@model(np.minimum)
def _minimum(a, b):
    return elementwise(np.minimum, (coerce(a), coerce(b)), V.smin)


@model(np.maximum)
def _maximum(a, b):
    return elementwise(np.maximum, (coerce(a), coerce(b)), V.smax)


@model(np.array)
def _array(x, dtype=None, *a, **k):
    k.pop('copy', None)
    return array(x, dtype, **k)


@model(np.asarray)
def _asarray(x, dtype=None, **k):
    if isinstance(x, Arr) and (dtype is None or np.dtype(dtype) == x.dt):
        return x
    return array(x, dtype)


@model(np.copy)
def _copy(x, *a, **k):
    if isinstance(x, Arr):
        return x.copy()
    return array(x)


@model(np.full)
def _full(shape, v, dtype=None, **k):
    dt = np.dtype(dtype) if dtype is not None else elem_dtype(v)
    r = o_empty(concretise(shape))
    r.fill(cast(v, dt))
    return Arr.new(r, dt)


@model(np.full_like)
def _full_like(a, v, dtype=None, **k):
    return _full(a.o.shape, v, dtype or a.dt)


@model(np.zeros_like, np.empty_like)
def _zl(a, dtype=None, **k):
    return Arr.of(np.zeros(asarr(a).o.shape, dtype or asarr(a).dt))


@model(np.ones_like)
def _ol(a, dtype=None, **k):
    return Arr.of(np.ones(asarr(a).o.shape, dtype or asarr(a).dt))


@model(np.shape)
def _shape(a):
    return asarr(a).o.shape


@model(np.size)
def _size(a, axis=None):
    a = asarr(a)
    return a.o.size if axis is None else a.o.shape[axis]


@model(np.ndim)
def _ndim(a):
    return asarr(a).o.ndim


@model(np.isnan)
def _isnan(a):
    f = lambda x: False if isinstance(x, (Lin, SB)) else lift(lambda y: bool(np.isnan(y)), x)
    a = coerce(a)
    return elementwise(np.isnan, (a,), f, BOOL) if isinstance(a, Arr) else f(a)


@model(np.isfinite)
def _isfinite(a):
    f = lambda x: True if isinstance(x, (Lin, SB)) else lift(lambda y: bool(np.isfinite(y)), x)
    a = coerce(a)
    return elementwise(np.isfinite, (a,), f, BOOL) if isinstance(a, Arr) else f(a)


@model(np.around, np.round)
def _around(a, decimals=0, **k):
    def f(x):
        if isinstance(x, Lin):
            raise EngineError('rounding of a real term')
        return lift(lambda y: np.around(y, decimals), x)
    a = coerce(a)
    return elementwise(lambda z: np.around(z, decimals), (a,), f) if isinstance(a, Arr) else f(a)


@model(np.empty, np.ndarray)
def _empty(shape, dtype=float, order=None, **k):
    """uninitialised memory: a value no correct caller may depend on"""
    dt = np.dtype(dtype)
    fill = np.nan if dt.kind == 'f' else (-987654 % 251 if dt.kind == 'u' else
                                          -99 if dt.kind == 'i' else None)
    a = np.empty(unwrap(concretise(shape)), dt)
    if fill is not None:
        a.fill(fill)
    elif dt.kind == 'b':
        a.fill(False)
    return Arr.of(a)


# structural functions: executed by numpy on the object arrays.  value: which
# positional arguments carry data (others must be concrete)
STRUCT = {np.hstack: (0,), np.vstack: (0,), np.concatenate: (0,), np.stack: (0,),
          np.column_stack: (0,), np.append: (0, 1), np.insert: (0, 2), np.delete: (0,),
          np.flip: (0,), np.flipud: (0,), np.fliplr: (0,), np.roll: (0,), np.tile: (0,),
          np.repeat: (0,), np.matlib.repmat: (0,), np.reshape: (0,), np.ravel: (0,),
          np.transpose: (0,), np.squeeze: (0,), np.diag: (0,), np.atleast_1d: (0,),
          np.atleast_2d: (0,), np.split: (0,), np.array_split: (0,), np.take: (0,),
          np.expand_dims: (0,), np.swapaxes: (0,), np.moveaxis: (0,), np.broadcast_to: (0,),
          np.diff: None, np.resize: (0,), np.rot90: (0,), np.hsplit: (0,), np.vsplit: (0,),
          np.ascontiguousarray: (0,), np.append: (0, 1), np.diagonal: (0,), np.tril: (0,),
          np.triu: (0,)}
VIEWS = {np.flip, np.flipud, np.fliplr, np.reshape, np.ravel, np.transpose, np.squeeze,
         np.expand_dims, np.swapaxes, np.moveaxis, np.split, np.array_split}


def _obj(v):
    """engine data -> object arrays inside lists/tuples"""
    if isinstance(v, Choice):
        v = deref(v)
        if isinstance(v, Choice):
            return _obj(v.concrete())
    if isinstance(v, Arr):
        return v.o
    if isinstance(v, (list, tuple)):
        if any(isinstance(x, (Arr, Choice, np.ndarray, list, tuple)) for x in v):
            return [_obj(x) for x in v]
        return build(v)[0]
    return box(v)


def _dummy(v):
    if isinstance(v, Choice):
        v = deref(v)
    if isinstance(v, Arr):
        return np.zeros(v.o.shape, v.dt)
    if isinstance(v, (list, tuple)):
        if any(isinstance(x, (Arr, Choice, np.ndarray, list, tuple)) for x in v):
            return [_dummy(x) for x in v]
        o, dt = build(v)
        return np.zeros(o.shape, dt)
    if isinstance(v, Sym):
        return np.zeros((), elem_dtype(v))
    return v


def struct_call(f, args, kw):
    data = STRUCT[f]
    d2, dm = [], []
    for i, a in enumerate(args):
        if i in data:
            d2.append(_obj(a))
            dm.append(_dummy(a))
        else:
            c = unwrap(concretise(a))
            d2.append(c)
            dm.append(c)
    kw = {k: unwrap(concretise(v)) for k, v in kw.items()}
    ref = f(*dm, **kw)
    r = f(*d2, **kw)
    if isinstance(ref, list):
        return [Arr(x, y.dtype) for x, y in zip(r, ref)]
    if isinstance(ref, np.ndarray):
        if f in VIEWS:
            return Arr(r, ref.dtype)
        if f in (np.append, np.insert, np.hstack, np.vstack, np.concatenate, np.stack,
                 np.column_stack):
            rr = o_empty(r.shape)
            p, q = rr.reshape(-1), r.reshape(-1)
            for i in range(p.size):
                p[i] = cast(q[i], ref.dtype)
            r = rr
        elif r.base is not None or any(r is x for x in d2):
            r = r.copy()
        return Arr.new(r, ref.dtype)
    return r


MUTATORS = {np.random.shuffle, np.put, np.copyto, np.fill_diagonal}


def call_np(f, args, kw):
    """numpy function (or ufunc) called by interpreted code"""
    if f in VIEWS and args and isinstance(args[0], Arr):
        return struct_call(f, args, kw)
    if any(isinstance(a, Choice) for a in args):
        args = tuple(deref(a) for a in args)
    if not is_sym(args) and not is_sym(kw):
        if f in MUTATORS:
            if f is np.fill_diagonal:
                a = args[0]
                n = a.native()
                f(n, *unwrap(tuple(args[1:])), **kw)
                note_write('a', root_of(a.o))
                a.o[...] = Arr.of(n).o
                return None
            raise EngineError('%r' % f)
        if 'out' in kw:
            raise EngineError('out= argument')
        if obj_arrays(args):
            m = NP.get(f)
            if f in STRUCT and STRUCT[f]:
                return struct_call(f, args, kw)
            if m is not None and f in (np.array, np.copy, np.asarray):
                return m(*args, **kw)
        if f is np.empty or f is np.ndarray:
            return _empty(*args, **kw)
        with np.errstate(all='ignore'):
            return wrap(f(*unwrap(tuple(args)), **unwrap(dict(kw))))
    if f in STRUCT and STRUCT[f]:
        return struct_call(f, args, kw)
    m = NP.get(f)
    if m is not None:
        return m(*args, **kw)
    if isinstance(f, np.ufunc) and not kw:
        args = tuple(coerce(a) for a in args)
        op = UFOP.get(f)
        if op and len(args) == 2:
            return binop(op, *args) if any(isinstance(a, Arr) for a in args) \
                else V.sbinop(op, *args)
        return elementwise(f, args, lambda *x: lift(f, *x) if any(isinstance(y, Sym) for y in x) else f(*x))
    if f in (np.ceil, np.floor, np.trunc, np.sign, np.deg2rad, np.rad2deg):
        return elementwise(f, args, lambda x: lift(f, x))
    # no model: case split on the symbolic data
    a = tuple(concretise(x) for x in args)
    k = {x: concretise(y) for x, y in kw.items()}
    with np.errstate(all='ignore'):
        return wrap(f(*unwrap(a), **unwrap(k)))


def obj_arrays(v):
    if isinstance(v, Arr):
        return v.dt == OBJ
    if isinstance(v, (list, tuple)):
        return any(obj_arrays(x) for x in v)
    return False
