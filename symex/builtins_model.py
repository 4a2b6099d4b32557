"""Models of Python builtins on symbolic values, and of the environment."""
__engine__ = True
import builtins
import copy
import functools
import itertools
import math
import operator
import random
import time
import types
import numpy as np
from . import values as V
from . import arr as A
from .values import (Sym, SB, FD, Lin, Choice, E, EngineError, NeedSplit, Overflow, binop, unop,
                     merge, ite, lift, truth_lit, mkbool, created, deref, note_write, TRUE, FALSE)
from .arr import Arr, is_sym, concretise, unwrap, wrap


def install(I):
    M = I.models

    def m(*fs):
        def deco(g):
            for f in fs:
                M[f] = g
            return g
        return deco

    @m(builtins.isinstance)
    def _isinstance(x, T):
        if isinstance(x, Choice) or isinstance(x, FD):
            return lift(lambda y: _isinstance(y, T), x)
        if isinstance(x, SB):
            return isinstance(True, T) or isinstance(np.bool_(True), T)
        if isinstance(x, Lin):
            return isinstance(0.5, T) or isinstance(np.float64(0.5), T)
        if isinstance(x, Arr):
            Ts = T if isinstance(T, tuple) else (T,)
            return any(t is np.ndarray or t is object for t in Ts)
        return isinstance(x, T)

    @m(builtins.type)
    def _type(x, *a):
        if a:
            return type(x, *a)
        if isinstance(x, Arr):
            return np.ndarray
        if isinstance(x, (FD, Choice)):
            return lift(_type, x)
        if isinstance(x, SB):
            return bool
        if isinstance(x, Lin):
            return float
        return type(x)

    @m(builtins.len)
    def _len(x):
        if isinstance(x, Choice):
            x = deref(x)
        if isinstance(x, (Choice, FD)):
            return lift(_len, x)
        if isinstance(x, Arr) and x.o.ndim == 0:
            raise TypeError('len() of unsized object')
        f = getattr(type(x), '__len__', None)
        return f(x) if f is not None and not isinstance(x, Sym) else len(x)

    @m(builtins.range)
    def _range(*a):
        return range(*[operator.index(x) for x in a])

    @m(builtins.abs)
    def _abs(x):
        if isinstance(x, Choice):
            x = deref(x)
        if isinstance(x, (Sym, Arr)):
            return unop('abs', x) if isinstance(x, Arr) else V.sabs(x)
        return abs(x)

    def minmax(op, nat):
        def f(*a, **k):
            if k.get('key') is not None or not is_sym(a):
                if len(a) == 1:
                    a = (I.iterate(a[0]),)
                return nat(*a, **k)
            xs = I.iterate(a[0]) if len(a) == 1 else list(a)
            if not xs:
                if 'default' in k:
                    return k['default']
                raise ValueError('%s() iterable argument is empty' % nat.__name__)
            acc = xs[0]
            for x in xs[1:]:
                if isinstance(acc, Arr) or isinstance(x, Arr):
                    acc = x if A.truthy(binop('<' if nat is min else '>', x, acc)) else acc
                else:
                    acc = op(acc, x)
            return acc
        return f
    M[builtins.min] = minmax(V.smin, min)
    M[builtins.max] = minmax(V.smax, max)

    @m(builtins.sum)
    def _sum(xs, start=0):
        acc = start
        for x in I.iterate(xs):
            acc = binop('+', acc, x)
        return acc

    @m(builtins.any)
    def _any(xs):
        ls = []
        for x in I.iterate(xs):
            l = truth_lit(x)
            if l == TRUE:
                return True
            ls.append(l)
        return mkbool(E.store.or_all(ls))

    @m(builtins.all)
    def _all(xs):
        ls = []
        for x in I.iterate(xs):
            l = truth_lit(x)
            if l == FALSE:
                return False
            ls.append(l)
        return mkbool(E.store.and_all(ls))

    @m(builtins.sorted)
    def _sorted(xs, key=None, reverse=False):
        xs = I.iterate(xs)
        if key is not None:
            return created(I.sort_by(xs, key, reverse))
        if not is_sym(xs):
            return created(sorted(xs, reverse=reverse))
        r = A.sort_list(xs)
        return created(r[::-1] if reverse else r)

    def num(conv):
        def f(*a, **k):
            if not a:
                return conv()
            x = a[0]
            if isinstance(x, Choice):
                x = deref(x)
            if isinstance(x, Arr):
                x = x._one()
            if isinstance(x, Lin):
                if conv is float:
                    return x
                raise EngineError('int() of a real term')
            if isinstance(x, Sym):
                return lift(lambda y: conv(y, *a[1:]), x)
            return conv(x, *a[1:], **k)
        return f
    M[builtins.int] = num(int)
    M[builtins.float] = num(float)
    M[np.int32] = num(np.int32)
    M[np.int64] = num(np.int64)
    M[np.float64] = num(np.float64)

    @m(builtins.bool, np.bool_)
    def _bool(*a):
        if a and isinstance(a[0], (Sym, Arr)):
            return mkbool(truth_lit(a[0]))
        return bool(*a)

    @m(builtins.round)
    def _round(x, *a):
        if isinstance(x, Choice):
            x = deref(x)
        if isinstance(x, Arr):
            return A.call_np(np.around, (x,) + a, {})
        return lift(lambda y: round(y, *a), x) if isinstance(x, Sym) else round(x, *a)

    def text(conv):
        def f(*a):
            if not a:
                return conv()
            x = a[0]
            if isinstance(x, (FD, SB)):
                try:
                    return lift(lambda y: conv(y), x)
                except Overflow:
                    return '<text>'
            if is_sym(x):
                return '<text>'
            return conv(unwrap(x))
        return f
    M[builtins.str] = text(str)
    M[builtins.repr] = text(repr)

    @m(builtins.print)
    def _print(*a, **k):
        return None

    @m(builtins.enumerate)
    def _enumerate(xs, start=0):
        return created(list(enumerate(I.iterate(xs), start)))

    @m(builtins.zip)
    def _zip(*xs, strict=False):
        return created(list(zip(*[I.iterate(x) for x in xs], strict=strict)))

    @m(builtins.list)
    def _list(*a):
        return created(list(I.iterate(a[0])) if a else [])

    @m(builtins.tuple)
    def _tuple(*a):
        return tuple(I.iterate(a[0])) if a else ()

    def setdp(xs, cap=600):
        """possible sets of elements -> [(frozenset, lit)] (or None)"""
        st = {frozenset(): TRUE}
        for x in xs:
            if isinstance(x, Choice):
                x = deref(x)
            if isinstance(x, (Lin, Choice, Arr)):
                return None
            nxt = {}
            for s, l in st.items():
                for v, q in V.alts_of(x):
                    t = s | {v}
                    r = E.store.AND(l, q)
                    if r != FALSE:
                        nxt.setdefault(t, []).append(r)
            if len(nxt) > cap:
                return None
            st = {t: E.store.or_all(ls) for t, ls in nxt.items()}
        return list(st.items())
    I.setdp = setdp

    @m(builtins.set)
    def _set(*a):
        if not a:
            return created(set())
        xs = I.iterate(a[0])
        if is_sym(xs):
            d = setdp(xs)
            if d is not None:
                return merge([(l, created(set(t))) for t, l in d])
        return created(set(xs))

    def _unique(a, **k):
        a = A.asarr(a)
        if not k:
            d = setdp(list(a.o.reshape(-1)))
            if d is not None:
                return merge([(l, Arr.of(np.unique(np.array(sorted(t), a.dt)))) for t, l in d])
        return wrap(np.unique(unwrap(concretise(a)), **k))
    A.NP[np.unique] = _unique

    @m(np.setdiff1d)
    def _setdiff(a, b, **k):
        if not is_sym((a, b)):
            return A.wrap(np.setdiff1d(unwrap(a), unwrap(b)))
        a, b = A.asarr(a), A.asarr(b)
        if not b.sym():
            bs = set(b.native().reshape(-1).tolist())
            d = setdp(list(a.o.reshape(-1)))
            if d is not None:
                return merge([(l, Arr.of(np.array(sorted(x for x in t if x not in bs), a.dt)))
                              for t, l in d])
        return wrap(np.setdiff1d(unwrap(concretise(a)), unwrap(concretise(b))))
    A.NP[np.setdiff1d] = _setdiff

    @m(builtins.frozenset)
    def _fset(*a):
        return frozenset(I.iterate(a[0])) if a else frozenset()

    @m(builtins.dict)
    def _dict(*a, **k):
        return created(dict(*a, **k))

    @m(builtins.reversed)
    def _reversed(x):
        return created(list(I.iterate(x))[::-1])

    @m(builtins.map)
    def _map(f, *xs):
        return created([I.call(f, t, {}) for t in zip(*[I.iterate(x) for x in xs])])

    @m(builtins.filter)
    def _filter(f, xs):
        return created([x for x in I.iterate(xs)
                        if A.truthy(x if f is None else I.call(f, (x,), {}))])

    @m(builtins.iter)
    def _iter(x):
        return iter(I.iterate(x))

    @m(builtins.next)
    def _next(it, *d):
        if isinstance(it, list):
            if it:
                return it[0]
            if d:
                return d[0]
            raise StopIteration()
        return next(it, *d)

    @m(builtins.getattr)
    def _getattr(o, n, *d):
        try:
            return I.getattr(o, n)
        except AttributeError:
            if d:
                return d[0]
            raise

    @m(builtins.hasattr)
    def _hasattr(o, n):
        try:
            I.getattr(o, n)
            return True
        except AttributeError:
            return False

    @m(builtins.setattr)
    def _setattr(o, n, v):
        I.setattr(o, n, v)

    @m(builtins.callable)
    def _callable(x):
        return callable(x)

    @m(builtins.id)
    def _id(x):
        return id(x)

    @m(builtins.divmod)
    def _divmod(a, b):
        return (binop('//', a, b), binop('%', a, b))

    @m(builtins.pow)
    def _pow(a, b, *c):
        if c:
            return lift(pow, a, b, *c)
        return binop('**', a, b)

    @m(math.pow)
    def _mpow(a, b):
        if isinstance(a, Lin):
            return binop('**', a, b)
        return lift(math.pow, a, b) if is_sym((a, b)) else math.pow(a, b)

    @m(math.sqrt)
    def _sqrt(x):
        if isinstance(x, Lin):
            if V.branch(truth_lit(binop('<', x, 0))):
                raise ValueError('math domain error')
            return V.lin_sqrt(x)
        return lift(math.sqrt, x) if isinstance(x, Sym) else math.sqrt(x)

    @m(math.isclose)
    def _misclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, Lin) or isinstance(b, Lin):
            d = V.sabs(binop('-', a, b))
            mm = V.smax(V.sabs(a), V.sabs(b))
            return binop('<=', d, V.smax(binop('*', rel_tol, mm), abs_tol))
        if is_sym((a, b)):
            return lift(lambda x, y: math.isclose(x, y, rel_tol=rel_tol, abs_tol=abs_tol), a, b)
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    @m(copy.copy)
    def _copy(x):
        if isinstance(x, Arr):
            return x.copy()
        if isinstance(x, Choice):
            return _copy(x.concrete())
        if isinstance(x, Sym):
            return x
        if isinstance(x, (list, dict, set)):
            return created(copy.copy(x))
        if hasattr(x, '__dict__') and type(x).__module__ in I.modules:
            r = type(x).__new__(type(x))
            r.__dict__.update(x.__dict__)
            created(r.__dict__)
            return r
        return copy.copy(x)

    @m(copy.deepcopy)
    def _deepcopy(x, memo=None):
        memo = {} if memo is None else memo

        def rec(v):
            i = id(v)
            if i in memo:
                return memo[i]
            t = type(v)
            if t is Arr:
                r = v.copy()
                if v.dt == A.OBJ:
                    f = r.o.reshape(-1)
                    for j in range(f.size):
                        f[j] = rec(f[j])
            elif t is list:
                r = created([])
                memo[i] = r
                r.extend(rec(q) for q in v)
            elif t is dict:
                r = created({})
                memo[i] = r
                for k, q in v.items():
                    r[k] = rec(q)
            elif t is tuple:
                r = tuple(rec(q) for q in v)
            elif t is set:
                r = created(set(v))
            elif t is Choice:
                r = merge([(l, rec(q)) for q, l in v.alts])
            elif isinstance(v, (Sym, types.ModuleType, type, types.FunctionType)) or callable(v):
                return v
            elif hasattr(v, '__dict__') and t.__module__ in I.modules:
                r = t.__new__(t)
                memo[i] = r
                created(r.__dict__)
                for k, q in v.__dict__.items():
                    r.__dict__[k] = rec(q)
            else:
                return copy.deepcopy(v)
            memo[i] = r
            memo[('keep', i)] = v
            return r
        return rec(x)

    @m(functools.reduce)
    def _reduce(f, xs, *init):
        xs = I.iterate(xs)
        if init:
            acc = init[0]
        else:
            acc, xs = xs[0], xs[1:]
        for x in xs:
            acc = I.call(f, (acc, x), {})
        return acc

    for f in (operator.add, operator.sub, operator.mul, operator.truediv):
        op = {operator.add: '+', operator.sub: '-', operator.mul: '*', operator.truediv: '/'}[f]
        M[f] = (lambda op: lambda a, b: binop(op, a, b))(op)

    for name in ('permutations', 'combinations', 'product', 'chain', 'accumulate', 'islice',
                 'combinations_with_replacement', 'zip_longest', 'groupby'):
        f = getattr(itertools, name)
        M[f] = (lambda f: lambda *a, **k: created(
            list(f(*[I.iterate(x) if isinstance(x, (Arr, Sym, list, tuple)) else x for x in a], **k))))(f)

    # environment: the clock and formatting carry no information
    M[time.time] = lambda: 0.0
    M[time.perf_counter] = lambda: 0.0
    M[time.sleep] = lambda *a: None
