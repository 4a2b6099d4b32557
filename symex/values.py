"""Symbolic values: SB (boolean), FD (finite-domain union of concrete values),
Lin (multilinear real term), Choice (guarded union of object references)."""
import math
import operator
from fractions import Fraction
import numpy as np
import z3
from .aig import Store, TRUE, FALSE, SolverUnknown

FD_CAP = 700
PRUNE_ABOVE = 64
PROD_CAP = 60000


class EngineError(BaseException):
    """the encoding cannot represent this: the check is inconclusive."""


class NeedSplit(BaseException):
    def __init__(self, guards):
        self.guards = guards


class DeadPath(BaseException):
    pass


class Overflow(BaseException):
    pass


class Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class Eng:
    """global state of the running symbolic execution."""
    store = None
    pc = TRUE
    levels = []


E = Eng()


def reset(seed=1):
    E.store = Store(seed)
    PRUNED.clear()
    E.pc = TRUE
    E.levels = []


def AND(*ls):
    s = E.store
    r = TRUE
    for l in ls:
        r = s.AND(r, l)
    return r


def OR(*ls):
    return E.store.or_all(ls)


def feasible(lit):
    """is lit possible under the current path condition?"""
    if lit == FALSE:
        return False
    if lit == TRUE:
        return True
    return E.store.check([E.pc, lit])


def decide(lit):
    """True / False when the path condition settles lit, else None."""
    if lit == TRUE:
        return True
    if lit == FALSE:
        return False
    if not feasible(lit):
        return False
    if not feasible(lit ^ 1):
        return True
    return None


def branch(lit):
    d = decide(lit)
    if d is None:
        raise NeedSplit([lit, lit ^ 1])
    return d


# ---------------------------------------------------------------- symbols
class Sym:
    __array_ufunc__ = None
    __slots__ = ()

    def __bool__(self):
        return branch(truth_lit(self))

    def __hash__(self):
        return hash(self.concrete())

    def __index__(self):
        return operator.index(self.concrete())

    def __int__(self):
        return int(self.concrete())

    def __float__(self):
        return float(self.concrete())

    def concrete(self):
        raise EngineError('cannot concretise %r' % (self,))

    def __add__(self, o): return binop('+', self, o)
    def __radd__(self, o): return binop('+', o, self)
    def __sub__(self, o): return binop('-', self, o)
    def __rsub__(self, o): return binop('-', o, self)
    def __mul__(self, o): return binop('*', self, o)
    def __rmul__(self, o): return binop('*', o, self)
    def __truediv__(self, o): return binop('/', self, o)
    def __rtruediv__(self, o): return binop('/', o, self)
    def __floordiv__(self, o): return binop('//', self, o)
    def __rfloordiv__(self, o): return binop('//', o, self)
    def __mod__(self, o): return binop('%', self, o)
    def __rmod__(self, o): return binop('%', o, self)
    def __pow__(self, o): return binop('**', self, o)
    def __rpow__(self, o): return binop('**', o, self)
    def __and__(self, o): return binop('&', self, o)
    def __rand__(self, o): return binop('&', o, self)
    def __or__(self, o): return binop('|', self, o)
    def __ror__(self, o): return binop('|', o, self)
    def __xor__(self, o): return binop('^', self, o)
    def __neg__(self): return unop('-', self)
    def __pos__(self): return self
    def __invert__(self): return unop('~', self)
    def __abs__(self): return sabs(self)
    def __eq__(self, o): return binop('==', self, o)
    def __ne__(self, o): return binop('!=', self, o)
    def __lt__(self, o): return binop('<', self, o)
    def __le__(self, o): return binop('<=', self, o)
    def __gt__(self, o): return binop('>', self, o)
    def __ge__(self, o): return binop('>=', self, o)

    def __round__(self, *a):
        return lift(lambda x: round(x, *a), self)

    def __iter__(self):
        return iter(self.concrete())

    def __len__(self):
        return len(self.concrete())


class SB(Sym):
    __slots__ = ('lit',)

    def __init__(self, lit):
        self.lit = lit

    def concrete(self):
        return branch(self.lit)

    def __repr__(self):
        return 'SB(%d)' % self.lit

    __hash__ = Sym.__hash__


class FD(Sym):
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def concrete(self):
        return pick(self.alts)

    def __repr__(self):
        return 'FD(%s)' % ','.join(repr(v) for v, _ in self.alts[:8])

    __hash__ = Sym.__hash__


class Choice(Sym):
    """one of several object references"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def concrete(self):
        return pick(self.alts)

    def __repr__(self):
        return 'Choice(%s)' % ','.join(type(v).__name__ for v, _ in self.alts[:8])

    __hash__ = Sym.__hash__


def pick(alts):
    """the single feasible alternative, or split on which one it is."""
    if len(alts) == 1:
        return alts[0][0]
    ok = possible(alts)
    if len(ok) == 1:
        return ok[0][0]
    if not ok:
        raise DeadPath()
    raise NeedSplit([l for _, l in ok])


def mkbool(lit):
    if lit == TRUE:
        return True
    if lit == FALSE:
        return False
    return SB(lit)


def _key(v):
    t = type(v)
    if t is float or t is np.float64:
        if v != v:
            return (t, 'nan')
        if v == 0:
            return (t, 0.0, math.copysign(1, v))
        return (t, v)
    try:
        hash(v)
        return (t, v)
    except TypeError:
        return (t, id(v))


def mkfd(pairs):
    """pairs: (value, lit) -> FD / SB / plain value."""
    d = {}
    for v, l in pairs:
        if l == FALSE:
            continue
        k = _key(v)
        e = d.get(k)
        if e is None:
            d[k] = (v, [l])
        else:
            e[1].append(l)
    if len(d) == 1:
        return next(iter(d.values()))[0]
    if not d:
        raise DeadPath()
    vals = [v for v, _ in d.values()]
    if all(isinstance(v, (bool, np.bool_)) for v in vals):
        ts = []
        for v, ls in d.values():
            if v:
                ts += ls
        return mkbool(E.store.or_all(ts))
    orr = E.store.or_all
    if len(d) > 20 * FD_CAP:
        raise Overflow()
    alts = [(v, ls[0] if len(ls) == 1 else orr(ls)) for v, ls in d.values()]
    alts = [(v, l) for v, l in alts if l != FALSE]
    if len(alts) > PRUNE_ABOVE and len(alts) > 1:
        keep = feasible_set([l for _, l in alts])
        if not keep:
            raise DeadPath()
        alts = [alts[i] for i in keep]
    if len(alts) > FD_CAP:
        raise Overflow()
    if len(alts) == 1:
        return alts[0][0]
    return FD(alts)


def alts_of(v):
    if isinstance(v, FD) or isinstance(v, Choice):
        return v.alts
    if isinstance(v, SB):
        return [(True, v.lit), (False, v.lit ^ 1)]
    if isinstance(v, Lin):
        raise Overflow()
    return [(v, TRUE)]


def combos(args):
    """list of (tuple of values, lit) over the product of alternatives."""
    cur = [((), TRUE)]
    a = E.store.AND
    for x in args:
        xs = alts_of(x)
        if len(xs) == 1:
            v = xs[0][0]
            cur = [(t + (v,), l) for t, l in cur]
            continue
        nxt = []
        for t, l in cur:
            for v, m in xs:
                q = a(l, m)
                if q != FALSE:
                    nxt.append((t + (v,), q))
        cur = nxt
        if len(cur) > PROD_CAP:
            raise Overflow()
    return cur


def lift(f, *args):
    """apply the concrete function f to every combination of values."""
    pairs = []
    bad = []
    for t, l in combos(args):
        try:
            pairs.append((f(*t), l))
        except Exception as e:
            bad.append((e, l))
    if bad:
        bl = E.store.or_all([l for _, l in bad])
        if feasible(bl):
            if not feasible(bl ^ 1):
                kinds = {type(e) for e, _ in bad}
                if len(kinds) == 1:
                    raise bad[0][0]
                raise NeedSplit([l for _, l in bad])
            raise NeedSplit([bl, bl ^ 1])
    if not pairs:
        raise DeadPath()
    return merge([(l, v) for v, l in pairs])


# ---------------------------------------------------------------- merging
SCALARS = (int, float, complex, str, bytes, type(None), np.generic, Fraction, frozenset)


def isnum(v):
    return isinstance(v, (int, float, np.number, np.bool_, Fraction))


def merge(pairs):
    """pairs: (relative guard, value); guards disjoint -> one value."""
    first = pairs[0][1]
    same = True
    for _, v in pairs:
        if v is not first:
            same = False
            break
    if same:
        return first
    pairs = [p for p in pairs if p[0] != FALSE]
    if not pairs:
        raise DeadPath()
    if len(pairs) == 1:
        return pairs[0][1]
    allbool = allscal = alltup = True
    haslin = hassym = False
    for _, v in pairs:
        if isinstance(v, Lin):
            haslin = True
            allbool = alltup = False
        elif isinstance(v, SB):
            alltup = False
        elif isinstance(v, (bool, np.bool_)):
            alltup = False
        elif isinstance(v, FD) or isinstance(v, SCALARS):
            allbool = alltup = False
        elif isinstance(v, tuple):
            allbool = allscal = False
        else:
            allbool = allscal = alltup = False
    a = E.store.AND
    if allbool and not haslin:
        return mkbool(E.store.or_all([a(l, blit(v)) for l, v in pairs]))
    if allscal:
        if not haslin:
            flat = []
            for l, v in pairs:
                if isinstance(v, FD):
                    flat += [(x, a(l, m)) for x, m in v.alts]
                elif isinstance(v, SB):
                    flat += [(True, a(l, v.lit)), (False, a(l, v.lit ^ 1))]
                else:
                    flat.append((v, l))
            try:
                return mkfd(flat)
            except Overflow:
                pass
        if all(_lin_ok(v) for _, v in pairs):
            return lin_merge(pairs)
    if alltup and len({len(v) for _, v in pairs}) == 1 \
            and len({type(v) for _, v in pairs}) == 1:
        n = len(first)
        items = [merge([(l, v[i]) for l, v in pairs]) for i in range(n)]
        return type(first)(items) if type(first) is tuple else tuple(items)
    # references
    d = {}
    for l, v in pairs:
        xs = v.alts if isinstance(v, (Choice, FD)) else alts_of(v) if isinstance(v, SB) else [(v, TRUE)]
        for x, m in xs:
            q = a(l, m)
            if q == FALSE:
                continue
            k = _key(x) if isinstance(x, SCALARS) else id(x)
            if k in d:
                d[k][1].append(q)
            else:
                d[k] = (x, [q])
    if not d:
        raise DeadPath()
    alts = [(x, E.store.or_all(ls)) for x, ls in d.values()]
    if len(alts) == 1:
        return alts[0][0]
    return Choice(alts)


def blit(v):
    """literal of a boolean value"""
    if isinstance(v, SB):
        return v.lit
    return TRUE if v else FALSE


def ite(lit, x, y):
    if lit == TRUE:
        return x
    if lit == FALSE:
        return y
    return merge([(lit, x), (lit ^ 1, y)])


# ---------------------------------------------------------------- Lin
class Lin(Sym):
    """const + sum coef*key ; key = AIG literal (int) or ('z', id) real term."""
    __slots__ = ('c', 't')
    exprs = {}

    def __init__(self, c, t):
        self.c = c
        self.t = t

    def __repr__(self):
        return 'Lin(%s,%d terms)' % (float(self.c), len(self.t))

    __hash__ = Sym.__hash__

    def concrete(self):
        if not self.t:
            return float(self.c)
        raise EngineError('real-valued term needs a concrete value')

    def z(self):
        parts = []
        for k, v in self.t.items():
            if isinstance(k, int):
                parts.append(z3.If(E.store.zlit(k), z3.RealVal(v), z3.RealVal(0)))
            else:
                parts.append(z3.RealVal(v) * Lin.exprs[k])
        parts.append(z3.RealVal(self.c))
        return z3.Sum(*parts) if len(parts) > 1 else parts[0]

    def bounds(self):
        """interval (None = unbounded)"""
        lo = hi = self.c
        groups = {}
        g = E.store.group_of
        for k, v in self.t.items():
            if not isinstance(k, int):
                r = RANGES.get(k)
                if r is None:
                    return None, None
                lo += min(v * r[0], v * r[1])
                hi += max(v * r[0], v * r[1])
                continue
            gid = g.get(k)
            if gid is None:
                lo += min(v, 0)
                hi += max(v, 0)
            else:
                groups.setdefault(gid, []).append(v)
        for gid, vs in groups.items():
            ext = [] if len(vs) == len(E.store.groups[gid]) else [0]
            lo += min(vs + ext)
            hi += max(vs + ext)
        return lo, hi


RANGES = {}


def real_var(name, lo=None, hi=None):
    e = z3.Real(name)
    k = ('z', e.get_id())
    Lin.exprs[k] = e
    if lo is not None:
        E.store.add_extra(e >= z3.RealVal(Fraction(lo)))
    if hi is not None:
        E.store.add_extra(e <= z3.RealVal(Fraction(hi)))
    if lo is not None and hi is not None:
        RANGES[k] = (Fraction(lo), Fraction(hi))
    return Lin(Fraction(0), {k: Fraction(1)})


def zkey(expr):
    k = ('z', expr.get_id())
    Lin.exprs[k] = expr
    return k


def _finite(v):
    return isinstance(v, (int, np.integer, bool, np.bool_, Fraction)) or \
        (isinstance(v, (float, np.floating)) and math.isfinite(v))


def _lin_ok(v):
    if isinstance(v, (Lin, SB)):
        return True
    if isinstance(v, FD):
        return all(_finite(x) for x, _ in v.alts)
    return _finite(v)


def frac(v):
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, np.integer):
        return Fraction(int(v))
    if isinstance(v, np.floating):
        return Fraction(float(v))
    return Fraction(v)


def tolin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, SB):
        if v.lit & 1:
            return Lin(Fraction(1), {v.lit ^ 1: Fraction(-1)})
        return Lin(Fraction(0), {v.lit: Fraction(1)})
    if isinstance(v, FD):
        alts = []
        for x, l in v.alts:
            if not _finite(x):
                if feasible(l):
                    raise NeedSplit([l, l ^ 1])
                continue
            alts.append((frac(x), l))
        # take the value with no one-hot literal (or the first) as constant
        c = Fraction(0)
        t = {}
        # Only literals known to partition keep linear independence small:
        base = alts[0][0]
        c = base
        for x, l in alts[1:]:
            _acc(t, l, x - base)
        return _norm(c, t)
    if not _finite(v):
        raise EngineError('non-finite value in a linear term')
    return Lin(frac(v), {})


def _acc(t, k, v):
    if isinstance(k, int) and k == FALSE:
        return
    n = t.get(k, 0) + v
    if n == 0:
        t.pop(k, None)
    else:
        t[k] = n


def _norm(c, t):
    """positive literals only; one member of each one-hot group eliminated"""
    r = {}
    g = E.store.group_of
    for k, v in t.items():
        if isinstance(k, int):
            if k == TRUE:
                c += v
                continue
            if k & 1:
                c += v
                k ^= 1
                v = -v
            gid = g.get(k)
            if gid is not None:
                grp = E.store.groups[gid]
                if k == grp[0]:
                    c += v
                    for m in grp[1:]:
                        _acc(r, m, -v)
                    continue
        _acc(r, k, v)
    return _lin(c, r)


def _lin(c, t):
    return Lin(Fraction(c), t)


def lin_merge(pairs):
    c = Fraction(0)
    t = {}
    # one branch as the base so that guards need not be exhaustive syntactically
    base = tolin(pairs[0][1])
    c, t = base.c, dict(base.t)
    for l, v in pairs[1:]:
        d = lin_add(tolin(v), base, -1)
        m = lin_scale_lit(d, l)
        c += m.c
        for k, x in m.t.items():
            _acc(t, k, x)
    return _norm(c, t)


def lin_scale_lit(a, l):
    t = {}
    _acc(t, l, a.c)
    for k, v in a.t.items():
        if isinstance(k, int):
            _acc(t, E.store.AND(k, l), v)
        else:
            _acc(t, zkey(z3.If(E.store.zlit(l), Lin.exprs[k], z3.RealVal(0))), v)
    return _norm(Fraction(0), t)


def lin_add(a, b, s=1):
    t = dict(a.t)
    for k, v in b.t.items():
        _acc(t, k, s * v)
    return Lin(a.c + s * b.c, t)


def lin_scale(a, f):
    if f == 0:
        return Lin(Fraction(0), {})
    return Lin(a.c * f, {k: v * f for k, v in a.t.items()})


def lin_mul(a, b):
    if not a.t:
        return lin_scale(b, a.c)
    if not b.t:
        return lin_scale(a, b.c)
    if len(a.t) * len(b.t) > 20000:
        raise EngineError('product of large terms')
    c = a.c * b.c
    t = {}
    for k, v in a.t.items():
        _acc(t, k, v * b.c)
    for k, v in b.t.items():
        _acc(t, k, v * a.c)
    for k, v in a.t.items():
        for m, w in b.t.items():
            if isinstance(k, int) and isinstance(m, int):
                _acc(t, E.store.AND(k, m), v * w)
            elif isinstance(k, int):
                _acc(t, zkey(z3.If(E.store.zlit(k), Lin.exprs[m], z3.RealVal(0))), v * w)
            elif isinstance(m, int):
                _acc(t, zkey(z3.If(E.store.zlit(m), Lin.exprs[k], z3.RealVal(0))), v * w)
            else:
                x, y = Lin.exprs[k], Lin.exprs[m]
                if k > m:
                    x, y = y, x
                _acc(t, zkey(x * y), v * w)
    return _norm(c, t)


def lin_out(a):
    if not a.t:
        return float(a.c)
    return a


def lin_cmp(op, a, b):
    d = lin_add(tolin(a), tolin(b), -1)
    if not d.t:
        z = d.c
        return {'==': z == 0, '!=': z != 0, '<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0}[op]
    lo, hi = d.bounds()
    if lo is not None:
        if op == '<' and hi < 0 or op == '<=' and hi <= 0 or op == '>' and lo > 0 \
           or op == '>=' and lo >= 0 or op == '!=' and (lo > 0 or hi < 0):
            return True
        if op == '<' and lo >= 0 or op == '<=' and lo > 0 or op == '>' and hi <= 0 \
           or op == '>=' and hi < 0 or op == '==' and (lo > 0 or hi < 0):
            return False
    # few literal keys: finite enumeration is cheaper as propositional logic
    if all(isinstance(k, int) for k in d.t) and len(d.t) <= 6:
        return mkbool(_enum_cmp(op, d))
    # normalise the leading coefficient so that equal comparisons share an atom
    k0 = min(d.t, key=lambda k: (0, k) if isinstance(k, int) else (1, k[1]))
    s = abs(d.t[k0])
    d = lin_scale(d, 1 / s)
    if d.t[k0] < 0:
        d = lin_scale(d, Fraction(-1))
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
    d = Lin(d.c, dict(sorted(d.t.items(), key=lambda kv: (0, kv[0]) if isinstance(kv[0], int) else (1, kv[0][1]))))
    z = Lin(Fraction(0), d.t).z()
    r = z3.RealVal(-d.c)
    if op in ('<', '>='):
        at = E.store.atom(z >= r)
        return mkbool(at if op == '>=' else at ^ 1)
    if op in ('<=', '>'):
        at = E.store.atom(z <= r)
        return mkbool(at if op == '<=' else at ^ 1)
    ge, le = E.store.atom(z >= r), E.store.atom(z <= r)
    eq = E.store.AND(ge, le)
    return mkbool(eq if op == '==' else eq ^ 1)


def _enum_cmp(op, d):
    f = CMP[op]
    cur = [(d.c, TRUE)]
    for k, v in d.t.items():
        nxt = {}
        for c, l in cur:
            for cc, m in ((c + v, k), (c, k ^ 1)):
                q = E.store.AND(l, m)
                if q != FALSE:
                    nxt.setdefault(cc, []).append(q)
        cur = [(c, E.store.or_all(ls)) for c, ls in nxt.items()]
    return E.store.or_all([l for c, l in cur if f(c, 0)])


# ---------------------------------------------------------------- operators
CMP = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
       '>': operator.gt, '>=': operator.ge}
ARITH = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
         '//': operator.floordiv, '%': operator.mod, '**': operator.pow,
         '&': operator.and_, '|': operator.or_, '^': operator.xor,
         '<<': operator.lshift, '>>': operator.rshift, '@': operator.matmul}
OPS = dict(CMP)
OPS.update(ARITH)
arr_binop = None      # set by arr.py
arr_unop = None
Arr = None


def binop(op, a, b):
    if not isinstance(a, (Sym, Arr)) and not isinstance(b, (Sym, Arr)):
        return OPS[op](a, b)
    if isinstance(a, Choice):
        a = deref(a)
    if isinstance(b, Choice):
        b = deref(b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return arr_binop(op, a, b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return arr_binop(op, a, b)
    if isinstance(a, Choice) or isinstance(b, Choice):
        return lift(lambda x, y: binop(op, x, y), a, b)
    return sbinop(op, a, b)


def sbinop(op, a, b):
    """scalar operator with at least one symbolic operand"""
    if isinstance(a, SB) or isinstance(b, SB):
        ba = isinstance(a, (SB, bool, np.bool_))
        bb = isinstance(b, (SB, bool, np.bool_))
        if ba and bb:
            x, y = blit(a), blit(b)
            s = E.store
            if op == '&':
                return mkbool(s.AND(x, y))
            if op == '|':
                return mkbool(s.OR(x, y))
            if op in ('^', '!='):
                return mkbool(s.XOR(x, y))
            if op == '==':
                return mkbool(s.IFF(x, y))
    if isinstance(a, Lin) or isinstance(b, Lin):
        return lin_binop(op, a, b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        return OPS[op](a, b)
    if isinstance(a, (list, tuple, str, dict)) or isinstance(b, (list, tuple, dict)):
        if op in ('==', '!='):
            return lift(OPS[op], a, b)
        # e.g. list * FD
        a = a.concrete() if isinstance(a, Sym) else a
        b = b.concrete() if isinstance(b, Sym) else b
        return OPS[op](a, b)
    f = OPS[op]
    if isinstance(b, FD) and op in ('/', '//', '%'):
        b = prune(b)
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return f(a, b)
    try:
        return _sbinop(op, f, a, b)
    except Overflow:
        a2, b2 = prune(a), prune(b)
        if not isinstance(a2, Sym) and not isinstance(b2, Sym):
            return f(a2, b2)
        if a2 is not a or b2 is not b:
            try:
                return _sbinop(op, f, a2, b2)
            except Overflow:
                pass
        a, b = a2, b2
        if _lin_ok(a) and _lin_ok(b):
            return lin_binop(op, a, b)
        raise EngineError('domain too large: %s %r %r' % (op, a, b))


PRUNED = {}


def prune(v):
    """v without the alternatives the path condition excludes"""
    if not isinstance(v, FD):
        return v
    k = (E.pc, tuple(l for _, l in v.alts), id(E.store))
    keep = PRUNED.get(k)
    if keep is None:
        keep = PRUNED[k] = feasible_set([l for _, l in v.alts])
    if len(keep) == len(v.alts):
        return v
    if not keep:
        raise DeadPath()
    if len(keep) == 1:
        return v.alts[keep[0]][0]
    return FD([v.alts[i] for i in keep])


def possible(alts):
    """the (value, guard) pairs whose guard the path condition allows"""
    if len(alts) == 1:
        return [alts[0]] if feasible(alts[0][1]) else []
    return [(v, l) for v, l in alts if feasible(l)]


def feasible_set(lits):
    """indices of the literals satisfiable together with the path condition"""
    s = E.store
    pcs = s.sigof(E.pc)
    keep, rest = [], []
    for i, l in enumerate(lits):
        q = s.sigof(l)
        if l == TRUE or (q is not None and pcs is not None and not s.extra and q & pcs):
            keep.append(i)
        else:
            rest.append(i)
    while rest:
        sat, model = s.check([E.pc, s.or_all([lits[i] for i in rest])], want_model=True)
        if not sat:
            break
        memo = {}
        hit = [i for i in rest
               if s._ev(model, lits[i] >> 1, memo) ^ bool(lits[i] & 1)]
        if not hit:
            # partial model: fall back to single queries
            keep += [i for i in rest if feasible(lits[i])]
            break
        keep += hit
        hit = set(hit)
        rest = [i for i in rest if i not in hit]
    return tuple(sorted(keep))


def _sbinop(op, f, a, b):
    if op == '==' and isinstance(a, FD) and isinstance(b, FD) and len(a.alts) * len(b.alts) > 400:
        return _fast_eq(a, b)
    return lift(f, a, b)


def _fast_eq(a, b):
    d = {}
    for v, l in b.alts:
        d.setdefault(v, []).append(l)
    r = []
    for v, l in a.alts:
        for m in d.get(v, ()):
            r.append(E.store.AND(l, m))
    return mkbool(E.store.or_all(r))


def lin_binop(op, a, b):
    if op in CMP:
        if op in ('==', '!=') and (not _isnumlike(a) or not _isnumlike(b)):
            return op == '!='
        for x, y, flip in ((a, b, False), (b, a, True)):
            if not isinstance(x, Sym) and isinstance(x, (float, np.floating)) and not math.isfinite(x):
                # comparison of a finite real with inf / nan
                r = CMP[op](float(x), 0.0) if not flip else CMP[op](0.0, float(x))
                return bool(r)
        return lin_cmp(op, a, b)
    if op == '+':
        return lin_out(lin_add(tolin(a), tolin(b)))
    if op == '-':
        return lin_out(lin_add(tolin(a), tolin(b), -1))
    if op == '*':
        return lin_out(lin_mul(tolin(a), tolin(b)))
    if op == '/':
        if isinstance(b, Lin) and b.t:
            x = tolin(a)
            den = b.z()
            z0 = lin_cmp('==', b, 0)
            if blit(z0) != FALSE and feasible(blit(z0)):
                if decide(blit(z0)):
                    raise ZeroDivisionError('division by zero')
                raise NeedSplit([blit(z0), blit(z0) ^ 1])
            q = z3.FreshReal('q')
            E.store.add_extra(z3.Implies(den != 0, q * den == x.z()))
            return Lin(Fraction(0), {zkey(q): Fraction(1)})
        if isinstance(b, Sym):
            inv = lift(lambda y: (1.0 / y if isinstance(y, np.generic) else Fraction(1) / frac(y)), b) \
                if not isinstance(b, Lin) else float(1 / b.c)
            return lin_binop('*', a, inv)
        if b == 0:
            raise ZeroDivisionError('float division by zero')
        return lin_out(lin_scale(tolin(a), 1 / frac(b)))
    if op == '**':
        if not isinstance(b, Sym) and b == int(b) and 0 <= b <= 4:
            r = Lin(Fraction(1), {})
            for _ in range(int(b)):
                r = lin_mul(r, tolin(a))
            return lin_out(r)
        if not isinstance(b, Sym) and b == 0.5:
            return lin_sqrt(a)
    raise EngineError('operator %s on real terms' % op)


def _isnumlike(v):
    return isinstance(v, (Lin, SB, FD)) or isnum(v)


def lin_sqrt(a):
    x = tolin(a)
    q = z3.FreshReal('r')
    E.store.add_extra(z3.Implies(x.z() >= 0, z3.And(q >= 0, q * q == x.z())))
    return Lin(Fraction(0), {zkey(q): Fraction(1)})


def unop(op, a):
    if isinstance(a, Choice):
        a = deref(a)
        if isinstance(a, Choice):
            return lift(lambda x: unop(op, x), a)
    if isinstance(a, Arr):
        return arr_unop(op, a)
    if op == 'not':
        return mkbool(truth_lit(a) ^ 1)
    if isinstance(a, SB):
        if op == '~':
            return mkbool(a.lit ^ 1)
        return lift(lambda x: -x if op == '-' else +x, a)
    if isinstance(a, Lin):
        if op == '-':
            return lin_scale(a, Fraction(-1))
        return a
    f = {'-': operator.neg, '+': operator.pos, '~': operator.invert}[op]
    if isinstance(a, FD):
        return lift(f, a)
    return f(a)


def sabs(a):
    if isinstance(a, Lin):
        neg = lin_cmp('<', a, 0)
        return ite(blit(neg), lin_scale(a, Fraction(-1)), a) if neg is not False else a
    return lift(abs, a)


def smin(a, b):
    """elementwise minimum, Python semantics: b if b < a else a"""
    return ite(blit_truth(binop('<', b, a)), b, a)


def smax(a, b):
    return ite(blit_truth(binop('>', b, a)), b, a)


def blit_truth(v):
    return truth_lit(v)


def truth_lit(v):
    if isinstance(v, SB):
        return v.lit
    if isinstance(v, FD):
        s = [(l, bool(x)) for x, l in v.alts]
        return E.store.or_all([l for l, t in s if t]) if not all(t for _, t in s) else TRUE
    if isinstance(v, Lin):
        return blit(lin_cmp('!=', v, 0))
    if isinstance(v, Choice):
        r = []
        for x, l in possible(v.alts):
            if x is UNDEF:
                continue
            r.append(E.store.AND(l, truth_lit(x)))
        return E.store.or_all(r)
    if isinstance(v, Arr):
        if v.o.size == 1:
            return truth_lit(v.o.reshape(-1)[0])
        if v.o.size == 0:
            return FALSE
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')
    return TRUE if v else FALSE


def deref(v):
    """resolve a Choice for reading; same-shape arrays become one merged array"""
    if not isinstance(v, Choice):
        return v
    ok = possible(v.alts)
    if not ok:
        raise DeadPath()
    if len(ok) == 1:
        return ok[0][0]
    x0 = ok[0][0]
    if isinstance(x0, Arr) and all(isinstance(x, Arr) and x.o.shape == x0.o.shape for x, _ in ok):
        return Arr.merged(ok)
    if isinstance(x0, Arr) and any(isinstance(x, Arr) for x, _ in ok):
        # group by shape so that a split has as few cases as possible
        groups = {}
        for x, l in ok:
            k = ('a',) + x.o.shape if isinstance(x, Arr) else id(x)
            groups.setdefault(k, []).append(l)
        raise NeedSplit([E.store.or_all(ls) for ls in groups.values()])
    if all(isinstance(x, SCALARS) for x, _ in ok):
        return mkfd(ok)
    return Choice(ok)


def split_choice(c):
    raise NeedSplit([l for _, l in c.alts])


# ---------------------------------------------------------------- trail
class Level:
    __slots__ = ('saved', 'created')

    def __init__(self):
        self.saved = {}
        self.created = {}


def snap(kind, o):
    if kind == 'a':
        return o.copy()
    if kind == 'l':
        return list(o)
    if kind == 's':
        return set(o)
    return dict(o)


def restore(kind, o, s):
    if kind == 'a':
        o[...] = s
    elif kind == 'l':
        o[:] = s
    elif kind == 's':
        o.clear()
        o.update(s)
    else:
        o.clear()
        o.update(s)


def note_write(kind, o):
    if E.levels:
        top = E.levels[-1]
        i = id(o)
        if i not in top.saved and i not in top.created:
            top.saved[i] = (o, kind, snap(kind, o))


def created(o):
    if E.levels:
        E.levels[-1].created[id(o)] = o
    return o


def push():
    l = Level()
    E.levels.append(l)
    return l


def commit():
    l = E.levels.pop()
    if E.levels:
        p = E.levels[-1]
        for i, ent in l.saved.items():
            if i not in p.saved and i not in p.created:
                p.saved[i] = ent
        p.created.update(l.created)
    return l


def rollback():
    l = E.levels.pop()
    for o, kind, s in l.saved.values():
        restore(kind, o, s)
    return l


def capture():
    return {i: (o, kind, snap(kind, o)) for i, (o, kind, _) in E.levels[-1].saved.items()}


def apply_delta(d):
    for o, kind, s in d.values():
        note_write(kind, o)
        restore(kind, o, s)
