"""Boolean guards as a hash-consed and-inverter graph, decided by z3.

A literal is an int: 2*node+sign.  0 is FALSE, 1 is TRUE.  Every guard built by
the symbolic executor is such a literal; arithmetic atoms (z3 Int/Real
comparisons) are input nodes of the graph.  `Store.check` hands the cone of a
conjunction of literals to z3 and returns its verdict.

Random simulation signatures are kept per node only as a fast witness that a
branch is *feasible* (a concrete satisfying sample was seen); infeasibility and
every final verdict always come from the solver.
"""
import ctypes
import random
import time
import z3

FALSE, TRUE = 0, 1
NSIM = 1024
MASK = (1 << NSIM) - 1


class SolverUnknown(BaseException):
    """z3 answered unknown: the check is inconclusive."""


class _Raw:
    """z3's own C functions for the clauses, without the checks of its Python
    classes (which take far longer than the solver itself)"""

    def __init__(self):
        from z3 import z3core
        P, U = ctypes.c_void_p, ctypes.c_uint
        for name, res, args in (('mk_not', P, [P, P]), ('mk_or', P, [P, U, ctypes.POINTER(P)]),
                                ('mk_const', P, [P, P, P]), ('mk_string_symbol', P, [P, ctypes.c_char_p]),
                                ('inc_ref', None, [P, P]), ('solver_assert', None, [P, P, P])):
            f = getattr(z3core, 'Z3_' + name).__defaults__[0].f
            setattr(self, name, ctypes.CFUNCTYPE(res, *args)(ctypes.cast(f, P).value))


RAW = _Raw()


class Store:
    def __init__(self, seed=1):
        self.rng = random.Random(seed)
        self.kind = ['const']        # per node
        self.a = [0]
        self.b = [0]
        self.sig = [0]               # simulation signature or None
        self.hash = {}
        self.group_of = {}           # positive literal -> group id
        self.groups = []             # list of literal lists (exactly one true)
        self.atom_of = {}            # z3 expr id -> literal
        self.atom_expr = {}          # node -> z3 expr
        self.names = {}              # node -> name
        self._z = {}                 # node -> z3 const, SMT side
        self._rawlit = {}            # literal -> address of its z3 term
        self._ctx = None
        self._zdone = set()
        self._gdone = set()
        self.solver = None
        self.has_atom = [False]
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, time=0.0, sim_sat=0,
                          cache=0)
        self.cache = {}
        self.extra = []              # z3 side constraints always asserted
        self.timeout_ms = 120000
        self.keep = []

    # -- construction ------------------------------------------------------
    def _new(self, kind, a, b, sig, atom):
        n = len(self.kind)
        self.kind.append(kind)
        self.a.append(a)
        self.b.append(b)
        self.sig.append(sig)
        self.has_atom.append(atom)
        return n

    def var(self, name):
        n = self._new('var', 0, 0, self.rng.getrandbits(NSIM), False)
        self.names[n] = name
        return 2 * n

    def onehot(self, name, k, weights=None):
        """k fresh literals, exactly one of which is true."""
        if k == 1:
            return [TRUE]
        sigs = [0] * k
        for i in range(NSIM):
            sigs[self.rng.randrange(k)] |= 1 << i
        if k == 2:
            n = self._new('var', 0, 0, sigs[0], False)
            self.names[n] = name
            return [2 * n, 2 * n + 1]
        lits = []
        for j in range(k):
            n = self._new('var', 0, 0, sigs[j], False)
            self.names[n] = '%s#%d' % (name, j)
            lits.append(2 * n)
        gid = len(self.groups)
        self.groups.append(lits)
        for l in lits:
            self.group_of[l] = gid
        return lits

    def atom(self, expr):
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return TRUE
        if z3.is_false(expr):
            return FALSE
        neg = 0
        if z3.is_not(expr):
            expr = expr.arg(0)
            neg = 1
        key = expr.get_id()
        if key not in self.atom_of:
            n = self._new('atom', 0, 0, None, True)
            self.atom_expr[n] = expr
            self.atom_of[key] = 2 * n
            self.keep.append(expr)
        return self.atom_of[key] ^ neg

    def sigof(self, lit):
        s = self.sig[lit >> 1]
        if s is None:
            return None
        return s ^ MASK if lit & 1 else s

    def AND(self, x, y):
        if x == y:
            return x
        if x > y:
            x, y = y, x
        if x == FALSE or x ^ 1 == y:
            return FALSE
        if x == TRUE:
            return y
        key = (x, y)
        r = self.hash.get(key)
        if r is not None:
            return r
        r = self._and_simplify(x, y)
        if r is None:
            sx, sy = self.sigof(x), self.sigof(y)
            at = self.has_atom[x >> 1] or self.has_atom[y >> 1]
            n = self._new('and', x, y, None if (sx is None or sy is None) else sx & sy, at)
            r = 2 * n
        self.hash[key] = r
        return r

    def _and_simplify(self, x, y):
        g = self.group_of
        kind = self.kind
        # mutually exclusive one-hot literals
        gx = g.get(x)
        if gx is not None:
            gy = g.get(y)
            if gy is not None:
                if gx == gy:
                    return FALSE
            else:
                if y & 1 and g.get(y ^ 1) == gx:
                    return x
        else:
            gy = g.get(y)
            if gy is not None and x & 1 and g.get(x ^ 1) == gy:
                return y
        for p, q in ((x, y), (y, x)):
            n = p >> 1
            if kind[n] != 'and':
                continue
            a, b = self.a[n], self.b[n]
            if not p & 1:       # p = a & b
                if q == a or q == b:
                    return p
                if q ^ 1 == a or q ^ 1 == b:
                    return FALSE
                gq = g.get(q)
                if gq is not None:
                    if g.get(a) == gq or g.get(b) == gq:
                        return FALSE     # q != a, q != b here
                    if a & 1 and g.get(a ^ 1) == gq:
                        return self.AND(b, q)
                    if b & 1 and g.get(b ^ 1) == gq:
                        return self.AND(a, q)
                # two conjunctions with contradicting members
                m = q >> 1
                if kind[m] == 'and' and not q & 1:
                    c, d = self.a[m], self.b[m]
                    for u in (a, b):
                        gu = g.get(u)
                        for v in (c, d):
                            if u ^ 1 == v:
                                return FALSE
                            if gu is not None and u != v and g.get(v) == gu:
                                return FALSE
            else:               # p = !(a & b)
                if q ^ 1 == a or q ^ 1 == b:
                    return q
                if q == a:
                    return self.AND(q, b ^ 1)
                if q == b:
                    return self.AND(q, a ^ 1)
                gq = g.get(q)
                if gq is not None:
                    ga, gb = g.get(a), g.get(b)
                    if ga == gq or gb == gq:   # q excludes a (or b)
                        return q
        return None

    def NOT(self, x):
        return x ^ 1

    def OR(self, x, y):
        return self.AND(x ^ 1, y ^ 1) ^ 1

    def ITE(self, c, x, y):
        if c == TRUE:
            return x
        if c == FALSE:
            return y
        if x == y:
            return x
        if x == TRUE:
            return self.OR(c, y)
        if x == FALSE:
            return self.AND(c ^ 1, y)
        if y == TRUE:
            return self.OR(c ^ 1, x)
        if y == FALSE:
            return self.AND(c, x)
        return self.OR(self.AND(c, x), self.AND(c ^ 1, y))

    def XOR(self, x, y):
        return self.ITE(x, y ^ 1, y)

    def IFF(self, x, y):
        return self.ITE(x, y, y ^ 1)

    def and_all(self, lits):
        lits = sorted(set(lits))
        if not lits:
            return TRUE
        while len(lits) > 1:
            nxt = [self.AND(lits[i], lits[i + 1]) for i in range(0, len(lits) - 1, 2)]
            if len(lits) % 2:
                nxt.append(lits[-1])
            lits = nxt
        return lits[0]

    def or_all(self, lits):
        ls = set(lits)
        ls.discard(FALSE)
        if not ls:
            return FALSE
        if TRUE in ls:
            return TRUE
        if len(ls) > 2:
            l0 = next(iter(ls))
            gid = self.group_of.get(l0)
            if gid is not None and len(ls) == len(self.groups[gid]) \
               and all(self.group_of.get(l) == gid for l in ls):
                return TRUE
        # complement trick for nearly full groups
        if len(ls) > 1:
            byg = {}
            for l in ls:
                gid = self.group_of.get(l)
                if gid is not None:
                    byg.setdefault(gid, []).append(l)
            for gid, members in byg.items():
                full = self.groups[gid]
                if len(members) == len(full):
                    return TRUE
                if len(members) == len(full) - 1 and len(members) > 1:
                    miss = [l for l in full if l not in ls][0]
                    ls -= set(members)
                    ls.add(miss ^ 1)
        ls = sorted(ls)
        return self.and_all([l ^ 1 for l in ls]) ^ 1

    # -- solver ------------------------------------------------------------
    def zlit(self, lit):
        if lit == TRUE:
            return z3.BoolVal(True)
        if lit == FALSE:
            return z3.BoolVal(False)
        e = self._zconst(lit >> 1)
        return z3.Not(e) if lit & 1 else e

    def _zconst(self, n):
        e = self._z.get(n)
        if e is None:
            k = self.kind[n]
            if k == 'atom':
                e = self.atom_expr[n]
            elif k == 'const':
                e = z3.BoolVal(False)
            else:
                e = z3.Bool('n%d' % n)
            self._z[n] = e
        return e

    def _raw(self, lit):
        """address of the z3 term of a literal"""
        p = self._rawlit.get(lit)
        if p is None:
            n = lit >> 1
            if lit & 1:
                p = RAW.mk_not(self._ctx, self._raw(lit ^ 1))
                RAW.inc_ref(self._ctx, p)
            elif self.kind[n] in ('atom', 'const'):
                p = self._zconst(n).as_ast().value
            else:
                p = RAW.mk_const(self._ctx, RAW.mk_string_symbol(self._ctx, b'n%d' % n), self._boolsort)
                RAW.inc_ref(self._ctx, p)
            self._rawlit[lit] = p
        return p

    def _clause(self, *lits):
        arr = (ctypes.c_void_p * len(lits))(*[self._raw(l) for l in lits])
        RAW.solver_assert(self._ctx, self._sref, RAW.mk_or(self._ctx, len(lits), arr))

    def _define_cone(self, lits):
        todo = [l >> 1 for l in lits]
        if self._ctx is None:
            self._ctx = z3.main_ctx().ref()
            self._ctx = getattr(self._ctx, 'value', self._ctx)
            self._boolsort_keep = z3.BoolSort()
            self._boolsort = self._boolsort_keep.ast.value
        self._sref = self.solver.solver.value
        done = self._zdone
        kind = self.kind
        while todo:
            n = todo.pop()
            if n in done:
                continue
            done.add(n)
            k = kind[n]
            if k == 'and':
                a, b = self.a[n], self.b[n]
                c = 2 * n
                self._clause(c ^ 1, a)
                self._clause(c ^ 1, b)
                self._clause(c, a ^ 1, b ^ 1)
                todo.append(a >> 1)
                todo.append(b >> 1)
            elif k == 'var':
                gid = self.group_of.get(2 * n)
                if gid is not None and gid not in self._gdone:
                    self._gdone.add(gid)
                    ls = list(self.groups[gid])
                    self._clause(*ls)
                    for i in range(len(ls)):
                        for j in range(i):
                            self._clause(ls[i] ^ 1, ls[j] ^ 1)
            elif k == 'atom':
                todo.extend(self._atom_deps(n))

    def _atom_deps(self, n):
        """AIG nodes referenced inside an arithmetic atom (n<k> constants)."""
        seen = set()
        out = []
        st = [self.atom_expr[n]]
        while st:
            e = st.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = e.decl().name()
                if z3.is_bool(e) and nm[0] == 'n' and nm[1:].isdigit():
                    out.append(int(nm[1:]))
            elif z3.is_app(e):
                j = self.atom_of.get(i)
                if j is not None and (j >> 1) != n:
                    out.append(j >> 1)
                st.extend(e.children())
        return out

    def _ensure_solver(self, atoms):
        if self.solver is not None and (not atoms or self._smt):
            return
        # (re)start: propositional cones use the finite-domain SAT engine
        self._smt = bool(atoms)
        self.solver = z3.Solver() if self._smt else z3.SolverFor('QF_FD')
        self.solver.set('timeout', self.timeout_ms)
        self._zdone = set()
        self._gdone = set()
        for c in self.extra:
            self.solver.add(c)

    def add_extra(self, c):
        """side constraint (range of a real input, definition of an auxiliary)."""
        self.extra.append(c)
        if self.solver is not None:
            self.solver.add(c)
        self.cache = {}

    def check(self, lits, want_model=False):
        """sat / unsat of the conjunction of lits (raises SolverUnknown)."""
        lits = sorted(set(l for l in lits if l != TRUE))
        if FALSE in lits:
            return (False, None) if want_model else False
        key = tuple(lits)
        if not want_model and key in self.cache:
            self.stats['cache'] += 1
            return self.cache[key]
        atoms = any(self.has_atom[l >> 1] for l in lits) or bool(self.extra)
        if not want_model and not atoms:
            sig = MASK
            for l in lits:
                sig &= self.sigof(l)
            if sig:
                self.stats['sim_sat'] += 1
                self.cache[key] = True
                return True
        self._ensure_solver(atoms)
        self._define_cone(lits)
        t = time.time()
        r = self.solver.check(*[self.zlit(l) for l in lits])
        self.stats['time'] += time.time() - t
        self.stats['queries'] += 1
        if r == z3.sat:
            self.stats['sat'] += 1
            self.cache[key] = True
            return (True, self.solver.model()) if want_model else True
        if r == z3.unsat:
            self.stats['unsat'] += 1
            self.cache[key] = False
            return (False, None) if want_model else False
        self.stats['unknown'] += 1
        raise SolverUnknown(self.solver.reason_unknown())

    def eval_model(self, model, lit):
        """truth of lit in a z3 model (unassigned variables read as false)."""
        memo = {}
        return self._ev(model, lit >> 1, memo) ^ bool(lit & 1)

    def _ev(self, model, n, memo):
        stack = [n]
        while stack:
            m = stack[-1]
            if m in memo:
                stack.pop()
                continue
            k = self.kind[m]
            if k == 'const':
                memo[m] = False
                stack.pop()
            elif k == 'and':
                a, b = self.a[m] >> 1, self.b[m] >> 1
                miss = [q for q in (a, b) if q not in memo]
                if miss:
                    stack.extend(miss)
                    continue
                memo[m] = (memo[a] ^ bool(self.a[m] & 1)) and (memo[b] ^ bool(self.b[m] & 1))
                stack.pop()
            else:
                v = model.eval(self._zconst(m), model_completion=True)
                memo[m] = z3.is_true(v)
                stack.pop()
        return memo[n]
