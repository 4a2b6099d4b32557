"""Symbolic execution of Python source (AST re-read from the tree under test).

State is kept in ordinary Python objects with an undo trail; a statement whose
evaluation needs a case distinction is undone, run again under each feasible
guard, and the resulting states are merged value by value."""
import ast
import builtins
import functools
import importlib
import itertools
import math
import operator
import os
import sys
import random
import time
import types
import numpy as np
from . import values as V
from . import arr as A
from . import liveness
from .values import (Sym, SB, FD, Lin, Choice, E, EngineError, NeedSplit, DeadPath, Overflow,
                     UNDEF, binop, unop, merge, ite, lift, truth_lit, decide, feasible, mkbool,
                     note_write, created, push, commit, rollback, capture, apply_delta, deref,
                     TRUE, FALSE)
from .arr import Arr, is_sym, concretise, unwrap, wrap

NEXT, RETURN, BREAK, CONTINUE, RAISE = 'NEXT', 'RETURN', 'BREAK', 'CONTINUE', 'RAISE'
MAXITER = 20000


class AssumeFail(Exception):
    pass


class Out:
    __slots__ = ('kind', 'val', 'rel', 'delta', 'created')

    def __init__(self, kind, val=None, rel=TRUE, delta=None, created_=None):
        self.kind = kind
        self.val = val
        self.rel = rel
        self.delta = delta or {}
        self.created = created_ or {}


OUT_NEXT = (NEXT,)


class Frame:
    __slots__ = ('vars', 'local', 'parent', 'globals', 'func', 'globnames', 'nonlocs', 'yields')

    def __init__(self, globals_, local=(), parent=None, func=None):
        self.vars = {}
        created(self.vars)
        self.local = local
        self.parent = parent
        self.globals = globals_
        self.func = func
        self.globnames = ()
        self.nonlocs = ()
        self.yields = None


SHAPE_CAP = 12


def shape_groups(v):
    """alternatives of a Choice by array shape, or None when there is only one"""
    keys = set()
    for x, _ in v.alts:
        if not isinstance(x, Arr):
            return None
        keys.add(x.o.shape)
    if len(keys) < 2:
        return None
    groups = {}
    for x, l in V.possible(v.alts):
        if True:
            groups.setdefault(x.o.shape, []).append((x, l))
    res = []
    for g in groups.values():
        l = E.store.or_all([m for _, m in g])
        res.append((l, g[0][0] if len(g) == 1 else Choice(g)))
    return res


class InterpFunc:
    def __init__(self, interp, node, globals_, parent, name):
        self.interp = interp
        self.node = node
        self.globals = globals_
        self.parent = parent
        self.__name__ = name
        self.__qualname__ = name
        self.__module__ = globals_.get('__name__')
        self.owner = None
        self._ann = False
        self.__doc__ = None
        if isinstance(node, ast.Lambda):
            self.body = None
            self.local, self.globnames, self.nonlocs, self.is_gen = set(), (), (), False
        else:
            self.body = node.body
            self.local, self.globnames, self.nonlocs, self.is_gen = scope_info(node)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        for n in self.params + self.kwonly:
            self.local.add(n)
        for n in (self.vararg, self.kwarg):
            if n:
                self.local.add(n)

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    def __call__(self, *a, **k):
        return self.interp.call_func(self, a, k)

    def __repr__(self):
        return '<interp %s>' % self.__name__


def scope_info(node):
    """assigned names, global names, nonlocal names, generator? of a function"""
    loc, glob, nonl = set(), set(), set()
    gen = [False]

    def tgt(t):
        if isinstance(t, ast.Name):
            loc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            loc.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:      # walrus inside comprehension is not supported
                walk(g.iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, (ast.For,)):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
            if n.name:
                loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in node.body:
        walk(s)
    loc -= glob
    loc -= nonl
    return loc, glob, nonl, gen[0]


BINOP = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
         ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
         ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
CMPOP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}
UNOP = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~', ast.Not: 'not'}
MUT_LIST = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse'}
MUT_DICT = {'update', 'pop', 'popitem', 'clear', 'setdefault'}
MUT_SET = {'add', 'remove', 'discard', 'pop', 'clear', 'update', 'difference_update',
           'intersection_update', 'symmetric_difference_update'}


def same_is(a, b):
    """engine boolean for `a is b`"""
    if isinstance(a, (FD, Choice)) or isinstance(b, (FD, Choice)):
        r = []
        for (x, y), l in V.combos([a if isinstance(a, (FD, Choice)) else box_(a),
                                   b if isinstance(b, (FD, Choice)) else box_(b)]):
            if x is y or (isinstance(x, bool) and isinstance(y, bool) and x == y):
                r.append(l)
        return mkbool(E.store.or_all(r))
    if isinstance(a, SB) and isinstance(b, (bool, np.bool_)):
        return a if b else unop('not', a)
    if isinstance(b, SB) and isinstance(a, (bool, np.bool_)):
        return same_is(b, a)
    return a is b


def box_(v):
    return Choice([(v, TRUE)])


class Interp:
    def __init__(self, root='/repo', stubs=None, overlay=None):
        self.root = root
        self.live = {}
        self.stubs = stubs or os.path.join(os.path.dirname(__file__), 'stubs')
        self.overlay = overlay or {}
        self.modules = {}
        self.matlib = False
        self.seen_funcs = set()
        self.branches = 0
        self.depth = 0
        self.merges = 0
        self.models = {}
        self.deadline = None
        self.stm = {}
        self.exp = {}
        self.obligations = []
        self.violations = []
        for n in dir(self):
            if n.startswith('s_'):
                self.stm[getattr(ast, n[2:])] = getattr(self, n)
            elif n.startswith('e_'):
                self.exp[getattr(ast, n[2:])] = getattr(self, n)
        from .builtins_model import install
        install(self)

    # ------------------------------------------------------------ modules
    def find(self, name):
        if name in self.overlay:
            return self.overlay[name]
        if name == 'src' or name.startswith('src.'):
            rel = name.replace('.', '/')
            if name == 'src.CLA' or name.startswith('src.CLA.'):
                if not os.path.isdir(os.path.join(self.root, 'src/CLA')):
                    base = os.path.join(self.stubs, rel[4:])
                    return base + '.py' if os.path.isfile(base + '.py') else base + '/'
            base = os.path.join(self.root, rel)
            if os.path.isfile(base + '.py'):
                return base + '.py'
            if os.path.isdir(base):
                return base + '/'
            raise ModuleNotFoundError('No module named %r' % name)
        return None

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        p = self.find(name)
        if p is None:
            m = importlib.import_module(name)
            return m
        m = types.ModuleType(name)
        m.__dict__['__interp__'] = self
        m.__file__ = p
        self.modules[name] = m
        if p.endswith('/'):
            m.__path__ = [p]
            init = p + '__init__.py'
            if not os.path.isfile(init):
                return m
            p = init
        with open(p, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, p)
        m.__dict__['__builtins__'] = builtins
        fr = Frame(m.__dict__)
        fr.vars = m.__dict__
        levels, pc = E.levels, E.pc
        E.levels, E.pc = [], TRUE
        try:
            outs = self.run_block(tree.body, fr)
        except BaseException:
            self.modules.pop(name, None)
            raise
        finally:
            E.levels, E.pc = levels, pc
        if len(outs) != 1 or outs[0].kind != NEXT:
            self.modules.pop(name, None)
            o = outs[0]
            if o.kind == RAISE:
                raise o.val
            raise EngineError('module %s has symbolic top level' % name)
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            pm = self.load(par)
            setattr(pm, leaf, m)
        return m

    # ------------------------------------------------------------ control
    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise EngineError('time limit of the configuration reached')

    def guarded(self, thunk):
        """run thunk (a statement); undo and split when it needs a case distinction"""
        push()
        depth = len(E.levels)
        try:
            outs = thunk()
        except NeedSplit as ns:
            while len(E.levels) >= depth:
                rollback()
            return self.split(ns.guards, thunk)
        except DeadPath:
            while len(E.levels) >= depth:
                rollback()
            return []
        except Overflow:
            raise EngineError('finite-domain value too large')
        except RecursionError:
            raise EngineError('recursion limit')
        except Exception as e:
            while len(E.levels) >= depth:
                commit()
            return [Out(RAISE, e)]
        commit()
        return outs

    def split(self, guards, thunk):
        self.tick()
        outs = []
        live = [g for g in guards if feasible(g)]
        if not live:
            return []
        if len(live) == 1 and decide(live[0]) is not True:
            # the guards do not cover the path condition: cannot happen for
            # well-formed splits; keep the restriction explicit
            pass
        for g in live:
            self.branches += 1
            outs += self.run_branch(g, lambda: self.guarded(thunk))
        return self.merge_outs(outs)

    def run_branch(self, rel, step, pre=None):
        push()
        depth = len(E.levels)
        old = E.pc
        E.pc = E.store.AND(E.pc, rel)
        try:
            if pre is not None:
                apply_delta(pre.delta)
                E.levels[-1].created.update(pre.created)
            outs = step()
        except BaseException:
            E.pc = old
            raise
        assert len(E.levels) == depth
        cap = capture()
        lv = rollback()
        E.pc = old
        for o in outs:
            if o.delta:
                d = dict(cap)
                d.update(o.delta)
                o.delta = d
            else:
                o.delta = cap
            if o.created:
                c = dict(lv.created)
                c.update(o.created)
                o.created = c
            else:
                o.created = lv.created
            o.rel = E.store.AND(rel, o.rel)
        return outs

    def merge_outs(self, outs):
        outs = [o for o in outs if o.rel != FALSE]
        if not outs:
            return []
        if len(outs) > 1:
            outs = self._merge(outs)
        if len(outs) == 1:
            o = outs[0]
            apply_delta(o.delta)
            if E.levels:
                E.levels[-1].created.update(o.created)
            o.delta = {}
            o.created = {}
        return outs

    def _merge(self, outs):
        # objects touched by any of the outcomes
        ids = {}
        for o in outs:
            for i, (ob, kind, _) in o.delta.items():
                ids[i] = (ob, kind)
        conts = [(i, ob, k) for i, (ob, k) in ids.items() if k in 'lds']

        def state(o, i, ob, k):
            e = o.delta.get(i)
            if e is not None:
                return e[2]
            return ob
        frames = [(i, ob, self.live[i]) for i, (ob, k) in ids.items() if k == 'f' and i in self.live]
        shapes = {}
        if frames:
            for o in outs:
                if o.kind in (RETURN, RAISE):
                    continue
                sh = []
                for i, ob, lv in frames:
                    s = state(o, i, ob, 'f')
                    for n in lv:
                        x = s.get(n)
                        if type(x) is Arr:
                            sh.append((i, n, x.o.shape))
                shapes[id(o)] = frozenset(sh)
            if len(set(shapes.values())) > SHAPE_CAP:
                shapes = {}
        groups = {}
        for o in outs:
            sig = [o.kind, shapes.get(id(o))]
            if o.kind == RAISE:
                sig.append(type(o.val))
                try:
                    sig.append(str(o.val))
                except BaseException:
                    sig.append(id(o.val))
            for i, ob, k in conts:
                if i not in o.delta and self._born(ob, o):
                    pass
                s = state(o, i, ob, k)
                if k == 'l':
                    sig.append(len(s))
                elif k == 'd':
                    try:
                        sig.append(frozenset(s.keys()))
                    except TypeError:
                        sig.append(len(s))
                else:
                    sig.append(frozenset(s))
            groups.setdefault(tuple(sig), []).append(o)
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(g[0])
                continue
            self.merges += 1
            res.append(self._merge_group(g))
        return res

    def _born(self, ob, o):
        return id(ob) in o.created

    def _merge_group(self, g):
        ids = {}
        cr = {}
        for o in g:
            for i, (ob, kind, _) in o.delta.items():
                ids[i] = (ob, kind)
            cr.update(o.created)
        delta = {}
        rels = [o.rel for o in g]
        for i, (ob, kind) in ids.items():
            if i in cr:
                # created inside one branch: only that branch's state matters
                have = [o.delta[i][2] for o in g if i in o.delta]
                if len(have) == 1:
                    delta[i] = (ob, kind, have[0])
                    continue
            sts = []
            for o in g:
                e = o.delta.get(i)
                sts.append(e[2] if e is not None else ob)
            if kind == 'a':
                new = sts[0].copy()
                nf = new.reshape(-1)
                fls = [s.reshape(-1) for s in sts]
                for j in range(nf.size):
                    x0 = fls[0][j]
                    for f in fls[1:]:
                        if f[j] is not x0:
                            m = merge(list(zip(rels, [q[j] for q in fls])))
                            nf[j] = m
                            break
            elif kind == 'l':
                new = []
                for j in range(len(sts[0])):
                    x0 = sts[0][j]
                    if all(s[j] is x0 for s in sts):
                        new.append(x0)
                    else:
                        new.append(merge(list(zip(rels, [s[j] for s in sts]))))
            elif kind == 's':
                new = set(sts[0])
            else:
                new = {}
                keys = dict.fromkeys(k for s in sts for k in s)
                for k in keys:
                    vs = [s.get(k, UNDEF) for s in sts]
                    x0 = vs[0]
                    if all(v is x0 for v in vs):
                        new[k] = x0
                    else:
                        new[k] = merge(list(zip(rels, vs)))
            delta[i] = (ob, kind, new)
        val = None
        if g[0].kind == RETURN:
            val = merge([(o.rel, o.val) for o in g])
        elif g[0].kind == RAISE:
            val = g[0].val
        return Out(g[0].kind, val, E.store.or_all(rels), delta, cr)

    def run_seq(self, steps, loop=False):
        """steps: iterable of thunks returning outs"""
        live = None
        done = []
        for step in steps:
            if live is None:
                outs = step()
                if len(outs) == 1:
                    k = outs[0].kind
                    if k == NEXT or (loop and k == CONTINUE):
                        continue
                    return outs
                if not outs:
                    return []
                live = []
                for o in outs:
                    if o.kind == NEXT or (loop and o.kind == CONTINUE):
                        o.kind = NEXT
                        live.append(o)
                    else:
                        done.append(o)
            else:
                new = []
                for o in live:
                    new += self.run_branch(o.rel, step, o)
                live = []
                for o in new:
                    if o.kind == NEXT or (loop and o.kind == CONTINUE):
                        o.kind = NEXT
                        live.append(o)
                    else:
                        done.append(o)
                if len(live) > 1:
                    live = self._merge(live)
                if len(done) > 8:
                    done = self._merge(done)
            if not live:
                break
        if live is None:
            return [Out(NEXT)]
        return self.merge_outs(live + done)

    def run_block(self, stmts, fr):
        if len(stmts) == 1:
            return self.exec_stmt(stmts[0], fr)
        return self.run_seq(self.block_steps(stmts, fr))

    def block_steps(self, stmts, fr):
        for st in stmts:
            yield lambda st=st: self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        h = self.stm.get(type(st))
        if h is None:
            raise EngineError('statement %s at line %d' % (type(st).__name__, st.lineno))
        outs = self.guarded(lambda: h(st, fr))
        lv = getattr(st, '_live', None)
        if lv is not None:
            self.live[id(fr.vars)] = lv
        return outs

    # ------------------------------------------------------------ statements
    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return [Out(NEXT)]
        self.ev(st.value, fr)
        return [Out(NEXT)]

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        if type(v) is Choice and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            gr = shape_groups(v)
            if gr is not None:
                return self.assign_groups(st.targets[0], gr, fr)
        for t in st.targets:
            self.assign(t, v, fr)
        return [Out(NEXT)]

    def assign_groups(self, target, groups, fr):
        """arrays of different shapes: one state per shape"""
        outs = []
        for l, v in groups:
            self.branches += 1
            outs += self.run_branch(l, lambda: (self.assign(target, v, fr), [Out(NEXT)])[1])
        return self.merge_outs(outs)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)
        return [Out(NEXT)]

    def s_AugAssign(self, st, fr):
        t = st.target
        op = BINOP[type(st.op)]
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            new = self.inplace(op, cur, self.ev(st.value, fr))
            self.store(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            ob = self.ev(t.value, fr)
            cur = self.getattr(ob, t.attr)
            new = self.inplace(op, cur, self.ev(st.value, fr))
            self.setattr(ob, t.attr, new)
        else:
            ob = self.ev(t.value, fr)
            ix = self.ev(t.slice, fr)
            cur = self.getitem(ob, ix)
            new = self.inplace(op, cur, self.ev(st.value, fr))
            self.setitem(ob, ix, new)
        return [Out(NEXT)]

    def inplace(self, op, cur, v):
        if isinstance(cur, Choice):
            ok = V.possible(cur.alts)
            if len(ok) == 1:
                cur = ok[0][0]
            elif any(isinstance(x, (Arr, list, dict, set)) for x, _ in ok):
                raise NeedSplit([l for _, l in ok])
        if isinstance(cur, Arr):
            r = binop(op, cur, v)
            if not isinstance(r, Arr):
                r = A.asarr(r)
            if not np.can_cast(r.dt, cur.dt, 'same_kind'):
                raise TypeError("Cannot cast ufunc output from dtype('%s') to dtype('%s') with "
                                "casting rule 'same_kind'" % (r.dt, cur.dt))
            if r.o.shape != cur.o.shape:
                raise ValueError('non-broadcastable output operand')
            A.setitem(cur, Ellipsis, r)
            return cur
        if isinstance(cur, list) and op == '+':
            note_write('l', cur)
            cur.extend(self.iterate(v))
            return cur
        if isinstance(cur, list) and op == '*':
            note_write('l', cur)
            cur *= operator.index(v)
            return cur
        if isinstance(cur, set):
            note_write('s', cur)
        elif isinstance(cur, dict):
            note_write('d', cur)
            return operator.ior(cur, v)
        elif type(cur).__module__ not in ('builtins', 'numpy') and not isinstance(cur, Sym):
            f = {'+': operator.iadd, '-': operator.isub, '*': operator.imul}.get(op)
            if f:
                return f(cur, v)
        return binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                n_after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise ValueError('not enough values to unpack')
                for x, y in zip(t.elts[:i], items[:i]):
                    self.assign(x, y, fr)
                self.assign(t.elts[i].value, created(list(items[i:len(items) - n_after])), fr)
                for x, y in zip(t.elts[i + 1:], items[len(items) - n_after:]):
                    self.assign(x, y, fr)
                return
            if len(items) != len(t.elts):
                raise ValueError('too many values to unpack (expected %d)' % len(t.elts)
                                 if len(items) > len(t.elts) else
                                 'not enough values to unpack (expected %d, got %d)'
                                 % (len(t.elts), len(items)))
            for x, y in zip(t.elts, items):
                self.assign(x, y, fr)
        else:
            raise EngineError('assignment target %s' % type(t).__name__)

    def store(self, name, v, fr):
        if name in fr.globnames:
            d = fr.globals
        elif name in fr.nonlocs:
            p = fr.parent
            while p is not None and name not in p.vars and name not in p.local:
                p = p.parent
            d = p.vars
        else:
            d = fr.vars
        note_write('f', d)
        d[name] = v

    def name(self, n, fr):
        f = fr
        if n in fr.globnames:
            f = None
        while f is not None:
            v = f.vars.get(n, UNDEF)
            if v is not UNDEF:
                if type(v) is Choice:
                    v = self.load_choice(v, n)
                return v
            if n in f.local:
                raise UnboundLocalError("cannot access local variable '%s' where it is not "
                                        "associated with a value" % n)
            f = f.parent
        g = fr.globals
        if n in g and g[n] is not UNDEF:
            v = g[n]
            return self.load_choice(v, n) if type(v) is Choice else v
        try:
            return getattr(builtins, n)
        except AttributeError:
            raise NameError("name '%s' is not defined" % n)

    def load_choice(self, v, n):
        if any(x is UNDEF for x, _ in v.alts):
            und = [l for x, l in v.alts if x is UNDEF]
            l = E.store.or_all(und)
            if V.branch(l):
                raise UnboundLocalError("cannot access local variable '%s' where it is not "
                                        "associated with a value" % n)
            rest = [(x, m) for x, m in v.alts if x is not UNDEF]
            if len(rest) == 1:
                return rest[0][0]
            return Choice(rest)
        return v

    def s_Return(self, st, fr):
        return [Out(RETURN, None if st.value is None else self.ev(st.value, fr))]

    def s_Pass(self, st, fr):
        return [Out(NEXT)]

    def s_Break(self, st, fr):
        return [Out(BREAK)]

    def s_Continue(self, st, fr):
        return [Out(CONTINUE)]

    def s_Global(self, st, fr):
        return [Out(NEXT)]

    s_Nonlocal = s_Global

    def s_Assert(self, st, fr):
        l = truth_lit(self.ev(st.test, fr))
        return self.cond(l, lambda: [Out(NEXT)],
                         lambda: [Out(RAISE, AssertionError(
                             self.ev(st.msg, fr) if st.msg is not None else 'line %d' % st.lineno))])

    def cond(self, lit, then, other):
        d = decide(lit)
        if d is True:
            return then()
        if d is False:
            return other()
        self.branches += 2
        outs = self.run_branch(lit, lambda: self.guarded(then))
        outs += self.run_branch(lit ^ 1, lambda: self.guarded(other))
        return self.merge_outs(outs)

    def s_If(self, st, fr):
        l = truth_lit(self.ev(st.test, fr))
        return self.cond(l, lambda: self.run_block(st.body, fr),
                         lambda: self.run_block(st.orelse, fr) if st.orelse else [Out(NEXT)])

    def loop_end(self, outs, orelse, fr):
        """BREAK outcomes skip the else clause"""
        if not any(o.kind == BREAK for o in outs) and not orelse:
            return outs
        if len(outs) == 1:
            o = outs[0]
            if o.kind == BREAK:
                o.kind = NEXT
                return outs
            if o.kind == NEXT and orelse:
                return self.run_block(orelse, fr)
            return outs
        res = []
        for o in outs:
            if o.kind == NEXT and orelse:
                res += self.run_branch(o.rel, lambda: self.run_block(orelse, fr), o)
            else:
                if o.kind == BREAK:
                    o.kind = NEXT
                res.append(o)
        return self.merge_outs(res)

    def s_For(self, st, fr):
        items = self.iterate(self.ev(st.iter, fr), lazy=True)

        def steps():
            n = 0
            for it in items:
                n += 1
                self.tick()
                if n > MAXITER:
                    raise EngineError('loop bound reached at line %d' % st.lineno)
                yield lambda it=it: self.loop_body(st, it, fr)
        return self.loop_end(self.run_seq(steps(), loop=True), st.orelse, fr)

    def loop_body(self, st, it, fr):
        if isinstance(st.target, ast.Name):
            self.store(st.target.id, it, fr)
            return self.run_block(st.body, fr)
        outs = self.guarded(lambda: (self.assign(st.target, it, fr), [Out(NEXT)])[1])
        if len(outs) == 1 and outs[0].kind == NEXT:
            return self.run_block(st.body, fr)
        return self.run_seq([lambda: outs, lambda: self.run_block(st.body, fr)])

    def s_While(self, st, fr):
        def test():
            l = truth_lit(self.ev(st.test, fr))
            return self.cond(l, lambda: [Out(NEXT)], lambda: [Out('EXIT')])

        def one():
            return self.run_seq([lambda: self.guarded(test), lambda: self.run_block(st.body, fr)])

        def steps():
            n = 0
            while True:
                n += 1
                self.tick()
                if n > MAXITER:
                    raise EngineError('loop bound reached at line %d' % st.lineno)
                yield one
        outs = self.run_seq(steps(), loop=True)
        for o in outs:
            if o.kind == 'EXIT':
                o.kind = NEXT
        return self.loop_end(outs, st.orelse, fr)

    def s_Raise(self, st, fr):
        if st.exc is None:
            e = fr.vars.get('__exc__')
            if e is None:
                raise RuntimeError('No active exception to reraise')
            raise e
        e = self.ev(st.exc, fr)
        if isinstance(e, type):
            e = self.call(e, (), {})
        if isinstance(e, Choice):
            e = e.concrete()
        return [Out(RAISE, e)]

    def s_Try(self, st, fr):
        outs = self.run_block(st.body, fr) if st.body else [Out(NEXT)]
        single = len(outs) == 1

        def handle(o):
            for h in st.handlers:
                ty = self.ev(h.type, fr) if h.type is not None else BaseException
                if isinstance(o.val, AssumeFail):
                    return None
                if isinstance(o.val, ty):
                    def run():
                        note_write('f', fr.vars)
                        if h.name:
                            fr.vars[h.name] = o.val
                        fr.vars['__exc__'] = o.val
                        return self.run_block(h.body, fr)
                    return run
            return None
        if single:
            o = outs[0]
            if o.kind == RAISE:
                r = handle(o)
                if r:
                    outs = r()
            elif o.kind == NEXT and st.orelse:
                outs = self.run_block(st.orelse, fr)
        else:
            res = []
            for o in outs:
                if o.kind == RAISE:
                    r = handle(o)
                    if r:
                        res += self.run_branch(o.rel, r, o)
                        continue
                elif o.kind == NEXT and st.orelse:
                    res += self.run_branch(o.rel, lambda: self.run_block(st.orelse, fr), o)
                    continue
                res.append(o)
            outs = self.merge_outs(res)
        if st.finalbody:
            if len(outs) == 1:
                o = outs[0]
                f = self.run_block(st.finalbody, fr)
                if len(f) == 1 and f[0].kind == NEXT:
                    return [Out(o.kind, o.val)]
                for q in f:
                    if q.kind == NEXT:
                        q.kind, q.val = o.kind, o.val
                return f
            res = []
            for o in outs:
                f = self.run_branch(o.rel, lambda: self.run_block(st.finalbody, fr), o)
                for q in f:
                    if q.kind == NEXT:
                        q.kind, q.val = o.kind, o.val
                res += f
            outs = self.merge_outs(res)
        return outs

    def s_With(self, st, fr):
        cms = []
        for it in st.items:
            cm = self.ev(it.context_expr, fr)
            v = type(cm).__enter__(cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            cms.append(cm)
        outs = self.run_block(st.body, fr)
        for cm in reversed(cms):
            type(cm).__exit__(cm, None, None, None)
        return outs

    def s_Import(self, st, fr):
        for al in st.names:
            if al.name.split('.')[0] == 'numpy' and 'matlib' in al.name:
                self.matlib = True
            m = self.load(al.name)
            if al.asname:
                self.store(al.asname, m, fr)
            else:
                top = al.name.split('.')[0]
                self.store(top, self.load(top), fr)
        return [Out(NEXT)]

    def s_ImportFrom(self, st, fr):
        mod = st.module or ''
        if st.level:
            pk = fr.globals.get('__name__', '').split('.')
            pk = pk[:len(pk) - st.level]
            mod = '.'.join(pk + ([st.module] if st.module else []))
        if mod == '__future__':
            return [Out(NEXT)]
        if mod == 'numpy' and any(a.name == 'matlib' for a in st.names) or mod == 'numpy.matlib':
            self.matlib = True
        m = self.load(mod)
        for al in st.names:
            if al.name == '*':
                for k, v in vars(m).items():
                    if not k.startswith('_'):
                        self.store(k, v, fr)
                continue
            if not hasattr(m, al.name):
                try:
                    v = self.load(mod + '.' + al.name)
                except ModuleNotFoundError:
                    raise ImportError("cannot import name '%s' from '%s'" % (al.name, mod))
            else:
                v = getattr(m, al.name)
            self.store(al.asname or al.name, v, fr)
        return [Out(NEXT)]

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr, st.name)
        for d in reversed(st.decorator_list):
            f = self.call(self.ev(d, fr), (f,), {})
        self.store(st.name, f, fr)
        return [Out(NEXT)]

    def make_func(self, node, fr, name):
        parent = fr if fr.vars is not fr.globals else None
        while parent is not None and parent.func == 'class':
            parent = parent.parent
        f = InterpFunc(self, node, fr.globals, parent, name)
        f.globnames = f.globnames
        a = node.args
        f.defaults = [self.ev(d, fr) for d in a.defaults]
        f.kwdefaults = {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return f

    def s_ClassDef(self, st, fr):
        bases = tuple(self.ev(b, fr) for b in st.bases)
        cf = Frame(fr.globals, (), fr if fr.vars is not fr.globals else None, 'class')
        cf.vars['__module__'] = fr.globals.get('__name__')
        cf.vars['__qualname__'] = st.name
        outs = self.run_block(st.body, cf)
        if len(outs) != 1 or outs[0].kind != NEXT:
            if outs and outs[0].kind == RAISE:
                raise outs[0].val
            raise EngineError('class body')
        ns = dict(cf.vars)
        cls = type(bases[0])(st.name, bases, ns) if bases and type(bases[0]) is not type \
            else type(st.name, bases, ns)
        for v in ns.values():
            fs = [v]
            if isinstance(v, property):
                fs = [v.fget, v.fset, v.fdel]
            elif isinstance(v, (staticmethod, classmethod)):
                fs = [v.__func__]
            for f in fs:
                if isinstance(f, InterpFunc):
                    f.owner = cls
        r = cls
        for d in reversed(st.decorator_list):
            r = self.call(self.ev(d, fr), (r,), {})
        self.store(st.name, r, fr)
        return [Out(NEXT)]

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                note_write('f', fr.vars)
                if t.id not in fr.vars:
                    raise NameError(t.id)
                del fr.vars[t.id]
            elif isinstance(t, ast.Subscript):
                ob = self.ev(t.value, fr)
                ix = concretise(self.ev(t.slice, fr))
                if isinstance(ob, Choice):
                    ob = ob.concrete()
                if isinstance(ob, list):
                    note_write('l', ob)
                elif isinstance(ob, dict):
                    note_write('d', ob)
                del ob[unwrap(ix)]
            elif isinstance(t, ast.Attribute):
                ob = self.ev(t.value, fr)
                note_write('f', ob.__dict__)
                delattr(ob, t.attr)
        return [Out(NEXT)]

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        h = self.exp.get(type(n))
        if h is None:
            raise EngineError('expression %s at line %d' % (type(n).__name__, n.lineno))
        return h(n, fr)

    def e_Constant(self, n, fr):
        return n.value

    def e_Name(self, n, fr):
        return self.name(n.id, fr)

    def e_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.store(n.target.id, v, fr)
        return v

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_List(self, n, fr):
        return created(self.elts(n.elts, fr))

    def e_Set(self, n, fr):
        return created(set(self.elts(n.elts, fr)))

    def elts(self, xs, fr):
        r = []
        for x in xs:
            if isinstance(x, ast.Starred):
                r.extend(self.iterate(self.ev(x.value, fr)))
            else:
                r.append(self.ev(x, fr))
        return r

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return created(d)

    def e_BinOp(self, n, fr):
        a = self.ev(n.left, fr)
        b = self.ev(n.right, fr)
        op = BINOP[type(n.op)]
        if op == '@':
            return A.call_np(np.matmul, (a, b), {})
        with np.errstate(all='ignore'):
            r = binop(op, a, b)
        if type(r) is list:
            created(r)
        return r

    def e_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        op = UNOP[type(n.op)]
        if op == 'not':
            if not isinstance(v, (Sym, Arr)):
                return not v
            return mkbool(truth_lit(v) ^ 1)
        return unop(op, v)

    def under(self, lit, node, fr):
        """evaluate node on the sub-path where lit holds; no side effects allowed"""
        push()
        depth = len(E.levels)
        old = E.pc
        E.pc = E.store.AND(E.pc, lit)
        try:
            v = self.ev(node, fr)
        except (EngineError, Overflow):
            raise
        except (NeedSplit, DeadPath, Exception):
            E.pc = old
            while len(E.levels) >= depth:
                rollback()
            raise NeedSplit([lit, lit ^ 1])
        E.pc = old
        l = E.levels[-1]
        if l.saved:
            rollback()
            raise NeedSplit([lit, lit ^ 1])
        commit()
        return v

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        return self.boolop(n.values, 0, isand, fr)

    def boolop(self, vals, i, isand, fr):
        v = self.ev(vals[i], fr)
        if i == len(vals) - 1:
            return v
        if not isinstance(v, (Sym, Arr)):
            if bool(v) != isand:
                return v
            return self.boolop(vals, i + 1, isand, fr)
        l = truth_lit(v)
        d = decide(l)
        if d is not None:
            if d != isand:
                return v
            return self.boolop(vals, i + 1, isand, fr)
        g = l if isand else l ^ 1
        rest = ast.BoolOp(ast.And() if isand else ast.Or(), vals[i + 1:]) if len(vals) - i > 2 else vals[i + 1]
        r = self.under(g, rest, fr)
        if isinstance(v, Arr):
            v = v.o.reshape(-1)[0]
        return ite(g, r, v)

    def e_IfExp(self, n, fr):
        t = self.ev(n.test, fr)
        if not isinstance(t, (Sym, Arr)):
            return self.ev(n.body if t else n.orelse, fr)
        l = truth_lit(t)
        d = decide(l)
        if d is not None:
            return self.ev(n.body if d else n.orelse, fr)
        a = self.under(l, n.body, fr)
        b = self.under(l ^ 1, n.orelse, fr)
        return ite(l, a, b)

    def e_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        if len(n.ops) == 1:
            return self.compare(n.ops[0], left, self.ev(n.comparators[0], fr))
        acc = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, fr)
            r = self.compare(op, left, right)
            left = right
            if not isinstance(r, (Sym, Arr)) and not isinstance(acc, (Sym, Arr)):
                if not r:
                    return r
                acc = r
            else:
                acc = mkbool(E.store.AND(truth_lit(acc), truth_lit(r)))
        return acc

    def compare(self, op, a, b):
        t = type(op)
        o = CMPOP.get(t)
        if o:
            return binop(o, a, b)
        if t is ast.Is or t is ast.IsNot:
            r = same_is(a, b)
            return r if t is ast.Is else unop('not', r) if isinstance(r, Sym) else not r
        r = A.contains(b, a)
        return r if t is ast.In else unop('not', r) if isinstance(r, Sym) else not r

    def e_Call(self, n, fr):
        f = n.func
        if isinstance(f, ast.Attribute):
            ob = self.ev(f.value, fr)
            fn = self.getmethod(ob, f.attr)
        else:
            if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
                fn_ = fr
                while fn_.func is None or not isinstance(fn_.func, InterpFunc) or fn_.func.owner is None:
                    fn_ = fn_.parent
                return super(fn_.func.owner, fn_.vars[fn_.func.params[0]])
            fn = self.ev(f, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, Choice):
                    d = d.concrete()
                for q, v in d.items():
                    if q in kw:
                        raise TypeError('got multiple values for keyword argument %r' % q)
                    kw[q] = v
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(fn, tuple(args), kw)

    def e_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        return self.getitem(self.ev(n.value, fr), self.ev(n.slice, fr))

    def e_Slice(self, n, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return slice(g(n.lower), g(n.upper), g(n.step))

    def e_Starred(self, n, fr):
        raise EngineError('starred expression')

    def e_Lambda(self, n, fr):
        return self.make_func(n, fr, '<lambda>')

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            parts.append(self.ev(v, fr))
        if not is_sym(parts):
            return ''.join(str(p) for p in parts)
        try:
            return lift(lambda *a: ''.join(str(p) for p in a), *parts)
        except Overflow:
            return '<text>'

    def e_FormattedValue(self, n, fr):
        v = self.ev(n.value, fr)
        spec = self.ev(n.format_spec, fr) if n.format_spec is not None else ''
        conv = {115: str, 114: repr, 97: ascii}.get(n.conversion)
        if is_sym(v) or is_sym(spec):
            try:
                return lift(lambda x, s: format(conv(x) if conv else x, s), v, spec) \
                    if isinstance(v, (FD, SB)) else '<text>'
            except Overflow:
                return '<text>'
        v = unwrap(v)
        return format(conv(v) if conv else v, spec)

    def comp(self, n, fr, emit):
        cf = Frame(fr.globals, set(), fr)
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    cf.local.add(x.id)

        def rec(i):
            if i == len(n.generators):
                emit(cf)
                return
            g = n.generators[i]
            for it in self.iterate(self.ev(g.iter, fr if i == 0 else cf)):
                self.assign(g.target, it, cf)
                ok = True
                for c in g.ifs:
                    if not A.truthy(self.ev(c, cf)):
                        ok = False
                        break
                if ok:
                    rec(i + 1)
        rec(0)

    def e_ListComp(self, n, fr):
        r = created([])
        try:
            self.comp(n, fr, lambda cf: r.append(self.ev(n.elt, cf)))
        except NeedSplit:
            if not any(g.ifs for g in n.generators):
                raise
            return self.comp_as_loop(n, fr)
        return r

    def comp_as_loop(self, n, fr):
        """a filter that is not settled: run the comprehension as a loop, whose
        branches are merged like those of any other loop"""
        node = getattr(n, '_loop', None)
        if node is None:
            body = [ast.Expr(ast.Call(ast.Attribute(ast.Name('.r', ast.Load()), 'append', ast.Load()), [n.elt], []))]
            for i, g in reversed(list(enumerate(n.generators))):
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                body = [ast.For(g.target, ast.Name('.0', ast.Load()) if i == 0 else g.iter, body, [])]
            body = [ast.Assign([ast.Name('.r', ast.Store())], ast.List([], ast.Load()))] + body + \
                [ast.Return(ast.Name('.r', ast.Load()))]
            node = ast.FunctionDef('<listcomp>', ast.arguments([], [ast.arg('.0')], None, [], [], None, []), body, [])
            ast.copy_location(node, n)
            for x in ast.walk(node):
                if not hasattr(x, 'lineno'):
                    ast.copy_location(x, n)
            n._loop = node
        f = self.make_func(node, fr, '<listcomp>')
        return self.call_func(f, (self.ev(n.generators[0].iter, fr),), {})

    def e_GeneratorExp(self, n, fr):
        return self.e_ListComp(n, fr)

    def e_SetComp(self, n, fr):
        r = created(set())
        self.comp(n, fr, lambda cf: r.add(self.ev(n.elt, cf)))
        return r

    def e_DictComp(self, n, fr):
        r = created({})

        def emit(cf):
            r[self.ev(n.key, cf)] = self.ev(n.value, cf)
        self.comp(n, fr, emit)
        return r

    def e_Yield(self, n, fr):
        v = self.ev(n.value, fr) if n.value is not None else None
        f = fr
        while f.yields is None:
            f = f.parent
        note_write('l', f.yields)
        f.yields.append(v)
        return None

    def e_YieldFrom(self, n, fr):
        f = fr
        while f.yields is None:
            f = f.parent
        note_write('l', f.yields)
        f.yields.extend(self.iterate(self.ev(n.value, fr)))
        return None

    # ------------------------------------------------------------ objects
    def iterate(self, v, lazy=False):
        """list of the items of an iterable"""
        if isinstance(v, Choice):
            v = deref(v)
            if isinstance(v, Choice):
                v = v.concrete()
        if isinstance(v, (list, tuple)):
            if lazy and isinstance(v, list):
                return _listiter(v)
            return list(v)
        if isinstance(v, Arr):
            return list(v)
        if isinstance(v, Sym):
            return list(v.concrete())
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, np.ndarray):
            return list(Arr.of(v))
        if isinstance(v, np.flatiter):
            return list(v)
        it = iter(v)
        if isinstance(it, itertools.count):
            return it
        return list(it)

    def getmethod(self, ob, name):
        if type(ob) is Choice:
            ob = deref(ob)
            if type(ob) is Choice:
                ats = [(self.getattr(x, name), l) for x, l in ob.alts]
                if any(callable(x) for x, _ in ats):
                    fns = {getattr(x, '__func__', x) if not isinstance(x, types.BuiltinMethodType) else id(x)
                           for x, _ in ats}
                    raise NeedSplit([l for _, l in ob.alts])
                return merge([(l, x) for x, l in ats])
        return self.getattr(ob, name)

    def sort_by(self, xs, key, reverse=False):
        """the list xs sorted by key"""
        if isinstance(key, operator.attrgetter):
            name, = key.__reduce__()[1]
            keys = [self.getattr(x, name) for x in xs]
        else:
            keys = [self.call(key, (x,), {}) for x in xs]
        keys = [k.concrete() if isinstance(k, Sym) else k for k in keys]
        return [xs[i] for i in sorted(range(len(xs)), key=keys.__getitem__, reverse=bool(reverse))]

    def getattr(self, ob, name):
        t = type(ob)
        if t is Choice:
            ob = deref(ob)
            t = type(ob)
            if t is Choice:
                vals = []
                for x, l in ob.alts:
                    try:
                        vals.append((l, self.getattr(x, name)))
                    except (AttributeError, NeedSplit):
                        raise NeedSplit([m for _, m in ob.alts])
                if any(isinstance(v, (types.MethodType, types.BuiltinMethodType)) for _, v in vals):
                    raise NeedSplit([m for _, m in ob.alts])
                return merge(vals)
        if t is FD or t is SB:
            if name in ('size', 'shape', 'ndim', 'dtype', 'T', 'real'):
                return lift(lambda x: getattr(np.asarray(x)[()], name), ob)
            if name == 'item':
                return lambda: lift(lambda x: x.item() if hasattr(x, 'item') else x, ob)
            if name == 'astype':
                return lambda dt: A.cast(ob, np.dtype(dt))
            return getattr(ob.concrete(), name)
        if t is Lin:
            if name == 'size':
                return 1
            if name == 'item':
                return lambda: ob
            raise AttributeError(name)
        if ob is np and name == 'matlib' and not self.matlib:
            raise AttributeError("module 'numpy' has no attribute 'matlib'")
        v = getattr(ob, name)
        if type(v) is Choice:
            if any(x is UNDEF for x, _ in v.alts):
                und = E.store.or_all([l for x, l in v.alts if x is UNDEF])
                if V.branch(und):
                    raise AttributeError("'%s' object has no attribute '%s'" % (t.__name__, name))
                rest = [(x, m) for x, m in v.alts if x is not UNDEF]
                return rest[0][0] if len(rest) == 1 else Choice(rest)
        elif v is UNDEF:
            raise AttributeError("'%s' object has no attribute '%s'" % (t.__name__, name))
        elif type(v) is np.ndarray:
            return Arr.of(v)
        return v

    def setattr(self, ob, name, v):
        if isinstance(ob, Choice):
            ok = V.possible(ob.alts)
            if len(ok) == 1:
                return self.setattr(ok[0][0], name, v)
            for x, l in ok:
                if isinstance(getattr(type(x), name, None), property) or not hasattr(x, '__dict__'):
                    raise NeedSplit([m for _, m in ok])
            for x, l in ok:
                note_write('f', x.__dict__)
                x.__dict__[name] = merge([(l, v), (l ^ 1, x.__dict__.get(name, UNDEF))])
            return
        d = getattr(type(ob), name, None)
        if d is not None and hasattr(type(d), '__set__'):
            type(d).__set__(d, ob, v)
            return
        if isinstance(ob, Sym) or isinstance(ob, Arr):
            raise EngineError('attribute store on %s' % type(ob).__name__)
        if isinstance(ob, types.ModuleType) or isinstance(ob, type):
            setattr(ob, name, v)
            return
        sa = type(ob).__setattr__
        if isinstance(sa, InterpFunc):
            sa(ob, name, v)
            return
        dd = getattr(ob, '__dict__', None)
        if dd is None:
            object.__setattr__(ob, name, v)
            return
        note_write('f', dd)
        dd[name] = v

    def getitem(self, ob, ix):
        if type(ob) is Choice:
            ob = deref(ob)
            if type(ob) is Choice:
                vals = []
                for x, l in ob.alts:
                    try:
                        vals.append((l, self.getitem(x, ix)))
                    except NeedSplit:
                        raise
                    except Exception:
                        raise NeedSplit([m for _, m in ob.alts])
                return merge(vals)
        if type(ob) is Arr:
            return A.getitem(ob, ix)
        if isinstance(ix, Choice):
            ix = deref(ix)
        if isinstance(ix, Arr):
            ix = ix._one() if ix.o.ndim == 0 or (ix.o.size == 1 and isinstance(ob, (list, tuple))
                                                 and ix.o.ndim == 0) else ix
            if isinstance(ix, Arr) and isinstance(ob, (list, tuple)):
                raise TypeError('only integer scalar arrays can be converted to a scalar index')
        if isinstance(ix, slice) and is_sym(ix):
            ix = concretise(ix)
        if isinstance(ob, Sym):
            ob = ob.concrete()
        if isinstance(ix, (FD, SB)) and isinstance(ob, (list, tuple, dict, str)):
            r = lift(lambda k: ob[k], ix)
            return r
        if isinstance(ix, tuple) and is_sym(ix):
            if isinstance(ob, dict) and all(not isinstance(x, (Arr, Lin)) for x in ix):
                return lift(lambda *k: ob[k], *ix)
            ix = concretise(ix)
        if isinstance(ob, np.ndarray):
            return A.getitem(Arr.of(ob), ix)
        r = ob[ix]
        if type(r) is list and isinstance(ix, slice):
            created(r)
        return r

    def setitem(self, ob, ix, v):
        if type(ob) is Choice:
            ok = V.possible(ob.alts)
            if len(ok) == 1:
                return self.setitem(ok[0][0], ix, v)
            if all(isinstance(x, Arr) for x, _ in ok) and not is_sym(ix):
                try:
                    olds = [(x, l, A.getitem(x, ix)) for x, l in ok]
                except IndexError:
                    raise NeedSplit([l for _, l in ok])
                if type(v) is Choice:
                    v = deref(v)
                for x, l, _ in olds:
                    # read again: the alternatives may share memory
                    old = A.getitem(x, ix)
                    if isinstance(old, Arr):
                        vv = A.coerce(v)
                        new = A.elementwise(None, (old, vv), lambda p, q: ite(l, q, p), old.dt)
                    else:
                        new = ite(l, v, old)
                    A.setitem(x, ix, new)
                return
            if all(isinstance(x, list) for x, _ in ok) and not isinstance(ix, slice):
                for x, l in ok:
                    try:
                        old = self.getitem(x, ix)
                    except IndexError:
                        raise NeedSplit([l for _, l in ok])
                    self.setitem(x, ix, merge([(l, v), (l ^ 1, old)]))
                return
            raise NeedSplit([l for _, l in ok])
        if type(ob) is Arr:
            A.setitem(ob, ix, v)
            return
        if isinstance(ix, Choice):
            ix = deref(ix)
        if isinstance(ix, slice) and is_sym(ix):
            ix = concretise(ix)
        if isinstance(ob, list):
            if isinstance(ix, FD):
                note_write('l', ob)
                bad = [l for k, l in ix.alts if not -len(ob) <= k < len(ob)]
                if bad and V.branch(E.store.or_all(bad)):
                    raise IndexError('list assignment index out of range')
                for k, l in ix.alts:
                    if -len(ob) <= k < len(ob):
                        ob[k] = ite(l, v, ob[k])
                return
            note_write('l', ob)
            if isinstance(ix, slice):
                v = self.iterate(v)
            if isinstance(ix, Arr):
                ix = operator.index(ix)
            ob[ix] = v
            return
        if isinstance(ob, dict):
            if isinstance(ix, FD) and all(k in ob for k, _ in ix.alts):
                note_write('d', ob)
                for k, l in ix.alts:
                    ob[k] = ite(l, v, ob[k])
                return
            note_write('d', ob)
            ob[concretise(ix) if is_sym(ix) else ix] = v
            return
        if isinstance(ob, np.ndarray):
            raise EngineError('store into a native array')
        if isinstance(ob, tuple):
            raise TypeError("'tuple' object does not support item assignment")
        ob[ix] = v

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kw):
        t = type(fn)
        if t is InterpFunc:
            return self.call_func(fn, args, kw)
        if t is types.MethodType:
            f = fn.__func__
            if type(f) is InterpFunc:
                return self.call_func(f, (fn.__self__,) + args, kw)
            if isinstance(fn.__self__, random.Random):
                m = self.models.get(fn)
                if m is None:
                    raise EngineError('random draw %s' % fn.__name__)
                return m(*args, **kw)
            return fn(*args, **kw)          # Arr methods etc.
        if t is Choice:
            fn = deref(fn)
            if type(fn) is Choice:
                raise NeedSplit([l for _, l in fn.alts])
            return self.call(fn, args, kw)
        try:
            m = self.models.get(fn)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        if t is types.BuiltinMethodType or t is types.MethodWrapperType:
            s = getattr(fn, '__self__', None)
            ts = type(s)
            if ts is list:
                if fn.__name__ in MUT_LIST:
                    note_write('l', s)
                    if fn.__name__ == 'sort' and kw.get('key') is not None:
                        s[:] = self.sort_by(s, kw['key'], kw.get('reverse', False))
                        return None
                    if fn.__name__ == 'extend':
                        args = (self.iterate(args[0]),)
                    elif fn.__name__ in ('pop', 'insert') and args and isinstance(args[0], (Sym, Arr)):
                        args = (operator.index(args[0]),) + args[1:]
                elif fn.__name__ in ('index', 'count') and is_sym((s, args)):
                    return self.list_find(fn.__name__, s, args)
                r = fn(*args, **kw)
                return created(r) if type(r) is list else r
            if ts is dict:
                if fn.__name__ in MUT_DICT:
                    note_write('d', s)
                elif fn.__name__ == 'get' and isinstance(args[0], FD):
                    dflt = args[1] if len(args) > 1 else None
                    return lift(lambda k: s.get(k, dflt), args[0])
                return fn(*args, **kw)
            if ts is set:
                if fn.__name__ in MUT_SET:
                    note_write('s', s)
                return fn(*args, **kw)
        if isinstance(fn, type):
            mod = getattr(fn, '__module__', '')
            if issubclass(fn, BaseException):
                try:
                    return fn(*args, **kw)
                except BaseException:
                    raise
            if hasattr(fn, '__init__') and isinstance(fn.__init__, InterpFunc) or \
                    mod in self.modules:
                ob = fn.__new__(fn) if fn.__new__ is object.__new__ else fn.__new__(fn, *args, **kw)
                if hasattr(ob, '__dict__'):
                    created(ob.__dict__)
                init = fn.__init__
                if isinstance(init, InterpFunc):
                    self.call_func(init, (ob,) + args, kw)
                elif init is not object.__init__:
                    init(ob, *args, **kw)
                elif args or kw:
                    raise TypeError('%s() takes no arguments' % fn.__name__)
                return ob
        if A.NP.get(fn) is not None or fn in A.STRUCT or isinstance(fn, np.ufunc) \
                or getattr(fn, '__module__', '') and str(getattr(fn, '__module__', '')).startswith('numpy'):
            return A.call_np(fn, args, kw)
        if isinstance(fn, types.FunctionType) and fn.__globals__.get('__engine__'):
            return fn(*args, **kw)
        if t is functools.partial:
            return self.call(fn.func, fn.args + args, {**fn.keywords, **kw})
        if isinstance(fn, Sym):
            fn = fn.concrete()
        inner = getattr(type(fn), '__call__', None)
        if isinstance(inner, InterpFunc):
            return self.call_func(inner, (fn,) + args, kw)
        return self.native(fn, args, kw)

    def list_find(self, what, s, args):
        eqs = [truth_lit(binop('==', x, args[0])) if x is not args[0] else TRUE for x in s]
        if what == 'count':
            return A.sum_list([mkbool(l) for l in eqs] or [0])
        anyl = E.store.or_all(eqs)
        if not V.branch(anyl):
            raise ValueError('%r is not in list' % (args[0],))
        prs = []
        none = TRUE
        for i, l in enumerate(eqs):
            prs.append((E.store.AND(none, l), i))
            none = E.store.AND(none, l ^ 1)
        return merge(prs)

    def native(self, fn, args, kw):
        """a function outside the interpreted code"""
        if isinstance(fn, types.LambdaType) and fn.__module__ and fn.__module__.startswith('symex'):
            return fn(*args, **kw)
        if is_sym(args) or is_sym(kw):
            pure = getattr(fn, '__module__', None) in ('math', 'scipy.special', 'operator')
            if pure and not kw and all(isinstance(a, (FD, SB)) or not is_sym(a) for a in args):
                if all(not isinstance(a, (list, dict)) for a in args):
                    return lift(fn, *args)
            args = tuple(concretise(a) for a in args)
            kw = {k: concretise(v) for k, v in kw.items()}
        r = fn(*[unwrap(a) for a in args], **{k: unwrap(v) for k, v in kw.items()})
        return wrap(r)

    def bind(self, f, args, kw, fr):
        v = fr.vars
        n = len(f.params)
        if len(args) > n and not f.vararg:
            raise TypeError('%s() takes %d positional arguments but %d were given'
                            % (f.__name__, n, len(args)))
        for p, a in zip(f.params, args):
            v[p] = a
        if f.vararg:
            v[f.vararg] = tuple(args[n:])
        extra = {}
        for k, a in kw.items():
            if k in f.params or k in f.kwonly:
                if k in v:
                    raise TypeError("%s() got multiple values for argument '%s'" % (f.__name__, k))
                v[k] = a
            elif f.kwarg:
                extra[k] = a
            else:
                raise TypeError("%s() got an unexpected keyword argument '%s'" % (f.__name__, k))
        if f.kwarg:
            v[f.kwarg] = extra
        nd = len(f.defaults)
        for i, p in enumerate(f.params):
            if p not in v:
                j = i - (n - nd)
                if j < 0:
                    raise TypeError("%s() missing 1 required positional argument: '%s'"
                                    % (f.__name__, p))
                v[p] = f.defaults[j]
        for p in f.kwonly:
            if p not in v:
                if p not in f.kwdefaults:
                    raise TypeError("%s() missing 1 required keyword-only argument: '%s'"
                                    % (f.__name__, p))
                v[p] = f.kwdefaults[p]

    def call_func(self, f, args, kw):
        ov = self.models.get(f.__module__ + '.' + f.__name__) if f.__module__ else None
        if ov is not None:
            return ov(self, f, args, kw)
        fr = Frame(f.globals, f.local, f.parent, f)
        fr.globnames, fr.nonlocs = f.globnames, f.nonlocs
        self.bind(f, args, kw, fr)
        if f.body is None:
            return self.ev(f.node.body, fr)
        if f.__module__ and not f.__name__.startswith('<'):
            self.seen_funcs.add(f.__module__ + '.' + (f.owner.__name__ + '.' if f.owner else '') + f.__name__)
        if f.is_gen:
            fr.yields = created([])
        if f._ann is False:
            f._ann = True
            liveness.annotate(f.node)
        self.live[id(fr.vars)] = frozenset(f.local)
        self.depth += 1
        if self.depth > 400:
            self.depth = 0
            raise EngineError('call depth')
        try:
            outs = self.run_block(f.body, fr)
        finally:
            self.depth -= 1
            self.live.pop(id(fr.vars), None)
        if len(outs) == 1:
            o = outs[0]
            if o.kind == RAISE:
                raise o.val
            return fr.yields if f.is_gen else o.val
        if not outs:
            raise DeadPath()
        # falling off the end is the same as `return None`
        for o in outs:
            if o.kind == NEXT:
                o.kind = RETURN
        outs = self.merge_outs(outs)
        if len(outs) == 1:
            o = outs[0]
            if o.kind == RAISE:
                raise o.val
            return fr.yields if f.is_gen else o.val
        raise NeedSplit([o.rel for o in outs])


def _listiter(v):
    i = 0
    while i < len(v):
        yield v[i]
        i += 1
