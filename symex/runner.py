"""Runs the configurations of one property: symbolic execution of the harness
over the tree under test, solver verdicts, native replay, evidence."""
import importlib.util
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


def load_props(pid):
    p = os.path.join(VERIF, 'props', pid + '.py')
    if os.path.join(VERIF, 'symex') not in sys.path:
        sys.path.append(os.path.join(VERIF, 'symex'))
    if os.path.join(VERIF, 'props') not in sys.path:
        sys.path.append(os.path.join(VERIF, 'props'))
    spec = importlib.util.spec_from_file_location('cfg_' + pid, os.path.join(VERIF, 'props', pid + '_cfg.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class ModelEval:
    def __init__(self, store, model):
        self.store, self.model = store, model
        self.memo = {}

    def __call__(self, lit):
        if lit == 1:
            return True
        if lit == 0:
            return False
        return self.store._ev(self.model, lit >> 1, self.memo) ^ bool(lit & 1)

    def real(self, v):
        import z3
        from .values import Lin, FD, SB
        from fractions import Fraction
        if isinstance(v, Lin):
            r = v.c
            for k, c in v.t.items():
                if isinstance(k, int):
                    if self(k):
                        r += c
                else:
                    x = self.model.eval(Lin.exprs[k], model_completion=True)
                    if z3.is_algebraic_value(x):
                        x = x.approx(30)
                    if not z3.is_rational_value(x):
                        raise ValueError('model value %s' % x)
                    r += c * Fraction(x.numerator_as_long(), x.denominator_as_long())
            return r
        return v

    def value(self, v):
        """engine value -> plain comparable data"""
        import numpy as np
        from .values import Lin, FD, SB, Choice
        from .arr import Arr
        if isinstance(v, SB):
            return self(v.lit)
        if isinstance(v, (FD, Choice)):
            for x, l in v.alts:
                if self(l):
                    return self.value(x)
            return 'NO-ALTERNATIVE'
        if isinstance(v, Lin):
            return float(self.real(v))
        if isinstance(v, Arr):
            return [self.value(x) for x in v] if v.o.ndim else self.value(v.o[()])
        return plain(v, self.value)


def plain(v, rec=None):
    """native value -> comparable data"""
    import numpy as np
    rec = rec or plain
    if isinstance(v, np.ndarray):
        return [rec(x) for x in v] if v.ndim else rec(v[()])
    if isinstance(v, (list, tuple)):
        return [rec(x) for x in v]
    if isinstance(v, dict):
        return {str(k): rec(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted([rec(x) for x in v], key=repr)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if v is None or isinstance(v, str):
        return v
    return '<%s>' % type(v).__name__


def same(a, b):
    if isinstance(a, (list,)) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if a == '<text>' or b == '<text>':
            return True
        return a == b
    try:
        if a != a and b != b:
            return True
        return a == b or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


def run_config(pid, cfg, seed, budget):
    """one configuration in this process -> result dict"""
    from . import values as V
    from . import spec as SP
    from .interp import Interp, NEXT, RETURN, RAISE
    import vh
    t0 = time.time()
    V.reset(seed)
    store = V.E.store
    I = Interp(REPO, overlay={pid: os.path.join(VERIF, 'props', pid + '.py'),
                              'hlib': os.path.join(VERIF, 'props', 'hlib.py')})
    I.deadline = t0 + budget
    store.timeout_ms = int(budget * 1000)
    res = dict(name=cfg['name'], fn=cfg['fn'], violations=[], obligations=0, error=None,
               samples=[], validated=0, domain=None)
    viol = []

    def check(cond, msg=''):
        lit = V.truth_lit(cond)
        res['obligations'] += 1
        if lit == V.TRUE:
            return
        sat, model = store.check([V.E.pc, lit ^ 1], want_model=True)
        if sat:
            viol.append((str(msg), model))
            raise Stop()

    def assume(cond):
        if not V.branch(V.truth_lit(cond)):
            raise vh.AssumeFail()

    class Stop(BaseException):
        pass
    I.models[vh.check] = check
    I.models[vh.assume] = assume

    def close(a, b, tol=1e-9):
        d = V.binop('-', a, b)
        return V.mkbool(V.AND(V.truth_lit(V.binop('<=', d, tol)), V.truth_lit(V.binop('>=', d, -tol))))

    def raises(f, *a, **k):
        try:
            I.call(f, a, k)
        except vh.AssumeFail:
            raise
        except Exception as e:
            if os.environ.get('SYMEX_TRACE'):
                import traceback
                traceback.print_exc()
            return type(e).__name__
        return ''
    I.models[vh.close] = close
    I.models[vh.raises] = raises
    from . import interp as IM
    IM.AssumeFail = vh.AssumeFail
    from .envmodel import install_env
    install_env(I, cfg)
    try:
        mod = I.load(pid)
        fn = getattr(mod, cfg['fn'])
        specs = {k: SP.mk(v) for k, v in cfg.get('inputs', {}).items()}
        args = {k: s.sym(k) for k, s in specs.items()}
        res['domain'] = SP.dom([s.domain() for s in specs.values()])
        from .interp import Frame
        from .values import note_write

        def thunk():
            return [IM.Out(RETURN, I.call_func(fn, (), dict(args)))]
        outs = I.guarded(thunk)
        live = [o for o in outs if o.kind == RETURN]
        res['paths'] = len(outs)
        # reachability twin: the end of the harness must be reachable
        res['reach'] = any(store.check([o.rel]) for o in live)
        for o in outs:
            if o.kind == RAISE and not isinstance(o.val, vh.AssumeFail):
                sat, model = store.check([o.rel], want_model=True)
                if sat:
                    viol.append(('%s: %s' % (type(o.val).__name__, o.val), model))
                    if os.environ.get('VERIF_DEBUG'):
                        traceback.print_exception(o.val)
    except Stop:
        outs = None
    except V.SolverUnknown as e:
        res['error'] = 'solver: %s' % e
        outs = None
    except V.EngineError as e:
        res['error'] = 'engine: %s' % e
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        outs = None
    for msg, model in viol:
        ev = ModelEval(store, model)
        try:
            inp = {k: s.conc(ev) for k, s in specs.items()}
            res['violations'].append((msg, inp))
        except ValueError as e:
            res['error'] = 'model: %s' % e
    # encoding validation: the same inputs through the encoding and through
    # the unmodified code (compared by the parent)
    if outs is not None and not viol:
        rng = random.Random(seed * 7919 + len(cfg['name']))
        want = cfg.get('samples', 6)
        tries = 0
        while len(res['samples']) < want and tries < want * 40:
            tries += 1
            lits, inp = [], {}
            for k, s in specs.items():
                l, v = s.sample(rng)
                lits += l
                inp[k] = v
            try:
                sat, model = store.check(lits, want_model=True)
            except V.SolverUnknown:
                break
            if not sat:
                continue
            ev = ModelEval(store, model)
            got = None
            for o in outs:
                if ev(o.rel):
                    if o.kind == RAISE:
                        got = ('raise', type(o.val).__name__)
                    else:
                        got = ('value', ev.value(o.val))
                    break
            if got == ('raise', 'AssumeFail') and tries < want * 30:
                continue
            res['samples'].append((inp, got))
    st = store.stats
    res.update(wall=time.time() - t0, queries=st['queries'], solver_time=st['time'],
               sat=st['sat'], unsat=st['unsat'], sim_sat=st['sim_sat'], nodes=len(store.kind),
               branches=I.branches, merges=I.merges,
               functions=sorted(f for f in I.seen_funcs if f.startswith('src.')))
    return res


def child(conn, pid, cfg, seed, budget, mem):
    sys.setrecursionlimit(1000000)
    threading.stack_size(1 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    box = []

    def go():
        try:
            box.append(run_config(pid, cfg, seed, budget))
        except MemoryError:
            box.append(dict(name=cfg['name'], fn=cfg['fn'], error='memory limit', violations=[], samples=[]))
        except BaseException as e:
            box.append(dict(name=cfg['name'], fn=cfg['fn'], error='internal: ' + traceback.format_exc()[-1500:],
                            violations=[], samples=[]))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    conn.send_bytes(pickle.dumps(box[0]))
    conn.close()
    os._exit(0)


def native_batch(pid, fn, inputs, cfg_env=None, timeout=300):
    """run the harness on concrete inputs in a fresh interpreter on the real code"""
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, 'batch_%s_%d_%d.pkl' % (pid, os.getpid(), random.getrandbits(40)))
    with open(p, 'wb') as f:
        pickle.dump(dict(pid=pid, fn=fn, inputs=inputs, env=cfg_env), f)
    try:
        r = subprocess.run([PY, os.path.join(VERIF, 'symex', 'replay.py'), p, '--batch'],
                           capture_output=True, timeout=timeout,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        for line in r.stdout.decode(errors='replace').splitlines()[::-1]:
            if line.startswith('RESULT '):
                return eval(line[7:], {'nan': float('nan'), 'inf': float('inf')})
        raise RuntimeError('replay failed: %s' % r.stderr.decode(errors='replace')[-1500:])
    finally:
        os.remove(p)


def main(pid, tier, seed, only=None, jobs=8):
    t0 = time.time()
    m = load_props(pid)
    cfgs = m.configs(tier)
    if only:
        cfgs = [c for c in cfgs if only in c['name']]
    total = getattr(m, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 5400)
    per = getattr(m, 'PER_CONFIG', {}).get(tier, 400 if tier == 'quick' else 2400)
    mem = int(getattr(m, 'MEM', 6) * (1 << 30))
    ctx = mp.get_context('fork')
    todo = list(enumerate(cfgs))
    running = {}
    retried = set()
    results = [None] * len(cfgs)
    failfast = bool(os.environ.get('VERIF_FAILFAST'))
    while todo or running:
        while todo and len(running) < jobs:
            i, c = todo.pop(0)
            a, b = ctx.Pipe(False)
            budget = max(5, min(c.get('budget', per), total - (time.time() - t0)))
            p = ctx.Process(target=child, args=(b, pid, c, seed, budget, mem))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), budget)
        time.sleep(0.01)
        for i in list(running):
            if i not in running:
                continue
            p, a, ts, budget = running[i]
            got = None
            if a.poll():
                try:
                    got = pickle.loads(a.recv_bytes())
                except EOFError:
                    got = dict(name=cfgs[i]['name'], fn=cfgs[i]['fn'], error='child died',
                               violations=[], samples=[])
            elif not p.is_alive() and not a.poll():
                got = dict(name=cfgs[i]['name'], fn=cfgs[i]['fn'], error='child died',
                           violations=[], samples=[])
            elif time.time() - ts > budget + 30:
                p.kill()
                got = dict(name=cfgs[i]['name'], fn=cfgs[i]['fn'], error='time limit',
                           violations=[], samples=[])
            if got is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                if got.get('error') == 'child died' and i not in retried:
                    # once more: the machine may have run short of memory
                    retried.add(i)
                    todo.append((i, cfgs[i]))
                    del running[i]
                    continue
                results[i] = got
                del running[i]
                if failfast and got['violations']:
                    # sensitivity experiments only (tools/mutate.py): the first counterexample will do
                    todo.clear()
                    for q in running.values():
                        q[0].kill()
                        q[0].join()
                    running.clear()
                if os.environ.get('VERIF_VERBOSE'):
                    print('%-40s %6.1fs paths=%s q=%s unsat=%s solver=%.1fs obl=%s %s %s' % (
                        got['name'], got.get('wall', 0), got.get('paths'), got.get('queries'),
                        got.get('unsat'), got.get('solver_time', 0), got.get('obligations'),
                        [v[0] for v in got['violations']], got['error'] or ''), flush=True)
    if failfast:
        done = [k for k, r in enumerate(results) if r is not None]
        cfgs, results = [cfgs[k] for k in done], [results[k] for k in done]
    # replay / validation
    reported, known_hit, errors = [], [], []
    validated = mismatches = 0
    for c, r in zip(cfgs, results):
        if r['error']:
            errors.append('%s: %s' % (r['name'], r['error']))
        for msg, inp in r['violations']:
            try:
                out = native_batch(pid, c['fn'], [inp], c.get('env'))[0]
            except Exception as e:
                errors.append('%s: replay error %s' % (r['name'], e))
                continue
            if out[0] == 'raise' and out[1] != 'AssumeFail':
                if c.get('known'):
                    known_hit.append((c, msg, inp, out))
                    continue
                path = os.path.join(VERIF, 'replays', '%s_%s.pkl' % (pid, r['name'].replace('/', '_').replace(' ', '_')))
                with open(path, 'wb') as f:
                    pickle.dump(dict(pid=pid, fn=c['fn'], inputs=[inp], env=c.get('env')), f)
                reported.append((r['name'], msg, inp, out, path))
            else:
                errors.append('%s: counterexample %r does not reproduce (%s): %s' % (r['name'], inp, out, msg))
        if not r['error'] and not r['violations'] and not c.get('known') and not r.get('reach'):
            errors.append('%s: harness end unreachable (vacuous)' % r['name'])
    # batched validation per harness function
    byfn = {}
    for c, r in zip(cfgs, results):
        for inp, got in r['samples']:
            byfn.setdefault((c['fn'], repr(c.get('env'))), []).append((c, r, inp, got))
    for (fn, _), lst in byfn.items():
        try:
            outs = native_batch(pid, fn, [x[2] for x in lst], lst[0][0].get('env'))
        except Exception as e:
            errors.append('validation %s: %s' % (fn, e))
            continue
        for (c, r, inp, got), out in zip(lst, outs):
            if got is None:
                continue
            ok = got[0] == out[0] and (same(got[1], out[1]) if got[0] == 'value' else got[1] == out[1])
            if out[0] == 'raise' and out[1] not in ('AssumeFail',) and not ok and not c.get('known'):
                # the real code fails where the encoding did not: a violation all the same
                path = os.path.join(VERIF, 'replays', '%s_%s_v.pkl' % (pid, r['name'].replace('/', '_').replace(' ', '_')))
                with open(path, 'wb') as f:
                    pickle.dump(dict(pid=pid, fn=c['fn'], inputs=[inp], env=c.get('env')), f)
                errors.append('%s: encoding differs from real code (real fails %s, encoding %s) on %r' % (
                    r['name'], out, got, inp))
                mismatches += 1
            elif not ok:
                mismatches += 1
                errors.append('%s: encoding %r real %r on %r' % (r['name'], got, out, inp))
            else:
                validated += 1
    fns = sorted(set(f for r in results for f in r.get('functions', ())))
    ev = dict(property=pid, tier=tier, seed=seed, level='other', wall_s=round(time.time() - t0, 2),
              violations=len(reported),
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
              coverage=dict(
                  explanation='Solver-based bounded symbolic execution of the functions listed under '
                  'functions_encoded, re-read from the tree under test on this run; every harness '
                  'configuration is decided by z3 for all inputs within its stated bound.',
                  functions_encoded=fns,
                  configurations=[dict(name=r['name'], harness=r['fn'], inputs=str(r.get('domain')),
                                       bound=c.get('bound', ''), paths=r.get('paths'),
                                       obligations=r.get('obligations'), queries=r.get('queries'),
                                       unsat=r.get('unsat'), sat=r.get('sat'),
                                       branch_feasible_by_sample=r.get('sim_sat'),
                                       reachable_end=r.get('reach'),
                                       case_splits=r.get('branches'), state_merges=r.get('merges'),
                                       guard_nodes=r.get('nodes'),
                                       solver_s=round(r.get('solver_time', 0), 3),
                                       wall_s=round(r.get('wall', 0), 2), error=r['error'])
                                  for c, r in zip(cfgs, results)],
                  queries_discharged=sum(r.get('queries', 0) for r in results),
                  obligations_checked=sum(r.get('obligations', 0) for r in results),
                  solver_time_s=round(sum(r.get('solver_time', 0) for r in results), 3),
                  encoding_validation=dict(inputs_compared=validated, mismatches=mismatches),
                  not_covered=list(getattr(m, 'NOT_COVERED', []))))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only and not failfast:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    kf = known_lines(pid)
    for c, msg, inp, out in known_hit:
        line = kf.get(c['known'])
        if line is None:
            path = os.path.join(VERIF, 'replays', '%s_%s.pkl' % (pid, c['name']))
            with open(path, 'wb') as f:
                pickle.dump(dict(pid=pid, fn=c['fn'], inputs=[inp], env=c.get('env')), f)
            reported.append((c['name'], msg, inp, out, path))
        else:
            print('KNOWN-FINDING: property=%s %s' % (pid, line))
    for name, msg, inp, out, path in reported[:4]:
        print('counterexample in %s: %s\n  inputs %r\n  real code: %r' % (name, msg, inp, out))
    if len(reported) > 4:
        print('... and %d more configurations violated' % (len(reported) - 4))
    for path in list(dict.fromkeys(x[4] for x in reported))[:4]:
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for e in errors:
        print('ERROR %s: %s' % (pid, e))
    print('%s %s: %d configurations, %d obligations, %d queries (%.1fs solver), %d encoding '
          'validations, %.1fs' % (pid, tier, len(cfgs), ev['coverage']['obligations_checked'],
                                  ev['coverage']['queries_discharged'],
                                  ev['coverage']['solver_time_s'], validated, time.time() - t0))
    if reported:
        return 1
    return 2 if errors else 0


COMMON_ASSUMPTIONS = [
    'numpy functions on symbolic arrays follow the models in symex/arr.py (validated against the '
    'real code on sampled inputs in every run); calls with concrete arguments run numpy itself',
    'finite-domain values use the exact Python/numpy arithmetic; terms over real-valued inputs are '
    'exact rationals (rounding errors below the stated tolerances are not modelled)',
    'the package src.CLA, absent from the repository, is replaced by symex/stubs/CLA (textbook '
    'lamination-parameter formulae)',
    'output to the console is ignored; the clock is constant',
]


def known_lines(pid):
    """KEY -> text, from known_findings.txt (finding: property=<id> key=<key> <text>)"""
    r = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: property=%s key=' % pid):
                rest = line.strip().split(' ', 3)
                r[rest[2][4:]] = rest[3]
    return r
