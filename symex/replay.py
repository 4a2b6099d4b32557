"""Replay harness inputs on the unmodified code: replay.py FILE [--batch]"""
import os
import pickle
import sys
import warnings
import io
import contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path = [p for p in sys.path if os.path.abspath(p or '.') != os.path.join(VERIF, 'symex')]
sys.path.insert(0, REPO)
sys.path.append(os.path.join(VERIF, 'props'))
sys.path.append(os.path.join(VERIF, 'symex', 'native'))
warnings.filterwarnings('ignore')
sys.setrecursionlimit(20000)


def main():
    with open(sys.argv[1], 'rb') as f:
        d = pickle.load(f)
    import importlib
    import src
    stub = os.path.join(VERIF, 'symex', 'stubs')
    if not os.path.isdir(os.path.join(REPO, 'src', 'CLA')):
        src.__path__ = list(src.__path__) + [stub]
    res = []
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        import vh
        vh.install()
        m = importlib.import_module(d['pid'])
        fn = getattr(m, d['fn'])
        for inp in d['inputs']:
            try:
                r = ('value', plain(fn(**inp)))
            except Exception as e:
                r = ('raise', type(e).__name__, str(e)[:400])
            res.append(r)
    if '--batch' in sys.argv:
        print('RESULT ' + repr(res))
        return 0
    for inp, r in zip(d['inputs'], res):
        print('harness %s.%s' % (d['pid'], d['fn']))
        for k, v in inp.items():
            print('  %s = %r' % (k, v))
        print('  ->', r)
    return 1 if any(r[0] == 'raise' and r[1] != 'AssumeFail' for r in res) else 0


def plain(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        return [plain(x) for x in v] if v.ndim else plain(v[()])
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted([plain(x) for x in v], key=repr)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (float, np.floating)):
        return float(v)
    if v is None or isinstance(v, str):
        return v
    return '<%s>' % type(v).__name__


sys.exit(main())
