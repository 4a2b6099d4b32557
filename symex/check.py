import os
import sys
import warnings
warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path = [p for p in sys.path if os.path.abspath(p or '.') != here]
sys.path.insert(0, os.path.dirname(here))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from symex import runner

if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == '--selftest':
        import z3
        import numpy
        print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
        sys.exit(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
        else:
            only = a
    if only:
        os.environ.setdefault('VERIF_VERBOSE', '1')
    sys.exit(runner.main(pid, tier, int(os.environ.get('VERIF_SEED', '1')), only))
