from symex.spec import *
import numpy as np

TOPO = {'single': ((),), 'pair': (((0, 1),),),
        'three': (((0, 1), (1, 2)), ((0, 1), (0, 2)), ((0, 2), (1, 2)), ((0, 1), (0, 2), (1, 2))),
        'four': (((0, 1), (1, 2), (2, 3)), ((0, 1), (0, 2), (0, 3)), ((0, 3), (3, 1), (1, 2)),
                 ((0, 1), (1, 2), (2, 3), (0, 3)),
                 ((0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3))),
        'five': (((0, 1), (1, 2), (2, 3), (3, 4)), ((0, 4), (1, 4), (2, 4), (3, 4)),
                 ((0, 1), (1, 2), (2, 3), (3, 4), (0, 4), (1, 3)))}
ASSUMPTIONS = ['panel weights add up to more than zero on each side of the reference panel where the code divides by them',
               'the step tables are examined for structures whose symmetric panels all have even or all have odd ply counts']
NOT_COVERED = ['more panels or plies than the bound', 'rounding beyond 1e-9']


def wts(n, vals, sym):
    """symbolic weights, or weights whose partial sums are all different"""
    if sym and n:
        return ArrOf(n, vals, float)
    return Const(np.array([2.0, 0.5, 8.0, 1.0, 4.0, 0.25, 16.0][:n]))


def configs(tier):
    r = []
    th = tier == 'thorough'
    rng = {1: (1, 6), 2: (2, 9), 3: (4, 9), 4: (6, 9), 5: (6, 9)}
    for n, name in ((1, 'single'), (2, 'pair'), (3, 'three'), (4, 'four')) + ((5, 'five'),) * th:
        lo, hi = rng[n]
        hi += 2 * th if n < 4 else 0
        for sym in (True, False):
            for t, topo in enumerate(TOPO[name]):
                if n == 4 and not th and (t, sym) not in ((0, False), (3, True), (2, False)):
                    continue
                r.append(dict(name='%d panels, connections %d, sym %s' % (n, t, sym), fn='p_reduce',
                              inputs=dict(plies=ArrOf(n, range(lo, hi + 1)), weights=wts(n, (0.5, 1.0, 3.0) if n < 4 else (0.5, 3.0), n < 4 or (n == 4 and th)),
                                          bw=wts(len(topo), (0.25, 2.0), n < 4 or (n == 4 and th)),
                                          edges=topo, sym=sym)))
            r.append(dict(name='%d panels, reference and steps, sym %s' % (n, sym), fn='p_steps',
                          inputs=dict(plies=ArrOf(n, range(lo, hi + 1)), ref=Int(lo - 2, hi + 2),
                                      weights=wts(n, (0.5, 2.0), n < 4),
                                      edges=TOPO[name][0], sym=sym)))
    return r
