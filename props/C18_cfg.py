from symex.spec import *
import numpy as np
from C17_cfg import TOPO, wts

STD = (0, 45, 90, -45)
FINE = (0, 45, 90, -45, 30, -30, 60, -60)
ASSUMPTIONS = ['panel identifiers are distinct integers except where their duplication is examined',
               'at least one lamination-parameter weighting stays positive after the filters']
NOT_COVERED = ['more panels than the bound', 'rounding beyond 1e-9']


def configs(tier):
    r = []
    th = tier == 'thorough'
    for n, name in ((1, 'single'), (2, 'pair'), (3, 'three'), (4, 'four')) + ((5, 'five'),) * th:
        for t, topo in enumerate(TOPO[name]):
            k = len(topo)
            for v in (0, 1) if n >= 4 else (2,):
                for ids in ((1, 2, 3, 4, 5)[:n], (7, 3, 5, 1, 2)[:n], (2, 9, 4, 7, 1)[:n]):
                    if n >= 4 and not th and (t + v) % 3 != ids[1] % 3:
                        continue
                    fixed = Const(np.array(((0, 1, 2, 1, 0, 2) * 2)[:k], int))
                    r.append(dict(name='%d panels, connections %d, identifiers %s, variant %d' % (n, t, ids, v), fn='p_structure',
                          inputs=dict(side=ArrOf(k, (0, 1, 2)) if k and v != 0 else fixed,
                                      order=ArrOf(k, (0, 1)) if k and v != 1 else Const(fixed.v % 2),
                                      bw=wts(k, (0.0, 0.5, 2.0), n < 4), edges=topo, ids=ids)))
        r.append(dict(name='%d panels, totals' % n, fn='p_totals',
                      inputs=dict(plies=ArrOf(n, range(1, 7 if n < 4 else 5)), area=wts(n, (0.0, 0.25, 3.0), n < 3),
                                  sym=Bool(), edges=TOPO[name][0],
                                  sst=ArrOf((n, 4), (-1, 0, 45)))))
    for n, name in ((2, 'pair'), (3, 'three')):
        r.append(dict(name='%d panels, rejections' % n, fn='p_reject',
                      inputs=dict(links=ArrOf((n, n), (False, True), bool), ids=OneOf([(1, 2, 3)[:n], (3, 1, 2)[:n], (1, 1, 2)[:n], (2, 1, 2)[:n], (1, 2, 2)[:n]]), unknown=Bool())))
        topo = TOPO[name][0 if n == 2 else 3]
        r.append(dict(name='%d panels, boundary weights rejections' % n, fn='p_reject_weights',
                      inputs=dict(given=ArrOf(len(topo), (False, True), bool), extra=Bool(),
                                  bw=ArrOf(len(topo), (-0.5, 0.0, 2.0), float), order=ArrOf(len(topo), (0, 1)),
                                  edges=topo, n=n)))
    r.append(dict(name='panel data', fn='p_panel',
                  inputs=dict(n_plies=Int(-2, 9), sym=Bool(), area=OneOf([-1.0, -1, 0, 0.0, 2, 2.5, '2', None]),
                              length_x=OneOf([-1.0, 0, 2.0, '2']), length_y=OneOf([-1, 0, 3, '2']),
                              weighting=OneOf([-0.1, -1, 0, 1, 2.5, '1', None]))))
    r.append(dict(name='panel ply count type', fn='p_ply_count', inputs=dict(n_plies=OneOf([1, 4, 3.0, 4.5, '4', None, -1, 0]))))
    for size, kind in ((0, 'array'), (1, 'array'), (11, 'array'), (12, 'array'), (13, 'array'), (12, 'list'), (12, 'int')):
        r.append(dict(name='%d lamination-parameter weightings, %s' % (size, kind), fn='p_lampam_w',
                      inputs=dict(w=ArrOf(size, (-1.0, 2.0), float) if size else Const(np.array([])), kind=kind)))
    for angles in (STD, FINE):
        for on in range(8):
            for coeff in (0.5, 0, 3) if on == 7 or th else (0.5,):
                flags = [bool(on & 1), bool(on & 2), bool(on & 4)]
                r.append(dict(name='filters, %d angles, coefficient %s, %s' % (len(angles), coeff, flags), fn='p_filter',
                              inputs=dict(w=ArrOf(12, (0.0, 1.0), float), target=ArrOf(12, (-0.5, 0.0, 0.25), float),
                                          on=np.array(flags), coeff=coeff, angles=angles)))
    return r
