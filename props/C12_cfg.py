from symex.spec import *
import numpy as np

STD = (0, 45, 90, -45)
ASSUMPTIONS = ['layouts are blended: a thinner panel drops every ply a thicker one drops, the last panel drops none',
               'positions are distinct, between 1 and the number of plies']
NOT_COVERED = ['longer layouts, more panels']


def configs(tier):
    r = []
    th = tier == 'thorough'
    for np_, n in ((1, 4), (2, 5), (2, 7), (3, 4), (3, 5), (4, 4)) + ((((2, 10), (3, 7), (4, 5))) if th else ()):
        r.append(dict(name='table of %d panels, %d plies' % (np_, n), fn='p_table',
                      inputs=dict(guide=Stack(n, STD), drop=ArrOf(n, range(np_)), n_panels=np_, sym=False)))
        r.append(dict(name='symmetric table of %d panels, %d plies' % (np_, n), fn='p_table',
                      inputs=dict(guide=Stack(n, STD), drop=ArrOf(n, range(np_)), n_panels=np_, sym=True)))
    for np_, n in ((1, 4), (2, 4), (2, 6), (3, 4), (3, 5)) + ((((2, 8), (3, 6), (4, 5))) if th else ()):
        for ref in range(np_):
            r.append(dict(name='new reference lay-up %d of %d, %d plies' % (ref, np_, n), fn='p_ref',
                          inputs=dict(guide=Stack(n, STD), drop=ArrOf(n, range(np_)), n_panels=np_,
                                      ref=ref, new=Stack(n, STD))))
    for n, k in ((1, 1), (3, 2), (4, 3), (6, 2), (5, 4), (4, 0)) + ((((8, 3), (6, 4), (6, 5))) if th else ()):
        r.append(dict(name='%d positions among %d plies' % (k, n), fn='p_positions',
                      inputs=dict(pdl_ref=ArrOf(n, (-1, 0, 7)), pdl_panel=ArrOf(n, (-1, 0, 7)),
                                  pos=ArrOf(k, range(1, n + 1)) if k else Const(np.array([], int)))))
    for n in (1, 2, 3, 4):
        r.append(dict(name='extension to %d panels' % n, fn='p_extend',
                      inputs=dict(plies=ArrOf(n, (4, 5, 6, 8)), vals=Stack(n, range(11, 11 + n)), kind=Int(0, 2))))
    return r
