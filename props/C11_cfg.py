from symex.spec import *

ASSUMPTIONS = ['layouts are blended: a thinner panel drops every ply a thicker one drops',
               'the layout of every panel has at least two plies (the code skips single-ply layouts)']
NOT_COVERED = ['longer layouts, more panels']
LINKS = {2: (((0, 1),),), 3: (((0, 1), (1, 2)), ((0, 2), (1, 2)), ((0, 1), (0, 2), (1, 2)), ((0, 2), (0, 1)))}


def configs(tier):
    r = []
    th = tier == 'thorough'
    for md in (1, 2, 3, 5):
        for n in (2, 5, 8, 11) + (14,) * th:
            r.append(dict(name='one boundary, spacing %d, %d plies' % (md, n), fn='p_one',
                          inputs=dict(ss=ArrOf(n, (-1, 0, 45, -45)), min_drop=md)))
    for md in (1, 2, 3):
        for np_, nb, n, na in ((2, 0, 5, 0), (2, 2, 3, 2), (2, 3, 2, 0), (2, 0, 2, 3), (3, 0, 4, 0), (3, 1, 2, 1)) + \
                (((2, 0, 8, 0), (2, 3, 3, 2), (3, 0, 5, 0)) if th else ()):
            for t, links in enumerate(LINKS[np_]):
                r.append(dict(name='%d panels, connections %d, %d + %d + %d plies, spacing %d' % (np_, t, nb, n, na, md),
                              fn='p_strip', inputs=dict(drop=ArrOf(nb + n + na, range(np_)), sst=Stack(nb + n + na, (0, -45)),
                                                        nb=nb, na=na, links=links, w=(1.0, 0.25, 3.0)[:len(links)],
                                                        min_drop=md, on=Bool())))
    for plies in ((6, 4), (4, 6), (4, 6, 4), (6, 4, 6), (3, 5, 4), (5, 5)):
        for md in (1, 3):
            r.append(dict(name='structure %s, spacing %d' % (plies, md), fn='p_structure',
                          inputs=dict(drop=ArrOf(5, range(len(set(plies)))), sst=Stack(5, (0, -45)), plies=plies,
                                      min_drop=md, w=(1.0, 0.25))))
    for np_ in (1, 2, 3):
        n = 4 if np_ < 3 else 3
        r.append(dict(name='same layouts, %d panels' % np_, fn='p_same',
                      inputs=dict(pdl1=ArrOf((np_, n), (-1, 0, 2)), pdl2=ArrOf((np_, n), (-1, 0, 2)),
                                  known=ArrOf(np_, (False, True), bool), ref=Int(0, np_ - 1), thin=Bool())))
    return r
