from symex.spec import *

STD = (0, 45, 90, -45)
FINE = (0, 45, 90, -45, 30, -30, 60, -60)
PS = [(10, 10, 10, 10, 0), (0, 25, 0, 15, 30), (20, 0, 30, 0, 40), (10, 0, 10, 0, 0)]
ASSUMPTIONS = ['in-plane orthotropy is compared with balance (equivalent for the angle sets listed)',
               'panels of a table are blended (a thinner panel keeps a subset of the plies of a thicker one)']
NOT_COVERED = ['lay-ups and tables longer than the bound']


def configs(tier):
    r = []
    th = tier == 'thorough'
    for kind in ('BELLA', 'LAYLA'):
        for rule in (0, 1, 2, 3):
            if kind == 'LAYLA' and rule == 3:
                continue
            for sym in (True, False):
                for P, angles, delta, nc, n in ((PS[0], STD, 45, 5, 8), (PS[1], STD, 45, 2, 6),
                                                (PS[3], STD, 60, 3, 7), (PS[0], FINE, 30, 2, 4),
                                                (PS[2], STD, 45, 4, 6)):
                    if th:
                        n += 2 if angles is STD else 1
                    r.append(dict(name='%s rule %d sym %s %s %d angles limit %d contiguity %d, %d plies' % (
                        kind, rule, sym, P, len(angles), delta, nc, n), fn='p_lay_up',
                        inputs=dict(stack=Stack(n, angles), on=ArrOf(6, (False, True), bool), kind=kind, P=P,
                                    angles=angles, rule=rule, sym=sym, delta=delta, n_contig=nc)))
        for sym in (True, False):
            for n in (1, 2, 3, 4, 5):
                for nc in (2, 3, 4):
                    if n < nc:
                        continue
                    P = PS[3 if nc % 2 else 0]
                    r.append(dict(name='%s sym %s %s contiguity %d, %d plies' % (kind, sym, P, nc, n), fn='p_lay_up',
                        inputs=dict(stack=Stack(n, STD), on=ArrOf(6, (False, True), bool), kind=kind, P=P,
                                    angles=STD, rule=0, sym=sym, delta=45, n_contig=nc)))
        for P in PS:
            r.append(dict(name='%s options %s' % (kind, P), fn='p_options',
                          inputs=dict(stack=Stack(9 if th else 7, STD), on=ArrOf(3, (False, True), bool), kind=kind,
                                      P=P, angles=STD)))
    for nc in (1, 2):
        for md in (1, 2, 3, 4):
            for np_, n in ((2, 4), (2, 6), (3, 4)) + (((2, 9), (3, 5), (4, 4)) if th else ()):
                for red in (True, False):
                    r.append(dict(name='table of %d panels, covering %d spacing %d, %d plies, reduced %s' % (
                                  np_, nc, md, n, red), fn='p_table',
                                  inputs=dict(sst=Stack(n, (0, 45)), drop=ArrOf(n, range(np_)),
                                              on=ArrOf(2, (False, True), bool), n_covering=nc, min_drop=md,
                                              w=(1.0, 0.25, 0.5)[:np_ - 1], reduced=red)))
    return r
