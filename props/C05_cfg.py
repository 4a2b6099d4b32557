from symex.spec import *

STD = (0, 45, 90, -45)
FINE = (0, 45, 90, -45, 30, -30, 60, -60)
PS = [(10, 10, 10, 10, 0), (10, 0, 10, 0, 20), (20, 0, 30, 0, 40), (50, 0, 0, 0, 0), (0, 0, 0, 0, 80),
      (0, 25, 0, 15, 30), (10, 40, 10, 30, 0), (30, 0, 30, 0, 30), (0, 0, 70, 0, 0), (7, 9, 13, 11, 0)]
TWO = [(10, 0, 0, 0, 0), (0, 10, 0, 0, 0), (0, 0, 10, 0, 0), (0, 0, 0, 10, 0), (0, 0, 0, 0, 20),
       (7, 0, 13, 0, 0), (10, 0, 0, 0, 30), (0, 0, 15, 0, 45)]
ASSUMPTIONS = ['required percentages are the ones listed under inputs',
               'penalties are compared with the exact shortfall up to 1e-7']
NOT_COVERED = ['other percentages; lay-ups longer than the bound']


def configs(tier):
    r = []
    th = tier == 'thorough'
    for kind in ('BELLA', 'LAYLA'):
        for P in PS + TWO:
            few = sum(1 for x in P if x) <= 2
            ns = (3, 7, 10) if few else (3, 5, 8)
            ts = (0, 1, 7, 10, 20) if few else (0, 3, 5, 10)
            if th:
                ns += (4, 5, 6, 8, 11, 12)
                ts += (2, 4, 6, 8, 9, 11, 12, 16, 24)
            for n in ns:
                r.append(dict(name='%s %s lay-ups of %d' % (kind, P, n), fn='p_stack',
                              inputs=dict(stack=Stack(n, STD), P=P, kind=kind, angles=STD)))
            for t in ts:
                r.append(dict(name='%s %s counts of %d' % (kind, P, t), fn='p_counts',
                              inputs=dict(counts=ArrOf(4, range(t + 1)), P=P, kind=kind, angles=STD, total=t)))
        for P in PS[:6]:
            r.append(dict(name='%s %s equality' % (kind, P), fn='p_equality',
                          inputs=dict(stack=Stack(8, STD), P=P, kind=kind)))
            for t in (0, 5, 8):
                r.append(dict(name='%s %s counts table of %d' % (kind, P, t), fn='p_counts_list',
                              inputs=dict(counts=ArrOf((2, 4), range(t + 1)), P=P, kind=kind, area=1, total=t)))
            r.append(dict(name='%s %s counts 8 angles' % (kind, P), fn='p_counts',
                          inputs=dict(counts=ArrOf(8, range(4)), P=P, kind=kind, angles=FINE, total=6)))
            r.append(dict(name='%s %s lay-ups, 8 angles' % (kind, P), fn='p_stack',
                          inputs=dict(stack=Stack(5, FINE), P=P, kind=kind, angles=FINE)))
        r.append(dict(name='%s counts table area' % kind, fn='p_counts_list',
                      inputs=dict(counts=ArrOf((1, 4), range(8)), P=PS[0], kind=kind, area=2.5, total=7)))
        for P in PS[:5]:
            for sym, m in ((True, 0), (True, 1), (False, 0)):
                for h, q in ((4, 2), (3, 3), (5, 0)) if not th else ((4, 2), (3, 3), (5, 0), (6, 3), (1, 1)):
                    r.append(dict(name='%s %s queue of %d, %d plies sym %s mid %d' % (kind, P, q, h, sym, m),
                                  fn='p_queue',
                                  inputs=dict(known=Stack(h, STD), mask=ArrOf(h, (False, True), bool),
                                              queue=ListOf([OneOf(STD) for _ in range(q)]), mid=Stack(m, STD),
                                              P=P, kind=kind, sym=sym)))
        r.append(dict(name='%s inactive' % kind, fn='p_inactive',
                      inputs=dict(stack=Stack(5, STD), counts=ArrOf(4, range(1, 4)), kind=kind)))
        for angles in (STD, (90, 0, 60, -60, 45, -45)):
            r.append(dict(name='%s panel counts %d' % (kind, len(angles)), fn='p_ply_counts',
                          inputs=dict(a=Stack(7, angles), b=Stack(4, angles), angles=angles, kind=kind)))
        for middle in (0, 3):
            for two in (False, True):
                r.append(dict(name='%s group counts middle %d two tables %s' % (kind, middle, two),
                              fn='p_group_counts',
                              inputs=dict(ini=ArrOf(4, (0.0, 1.0, 3.0), float), tab=ArrOf((2, 3), STD),
                                          tab2=ArrOf((2, 2), STD) if two else None, middle=middle,
                                          angles=STD, kind=kind)))
    return r
