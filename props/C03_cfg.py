from symex.spec import *

STD = (0, 45, 90, -45)
FINE = (0, 30, 60, 90, -30, -60)
MANY = (0, 15, 30, 45, 60, 75, 90, -15, -30, -45, -60, -75)
ASSUMPTIONS = ['lay-ups of at least 3 plies where the outermost pairs are exempt',
               'asymmetric search: the first ply of each surface is never a dropped ply']
NOT_COVERED = ['lay-ups longer than the bound']


def configs(tier):
    r = []
    th = tier == 'thorough'
    r.append(dict(name='pair, real angles', fn='p_pair',
                  inputs=dict(a=Real(-90, 90), b=Real(-90, 90), delta=Real(0, 180)),
                  bound='all angles in [-90, 90] and all limits, as reals'))
    ints = range(-89, 91) if th else list(range(-85, 91, 5)) + [-89, 89, 44, 46]
    for delta in (30, 45, 60, 89):
        r.append(dict(name='pair, integer angles, limit %d' % delta, fn='p_pair',
                      inputs=dict(a=OneOf(ints), b=OneOf(ints), delta=delta)))
    for delta, angles, n in ((45, STD, 12 if th else 9), (60, FINE, 8 if th else 6), (30, MANY, 6 if th else 5),
                             (50, MANY, 6 if th else 4), (89, STD, 6), (90, STD, 4)):
        for rule in (0, 1, 2, 3):
            for k in (3, 4, n):
                r.append(dict(name='checker limit %d rule %d %d plies %d angles' % (delta, rule, k, len(angles)),
                              fn='p_checker', inputs=dict(stack=Stack(k, angles), delta=delta, rule=rule)))
            for kind in ('BELLA', 'LAYLA', 'plies'):
                if (kind == 'plies' and rule == 3) or delta > 60:
                    continue
                r.append(dict(name='count %s limit %d rule %d %d angles' % (kind, delta, rule, len(angles)),
                              fn='p_count', inputs=dict(stack=Stack(n, angles), delta=delta, rule=rule, kind=kind)))
                r.append(dict(name='panel counts %s limit %d rule %d %d angles' % (kind, delta, rule, len(angles)),
                              fn='p_count_mp', inputs=dict(a=Stack(min(n, 6), angles), b=Stack(4, angles),
                                                           delta=delta, rule=rule, kind=kind)))
    for k in (1, 2):
        for rule in (0, 1):
            r.append(dict(name='checker %d plies rule %d' % (k, rule), fn='p_checker',
                          inputs=dict(stack=Stack(k, STD), delta=45, rule=rule)))
    r.append(dict(name='missing rule', fn='p_incomplete', inputs=dict(stack=Stack(4, STD))))
    for coeff, norm in ((1, 1), (2.5, 7)):
        r.append(dict(name='penalty %s %s' % (coeff, norm), fn='p_penalty',
                      inputs=dict(viola=ArrOf((2, 3), range(6)), coeff=coeff, norm=norm)))
    for delta, angles in ((45, STD), (60, FINE)):
        for sym, mid in ((True, False), (True, True), (False, False)):
            for L in (3, 4) + ((5, 6) if th else (5,) if angles is STD else ()):
                r.append(dict(name='incremental limit %d sym %s mid %s %d levels' % (delta, sym, mid, L),
                              fn='p_incremental',
                              inputs=dict(angles=Stack(L, angles), drops=ArrOf((2, L), (False, True), bool),
                                          delta=delta, sym=sym, mid=mid)))
    return r
