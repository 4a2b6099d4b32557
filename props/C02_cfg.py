from symex.spec import *

STD = (0, 45, 90, -45)
ASSUMPTIONS = ['contiguity limits 2 to 6 (limit 1 is rejected by the settings)',
               'with two outer plies fixed for damage tolerance the counters look at the plies '
               'between the two outermost ones, the checkers at all plies']
NOT_COVERED = ['lay-ups longer than the bound']


def configs(tier):
    r = []
    th = tier == 'thorough'
    for n in (2, 3, 4, 5, 6):
        for k in (1, 2, n, n + 1, n + 2, 11 if not th else 16):
            r.append(dict(name='checkers limit %d, %d plies' % (n, k), fn='p_checkers',
                          inputs=dict(stack=Stack(k, STD), n=n),
                          bound='all lay-ups of %d plies over %s' % (k, STD)))
        r.append(dict(name='longest block limit %d' % n, fn='p_longest',
                      inputs=dict(stack=Stack(12 if th else 9, STD), n=n)))
        for kind in ('BELLA', 'LAYLA', 'plies'):
            for rule in (0, 1, 2, 3) if kind != 'plies' else (0, 1, 2):
                r.append(dict(name='counts %s limit %d rule %d' % (kind, n, rule), fn='p_counts',
                              inputs=dict(stack=Stack(11 if th else 9, STD), n=n, kind=kind, rule=rule)))
                if n in (2, 3) or th:
                    r.append(dict(name='panel counts %s limit %d rule %d' % (kind, n, rule), fn='p_counts_mp',
                                  inputs=dict(a=Stack(n + 4, STD), b=Stack(n + 3, STD), n=n, kind=kind,
                                              rule=rule)))
    r.append(dict(name='counts 6 angles', fn='p_counts',
                  inputs=dict(stack=Stack(8, (0, 30, 60, 90, -30, -60)), n=3, kind='BELLA', rule=0)))
    r.append(dict(name='inactive', fn='p_inactive', inputs=dict(stack=Stack(8, STD))))
    for coeff, norm in ((1, 1), (2.5, 7)):
        r.append(dict(name='penalty %s %s' % (coeff, norm), fn='p_penalty',
                      inputs=dict(viola=ArrOf((2, 3), range(6)), coeff=coeff, norm=norm)))
    for n in (2, 3) + ((4,) if th else ()):
        for sym, mid in ((True, False), (True, True), (False, False)):
            for L in (3, 5) + ((6,) if th or not sym else ()):
                r.append(dict(name='incremental limit %d sym %s mid %s %d levels' % (n, sym, mid, L),
                              fn='p_incremental',
                              inputs=dict(angles=Stack(L, STD), drops=ArrOf((2, L), (False, True), bool),
                                          n=n, sym=sym, mid=mid)))
    return r
