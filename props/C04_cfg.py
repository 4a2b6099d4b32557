from symex.spec import *

STD = (0, 45, 90, -45)
MANY = (0, 15, 30, 45, 60, 75, 90, -15, -30, -45, -60, -75)
ASSUMPTIONS = ['lay-ups have at least as many plies as the rule examines',
               'the lay-up of a symmetric laminate is symmetric']
NOT_COVERED = ['lay-ups longer than the bound (only the two outermost plies of each surface matter)']


def configs(tier):
    r = []
    th = tier == 'thorough'
    for kind in ('BELLA', 'LAYLA', 'plies'):
        for rule in (0, 1, 2, 3) if kind != 'plies' else (0, 1, 2):
            for sym in (False, True):
                for n in (1, 2, 3, 4, 5, 6, 10) + ((20, 40) if th else ()):
                    if n == 1 and rule in (2, 3):
                        continue
                    r.append(dict(name='%s rule %d sym %s %d plies' % (kind, rule, sym, n), fn='p_any',
                                  inputs=dict(stack=Stack(n, STD), rule=rule, kind=kind, sym=sym)))
                r.append(dict(name='%s rule %d sym %s 12 angles' % (kind, rule, sym), fn='p_any',
                              inputs=dict(stack=Stack(5, MANY), rule=rule, kind=kind, sym=sym)))
            for h in (2, 3, 5):
                for m in (0, 1):
                    r.append(dict(name='%s rule %d symmetric 2x%d+%d' % (kind, rule, h, m), fn='p_sym',
                                  inputs=dict(half=Stack(h, STD), mid=Stack(m, STD), rule=rule, kind=kind)))
    return r
