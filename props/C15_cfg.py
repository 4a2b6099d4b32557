from symex.spec import *

ASSUMPTIONS = ['the sizes of the ply groups add up to the number of plies to design']
NOT_COVERED = ['laminates of more plies than the bound']


def configs(tier):
    r = []
    th = tier == 'thorough'
    top = 121 if th else 61
    for sym in (True, False):
        r.append(dict(name='laminate, sym %s' % sym, fn='p_layla', inputs=dict(n=OneOf(range(1, top)), sym=sym)))
        r.append(dict(name='one panel, sym %s' % sym, fn='p_bella', inputs=dict(counts=ListOf([OneOf(range(1, top))]), sym=sym)))
        r.append(dict(name='three panels, sym %s' % sym, fn='p_bella',
                      inputs=dict(counts=ListOf([OneOf((1, 2, 5, 8, 13)) for _ in range(3)]), sym=sym)))
        for g, n in ((1, 7), (2, 9), (3, 10)) + (((4, 12),) if th else ()):
            r.append(dict(name='levels of %d groups, sym %s' % (g, sym), fn='p_levels',
                          inputs=dict(n=OneOf((n, n + 1, 2 * n, 2 * n + 1)), sizes=ArrOf(g, range(1, n + 1 if g < 3 else 6)), sym=sym)))
    return r
