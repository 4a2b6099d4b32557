from symex.spec import *

STD = (0, 45, 90, -45)
FINE = (0, 30, 60, 90, -30, -60)
MANY = (0, 15, 30, 45, 60, 75, 90, -15, -30, -45, -60, -75)
UNSORTED = (90, -45, 45, 0, 45)
NOTES = []
ASSUMPTIONS = ['fibre angles are integers in (-90, 90]']
NOT_COVERED = ['lay-ups longer than the bound; ply counts above the bound']


def configs(tier):
    r = []
    th = tier == 'thorough'
    for n in (1, 2, 3, 6, 9, 11) + ((13,) if th else ()):
        r.append(dict(name='is_balanced n=%d 4 angles' % n, fn='p_is_balanced',
                      inputs=dict(stack=Stack(n, STD), angles=STD),
                      bound='all lay-ups of %d plies over %s' % (n, STD)))
    for n in (2, 4, 7) + ((9,) if th else ()):
        r.append(dict(name='is_balanced n=%d 6 angles' % n, fn='p_is_balanced',
                      inputs=dict(stack=Stack(n, FINE), angles=FINE),
                      bound='all lay-ups of %d plies over %s' % (n, FINE)))
    for n in (3, 4) + ((5,) if th else ()):
        r.append(dict(name='is_balanced n=%d 12 angles' % n, fn='p_is_balanced',
                      inputs=dict(stack=Stack(n, MANY), angles=MANY),
                      bound='all lay-ups of %d plies over %s' % (n, MANY)))
    hi = 12 if th else 7
    for kind in ('BELLA', 'LAYLA'):
        for angles, top in ((STD, hi), (FINE, 4 if th else 2), ((0, 90, 45, -45, 30, -30, 60, -60), 1)):
            for coeff in (1, 2.5):
                r.append(dict(name='penalty %s %d angles coeff %s' % (kind, len(angles), coeff),
                              fn='p_penalty_one',
                              inputs=dict(counts=ArrOf(len(angles), range(top + 1)), angles=angles,
                                          coeff=coeff, kind=kind),
                              bound='all ply counts up to %d per angle' % top))
        for rows in (1, 2):
            r.append(dict(name='penalties %s %d rows' % (kind, rows), fn='p_penalty_many',
                          inputs=dict(counts=ArrOf((rows, 4), range(hi - 1)), angles=STD, kind=kind),
                          bound='all ply counts up to %d per angle' % (hi - 2)))
        r.append(dict(name='penalties %s 6 angles' % kind, fn='p_penalty_many',
                      inputs=dict(counts=ArrOf((2, 6), range(3)), angles=FINE, kind=kind),
                      bound='all ply counts up to 2 per angle'))
    r.append(dict(name='checker vs penalty', fn='p_stack_penalty',
                  inputs=dict(stack=Stack(8 if th else 6, STD), angles=STD)))
    return r
