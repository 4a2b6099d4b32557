from symex.spec import *

STD = (0, 45, 90, -45)
FINE = (0, 45, 90, -45, 30, -30)
PS = [(10, 10, 10, 10, 0), (10, 0, 10, 0, 20), (0, 25, 0, 15, 30), (20, 0, 5, 0, 40), (0, 0, 0, 0, 0)]
ASSUMPTIONS = ['the input meets the balance and 10% requirements the refinement has to preserve', 'targets and weights of the list of configurations']
NOT_COVERED = ['10% rule expressed with lamination parameters (Abdalla): its distance function loops over 20000 points', 'thicker laminates, more symbolic plies']


def configs(tier):
    r = []

    th = tier == 'thorough'

    def one(n, nq, P, bal, sym, rule, angles, kind, coeffs, target, fixed=(), p_A=100, switch=True, multi=False):
        ten = P != PS[4]
        no = (n // 2 if sym else n) - nq - len(fixed)
        r.append(dict(name='%s, %d plies (%d queued, %s fixed), %s%s %s, damage tolerance rule %d, %s, %d angles, weights %s, target %s, %d%%%s%s' % (
            'symmetric' if sym else 'asymmetric', n, nq, list(fixed), 'balanced ' if bal else '', '10%' if ten else '', P, rule, kind, len(angles), coeffs, target, p_A,
            '' if switch else ', off', ', multipanel' if multi else ''),
            fn='p_refine', inputs=dict(fixed=fixed, outer=ArrOf(no, angles, int), mid=OneOf((0, 90)) if sym and n % 2 else None,
                                       queue=ListOf([OneOf(angles) for _ in range(nq)]), n=n, P=P, bal=bal, ten=ten, sym=sym, rule=rule, angles=angles,
                                       kind=kind, coeffs=coeffs, target=target, p_A=p_A, switch=switch, multi=multi)))
    W = (1., 1., 1., 1.)
    W2 = (0.5, 0.25, 0., 0.)
    for sym in (True, False):
        one(8 if sym else 4, 1, PS[4], False, sym, 0, STD, 'BELLA', W, (0.1, 0.2, 0., 0.), (45, 0))
        one(8 if sym else 4, 1, PS[4], False, sym, 0, STD, 'LAYLA', W2, (-0.5, 0.2, 0., 0.), (0, 45))
        one(8 if sym else 4, 0, PS[4], False, sym, 1, STD, 'LAYLA', W2, (0.5, -0.2, 0., 0.), (45, 45))
        one(12 if sym else 6, 1, PS[1], False, sym, 0, STD, 'BELLA', W, (0.9, 0.9, 0., 0.), (45, -45, 0, 90))
        one(12 if sym else 6, 1, PS[1], False, sym, 0, STD, 'BELLA', W, (-0.5, -0.9, 0.3, 0.), (0, 90, 45, 45))
        one(12 if sym else 6, 1, PS[0], False, sym, 0, STD, 'LAYLA', W, (-0.9, 0.9, 0., 0.), (45, -45, 0, 90), p_A=60)
        one(13 if sym else 6, 1, PS[2], False, sym, 2, STD, 'BELLA', W, (0.9, 0.9, 0., 0.), (45, -45, 0, 0))
        one(13 if sym else 6, 0, PS[3], False, sym, 0, STD, 'LAYLA', W2, (0.4, -0.4, 0., 0.), (45, -45, 0, 0))
        one(8 if sym else 4, 1, PS[4], False, sym, 0, STD, 'BELLA', W, (0.1, 0.2, 0., 0.), switch=False)
        one(8 if sym else 4, 1, PS[4], False, sym, 0, STD, 'BELLA', (0., 0., 0., 0.), (0.1, 0.2, 0., 0.), multi=True)
        one(8 if sym else 4, 1, PS[4], False, sym, 0, STD, 'BELLA', W, (0.1, 0.2, 0., 0.), (45, -45), multi=True)
        if not sym or th:
            one(12 if sym else 6, 1, PS[0], False, sym, 0, STD, 'BELLA', W, (0., -1., -1., 0.), (45, -45, 0, 90))
            one(12 if sym else 6, 1, PS[0], False, sym, 0, STD, 'BELLA', W, (0., -1., 1., 0.), (45, -45, 0, 90))
        one(12 if sym else 6, 1, PS[2], False, sym, 0, STD, 'LAYLA', W, (-0.2, -0.7, 0.8, 0.), (45, 45, -45, 90))
        for kind in ('BELLA', 'LAYLA'):
            one(12 if sym else 6, 1, PS[0], True, sym, 0, STD, kind, W, (-0.9, 0.9, 0., 0.), (45, -45))
            one(12 if sym else 6, 1, PS[1], True, sym, 0, STD, kind, W2, (0., -1., 0., 0.), (45, -45))
        one(12 if sym else 6, 1, PS[1], True, sym, 0, FINE, 'BELLA', W2, (0.3, -1., 0., 0.), (45, -45))
        one(14 if sym else 8, 2, PS[1], True, sym, 2, STD, 'BELLA', W, (1., 1., 0., 0.), (45, -45, 0) if sym else (45, -45, 0, -45, 45))
        one(15 if sym else 8, 1, PS[3], True, sym, 0, STD, 'BELLA', W2, (0.2, 0.2, 0., 0.), (45, -45, 0), p_A=70)
        one(11 if sym else 7, 0, PS[4], True, sym, 1, STD, 'BELLA', W, (0., -0.8, 0., 0.), (45, -45) if sym else (45, -45, 45))
        one(9 if sym else 5, 1, PS[4], True, sym, 0, STD, 'BELLA', W, (1., 1., 0., 0.))
        if sym or th:
            one(9 if sym else 5, 1, PS[4], True, sym, 0, STD, 'BELLA', W, (-1., 1., 0., 0.))
            one(8 if sym else 4, 2, PS[4], True, sym, 0, FINE, 'LAYLA', W, (0.4, -0.3, 0., 0.))
    return r
