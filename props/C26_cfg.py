from symex.spec import *

STD = (0, 45, 90, -45)
BIG = (0, 45, 90, -45, 30, -30)
ASSUMPTIONS = ['the input meets the damage-tolerance rule, its middle ply is 0 or 90 degrees (symmetric, odd ply count)',
               'parameters, weights and targets of the list of configurations',
               'the lamination parameters of src.CLA, absent from the repository, are those of the textbook']
NOT_COVERED = ['thicker laminates, more symbolic plies, the 10% rule in terms of lamination parameters', 'finding a repair whenever one exists (the search is a heuristic)']


def configs(tier):
    r = []
    th = tier == 'thorough'
    W = (1., 1., 0., 0., 0., 0., 0., 0., 1., 1., 0.5, 0.)
    T = (0.6, -0.2, 0., 0.1, 0., 0., 0., 0., 0.3, -0.4, 0.1, 0.)
    P = (10, 10, 10, 10, 0)

    def rep(no, fixed, mid, sym, bal, ten, rule, diso, nc, kind='BELLA', p=P, form=0, par=(100, 2, 2, 1, False, False), angles=STD, delta=45, vals=None):
        n = no + len(fixed)
        n = (2 * n + (1 if mid is not None else 0)) if sym else n
        r.append(dict(name='%s, %d plies (%s fixed%s), %s, %s, damage tolerance rule %d, disorientation %s, contiguity %d, %s, %d angles, membrane %s, flexural %s, form %d' % (
            'symmetric' if sym else 'asymmetric', n, list(fixed), ', middle ply' if mid is not None else '', 'balance' if bal else 'no balance', '10%% %s' % (p,) if ten else 'no 10%',
            rule, delta if diso else 'off', nc, kind, len(angles), 'on' if par[4] else 'off', 'on' if par[5] else 'off', form),
            fn='p_repair', inputs=dict(fixed=fixed, plies=ArrOf(no, vals or angles, int), mid=mid, sym=sym, P=p, bal=bal, ten=ten, rule=rule, diso=diso, delta=delta,
                                       n_contig=nc, angles=angles, kind=kind, par=par, coeffs=W, target=T, form=form)))
    BT = ((True, False), (False, True), (True, True))
    for sym in (True, False):
        for bal, ten in ((False, False),) + BT:
            rep(4, (), None, sym, bal, ten, 0, True, 2)
            rep(4, (), None, sym, bal, ten, 0, False, 3, kind='LAYLA', form=1)
        for rule in (1, 2, 3):
            fx = {1: (45,), 2: (45, -45), 3: (-45, -45)}[rule]
            for bal, ten in BT if rule == 1 else BT[2:]:
                rep(4 if sym else 4, fx, None, sym, bal, ten, rule, True, 2)
    ON, ME, FL = (100, 2, 2, 1, True, True), (70, 1, 2, 1, True, False), (100, 2, 2, 1, False, True)
    for sym in (True, False):
        for k, (par, form) in enumerate(((ON, 0), (ME, 1), (FL, 2), (ON, 3))):
            for bal, ten, nc in ((True, False, 2), (False, True, 3)):
                rep(3, (0,), None, sym, bal, ten, 0, bal, nc, par=par, form=form, kind='LAYLA' if k % 2 else 'BELLA')
        rep(3, (45,), None, sym, True, True, 1, True, 2, par=ON, form=3)
        rep(3, (45, -45), None, sym, True, True, 2, True, 2, par=ON, form=1, kind='LAYLA')
        for p in ((20, 0, 5, 0, 40), (0, 0, 0, 0, 0), (10, 10, 0, 10, 30)):
            rep(4, (), None, sym, True, True, 0, True, 2, p=p, form=2)
            rep(4, (), None, sym, False, True, 0, False, 0, p=p)
    for mid in (0, 90):
        for bal, ten in BT:
            rep(4, (), mid, True, bal, ten, 0, True, 2, par=(100, 3, 2, 1, False, False))
        rep(3, (45,), mid, True, True, True, 1, True, 2, par=ON, form=1)
        rep(3, (), mid, True, True, False, 0, True, 2, par=ON, form=3)
    for sym in (True, False):
        rep(4, (), None, sym, True, False, 0, True, 2, angles=BIG, vals=(0, 30, -30, 90))
        rep(4, (30,), None, sym, True, True, 0, True, 2, angles=BIG, vals=(0, 30, -30, 45), p=(20, 0, 5, 0, 40), delta=60)
        rep(5, (), None, sym, True, True, 0, True, 3)
        rep(5 if sym else 4, (45,), None, sym, True, False, 1, True, 2, par=(100, 3, 2, 1, False, False))
    if th:
        for sym in (True, False):
            for par, form in ((ON, 1), (ME, 3), (FL, 3), (ON, 2)):
                rep(4, (), None, sym, True, True, 0, True, 2, par=par, form=form)
                rep(4, (45, -45), None, sym, True, False, 2, True, 2, par=par, form=form, kind='LAYLA')
                rep(4, (45,), None, sym, False, True, 1, True, 3, par=par, form=form, p=(20, 0, 5, 0, 40))
            rep(6, (), None, sym, True, True, 0, True, 2)
            rep(5, (), None, sym, True, True, 0, True, 2, angles=BIG)
    return r
