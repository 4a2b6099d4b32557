from symex.spec import *

STD = (0, 45, 90, -45)
FINE = (0, 45, 90, -45, 30, -30)
ASSUMPTIONS = ['the input meets the damage-tolerance, disorientation and contiguity rules which are active (outermost plies exempted when two plies are fixed for damage tolerance)',
               'targets and weights of the list of configurations',
               'the lamination parameters of src.CLA, absent from the repository, are those of the textbook']
NOT_COVERED = ['thicker laminates, more symbolic plies', 'finding the best permutation (the search is a heuristic)']


def configs(tier):
    r = []
    th = tier == 'thorough'
    W = (1., 1., 1., 1.)
    W2 = (0.5, 0.25, 0., 0.)

    def plies(no, angles):
        return ArrOf(no, angles, int)

    def desc(no, fixed, mid, sym, rule, diso, delta, nc, angles, kind, coeffs, target, n_D2, sizes, core):
        n = no + len(fixed) if sizes is None else sum(sizes) + core
        n = (2 * n + (1 if mid is not None else 0)) if sym else n
        return '%s, %d plies (%s fixed%s%s), damage tolerance rule %d, disorientation %s, contiguity %d, %s, %d angles, weights %s, target %s, n_D2 %d' % (
            'symmetric' if sym else 'asymmetric', n, list(fixed), ', middle ply' if mid is not None else '', '' if sizes is None else ', blocks of %s' % list(sizes) + (' and %d beside the middle ply' % core if core else ''), rule, delta if diso else 'off', nc, kind, len(angles), coeffs, target, n_D2)

    def one(no, fixed, mid, sym, rule, diso, delta, nc, coeffs, target, n_D2=3, n_D3=1, angles=STD, kind='BELLA', switch=True, multi=False, sizes=None, core=0):
        r.append(dict(name='refinement, ' + desc(no, fixed, mid, sym, rule, diso, delta, nc, angles, kind, coeffs, target, n_D2, sizes, core) +
                      ', n_D3 %d%s%s' % (n_D3, '' if switch else ', off', ', multipanel' if multi else ''),
                      fn='p_refine', inputs=dict(fixed=fixed, plies=ArrOf(no, angles, int), sizes=sizes, core=core, mid=mid, sym=sym, rule=rule,
                                                 diso=diso, delta=delta, n_contig=nc, angles=angles, kind=kind, coeffs=coeffs, target=target,
                                                 n_D2=n_D2, n_D3=n_D3, switch=switch, multi=multi)))

    def stage(which, no, fixed, mid, sym, rule, diso, delta, nc, coeffs, target, n_D2=3, angles=STD, kind='BELLA', sizes=None, core=0):
        r.append(dict(name='step %d, ' % which + desc(no, fixed, mid, sym, rule, diso, delta, nc, angles, kind, coeffs, target, n_D2, sizes, core),
                      fn='p_stage', inputs=dict(which=which, fixed=fixed, plies=ArrOf(no, angles, int), sizes=sizes, core=core, mid=mid, sym=sym, rule=rule,
                                                diso=diso, delta=delta, n_contig=nc, angles=angles, kind=kind, coeffs=coeffs, target=target, n_D2=n_D2)))
    T1, T2, T3 = (0.6, -0.2, 0.3, 0.1), (-0.5, 0.3, 0.2, -0.1), (0.1, -0.7, -0.4, 0.)

    def blocks(fn, sizes, fixed, mid, sym, *args, **kw):
        if fn is one:
            one(len(sizes) - len(fixed), fixed, mid, sym, *args, sizes=sizes, **kw)
        else:
            stage(1, len(sizes) - len(fixed), fixed, mid, sym, *args, sizes=sizes, **kw)
    for fn in (stage, one):
        for sym in (True, False):
            for sizes in ((1, 1, 1, 1), (2, 2, 1), (1, 2, 1, 2), (1, 1, 2)) if not sym else ((1, 1, 1, 1), (2, 2, 1), (1, 2, 2, 1), (1, 1, 1)):
                blocks(fn, sizes, (0,) if fn is one and len(sizes) > 3 and not th else (), None, sym, 0, False, 45, 3, W, T1)
            blocks(fn, (1, 1, 1, 1), (), None, sym, 0, True, 45, 0, W2, T2)
            blocks(fn, (1, 1, 1, 1), (45,), None, sym, 1, False, 45, 2, W2, T2)
            blocks(fn, (2, 1, 2, 1, 1), (45, 0), None, sym, 1, False, 45, 4, W2, T1)
            blocks(fn, (1, 1, 2, 1, 1), (45, -45), None, sym, 2, False, 45, 3, W, T3, kind='LAYLA')
            blocks(fn, (2, 1, 1, 1, 1), (45, 0), None, sym, 3, False, 45, 2, W, T3)
        blocks(fn, (1, 1, 1, 1), () if fn is stage or th else (0,), 90, True, 0, False, 45, 2, W, T1)
        blocks(fn, (1, 1, 1, 1), (), 0, True, 0, True, 30, 2, W, T2, angles=(0, 30, -30, 60, 90, -60))
        blocks(fn, (1, 2, 1), (), 0, True, 0, False, 30, 3, W, T2, kind='LAYLA', core=1)
        blocks(fn, (1, 1, 1, 1), (), 0, True, 0, True, 45, 0, W, T2)
        blocks(fn, (), (), 0, True, 0, True, 45, 0, W, T2, core=2)
        blocks(fn, (2,), (), None, True, 0, True, 45, 0, W, T2)
    for sym in (True, False):
        stage(2, 4, (), None, sym, 0, False, 45, 2, W, T1)
        stage(2, 4, (), None, sym, 0, True, 45, 0, W2, T2)
        stage(2, 4, (45,), None, sym, 1, True, 45, 3, W2, T3, 1)
        stage(2, 4, (45, 45), None, sym, 3, False, 45, 2, W, T3)
        stage(3, 4 if not sym else 3, (), None, sym, 0, False, 45, 0, W, T1)
        stage(3, 4 if not sym else 3, (-45, 45), None, sym, 2, False, 45, 0, W2, T2, kind='LAYLA')
    stage(2, 4, (), 0, True, 0, True, 45, 2, W, T2)
    stage(3, 3, (45,), 90, True, 1, False, 45, 0, W, T1)
    for sym in (True, False):
        one(4 if not sym else 3, (45, -45), None, sym, 2, False, 45, 0, W, T2)
        one(4 if not sym else 3, (), None, sym, 0, False, 45, 0, W, T1, multi=True)
        one(4, (), None, sym, 0, False, 45, 2, W, T1, switch=False)
        one(4, (), None, sym, 0, False, 45, 2, (0., 0., 0., 0.), T1)
        blocks(one, (1, 1, 1, 1), (), None, sym, 0, True, 45, 2, W, T1, multi=True, kind='LAYLA')
    for i, j, n, no, sym in ((0, 1, 1, 2, False), (0, 3, 2, 5, False), (1, 4, 1, 5, False), (0, 2, 1, 3, True), (1, 3, 2, 5, True)):
        r.append(dict(name='variation for groups of %d at %d and %d of %d plies%s' % (n, i, j, no, ', symmetric' if sym else ''), fn='p_delta',
                      inputs=dict(ss=ArrOf(no, STD, int), i=i, j=j, n=n, sym=sym, angles=STD, kind='BELLA')))
    if th:
        for sym in (True, False):
            for t in (T2, T3):
                blocks(stage, (1, 1, 1, 1), (), None, sym, 0, False, 45, 2, W, t)
                blocks(stage, (1, 1, 1, 1), (), None, sym, 0, True, 30, 2, W, t, angles=FINE)
                blocks(one, (1, 1, 1, 1), (0,), None, sym, 0, False, 45, 2, W2, t, n_D3=2)
                blocks(one, (2, 1, 1, 2, 1), (45, 0), None, sym, 1, False, 45, 3, W2, t, n_D2=2, kind='LAYLA')
                stage(2, 5, (), None, sym, 0, False, 45, 3, W2, t)
                stage(2, 4, (), None, sym, 0, True, 30, 2, W2, t, angles=FINE)
                stage(3, 4, (), None, sym, 0, False, 45, 0, W2, t)
    return r
