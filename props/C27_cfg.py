from symex.spec import *

STD = (0, 45, 90, -45)
ASSUMPTIONS = ['the lay-ups of the structure are blended and, where required, symmetric',
               'the reference lay-up meets the damage-tolerance rule',
               'structures, layouts, parameters, weights and targets of the list of configurations',
               'the lamination parameters of src.CLA, absent from the repository, are those of the textbook']
NOT_COVERED = ['more panels, thicker laminates, more symbolic plies', 'the 10% rule in terms of lamination parameters',
               'asymmetric reference panels of fewer than five plies with two plies fixed for damage tolerance']
P = (10, 10, 10, 10, 0)


def configs(tier):
    r = []
    th = tier == 'thorough'
    W = (1., 1., 0., 0., 0., 0., 0., 0., 1., 1., 0.5, 0.)
    TS = ((0.6, -0.2, 0., 0.1, 0.1, 0., 0., 0., 0.3, -0.4, 0.1, 0.),
          (-0.3, 0.4, 0.1, 0., 0., 0.2, 0., 0., -0.5, 0.3, 0.2, 0.),
          (0.1, -0.7, 0., 0., 0., 0., 0., 0., 0.2, -0.6, -0.3, 0.))

    def rows(sym, mid, *dropped):
        """layouts given by the positions dropped in each panel but the thickest (half positions)"""
        n, out = dropped[0], []
        for d in dropped[1:]:
            out.append(tuple(not (k in d or (sym and n - 1 - k in d)) for k in range(n)))
        out.append((True,) * n)
        return tuple(out)

    def add(fn, sym, mid, fixed, n, drops, ref, text='', **kw):
        pdl = rows(sym, mid, n, *drops)
        free = (2 if fn in ('p_thick', 'p_mp', 'p_thick_best') else 3) + th
        for a in (90, -45, 0, 45) * 3:
            if (n // 2 if sym else n) - len(fixed) > free:
                fixed = fixed + (a,)
        plies = tuple(sum(p) for p in pdl)
        no = (n // 2 if sym else n) - len(fixed)
        inp = dict(plies=plies, pdl=pdl, fixed=fixed, rest=ArrOf(no, STD, int), sym=sym, angles=STD, targets=TS[:len(plies)], coeffs=W, **kw)
        if fn in ('p_thin', 'p_thick', 'p_ref', 'p_mp'):
            inp.update(ref=plies[ref], mid=mid)
        r.append(dict(name='%s, %s, panels of %s plies%s, %s fixed, layout %s, reference %d, %s' % (
            {'p_thin': 'thinner panels', 'p_thick': 'thicker panels', 'p_thin_best': 'best drop', 'p_thick_best': 'best addition', 'p_ref': 'reference panel', 'p_mp': 'all panels'}[fn],
            'symmetric' if sym else 'asymmetric', list(plies), '' if mid is None else ', middle ply %d' % mid, list(fixed), [list(d) for d in drops], ref,
            ', '.join('%s %s' % (k, v) for k, v in kw.items())), fn=fn, inputs=inp))

    def walk(fn, sym, mid, fixed, n, drops, ref, bal=False, ten=False, diso=False, nc=3, cov=0, spacing=False, md=2, local=50, glob=50, P=P):
        add(fn, sym, mid, fixed, n, drops, ref, P=P, bal=bal, ten=ten, diso=diso, n_contig=nc, covering=cov > 0, n_covering=max(cov, 1), spacing=spacing,
            min_drop=md, local=local, glob=glob)
    for fn in ('p_thin', 'p_thick'):
        ref = 1 if fn == 'p_thin' else 0
        for sym in (True, False):
            fx = ((45, 0) if fn == 'p_thin' or th else (45, 0, 90)) if sym else (45,)
            n = 10 if sym else 5
            for bal, ten in ((False, False), (True, False), (False, True)):
                walk(fn, sym, None, fx, n, ((1,),), ref, bal=bal, ten=ten)
                walk(fn, sym, None, fx, n, ((1, 2),), ref, bal=bal, ten=ten, nc=2, spacing=not bal, local=2, glob=2)
            walk(fn, sym, None, fx, n, ((1, 2), (2,)), 2 if fn == 'p_thin' else 0, diso=True, local=3, glob=2)
            walk(fn, sym, None, fx, n, ((1, 2), (2,)), 1, bal=True, local=3, glob=2)
            walk(fn, sym, None, fx, n, ((1,),), ref, cov=1, diso=True)
        walk(fn, True, None, (0, 45), 10, ((3,),), ref, cov=2, bal=True)
        walk(fn, True, 90, (45,), 9, ((1,),), ref, bal=True, nc=2)
        walk(fn, True, 0, (45,), 9, ((0, 1),), ref, ten=True, local=2, glob=3)
    for sym in (True, False):
        n = 10 if sym else 5
        for nc, ten in ((0, False), (2, False), (3, True)):
            fx = (45, 0) if sym else (45,)
            add('p_thin_best', sym, None, fx, n, ((1,),), 1, P=P, ten=ten, n_contig=nc, n_cov=nc // 2)
            fx = (0, 90, 45) if sym else (0, 90)
            add('p_thick_best', sym, None, fx, n, ((0,),), 0, P=P, ten=ten, diso=nc == 2, n_contig=nc, n_cov=nc // 2)
    # more plies than the thickest panel
    add('p_thin_best', True, None, (45, 0), 12, ((1, 2), (1,)), 1, P=P, ten=False, n_contig=2, n_cov=0)

    def whole(fn, sym, mid, fixed, n, drops, ref, bal, ten, diso, nc, rule=0, par=(100, 2, 2, 1, False, False), local=3, glob=3, P=P):
        if fn == 'p_ref':
            add(fn, sym, mid, fixed, n, drops, ref, P=P, bal=bal, ten=ten, rule=rule, diso=diso, n_contig=nc, par=par)
        else:
            add(fn, sym, mid, fixed, n, drops, ref, P=P, bal=bal, ten=ten, diso=diso, n_contig=nc, par=par, local=local, glob=glob)
    ON = (100, 2, 2, 1, True, True)
    for sym in (True, False):
        n = 10 if sym else 6
        fx = (45,) if sym else (45, 0)
        for bal, ten, diso, nc in ((True, False, True, 2), (False, True, False, 3), (True, True, True, 3)):
            for ref in (0, 1):
                whole('p_ref', sym, None, fx, n, ((1, 2),), ref, bal, ten, diso, nc)
        whole('p_ref', sym, None, fx, n, ((2,),), 0, True, True, False, 2, par=ON)
        whole('p_ref', sym, None, fx, n, ((2,),), 1, False, False, True, 2, rule=1, par=ON)
        whole('p_ref', sym, None, (45, -45), n + 2, ((3,),), 1, True, False, True, 2, rule=2)
        n, fx = (10, (45, 0)) if sym else (5, (45, 0))
        whole('p_mp', sym, None, fx, n, ((1,),), 0, False, False, True, 2)
        whole('p_mp', sym, None, fx, n, ((1,),), 1, True, False, False, 3)
        whole('p_mp', sym, None, fx, n, ((1,),), 1, False, True, True, 3, par=ON)
        whole('p_mp', sym, None, fx, n + (2 if sym else 1), ((1, 2), (2,)), 1, True, True, True, 2, local=2, glob=2)
    whole('p_mp', True, 90, (45,), 9, ((1,),), 1, True, False, True, 2)
    return r
