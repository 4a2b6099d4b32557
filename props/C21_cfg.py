from symex.spec import *

ASSUMPTIONS = ['real arithmetic is exact, results are compared within 1e-9 (1e-7 for products of penalties)',
               'weightings, objectives, penalties and coefficients are not negative',
               'src.CLA (absent from the repository) is only imported, not used by these functions']
NOT_COVERED = ['where products of variables would make the problem non-linear: values other than those of the stated grids',
               'penalties given as a list with a single value', 'objectives to minimise buckling or mass (not implemented in the code)']


def configs(tier):
    import numpy as np
    r = []
    th = tier == 'thorough'
    T = np.array([0.5, -0.25, 0, 0.75, 0, 0, 0, 0, -1, 0.125, 0.25, 0])
    W = np.array([1, 0, 2, 0.5, 0, 0, 0, 0, 3, 1, 0.25, 0])
    G = [-1, 0, 0.5]
    for fn, kw in (('p_one', {}), ('p_layla', dict(power=2)), ('p_layla', dict(power=1))):
        t = fn + (' %s' % kw['power'] if kw else '')
        r.append(dict(name=t + ', any weightings', fn=fn,
                      inputs=dict(kw, lampam=ArrOf(12, G, float), target=T, w=RealArr(12, 0, 10))))
        r.append(dict(name=t + ', any weightings and targets', fn=fn,
                      inputs=dict(kw, lampam=T, target=ArrOf(12, G, float), w=RealArr(12, 0, 10))))
        if fn == 'p_layla' and kw['power'] == 1:
            r.append(dict(name=t + ', any lamination parameters', fn=fn, inputs=dict(kw, lampam=RealArr(12, -1, 1), target=T, w=W)))
            r.append(dict(name=t + ', any targets', fn=fn, inputs=dict(kw, lampam=T, target=RealArr(12, -1, 1), w=W)))
        else:
            for k in (1, 2, 3):
                r.append(dict(name=t + ', any of %d lamination parameters' % k, fn=fn,
                              inputs=dict(kw, lampam=RealArr(k, -1, 1), target=T[:k], w=W[:k])))
    r.append(dict(name='types of objective', fn='p_type', inputs=dict(power=OneOf([0, 1, 2, 3, 12]))))
    for n in (1, 2, 3):
        r.append(dict(name='objective of each of %d panels' % n, fn='p_each',
                      inputs=dict(ns=[8, 10, 12][:n], targets=[T, -T, T / 2][:n], lampam=ArrOf((n, 12), [-1, 0.5], float),
                                  w=[RealArr(12, 0, 10) for k in range(n)])))
    C = [0, 1, 2.5]
    PE = [0, 0.5, 2]
    for n in (1, 2, 3) if not th else (1, 2, 3, 4):
        w = np.array([0.5, 0.25, 2, 1])[:n]
        O = lambda: RealArr(n, 0, 10)
        for form in ('arrays', 'nones', 'none') + (('scalar',) if n > 1 else ()):
            for k in range(6):
                # one penalty and its coefficient vary, the others are fixed
                pens = [np.array([0.5, 0, 1, 0.25])[:n] * (1 + j) for j in range(6)]
                co = [1, 0.5, 2, 1, 0.25, 3]
                pens[k] = ArrOf(n, PE, float)
                co[k] = OneOf(C)
                r.append(dict(name='%s, %d panels, penalty %d' % (form, n, k), fn='p_multi',
                              inputs=dict(obj=O(), w=w, pens=pens, coeffs=co, form=form)))
            r.append(dict(name='%s, %d panels, any weightings' % (form, n), fn='p_multi',
                          inputs=dict(obj=ArrOf(n, [0.0, 1.0, 4.0], float), w=RealArr(n, 0, 10), pens=[np.array([0.5, 0, 1, 0.25])[:n] * (1 + j) for j in range(6)],
                                      coeffs=[1, 0.5, 2, 1, 0.25, 3], form=form)))
        for nones in (False, True):
            r.append(dict(name='no penalty, %d panels%s' % (n, ', with Nones' * nones), fn='p_no_penalty', inputs=dict(obj=O(), w=w, nones=nones)))
            for k in range(6):
                r.append(dict(name='larger penalty %d, %d panels%s' % (k, n, ', with Nones' * nones), fn='p_monotonic',
                              inputs=dict(obj=O(), w=w, pens=[list((np.array([0.5, 0, 1, 0.25])[:n] * (1 + j))) for j in range(6)],
                                          coeffs=[OneOf(C) if j == k else 1 + j / 2 for j in range(6)], which=k, panel=Int(0, n - 1),
                                          more=OneOf([0, 0.25, 5]), nones=nones)))
        r.append(dict(name='zero coefficients, %d panels' % n, fn='p_zero_coeff',
                      inputs=dict(obj=O(), w=w, pens=[RealArr(n, 0, 10) for k in range(6)])))
        r.append(dict(name='scalar penalties, %d panels' % n, fn='p_scalar',
                      inputs=dict(obj=O(), w=w, pen=[OneOf([0, 0.5]) for k in range(6)], coeff=[1, 2, 3, 4, 5, OneOf([0, 1])])))
        r.append(dict(name='missing objectives, %d panels' % n, fn='p_missing',
                      inputs=dict(obj=O(), known=[Bool() for k in range(n)], w=w, pen=ArrOf(n, [0, 0.5, 2], float), coeff=OneOf([0, 1, 2.5]))) if n > 1 else
                 dict(name='missing objective', fn='p_missing',
                      inputs=dict(obj=O(), known=[Bool()], w=w, pen=ArrOf(1, [0, 0.5, 2], float), coeff=1)))
    for ns in ([8], [8, 12], [12, 8], [8, 8, 10], [12, 8, 10, 8]):
        m = len(set(ns))
        r.append(dict(name='in-plane and out-of-plane objectives, %s plies' % ns, fn='p_unconstrained',
                      inputs=dict(ns=ns, lampamA=ArrOf((m, 4), [-1, 0.5], float), lampamD=ArrOf((m, 4), [-0.5, 0.25], float),
                                  targets=[np.roll(T, k) for k in range(len(ns))],
                                  wts=[RealArr(12, 0, 10) for k in ns], pw=np.array([0.5, 0.25, 2])[:m])))
    for k in range(3):
        r.append(dict(name='laminate, larger penalty %d' % k, fn='p_layla_pen',
                      inputs=dict(obj=Real(0, 100), pens=[OneOf(PE) for j in range(3)], coeffs=[OneOf(C) if j == k else 1 + j for j in range(3)],
                                  which=k, more=OneOf([0, 0.5]))))
        r.append(dict(name='laminate, any penalty %d' % k, fn='p_layla_pen',
                      inputs=dict(obj=2.0, pens=[Real(0, 10) if j == k else 0.5 for j in range(3)], coeffs=[1, 0.5, 2], which=k, more=Real(0, 3))))
    r.append(dict(name='laminates with penalties', fn='p_layla_pens',
                  inputs=dict(obj=RealArr(3, 0, 10), pens=[ArrOf(3, [0, 0.5], float) for j in range(3)], coeffs=[1, 0.5, 2])))
    for k in range(6):
        act = [Bool() if j == k or j == (k + 1) % 6 else j % 2 == 0 for j in range(6)]
        r.append(dict(name='coefficient %s' % k, fn='p_obj_function',
                      inputs=dict(active=act, values=[Real(-5, 5) if j in (k, (k + 1) % 6) else 2 for j in range(6)], n_modes=1)))
    r.append(dict(name='all coefficients', fn='p_obj_function',
                  inputs=dict(active=[Bool() for j in range(6)], values=[OneOf([-1, 0, 0.5]) for j in range(6)], n_modes=OneOf([-1, 0, 1, 5]))))
    for k in range(7):
        r.append(dict(name='type of coefficient %s' % k, fn='p_obj_type',
                      inputs=dict(active=[True] * 6 if k == 6 else [Bool() if j == k else True for j in range(6)], which=k,
                                  v=OneOf(['3', None, [1.0], 3, 2.5]))))
    r.append(dict(name='panel weightings', fn='p_weightings', inputs=dict(w=RealArr(4, 0, 10), ns=[8, 8, 10, 12])))
    return r
