from symex.spec import *

ASSUMPTIONS = ['real arithmetic is exact, results are compared within 1e-9 (parameters: 1e-7, compliances 1e-5)',
               'src.CLA (absent from the repository) is only imported by the module, its functions are not used',
               'materials and laminates whose extensional stiffnesses and compliances (the denominators) are not zero']
NOT_COVERED = ['lamination parameters and materials outside the stated grids for the in-plane orthotropy parameters']
U = [52.6, 60.5, 7.3, 10.1, 21.2]
U2 = [8.0, 4.0, 1.0, 3.0, 2.5]


def configs(tier):
    import numpy as np
    r = []
    th = tier == 'thorough'
    for n in (1, 2, 3) if not th else (1, 2, 3, 4, 6):
        M = lambda: RealArr((n, 12), -1, 1)
        for area in (1, 0.25, 4):
            r.append(dict(name='in-plane, %d laminates, area %s' % (n, area), fn='p_ipo', inputs=dict(lampam=M(), area=area)))
            for form in ('table', 'list'):
                r.append(dict(name='out-of-plane, %s of %d, factor %s' % (form, n, area), fn='p_oopo',
                              inputs=dict(oopo=Bool(), lampam=M(), second=area, form=form)))
        for par in (False, True):
            r.append(dict(name='structure of %d panels%s' % (n, ', parameters' * par), fn='p_mp',
                          inputs=dict(ipo=Bool(), oopo=Bool(), switch=Bool(), lampam=M(), area=2, second=0.5, par=par)))
        r.append(dict(name='%d laminates' % n, fn='p_ss',
                      inputs=dict(ipo=Bool(), oopo=Bool(), switch=Bool(), lampam=M(), area=2, second=0.5)))
    g = [-1, -0.25, 0, 0.5] if not th else [k / 4 for k in range(-4, 5)]
    for u in (U, U2):
        for x in ((0, 0), (0.5, -0.25), (-0.75, 0.125)) if not th else [(a, b) for a in (-1, -0.5, 0, 0.75) for b in (-0.5, 0.125, 0.75)]:
            r.append(dict(name='parameters, U1 %s, first parameters %s' % (u[0], x), fn='p_param',
                          inputs=dict(u=u, lampam=[x[0], x[1]] + [Real(-1, 1) for k in range(10)], sym=Bool())))
            r.append(dict(name='compliance parameters, U1 %s, first parameters %s' % (u[0], x), fn='p_compliance',
                          inputs=dict(u=u, lampam=[x[0], x[1], OneOf(g), OneOf(g), 0, 0, 0, 0, 0.25, -0.5, 0, 0], sym=True)))
            r.append(dict(name='compliance parameters, coupled, U1 %s, first parameters %s' % (u[0], x), fn='p_compliance',
                          inputs=dict(u=u, lampam=[x[0], x[1], OneOf([-0.25, 0, 0.5]), OneOf([0, 0.25]), OneOf([0, 0.5]), 0.25, -0.125, OneOf([0, 0.25]),
                                                   0.25, -0.5, 0.125, 0.25], sym=False)))
    return r

