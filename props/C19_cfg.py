from symex.spec import *

ASSUMPTIONS = ['1 - nu12*nu21 is bounded away from zero (physical materials: nu12^2 E22 < E11)',
               'real arithmetic is exact, floating-point results are compared within 1e-9 (relative units of 1 GPa)']
NOT_COVERED = ['constants outside the stated ranges', 'constants of unexpected types other than those listed']
F = ('E11', 'E22', 'nu12', 'G12', 'density_volume', 'density_area', 'ply_t')


def configs(tier):
    r = []
    th = tier == 'thorough'
    for kind in ('BELLA', 'LAYLA'):
        # E11 or E22 and nu12 from a grid keep the problem (almost) linear; the
        # remaining constants are real variables
        nus = [0, 0.25, 0.5, -0.25] if not th else [k / 16 for k in range(-8, 15)]
        for nu in nus:
            r.append(dict(name='%s stiffnesses, nu12 %s' % (kind, nu), fn='p_stiffness',
                          inputs=dict(kind=kind, E11=Real(1, 300), E22=OneOf([1, 2, 8, 32, 64] if not th else list(range(1, 65))), nu12=nu,
                                      G12=Real(0.25, 100)) if nu else
                          dict(kind=kind, E11=Real(1, 300), E22=Real(1, 300), nu12=0, G12=Real(0.25, 100))))
        for e in ((128, 16, 4) if not th else (256, 128, 64, 32, 16, 8, 4, 2)):
            r.append(dict(name='%s stiffnesses, E11 %s' % (kind, e), fn='p_stiffness',
                          inputs=dict(kind=kind, E11=e, E22=OneOf([1, 2, 4]), nu12=OneOf(nus), G12=Real(0.25, 100))))
        R = lambda: Real(-10, 10)
        r.append(dict(name='%s ranges' % kind, fn='p_reject',
                      inputs=dict(kind=kind, E11=R(), E22=R(), G12=R(), ply_t=R(), dv=R(), da=R())))
        for f in F:
            r.append(dict(name='%s, %s' % (kind, f), fn='p_type',
                          inputs=dict(kind=kind, field=f, v=OneOf(['3', None, [1.0], 3, 2.5, (1,)]))))
        for given in ('none', 'volume', 'area', 'both'):
            for t in ((0.125, 0.0002) if not th else (0.125, 0.0002, 0.001, 0.01, 2)):
                r.append(dict(name='%s densities, %s given, thickness %s' % (kind, given, t), fn='p_density',
                              inputs=dict(kind=kind, dv=Real(0.01, 5000), da=Real(0.01, 5000), ply_t=t, given=given)))
            r.append(dict(name='%s densities, %s given' % (kind, given), fn='p_density',
                          inputs=dict(kind=kind, dv=OneOf([1, 2.5, 1600]), da=OneOf([0.5, 300]), ply_t=Real(0.125, 2), given=given)))
    return r
