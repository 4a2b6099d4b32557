from symex.spec import *

ASSUMPTIONS = ['real arithmetic is exact, results are compared within 1e-6 (stiffnesses in GPa, lengths in mm-like units)',
               'src.CLA.lampam_functions (absent from the repository) is replaced by the textbook lamination parameters',
               'at least one load is not zero']
NOT_COVERED = ['geometries, thicknesses and (when the stiffnesses or lamination parameters are variable) loads other than those of the stated grids',
               'more than 10 modes in each direction']
U = [52.6, 60.5, 7.3, 10.1, 21.2]


def configs(tier):
    r = []
    th = tier == 'thorough'
    D = lambda: Real(0.1, 100)
    M = 10 if th else 4
    loads = [(1, 0), (0, 2), (1, 3), (-2, 1), (-1, -1), (0.5, -3)]
    geo = [(1, 1), (2, 1), (0.5, 1), (1, 4), (1.5, 2.5)]
    for x, y in loads:
        for a, b in geo if th else geo[:3]:
            r.append(dict(name='one mode, loads %s %s, plate %s x %s' % (x, y, a, b), fn='p_mode',
                          inputs=dict(d11=D(), d12=D(), d22=D(), d66=D(), m=Int(1, M), n=Int(1, M), a=a, b=b, N_x=x, N_y=y)))
    ds = [[3.0, 1.0, 2.0, 0.5], [1.0, 0.25, 8.0, 4.0]]
    for d in ds:
        for m, n in ((1, 1), (2, 1), (1, 3)) if not th else [(m, n) for m in range(1, 5) for n in range(1, 5)]:
            for a, b in ((1, 1), (2, 0.5)):
                r.append(dict(name='any loads, D %s, mode %d %d, plate %s x %s' % (d, m, n, a, b), fn='p_loads',
                              inputs=dict(d=d, m=m, n=n, a=a, b=b, N_x=Real(0.5, 10), N_y=Real(-10, 10))))
                r.append(dict(name='any loads, second load, D %s, mode %d %d, plate %s x %s' % (d, m, n, a, b), fn='p_loads',
                              inputs=dict(d=d, m=m, n=n, a=a, b=b, N_x=Real(-10, 0), N_y=Real(-10, -0.5))))
    O = [0.5, -0.25, 0.75, -1.0]
    for form in (12, 4):
        for a, b, x, y, np_, t, k in ((1, 1, 1, 1, 8, 0.125, 2), (2, 1, 1, -2, 16, 0.125, 3), (1, 4, -0.5, 0, 5, 0.25, 3),
                                      (4, 1, 2, 0.25, 20, 0.2, 4), (1, 1, 0, 1, 1, 1, 1)) + \
                (((5, 1, 1, 0.5, 12, 0.125, 6), (1, 6, 0.5, 1, 30, 0.125, 6)) if th else ()):
            r.append(dict(name='factor, %d parameters, plate %s x %s, loads %s %s, %d plies, %d modes' % (form, a, b, x, y, np_, k), fn='p_factor',
                          inputs=dict(form=form, u=U, t=t, n_plies=np_, xi1=Real(-1, 1), xi2=Real(-1, 1), other=O,
                                      a=a, b=b, N_x=x, N_y=y, modes=k)))
            if k <= 3:
                r.append(dict(name='factor, any invariants, %d parameters, plate %s x %s, loads %s %s, %d plies, %d modes' % (form, a, b, x, y, np_, k),
                              fn='p_factor',
                              inputs=dict(form=form, u=RealArr(5, 1, 100), t=t, n_plies=np_, xi1=OneOf([-1.0, 0.5, 0]), xi2=OneOf([0.25, -0.5]), other=O,
                                          a=a, b=b, N_x=x, N_y=y, modes=k)))
        r.append(dict(name='factor, %d parameters, other parameters' % form, fn='p_factor',
                      inputs=dict(form=form, u=U, t=0.125, n_plies=Int(1, 6), xi1=OneOf([0.5, -0.5]), xi2=0.25, other=RealArr(4, -1, 1),
                                  a=1, b=1, N_x=1, N_y=1, modes=2)))
        r.append(dict(name='factor, %d parameters, default modes' % form, fn='p_factor',
                      inputs=dict(form=form, u=U, t=0.125, n_plies=10, xi1=OneOf([-0.9, -0.5, 0, 0.4, 1.0]), xi2=0.5, other=O,
                                  a=OneOf([1, 20]), b=OneOf([1, 30]), N_x=1, N_y=1, modes=0)))
    for a, b, x, y in ((1, 1, 1, 1), (2, 1, 1, 0.25), (1, 3, -1, 0), (1.5, 1, 0.5, -2)):
        for k in (1, 2, 3) if not th else (1, 2, 3, 4):
            r.append(dict(name='laws, plate %s x %s, loads %s %s, %d modes' % (a, b, x, y, k), fn='p_laws',
                          inputs=dict(xi1=Real(-1, 1), xi2=Real(-1, 1), a=a, b=b, N_x=x, N_y=y, n_plies=8, modes=k)))
    r.append(dict(name='margin', fn='p_margin', inputs=dict(f=Real(-100, 100))))
    A = [-45, 0, 45, 90]
    for n in (1, 2, 3) if not th else (1, 2, 3, 4, 5):
        for a, b in ((1, 1), (2, 1)):
            r.append(dict(name='lay-ups of %d plies, plate %s x %s' % (n, a, b), fn='p_ss',
                          inputs=dict(ss=Stack(n, A), N_x=1, N_y=0.5, a=a, b=b, modes=2)))
    return r
