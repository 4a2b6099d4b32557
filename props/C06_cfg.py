from symex.spec import *

ASSUMPTIONS = ['real arithmetic is exact, laminates within 1e-9 of the limit of the region are excluded']
NOT_COVERED = ['distances: lamination parameters and fractions other than those of the stated grids']


def configs(tier):
    r = []
    th = tier == 'thorough'
    for p in (0, 5, 10, 12.5, 20, 24) if not th else (0, 1, 2.5, 5, 7.5, 10, 12, 12.5, 15, 17.5, 20, 22, 24):
        n = 16 if not th else 64
        xs = sorted({k / n for k in range(-n, n + 1)})
        for k in range(0, len(xs), 11):
            t = '%s%%, first parameter from %s' % (p, xs[k])
            inp = dict(percent=p, x=OneOf(xs[k:k + 11]), y=Real(-1, 1))
            r.append(dict(name='region, ' + t, fn='p_region', inputs=inp))
            # nothing of the region has such first parameters otherwise
            if min(abs(x) for x in xs[k:k + 11]) < 1 - p / 25 - 0.01:
                for form in ('one', 'list'):
                    r.append(dict(name='inside, %s, %s' % (form, t), fn='p_inside', inputs=dict(inp, form=form)))
        r.append(dict(name='mirrored laminate, %s%%' % p, fn='p_symmetry',
                      inputs=dict(percent=p, x=OneOf([k / 16 for k in range(17)]), y=Real(-1, 1))))
    g = [k / 4 for k in range(-4, 5)] if not th else [k / 16 for k in range(-16, 17)]
    for x in (-1.0, -0.75, -0.5, -0.25, 0.0, 0.125, 0.375, 0.625):
        r.append(dict(name='region, every whole percentage, first parameter %s' % x, fn='p_region',
                      inputs=dict(percent=Int(0, 24), x=x, y=Real(-1, 1))))
    for p in (0, 10, 20) if not th else (0, 2.5, 5, 10, 15, 20, 24):
        for num in (3, 5) if not th else (2, 3, 5, 9, 17):
            r.append(dict(name='distance, %s%%, %d points' % (p, num), fn='p_distance',
                          inputs=dict(percent=p, x=OneOf(g), y=OneOf(g), num=num)))
    r.append(dict(name='two points', fn='p_points', inputs=dict(a=Real(-1, 1), b=Real(-1, 1), x=Real(-1, 1), y=Real(-1, 1))))
    r.append(dict(name='inactive rule', fn='p_off', inputs=dict(x=Real(-1, 1), y=Real(-1, 1), ten=Bool(), abd=Bool())))
    return r
