from symex.spec import *
import numpy as np

ASSUMPTIONS = ['the limits of what is accepted are excluded only where the code compares floating-point numbers with a tolerance',
               'real arithmetic is exact, floating-point results are compared within 1e-9']
NOT_COVERED = ['sets of more angles than stated', 'settings of unexpected types other than those listed',
               'upper limits of the contiguity limit and values of the allowed disorientation: not checked by the code, nor documented']
FLAGS = ['sym', 'bal', 'oopo', 'dam_tol', 'rule_10_percent', 'diso', 'contig']


def configs(tier):
    r = []
    th = tier == 'thorough'
    pool = (-90, -60, -45, -30, 0, 30, 45, 60, 90, 95)
    for kind in ('BELLA', 'LAYLA'):
        for ten in (False, True):
            for n in (1, 2, 3, 4) if not th else (1, 2, 3, 4, 5):
                vals = pool if n < 3 or th and n < 4 else (-90, -45, -30, 0, 30, 45, 90) if n == 3 or th else (-45, 0, 30, 45, 90)
                r.append(dict(name='%s, %d angles%s' % (kind, n, ', 10% rule' if ten else ''), fn='p_angles',
                              inputs=dict(kind=kind, angles=ArrOf(n, vals), ten=ten)))
            # the standard directions in any order, one to three of them replaced by others
            base = (0, 45, 90, -45, 30, -30)
            for k, free in enumerate(((0,), (2,), (4, 5), (1, 3)) + (((0, 2, 5), (1, 3, 4)) if th else ())):
                arr = [OneOf(pool) if i in free else a for i, a in enumerate(base)]
                r.append(dict(name='%s, 6 angles, positions %s free%s' % (kind, free, ', 10% rule' if ten else ''),
                              fn='p_angles6', inputs=dict(kind=kind, ten=ten, **{'a%d' % i: v for i, v in enumerate(arr)})))
        P = lambda: Real(-20, 130)
        for on in (True, False):
            for out in ('parts', 'total'):
                r.append(dict(name='%s percentages, rule %s, %s' % (kind, on, out), fn='p_percent',
                              inputs=dict(kind=kind, p0=P(), p45=P(), p90=P(), p135=P(), p45_135=P(), on=on, out=out)))
        for f in ('percent_0', 'percent_45', 'percent_90', 'percent_135', 'percent_45_135') + (
                ('percent_Abdalla',) if kind == 'BELLA' else ()):
            r.append(dict(name='%s, %s' % (kind, f), fn='p_type',
                          inputs=dict(kind=kind, field=f, v=OneOf(['10', None, [1], 3, 2.5, 0, (1, 2)]))))
        for f in FLAGS + (['covering', 'pdl_spacing', 'rule_10_Abdalla'] if kind == 'BELLA' else ['ipo']):
            r.append(dict(name='%s, %s' % (kind, f), fn='p_flag',
                          inputs=dict(kind=kind, field=f, v=OneOf([True, False, 0, 1, None, 'no', 2.5, [True]]))))
        for dt in (True, False):
            for cg in (True, False):
                r.append(dict(name='%s rules, damage tolerance %s, contiguity %s' % (kind, dt, cg), fn='p_rules',
                              inputs=dict(kind=kind, sym=Bool(), bal=Bool(), dam_tol=dt, rule=Int(-1, 5), diso=Bool(),
                                          delta=Int(0, 90) if th else OneOf([0, 5, 30, 45, 60, 90]), contig=cg, n_contig=Int(-2, 8))))
    for cb in (True, False):
        r.append(dict(name='+-45 percentages combined %s' % cb, fn='p_combine',
                      inputs=dict(p0=Real(0, 100), p45=Real(0, 100), p90=Real(0, 100), p135=Real(0, 100),
                                  p45_135=Real(0, 100), combine=cb)))
    for on in (True, False):
        r.append(dict(name='percentage on lamination parameters, rule %s' % on, fn='p_abdalla',
                      inputs=dict(p=Real(-20, 130), p0=Real(0, 100), on=on)))
    for dt in (True, False):
        r.append(dict(name='covering, damage tolerance %s' % dt, fn='p_covering',
                      inputs=dict(covering=Bool(), n_covering=Int(-1, 4), dam_tol=dt, rule=Int(1, 4), min_drop=Int(-2, 6))))
    r.append(dict(name='minimum spacing', fn='p_min_drop', inputs=dict(v=OneOf([0, 1, 2, 7, -1, 1.0, None, '2']))))
    return r
