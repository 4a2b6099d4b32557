from symex.spec import *
import numpy as np

ASSUMPTIONS = ['real arithmetic is exact, floating-point results are compared within a tolerance',
               'at least one sensitivity survives the filtering']
NOT_COVERED = ['settings of unexpected types other than those listed', 'sensitivities that are no vectors of 12 numbers',
               'upper limits of integers beyond those stated']
BF = ['group_size_min', 'group_size_max', 'n_ini_ply_drops', 'global_node_limit', 'global_node_limit_final', 'local_node_limit',
      'local_node_limit_final', 'global_node_limit2', 'local_node_limit2', 'global_node_limit3', 'local_node_limit3', 'n_D1',
      'n_D2', 'n_D3', 'n_plies_ref_panel', 'p_A', 'repair_membrane_switch', 'repair_flexural_switch']
LF = ['group_size_min', 'group_size_max', 'n_outer_step', 'global_node_limit', 'global_node_limit_p', 'local_node_limit',
      'local_node_limit_final', 'n_D1', 'n_D2', 'n_D3', 'p_A', 'repair_membrane_switch', 'repair_flexural_switch']
SW = ('repair_membrane_switch', 'repair_flexural_switch')


def configs(tier):
    r = []
    th = tier == 'thorough'
    hi = 200 if th else 40
    for kind, fs in (('BELLA', BF), ('LAYLA', LF)):
        for f in fs:
            # np.around is applied before the type is checked: no strings there
            odd = [2.5, 0.5, -1.0, 99.0]
            if f in SW + ('n_D1', 'n_D2', 'n_D3', 'n_plies_ref_panel', 'p_A'):
                odd += ['6', None, True, False]
            if f == 'group_size_max' and kind == 'LAYLA':
                odd = [2.5]
            r.append(dict(name='%s, %s' % (kind, f), fn='p_one',
                          inputs=dict(kind=kind, field=f, v=OneOf([int(x) for x in range(-3, hi)] + [100, 101, 1000] + odd))))
            if f == 'p_A':
                r.append(dict(name='%s, %s real' % (kind, f), fn='p_one', inputs=dict(kind=kind, field=f, v=Real(-50, 150))))
        for k in (1, 2, 4, 6):
            r.append(dict(name='%s group sizes, contiguity %d' % (kind, k), fn='p_groups',
                          inputs=dict(kind=kind, gmin=Int(-1, 9), gmax=Int(-1, 14), n_contig=k)))
        L = lambda: Int(-1, 3)
        r.append(dict(name='%s limits' % kind, fn='p_limits', inputs=dict(kind=kind, a=L(), b=L(), d=L(), e=L(), h=L())))
    r.append(dict(name='group sizes of outer steps', fn='p_steps',
                  inputs=dict(g0=Int(1, 6), g1=Int(1, 6), g2=Int(1, 6), gmin=Int(0, 6), n_outer_step=Int(0, 5))))
    V = [-1, 0, 1, 3, -0.5, 2.5, '1', None]
    for f in ('coeff_10', 'coeff_bal_ipo', 'coeff_oopo'):
        r.append(dict(name='LAYLA, %s' % f, fn='p_coeff',
                      inputs=dict(which=f, v=OneOf(V), ten=Bool(), bal=Bool(), ipo=Bool(), oopo=Bool())))
        r.append(dict(name='LAYLA, %s fractions' % f, fn='p_coeff',
                      inputs=dict(which=f, v=OneOf([k / 8 for k in range(-8, 40)]), ten=True, bal=True, ipo=True, oopo=True)))
    r.append(dict(name='penalty switches', fn='p_switch', inputs={k: Bool() for k in ('ten', 'bal', 'ipo', 'pc', 'lp', 'pb', 'pi')}))
    for f in ('coeff_10', 'coeff_bal_ipo', 'coeff_oopo', 'coeff_contig', 'coeff_diso', 'coeff_spacing'):
        flags = dict(ten=Bool(), bal=Bool(), oopo=Bool(), contig=Bool(), diso=Bool(), spacing=Bool())
        r.append(dict(name='objective, %s' % f, fn='p_obj', inputs=dict(which=f, v=OneOf(V), **flags)))
        r.append(dict(name='objective, %s real' % f, fn='p_obj',
                      inputs=dict(which=f, v=Real(-5, 5), **{k: True for k in flags})))
    r.append(dict(name='number of modes', fn='p_modes', inputs=dict(v=OneOf([-1, 0, 1, 2, 3, 1.0, 2.5, None, '2', True]))))
    std, more = (-45, 0, 45, 90), (-45, -30, 0, 30, 45, 90)
    vecs = [(8, 4, 2, 1, 3, 12, 5, 13, 7, 6, 9, 10), (1,) * 12, (0, 4, 2, 1, 0, 12, 0, 13, 0, 6, 1, 0),
            (8, 0, 0, 0, 0, 0, 0, 0, 3, 0, 0, 0)]
    for angles in (std, more):
        for sym in (True, False):
            for ipo in (True, False):
                for oopo in (True, False):
                    for pi in (True, False):
                        for idx in ((0, 4, 8), (2, 3, 10), (1, 10, 11), (5, 9, 2)) if th else (((2, 3, 10), (0, 4, 8)) if pi else ((1, 10, 11),)):
                            r.append(dict(name='weightings, sensitivities %s, %d angles, sym %s, ipo %s, oopo %s, penalty %s' % (
                                idx, len(angles), sym, ipo, oopo, pi), fn='p_weights3',
                                inputs=dict(base=vecs[0], idx=idx, a=OneOf([0., 20.]), b=OneOf([0., 2.]), d=OneOf([5., 8.] if idx[2] == 8 else [0., 5.]),
                                            angles=angles, sym=sym, ipo=ipo, oopo=oopo, pi=pi, cb=OneOf([0, 3]), co=OneOf([0, 2]))))
    return r
