"""Acceptance of optimiser settings"""
import numpy as np
from vh import check, assume, raises, close
from hlib import cons
from src.BELLA.parameters import Parameters as BPar
from src.LAYLA_V02.parameters import Parameters as LPar
from src.BELLA.obj_function import ObjFunction


def is_int(v):
    return isinstance(v, int)


def is_num(v):
    return isinstance(v, (int, float))


def valid(field, v):
    """type and range of a setting taken alone"""
    if field in ('repair_membrane_switch', 'repair_flexural_switch'):
        return isinstance(v, bool)
    if field in ('n_D1', 'n_D2', 'n_D3'):
        return is_int(v)
    if field == 'n_plies_ref_panel':
        return is_num(v)
    if field == 'p_A':
        return is_num(v) and 0 <= v and v <= 100
    return is_int(v) and v >= 1


def fetch(p, field):
    # one attribute per setting
    return p.__dict__[field]


def p_one(kind, field, v):
    c = cons(kind)
    kw = {field: v}
    if field == 'group_size_min':
        kw['group_size_max'] = 12
    elif field == 'group_size_max':
        kw['group_size_min'] = 1
    elif field == 'n_outer_step':
        kw['group_size_max'] = 8
    f = BPar if kind == 'BELLA' else LPar
    e = raises(f, c, **kw)
    ok = valid(field, v)
    if field == 'group_size_min' and ok:
        ok = v <= 12
    check((e == '') == ok, 'setting accepted or rejected wrongly')
    if not ok:
        return 0
    p = f(c, **kw)
    if kind == 'LAYLA' and field == 'group_size_max':
        check(p.group_size_max.size == p.n_outer_step, 'one maximum group size per step')
        for x in p.group_size_max:
            check(x == v, 'setting not stored')
        return 0
    check(fetch(p, field) == v, 'setting not stored')
    return 0


def p_groups(kind, gmin, gmax, n_contig):
    """group sizes against each other and against the contiguity limit"""
    c = cons(kind, contig=n_contig > 1, n_contig=n_contig)
    f = BPar if kind == 'BELLA' else LPar
    ok = 1 <= gmin and gmin <= gmax
    if kind == 'LAYLA' and gmin < n_contig:
        ok = False
    e = raises(f, c, group_size_min=gmin, group_size_max=gmax)
    check((e == '') == ok, 'group sizes accepted or rejected wrongly')
    if ok:
        p = f(c, group_size_min=gmin, group_size_max=gmax)
        check(p.group_size_min == gmin, 'minimum group size')
        if kind == 'LAYLA':
            check(p.group_size_max[0] == gmax, 'maximum group size')
        else:
            check(p.group_size_max == gmax, 'maximum group size')
    return 0


def p_steps(g0, g1, g2, gmin, n_outer_step):
    """one maximum group size per outer step"""
    c = cons('LAYLA')
    g = np.array([g0, g1, g2], int)
    ok = n_outer_step >= 1 and n_outer_step <= 3 and gmin >= 1 and gmin <= g0 and gmin <= g1 and gmin <= g2
    kw = dict(group_size_min=gmin, group_size_max=g, n_outer_step=n_outer_step)
    e = raises(LPar, c, **kw)
    check((e == '') == ok, 'group sizes accepted or rejected wrongly')
    if ok:
        p = LPar(c, **kw)
        check(np.array_equal(p.group_size_max, g), 'group sizes stored')
    return 0


def p_limits(kind, a, b, d, e, h):
    """several settings at once"""
    c = cons(kind)
    if kind == 'BELLA':
        f = BPar
        kw = dict(global_node_limit=a, local_node_limit=b, global_node_limit_final=d, local_node_limit_final=e,
                  n_ini_ply_drops=h)
    else:
        f = LPar
        kw = dict(global_node_limit=a, local_node_limit=b, global_node_limit_p=d, local_node_limit_final=e,
                  n_outer_step=h, group_size_max=9)
    ok = True
    for x in (a, b, d, e, h):
        if x < 1:
            ok = False
    check((raises(f, c, **kw) == '') == ok, 'limits accepted or rejected wrongly')
    if ok:
        p = f(c, **kw)
        for k in kw:
            if k != 'group_size_max':
                check(fetch(p, k) == kw[k], 'limit not stored')
    return 0


def rules_on(**kw):
    c = cons('LAYLA', **kw)
    return c


def p_coeff(which, v, ten, bal, ipo, oopo):
    """coefficients of the penalties"""
    c = cons('LAYLA', rule_10_percent=ten, percent_0=10, bal=bal, ipo=ipo, oopo=oopo)
    active = ten if which == 'coeff_10' else (bal or ipo) if which == 'coeff_bal_ipo' else oopo
    e = raises(LPar, c, **{which: v})
    ok = not active or (is_num(v) and v >= 0)
    check((e == '') == ok, 'coefficient accepted or rejected wrongly')
    if ok:
        p = LPar(c, **{which: v})
        check(fetch(p, which) == (v if active else 0), 'coefficient not stored')
    return 0


def p_switch(ten, bal, ipo, pc, lp, pb, pi):
    """penalties on ply counts and on lamination parameters exclude each other"""
    c = cons('LAYLA', rule_10_percent=ten, percent_0=10, bal=bal, ipo=ipo)
    kw = dict(penalty_10_pc_switch=pc, penalty_10_lampam_switch=lp, penalty_bal_switch=pb, penalty_ipo_switch=pi)
    ok = not (pc and lp) and not (pb and pi)
    check((raises(LPar, c, **kw) == '') == ok, 'switches accepted or rejected wrongly')
    if ok:
        p = LPar(c, **kw)
        check(p.penalty_10_pc_switch == (pc and ten), '10% rule on ply counts')
        check(p.penalty_10_lampam_switch == (lp and ten), '10% rule on lamination parameters')
        check(p.penalty_bal_switch == (pb and bal), 'balance on ply counts')
        check(p.penalty_ipo_switch == (pi and (ipo or bal)), 'orthotropy on lamination parameters')
    return 0


def p_weights(s, angles, sym, ipo, oopo, pi, cb, co):
    """weightings of the lamination parameters in the objective"""
    c = cons('LAYLA', sym=sym, ipo=ipo, oopo=oopo, set_of_angles=angles)
    p = LPar(c, first_level_sensitivities=s, penalty_ipo_switch=pi, coeff_bal_ipo=cb, coeff_oopo=co)
    t = 0
    for i in range(12):
        t = t + s[i]
    for i in range(12):
        check(close(p.lampam_weightings_ini[i] * t, s[i], 1e-6), 'initial weightings')
    std = len(angles) == 4
    # which weightings of the first level are kept
    kept = []
    u = 0
    for i in range(12):
        k = not (sym and 4 <= i and i < 8) and not (std and i % 4 == 3)
        k = k and not (ipo and i in (2, 3)) and not (oopo and i in (10, 11))
        kept.append(k)
        if k:
            u = u + s[i]
    m = 0
    for i in range(12):
        if kept[i] and s[i] != 0:
            m = m + 1
    assume(m > 0)
    avg = u / m
    w = p.lampam_weightings_final
    exp = []
    tot = 0
    for i in range(12):
        x = s[i] if kept[i] else 0
        if not (std and i % 4 == 3):
            if i in (2, 3) and ipo and pi:
                x = avg * cb
            if i in (10, 11) and oopo:
                x = avg * co
        exp.append(x)
        tot = tot + x
    for i in range(12):
        check(close(w[i] * tot, exp[i], 1e-6), 'final weightings')
    return 0


def p_weights3(base, idx, a, b, d, angles, sym, ipo, oopo, pi, cb, co):
    s = np.array(base, float)
    s[idx[0]], s[idx[1]], s[idx[2]] = a, b, d
    return p_weights(s, angles, sym, ipo, oopo, pi, cb, co)


def p_obj(which, v, ten, bal, oopo, contig, diso, spacing):
    """coefficients of the multi-panel objective"""
    c = cons('BELLA', rule_10_percent=ten, percent_0=10, bal=bal, oopo=oopo, contig=contig, n_contig=4, diso=diso,
             pdl_spacing=spacing)
    active = dict(coeff_10=ten, coeff_bal_ipo=bal, coeff_oopo=oopo, coeff_contig=contig, coeff_diso=diso,
                  coeff_spacing=spacing)[which]
    ok = not active or (is_num(v) and v >= 0)
    e = raises(ObjFunction, c, **{which: v})
    check((e == '') == ok, 'coefficient accepted or rejected wrongly')
    if ok:
        p = ObjFunction(c, **{which: v})
        check(fetch(p, which) == (v if active else 0), 'coefficient not stored')
    return 0


def p_modes(v):
    ok = is_int(v) and v >= 1
    check((raises(ObjFunction, cons('BELLA'), n_modes=v) == '') == ok, 'number of modes accepted or rejected wrongly')
    if ok:
        check(ObjFunction(cons('BELLA'), n_modes=v).n_modes == v, 'number of modes')
    return 0
