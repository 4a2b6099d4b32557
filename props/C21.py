"""Objective functions"""
import numpy as np
from vh import check, assume, raises, close
from src.BELLA.constraints import Constraints
from src.BELLA.panels import Panel
from src.BELLA.multipanels import MultiPanel
from src.BELLA.obj_function import ObjFunction
from src.BELLA.objectives import (calc_obj_one_panel, calc_obj_each_panel, calc_obj_multi_panel,
                                  calc_unconst_obj_multi_panel_A, calc_unconst_obj_multi_panel_D)
from src.LAYLA_V02.objectives import objectives, calc_obj_multi_ss


class Thing:
    pass


def wsum(w, x, t, lo=0, power=2):
    s = 0
    for k in range(len(w)):
        d = x[lo + k] - t[lo + k]
        s = s + w[k] * (d * d if power == 2 else abs(d))
    return s


def p_one(lampam, target, w):
    r = calc_obj_one_panel(lampam, target, w)
    check(close(r, wsum(w, lampam, target)), 'objective of a panel')
    check(r >= 0, 'negative objective')
    check(calc_obj_one_panel(target, target, w) == 0, 'objective on the target')
    return 0


def p_layla(power, lampam, target, w):
    par = Thing()
    par.type_obj_func = power
    t = Thing()
    t.lampam = target
    r = objectives(lampam, targets=t, lampam_weightings=w, constraints=None, parameters=par)
    check(close(r, wsum(w, lampam, target, 0, power)), 'objective of a laminate')
    check(r >= 0, 'negative objective')
    tab = objectives(np.vstack((target, lampam)), t, w, None, par)
    check(tab.shape == (2,), 'one objective per laminate')
    check(tab[0] == 0, 'objective on the target')
    check(close(tab[1], r), 'objective of a table of laminates')
    return 0


def p_type(power):
    par = Thing()
    par.type_obj_func = power
    t = Thing()
    t.lampam = np.zeros((12,), float)
    e = raises(objectives, np.ones((12,), float), t, np.ones((12,), float), None, par)
    check((e == '') == (power == 1 or power == 2), 'type of objective accepted or rejected wrongly')
    return 0


def p_each(ns, targets, lampam, w):
    """the reduced structure has one panel per distinct ply count, thinnest first"""
    mp = Thing()
    mp.reduced = Thing()
    mp.reduced.n_panels = len(ns)
    mp.reduced.panels = []
    for k in range(len(ns)):
        p = Thing()
        p.lampam_target = targets[k]
        mp.reduced.panels.append(p)
    r = calc_obj_each_panel(mp, lampam, None, lampam_weightings=w)
    check(r.shape == (len(ns),), 'one objective per panel')
    for k in range(len(ns)):
        check(close(r[k], wsum(w[k], lampam[k], targets[k])), 'objective of one panel of a structure')
    return 0


def p_multi(obj, w, pens, coeffs, form):
    """penalties: [diso, contig, 10, bal_ipo, oopo, weight], one value per panel"""
    n = len(obj)
    names = ('diso', 'contig', '10', 'bal_ipo', 'oopo', 'weight')
    kw = {}
    for k in range(6):
        kw['coeff_' + names[k]] = coeffs[k]
        kw['penalty_' + names[k]] = None if form == 'none' and k > 0 else pens[k]
    if form == 'scalar':
        for k in range(6):
            kw['penalty_' + names[k]] = pens[k][0]
    o = np.array(obj)
    r = calc_obj_multi_panel(o, w, with_Nones=form != 'arrays', **kw)
    e = 0
    for j in range(n):
        t = w[j] * obj[j]
        for k in range(6):
            if form == 'none' and k > 0:
                continue
            t = t * (1 + coeffs[k] * (pens[k][0] if form == 'scalar' else pens[k][j]))
        e = e + t
    check(close(r, e, 1e-7), 'objective of a structure')
    check(r >= 0, 'negative objective')
    return 0


def p_scalar(obj, w, pen, coeff):
    """the same penalty everywhere, without a table"""
    names = ('diso', 'contig', '10', 'bal_ipo', 'oopo', 'weight')
    kw = {}
    f = 1
    for k in range(6):
        kw['coeff_' + names[k]] = coeff[k]
        kw['penalty_' + names[k]] = pen[k]
        f = f * (1 + coeff[k] * pen[k])
    r = calc_obj_multi_panel(obj, w, **kw)
    e = f * wsum0(w, obj)
    check(close(r, e, 1e-7), 'objective of a structure')
    return 0


def wsum0(w, o):
    s = 0
    for k in range(len(w)):
        s = s + w[k] * o[k]
    return s


def p_no_penalty(obj, w, nones):
    """defaults: no penalty at all"""
    r = calc_obj_multi_panel(obj, w, with_Nones=nones)
    check(close(r, wsum0(w, obj)), 'no penalty')
    return 0


def p_zero_coeff(obj, w, pens):
    z = np.zeros((len(obj),), float)
    r = calc_obj_multi_panel(obj, w, penalty_diso=pens[0], penalty_contig=pens[1], penalty_10=pens[2],
                             penalty_bal_ipo=pens[3], penalty_oopo=pens[4], penalty_weight=pens[5])
    check(close(r, wsum0(w, obj)), 'penalties without coefficients')
    r = calc_obj_multi_panel(obj, w, penalty_diso=z, penalty_contig=z, penalty_10=z, penalty_bal_ipo=z, penalty_oopo=z,
                             coeff_diso=1, coeff_contig=2, coeff_10=3, coeff_bal_ipo=4, coeff_oopo=5, coeff_weight=6)
    check(close(r, wsum0(w, obj)), 'penalties of zero')
    return 0


def p_monotonic(obj, w, pens, coeffs, which, panel, more, nones):
    names = ('diso', 'contig', '10', 'bal_ipo', 'oopo', 'weight')
    kw = {}
    for k in range(6):
        kw['coeff_' + names[k]] = coeffs[k]
        kw['penalty_' + names[k]] = np.array(pens[k])
    a = calc_obj_multi_panel(obj, w, with_Nones=nones, **kw)
    kw['penalty_' + names[which]][panel] = pens[which][panel] + more
    b = calc_obj_multi_panel(obj, w, with_Nones=nones, **kw)
    check(b >= a - 1e-9, 'objective lowered by a larger penalty')
    return 0


def p_missing(obj, known, w, pen, coeff):
    """objectives not calculated yet are left out"""
    o = []
    for k in range(len(obj)):
        o.append(obj[k] if known[k] else None)
    r = calc_obj_multi_panel(o, w, penalty_diso=pen, coeff_diso=coeff, penalty_contig=None, penalty_10=None,
                             penalty_bal_ipo=None, penalty_oopo=None, penalty_weight=None, with_Nones=True)
    e = 0
    for k in range(len(obj)):
        if known[k]:
            e = e + w[k] * obj[k] * (1 + coeff * pen[k])
    check(close(r, e, 1e-7), 'objective of the panels calculated')
    return 0


def p_unconstrained(ns, lampamA, lampamD, targets, wts, pw):
    """in-plane and out-of-plane objectives of the reduced structure"""
    c = Constraints(sym=True, bal=False)
    panels = []
    for k in range(len(ns)):
        panels.append(Panel(ID=k + 1, n_plies=ns[k], constraints=c, lampam_target=targets[k],
                            neighbour_panels=[k + 2] if k + 1 < len(ns) else []))
    mp = MultiPanel(panels)
    for k in range(len(ns)):
        mp.panels[k].lampam_weightings = wts[k]
    f = ObjFunction(c)
    red = Thing()
    distinct = sorted(set(ns))
    red.n_panels = len(distinct)
    red.ind_for_reduc = np.array([list(ns).index(v) for v in distinct])
    mp.reduced = red
    f.reduced_actual_panel_weightingsA = pw
    f.reduced_actual_panel_weightingsD = pw
    a = calc_unconst_obj_multi_panel_A(mp, lampamA, f)
    d = calc_unconst_obj_multi_panel_D(mp, lampamD, f)
    check(close(calc_unconst_obj_multi_panel_A(mp, lampamA, f, inner_step=1), a), 'in-plane objective in an inner step')
    check(close(calc_unconst_obj_multi_panel_D(mp, lampamD, f, inner_step=1), d), 'out-of-plane objective in an inner step')
    ea, ed = 0, 0
    for j in range(len(distinct)):
        k = list(ns).index(distinct[j])
        for q in range(4):
            x = lampamA[j][q] - targets[k][q]
            ea = ea + pw[j] * wts[k][q] * x * x
            x = lampamD[j][q] - targets[k][8 + q]
            ed = ed + pw[j] * wts[k][8 + q] * x * x
    check(close(a, ea), 'in-plane objective')
    check(close(d, ed), 'out-of-plane objective')
    return 0


def p_layla_pen(obj, pens, coeffs, which, more):
    names = ('10', 'bal_ipo', 'oopo')
    kw = {}
    f = 1
    for k in range(3):
        kw['coeff_' + names[k]] = coeffs[k]
        kw['penalty_' + names[k]] = pens[k]
        f = f * (1 + coeffs[k] * pens[k])
    r = calc_obj_multi_ss(obj, **kw)
    check(close(r, obj * f, 1e-7), 'objective of a laminate with penalties')
    check(calc_obj_multi_ss(obj) == obj, 'no penalty')
    kw['penalty_' + names[which]] = pens[which] + more
    check(calc_obj_multi_ss(obj, **kw) >= r - 1e-9, 'objective lowered by a larger penalty')
    return 0


def p_layla_pens(obj, pens, coeffs):
    """tables of laminates"""
    r = calc_obj_multi_ss(obj, pens[0], pens[1], pens[2], coeffs[0], coeffs[1], coeffs[2])
    for j in range(obj.size):
        f = 1
        for k in range(3):
            f = f * (1 + coeffs[k] * pens[k][j])
        check(close(r[j], obj[j] * f, 1e-7), 'objectives of laminates with penalties')
    return 0


NAMES = ('diso', 'contig', '10', 'bal_ipo', 'oopo', 'spacing')


def p_obj_function(active, values, n_modes):
    c = Thing()
    c.diso, c.contig, c.rule_10_percent, c.bal, c.oopo, c.pdl_spacing = active
    kw = {}
    ok = n_modes >= 1
    for k in range(6):
        kw['coeff_' + NAMES[k]] = values[k]
        ok = ok and (not active[k] or values[k] >= 0)
    e = raises(ObjFunction, c, n_modes=n_modes, **kw)
    check((e == '') == ok, 'coefficients accepted or rejected wrongly')
    if e == '':
        f = ObjFunction(c, n_modes=n_modes, **kw)
        got = (f.coeff_diso, f.coeff_contig, f.coeff_10, f.coeff_bal_ipo, f.coeff_oopo, f.coeff_spacing)
        for k in range(6):
            check(got[k] == (values[k] if active[k] else 0), 'coefficient stored')
        check(f.n_modes == n_modes, 'number of modes stored')
    return 0


def p_obj_type(active, which, v):
    c = Thing()
    c.diso, c.contig, c.rule_10_percent, c.bal, c.oopo, c.pdl_spacing = active
    kw = {'coeff_' + NAMES[which]: v} if which < 6 else {'n_modes': v}
    e = raises(ObjFunction, c, **kw)
    if which < 6:
        check((e == '') == (not active[which] or isinstance(v, (int, float))), 'coefficient accepted or rejected wrongly')
    else:
        check((e == '') == isinstance(v, int), 'number of modes accepted or rejected wrongly')
    return 0


def p_weightings(w, ns):
    c = Thing()
    c.diso = c.contig = c.rule_10_percent = c.bal = c.oopo = c.pdl_spacing = False
    f = ObjFunction(c)
    mp = Thing()
    mp.reduced = Thing()
    mp.panels = []
    for k in range(len(ns)):
        p = Thing()
        p.weighting = w[k]
        mp.panels.append(p)
    mp.reduced.panels = mp.panels[1:]
    f.set_initial_panel_weightings(mp)
    check(f.panel_weightings_ini.shape == (len(ns),) and f.reduced_panel_weightings.shape == (len(ns) - 1,), 'sizes')
    for k in range(len(ns)):
        check(f.panel_weightings_ini[k] == w[k], 'weightings of the panels')
        check(k == 0 or f.reduced_panel_weightings[k - 1] == w[k], 'weightings of the reduced panels')
    return 0
