"""Normalisation and rejection of design-guideline settings"""
import numpy as np
from vh import check, assume, raises, close
from hlib import cons
from src.BELLA.constraints import Constraints as BConstraints
from src.LAYLA_V02.constraints import Constraints as LConstraints


def make(kind, **kw):
    if kind == 'BELLA':
        return BConstraints(**kw)
    return LConstraints(**kw)


def is_number(x):
    return isinstance(x, (int, float))


def p_angles(kind, angles, ten):
    n = angles.size
    ok = True
    for i in range(n):
        if angles[i] > 90 or angles[i] <= -90:
            ok = False
        mirror = angles[i] == 90
        for j in range(n):
            if i < j and angles[i] == angles[j]:
                ok = False
            if angles[j] == -angles[i]:
                mirror = True
        if not mirror:
            ok = False
    if ten:
        for a in (0, 45, 90, -45):
            found = False
            for j in range(n):
                if angles[j] == a:
                    found = True
            if not found:
                ok = False
    given = np.copy(angles)
    e = raises(make, kind, set_of_angles=angles, rule_10_percent=ten)
    check((e == '') == ok, 'set of angles accepted or rejected wrongly')
    check(np.array_equal(angles, given), 'set of angles modified')
    if not ok:
        return 0
    c = make(kind, set_of_angles=angles, rule_10_percent=ten)
    s = c.set_of_angles
    check(s.size == n, 'angles lost or added')
    check(c.n_set_of_angles == n, 'number of angles')
    for i in range(n):
        inside = False
        for j in range(n):
            if angles[j] == s[i]:
                inside = True
        check(inside, 'angle not asked for')
        if i > 0:
            check(s[i - 1] < s[i], 'increasing order')
        check(c.angles_dict[i] == s[i], 'index to angle')
        check(c.ind_angles_dict[s[i]] == i, 'angle to index')
        t = np.deg2rad(2 * float(s[i]))
        check(close(c.cos_sin[i, 0], np.cos(t)), 'cos 2t')
        check(close(c.cos_sin[i, 1], np.cos(2 * t)), 'cos 4t')
        check(close(c.cos_sin[i, 2], np.sin(t)), 'sin 2t')
        check(close(c.cos_sin[i, 3], np.sin(2 * t)), 'sin 4t')
        if s[i] == 0:
            check(c.index0 == i, 'index of 0')
        elif s[i] == 45:
            check(c.index45 == i, 'index of 45')
        elif s[i] == 90:
            check(c.index90 == i, 'index of 90')
            check(c.ind_angles_dict[-90] == i, 'index of -90')
        elif s[i] == -45:
            check(c.index135 == i, 'index of -45')
    # positive angles and balanced pairs, in increasing order
    k, m = 0, 0
    for i in range(n):
        a = s[i]
        if a >= 0:
            check(c.pos_angles[k] == a, 'positive angles')
            check(c.indices_pos_angles_dict[a] == k, 'index of a positive angle')
            k = k + 1
            if 0 < a and a < 90:
                check(c.angles_bal[m, 0] == a, 'balanced angles')
                check(c.angles_bal[m, 1] == i, 'index of the angle of a balanced pair')
                check(s[int(c.angles_bal[m, 2])] == -a, 'index of the opposite angle of a balanced pair')
                check(c.indices_bal[a] == m, 'index of a balanced pair')
                m = m + 1
    check(len(c.pos_angles) == k, 'number of positive angles')
    check(len(c.angles_bal) == m and len(c.indices_bal) == m, 'number of balanced pairs')
    return n


def p_angles6(kind, a0, a1, a2, a3, a4, a5, ten):
    return p_angles(kind, np.array([a0, a1, a2, a3, a4, a5], int), ten)


def p_percent(kind, p0, p45, p90, p135, p45_135, on, out):
    """percentages of the 10% rule"""
    ok = True
    for p in (p0, p45, p90, p135, p45_135):
        if p < 0 or p > 100:
            ok = False
    kw = dict(rule_10_percent=on, percent_0=p0, percent_45=p45, percent_90=p90, percent_135=p135, percent_45_135=p45_135)
    e = raises(make, kind, **kw)
    check((e == '') == ok, 'percentages accepted or rejected wrongly')
    assume(ok)
    c = make(kind, **kw)
    if not on:
        for x in (c.percent_0, c.percent_45, c.percent_90, c.percent_135, c.percent_45_135, c.percent_tot):
            check(x == 0, 'percentage kept without the rule')
        return 0
    q45, q135, qc = p45, p135, p45_135
    if kind == 'BELLA':
        check(c.percent_Abdalla == 0, 'rule on lamination parameters not asked for')
        for p in (p45, p135):
            if abs(2 * p - p45_135) < 1e-6:
                assume(2 * p == p45_135)
        if 2 * p45 > p45_135 or 2 * p135 > p45_135:
            qc = 0
        else:
            q45, q135 = 0, 0
    else:
        qc = max(p45_135, p45 + p135)
    check(close(c.percent_0, p0 / 100), '0 degree fraction')
    check(close(c.percent_90, p90 / 100), '90 degree fraction')
    check(close(c.percent_45, q45 / 100), '45 degree fraction')
    check(close(c.percent_135, q135 / 100), '-45 degree fraction')
    check(close(c.percent_45_135, qc / 100), '+-45 degree fraction')
    if out == 'total':
        check(close(c.percent_tot, max(p0 + q45 + p90 + q135, p0 + qc + p90) / 100), 'total fraction')
    return 0


def p_combine(p0, p45, p90, p135, p45_135, combine):
    """percentages combined or not, as told"""
    c = BConstraints(rule_10_percent=True, percent_0=p0, percent_45=p45, percent_90=p90, percent_135=p135,
                     percent_45_135=p45_135, combine_45_135=combine, calc_combine_45_135=False)
    check(close(c.percent_0, p0 / 100) and close(c.percent_90, p90 / 100), '0 and 90 degree fractions')
    if combine:
        check(c.percent_45 == 0 and c.percent_135 == 0 and close(c.percent_45_135, p45_135 / 100), 'combined fractions')
    else:
        check(close(c.percent_45, p45 / 100) and close(c.percent_135, p135 / 100) and c.percent_45_135 == 0,
              'separate fractions')
    return 0


def p_abdalla(p, p0, on):
    kw = dict(rule_10_percent=on, rule_10_Abdalla=True, percent_Abdalla=p, percent_0=p0, percent_45_135=p0)
    e = raises(BConstraints, **kw)
    if 24.999 <= p and p <= 25:
        assume(p == 25)
    check((e == '') == (0 <= p and p < 25), 'percentage accepted or rejected wrongly')
    assume(e == '')
    c = BConstraints(**kw)
    check(close(c.percent_Abdalla, p / 100 if on else 0), 'fraction')
    for x in (c.percent_0, c.percent_45, c.percent_90, c.percent_135, c.percent_45_135, c.percent_tot):
        check(x == 0, 'ply fraction kept with the rule on lamination parameters')
    return 0


def p_type(kind, field, v):
    """percentages which are no numbers"""
    e = raises(make, kind, **{field: v})
    check((e == '') == is_number(v), 'percentage accepted or rejected wrongly')
    return 0


def p_flag(kind, field, v):
    """switches are booleans, and stored"""
    kw = {field: v}
    if field == 'contig':
        kw['n_contig'] = 4
    e = raises(make, kind, **kw)
    check((e == '') == isinstance(v, bool), 'switch accepted or rejected wrongly')
    assume(e == '')
    c = make(kind, **kw)
    got = dict(sym=c.sym, bal=c.bal, oopo=c.oopo, dam_tol=c.dam_tol, rule_10_percent=c.rule_10_percent, diso=c.diso,
               contig=c.contig, ipo=c.ipo, rule_10_Abdalla=c.rule_10_Abdalla)
    if kind == 'BELLA':
        got['covering'] = c.covering
        got['pdl_spacing'] = c.pdl_spacing
    for k in got:
        if k == field:
            check(got[k] == v, 'switch not stored')
        elif not (field == 'bal' and k == 'ipo') and not (field == 'dam_tol' and k == 'covering'):
            check(not got[k], 'another switch set')
    return 0


def p_rules(kind, sym, bal, dam_tol, rule, diso, delta, contig, n_contig):
    """damage tolerance, disorientation, contiguity and balance"""
    ok = True
    if dam_tol and (rule < 1 or rule > 3):
        ok = False
    if contig and n_contig < 2:
        ok = False
    kw = dict(sym=sym, bal=bal, dam_tol=dam_tol, dam_tol_rule=rule, diso=diso, delta_angle=delta, contig=contig,
              n_contig=n_contig)
    e = raises(make, kind, **kw)
    check((e == '') == ok, 'rules accepted or rejected wrongly')
    assume(ok)
    c = make(kind, **kw)
    check(c.sym == sym and c.bal == bal and c.dam_tol == dam_tol and c.diso == diso and c.contig == contig, 'switches')
    check(c.dam_tol_rule == (rule if dam_tol else 0), 'damage tolerance rule')
    check(c.delta_angle == (delta if diso else 180), 'allowed disorientation')
    if contig:
        check(c.n_contig == n_contig and c.n_contig_c == n_contig, 'contiguity limit')
    else:
        check(c.n_contig_c >= 1000000, 'contiguity limit without the rule')
    check(c.ipo == bal, 'in-plane orthotropy')
    if kind == 'LAYLA':
        check(c.laminate_scheme == ('S' if sym else 'U'), 'laminate scheme')
        if sym:
            check(c.laminate_scheme_test == ('SB' if bal else 'S'), 'laminate scheme')
        else:
            check(c.laminate_scheme_test == ('B' if bal else 'U'), 'laminate scheme')
    return 0


def p_covering(covering, n_covering, dam_tol, rule, min_drop):
    ok = 0 <= n_covering and n_covering <= 2 and min_drop >= 1 and (rule <= 3 or not dam_tol)
    kw = dict(covering=covering, n_covering=n_covering, dam_tol=dam_tol, dam_tol_rule=rule, min_drop=min_drop)
    e = raises(BConstraints, **kw)
    check((e == '') == ok, 'covering accepted or rejected wrongly')
    assume(ok)
    c = BConstraints(**kw)
    check(c.covering == (covering or dam_tol), 'covering rule')
    n = n_covering
    if c.covering:
        n = max(n, 1)
    if dam_tol and rule > 1:
        n = 2
    check(c.n_covering == n, 'number of covering plies')
    check(c.min_drop == min_drop, 'minimum spacing')
    return 0


def p_min_drop(v):
    e = raises(BConstraints, min_drop=v)
    check((e == '') == (isinstance(v, int) and v >= 1), 'minimum spacing accepted or rejected wrongly')
    return 0
