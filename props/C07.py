import numpy as np
from vh import check, assume, raises
from hlib import cons, count, strip_outer, bad_pairs, contig_ok, dam_tol_ok, balanced, required, ten_ok
from src.guidelines.one_stack import check_lay_up_rules, check_ply_drop_rules


def mk(kind, P, angles, rule, sym, delta, n_contig):
    return cons(kind, sym=sym, bal=True, diso=True, delta_angle=delta, contig=True,
                n_contig=n_contig, rule_10_percent=True, dam_tol=rule > 0,
                dam_tol_rule=rule if rule else 1, set_of_angles=angles, percent_0=P[0],
                percent_45=P[1], percent_90=P[2], percent_135=P[3], percent_45_135=P[4])


def p_lay_up(stack, on, kind, P, angles, rule, sym, delta, n_contig):
    """on: which of balance, orthotropy, disorientation, contiguity, 10% rule
    and damage tolerance are switched on"""
    c = mk(kind, P, angles, rule, sym, delta, n_contig)
    c.bal, c.ipo, c.diso, c.contig, c.rule_10_percent = on[0], on[1], on[2], on[3], on[4]
    c.dam_tol = rule > 0 and on[5]
    if rule == 0:
        assume(not on[5])
    before = np.copy(stack)
    active = rule if on[5] else 0
    bal = balanced(stack, angles)
    ok = (not on[0] or bal) and (not on[1] or bal)
    ok = ok and (not on[2] or bad_pairs(strip_outer(stack, active), delta) == 0)
    ok = ok and (not on[3] or contig_ok(stack, n_contig))
    ok = ok and (not on[4] or ten_ok(stack, required(kind, P)))
    ok = ok and dam_tol_ok(stack, active)
    r = raises(check_lay_up_rules, stack, c)
    check((r == '') == ok, 'verdict on a lay-up')
    r2 = raises(check_lay_up_rules, stack, c, n_plies=stack.size)
    check((r2 == '') == ok, 'verdict on a lay-up of the ply count asked for')
    check(raises(check_lay_up_rules, stack, c, n_plies=stack.size + 1) != '', 'wrong ply count accepted')
    check((stack == before).all(), 'lay-up modified')
    return r


def p_options(stack, on, kind, P, angles):
    """balance / orthotropy checks left out, merged 10% rule directions"""
    c = mk(kind, P, angles, 0, True, 45, 5)
    c.bal, c.ipo, c.rule_10_percent, c.diso, c.contig = on[0], on[1], on[2], False, False
    bal = balanced(stack, angles)
    R = required(kind, P)
    t = stack.size
    n0, n45, n90, n135 = count(stack, 0), count(stack, 45), count(stack, 90), count(stack, -45)
    ten = not on[2] or ten_ok(stack, R)
    r = raises(check_lay_up_rules, stack, c, no_bal_check=True)
    check((r == '') == ((not on[1] or bal) and ten), 'no balance check')
    r = raises(check_lay_up_rules, stack, c, no_ipo_check=True)
    check((r == '') == ((not on[0] or bal) and ten), 'no orthotropy check')
    r = raises(check_lay_up_rules, stack, c, no_ipo_check=True, no_bal_check=True)
    check((r == '') == ten, 'no balance nor orthotropy check')
    m45 = 100 * (n45 + n135) >= (R[1] + R[3]) * t and 100 * (n45 + n135) >= R[4] * t
    s45 = 100 * n45 >= R[1] * t and 100 * n135 >= R[3] * t and 100 * (n45 + n135) >= R[4] * t
    m0 = 100 * (n0 + n90) >= (R[0] + R[2]) * t
    s0 = 100 * n0 >= R[0] * t and 100 * n90 >= R[2] * t
    r = raises(check_lay_up_rules, stack, c, no_ipo_check=True, no_bal_check=True, equality_45_135=True)
    check((r == '') == (not on[2] or (m45 and s0)), '+-45 merged')
    r = raises(check_lay_up_rules, stack, c, no_ipo_check=True, no_bal_check=True, equality_0_90=True)
    check((r == '') == (not on[2] or (s45 and m0)), '0/90 merged')
    return r


class Obj:
    pass


def gaps_ok(row1, row2, min_drop):
    """at the boundary of two panels, enough plies between consecutive drops;
    plies of neither panel do not count"""
    ok = True
    since = 1000
    for k in range(row1.size):
        a, b = row1[k] == -1, row2[k] == -1
        if a and b:
            continue
        if a or b:
            ok = ok and since >= min_drop
            since = 0
        else:
            since = since + 1
    return ok


def p_table(sst, drop, on, n_covering, min_drop, w, reduced):
    """stacking sequence table: the last panel holds all plies; drop[k] thinner
    panels do without ply k"""
    c = cons('BELLA', covering=True, n_covering=n_covering, pdl_spacing=True, min_drop=min_drop)
    c.covering, c.pdl_spacing = on[0], on[1]
    n_panels = len(w) + 1
    t = np.zeros((n_panels, sst.size), int)
    for k in range(sst.size):
        for p in range(n_panels):
            t[p, k] = sst[k] if p >= drop[k] else -1
    mp = Obj()
    mp.n_panels = n_panels
    mp.reduced = Obj()
    mp.reduced.n_panels = n_panels
    mp.reduced.boundaries = np.array([[k, k + 1] for k in range(len(w))])
    mp.reduced.boundary_weights = {(k, k + 1): w[k] for k in range(len(w))}
    mp.reduced.ind_for_reduc = list(range(n_panels))
    before = np.copy(t)
    ok = True
    if on[0]:
        for p in range(n_panels):
            for k in range(n_covering):
                ok = ok and t[p, k] != -1 and t[p, sst.size - 1 - k] != -1
    if on[1]:
        for k in range(len(w)):
            ok = ok and gaps_ok(t[k], t[k + 1], min_drop)
    if reduced:
        r = raises(check_ply_drop_rules, t, mp, c)
    else:
        r = raises(check_ply_drop_rules, t, mp, c, reduced=False)
    check((r == '') == ok, 'verdict on a stacking sequence table')
    check((t == before).all(), 'table modified')
    return r
