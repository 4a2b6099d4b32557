import numpy as np
from vh import check, assume, close, raises
from hlib import cons, compliant, strip_outer
from src.guidelines.disorientation import (
    is_diso, is_diso_ss, calc_n_viola_diso, calc_penalty_diso_mp_0,
    calc_number_violations_diso_mp, calc_n_penalty_diso_ss, calc_penalty_diso)


class Settings:
    """settings giving the number of plies fixed for damage tolerance instead of a rule"""
    def __init__(self, delta, n_plies):
        self.dam_tol = n_plies > 0
        self.n_plies_dam_tol = n_plies
        self.delta_angle = delta


def mkcons(kind, rule, delta, **kw):
    if kind == 'plies':
        return Settings(delta, rule)
    if rule == 0:
        return cons(kind, diso=True, delta_angle=delta, **kw)
    return cons(kind, diso=True, delta_angle=delta, dam_tol=True, dam_tol_rule=rule, **kw)


def bad_pairs(stack, delta):
    k = 0
    for i in range(stack.size - 1):
        if not compliant(stack[i], stack[i + 1], delta):
            k = k + 1
    return k


def p_pair(a, b, delta):
    d = abs(a - b)
    ok = d <= delta or 180 - d <= delta
    r = is_diso(a, b, delta)
    check(bool(r) == ok, 'pair verdict')
    check(bool(is_diso(b, a, delta)) == ok, 'pair verdict, swapped')
    return bool(r)


def p_checker(stack, delta, rule):
    before = np.copy(stack)
    want = bad_pairs(strip_outer(stack, rule), delta) == 0
    if rule == 0:
        r = is_diso_ss(stack, delta)
        check(bool(is_diso_ss(stack, delta, dam_tol=False, dam_tol_rule=2)) == want,
              'inactive damage tolerance')
        check(bool(is_diso_ss(stack, delta, dam_tol=False)) == want, 'inactive damage tolerance')
    else:
        r = is_diso_ss(stack, delta, dam_tol=True, dam_tol_rule=rule)
        if rule < 3:
            check(bool(is_diso_ss(stack, delta, dam_tol=True, n_plies_dam_tol=rule)) == want,
                  'verdict by number of plies')
        check(bool(is_diso_ss(stack, delta, True, rule)) == want, 'verdict, positional')
    check(bool(r) == want, 'lay-up verdict')
    check((stack == before).all(), 'lay-up modified')
    return bool(r)


def p_incomplete(stack):
    check(raises(is_diso_ss, stack, 45, dam_tol=True) != '', 'missing rule accepted')
    return 0


def p_count(stack, delta, rule, kind):
    c = mkcons(kind, rule, delta)
    before = np.copy(stack)
    want = bad_pairs(strip_outer(stack, rule), delta)
    r = calc_n_penalty_diso_ss(stack, c)
    check(r == want, 'number of violations')
    check((stack == before).all(), 'lay-up modified')
    if rule == 0:
        ok = is_diso_ss(stack, delta)
    else:
        ok = is_diso_ss(stack, delta, True, rule)
    check(bool(ok) == (r == 0), 'checker and counter disagree')
    return int(r)


def p_count_mp(a, b, delta, rule, kind):
    c = mkcons(kind, rule, delta)
    ss = [a, b]
    r = calc_number_violations_diso_mp(ss, c)
    check(len(r) == 2, 'one count per panel')
    for k in range(2):
        check(r[k] == bad_pairs(strip_outer(ss[k], rule), delta), 'panel count')
    check(len(ss) == 2 and ss[0].size == a.size and ss[1].size == b.size, 'inputs modified')
    m = calc_penalty_diso_mp_0(ss, delta)
    for k in range(2):
        check(m[k].size == ss[k].size - 1, 'matrix of violations, shape')
        for i in range(ss[k].size - 1):
            check((m[k][i] != 0) == (not compliant(ss[k][i], ss[k][i + 1], delta)),
                  'matrix of violations')
    return [int(r[0]), int(r[1])]


def p_penalty(viola, coeff, norm):
    r = calc_penalty_diso(viola.shape[0], viola, diso=True, coeff_diso=coeff, norm_diso_contig=norm)
    for i in range(viola.shape[0]):
        s = 0
        for j in range(viola.shape[1]):
            s = s + viola[i, j]
        check(close(r[i] * norm, coeff * s, 1e-9), 'penalty value')
    z = calc_penalty_diso(viola.shape[0], viola, diso=False, coeff_diso=coeff)
    check(z.size == viola.shape[0], 'one penalty per lay-up')
    for i in range(viola.shape[0]):
        check(z[i] == 0, 'inactive penalty')
    return r


def p_incremental(angles, drops, delta, sym, mid):
    """the violations accumulated ply by ply are those of the whole laminate"""
    c = cons(sym=sym, diso=True, delta_angle=delta)
    L = angles.size
    P = drops.shape[0]
    pdl = np.zeros((P, L), int)
    for p in range(P):
        if not sym:
            # the first ply of each surface is never dropped
            assume(not drops[p, 0] and not drops[p, 1])
        for l in range(L):
            pdl[p, l] = -1 if drops[p, l] else l
    viola = np.zeros((P,), int)
    bot = [np.array((), int) for _ in range(P)]
    top = [np.array((), int) for _ in range(P)]
    for l in range(L):
        child = np.array([angles[l]])
        viola = calc_n_viola_diso(viola, bot, child, l, P, L, pdl, c,
                                  mother_ss_top=top, last_level=l == L - 1)
        for p in range(P):
            if pdl[p, l] >= 0:
                if sym or l % 2 == 0:
                    bot[p] = np.hstack((bot[p], child))
                else:
                    top[p] = np.hstack((child, top[p]))
    for p in range(P):
        if sym:
            if mid and pdl[p, L - 1] >= 0:
                full = np.hstack((bot[p], np.flip(bot[p][:-1], axis=0)))
            else:
                full = np.hstack((bot[p], np.flip(bot[p], axis=0)))
        else:
            full = np.hstack((bot[p], top[p]))
        check(viola[p] == bad_pairs(full, delta), 'accumulated count of panel')
    return viola
