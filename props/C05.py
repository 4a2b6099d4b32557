import numpy as np
from vh import check, assume, close
from hlib import cons, count
from src.guidelines.ten_percent_rule import (
    is_ten_percent_rule, calc_penalty_10_ss, calc_penalty_10_pc,
    calc_n_plies_per_angle, calc_ply_counts)


def mk(kind, P, angles=(0, 45, 90, -45), **kw):
    return cons(kind, rule_10_percent=True, set_of_angles=angles, percent_0=P[0], percent_45=P[1],
                percent_90=P[2], percent_135=P[3], percent_45_135=P[4], **kw)


def required(kind, P):
    """percentages in force: 0, 45, 90, -45, +-45"""
    if kind == 'BELLA':
        if 2 * P[1] > P[4] or 2 * P[3] > P[4]:
            return (P[0], P[1], P[2], P[3], 0)
        return (P[0], 0, P[2], 0, P[4])
    return (P[0], P[1], P[2], P[3], max(P[4], P[1] + P[3]))


def meets(n0, n45, n90, n135, tot, R):
    return 100 * n0 >= R[0] * tot and 100 * n45 >= R[1] * tot \
        and 100 * n90 >= R[2] * tot and 100 * n135 >= R[3] * tot \
        and 100 * (n45 + n135) >= R[4] * tot


def pos(x):
    return x if x > 0 else 0


def shortfall(n0, n45, n90, n135, tot, R):
    """tot * 100 * summed shortfall"""
    return pos(R[0] * tot - 100 * n0) + pos(R[1] * tot - 100 * n45) \
        + pos(R[2] * tot - 100 * n90) + pos(R[3] * tot - 100 * n135) \
        + pos(R[4] * tot - 100 * (n45 + n135))


def p_stack(stack, P, kind, angles):
    c = mk(kind, P, angles)
    R = required(kind, P)
    before = np.copy(stack)
    n0, n45, n90, n135 = count(stack, 0), count(stack, 45), count(stack, 90), count(stack, -45)
    tot = stack.size
    ok = meets(n0, n45, n90, n135, tot, R)
    r = is_ten_percent_rule(c, stack=stack)
    check(bool(r) == ok, 'verdict on a lay-up')
    s = shortfall(n0, n45, n90, n135, tot, R)
    pen = calc_penalty_10_ss(stack, c)
    check(close(pen * (100 * tot), s, 1e-7), 'penalty of a lay-up')
    check((pen > 1e-12) == (not ok), 'penalty zero iff the rule is met')
    pens = calc_penalty_10_ss([stack, stack[:-1]], c, mp=True)
    check(close(pens[0] * (100 * tot), s, 1e-7), 'penalty of the first of two lay-ups')
    t = stack[:-1]
    s2 = shortfall(count(t, 0), count(t, 45), count(t, 90), count(t, -45), tot - 1, R)
    check(close(pens[1] * (100 * (tot - 1)), s2, 1e-7), 'penalty of the second of two lay-ups')
    check((stack == before).all(), 'lay-up modified')
    return [bool(r), pen]


def p_equality(stack, P, kind):
    """verdicts when 0/90 or +45/-45 plies are not differentiated"""
    c = mk(kind, P)
    R = required(kind, P)
    n0, n45, n90, n135 = count(stack, 0), count(stack, 45), count(stack, 90), count(stack, -45)
    t = stack.size
    sep0 = 100 * n0 >= R[0] * t and 100 * n90 >= R[2] * t
    com0 = 100 * (n0 + n90) >= (R[0] + R[2]) * t
    sep45 = 100 * n45 >= R[1] * t and 100 * n135 >= R[3] * t
    com45 = 100 * (n45 + n135) >= (R[1] + R[3]) * t
    tot45 = 100 * (n45 + n135) >= R[4] * t
    r1 = is_ten_percent_rule(c, stack=stack, equality_45_135=True)
    check(bool(r1) == (sep0 and com45 and tot45), '+-45 not differentiated')
    r2 = is_ten_percent_rule(c, stack=stack, equality_0_90=True)
    check(bool(r2) == (com0 and sep45 and tot45), '0/90 not differentiated')
    r3 = is_ten_percent_rule(c, stack=stack, equality_0_90=True, equality_45_135=True)
    check(bool(r3) == (com0 and com45 and tot45), 'neither differentiated')
    return [bool(r1), bool(r2), bool(r3)]


def p_queue(known, mask, queue, mid, P, kind, sym):
    """partial lay-up (666: unknown) completed by a ply queue"""
    c = mk(kind, P, sym=sym)
    R = required(kind, P)
    h = known.size
    half = np.copy(known)
    nm = 0
    for i in range(h):
        if mask[i]:
            half[i] = 666
            nm = nm + 1
    assume(nm == len(queue))
    w = 2 if sym else 1
    n0 = w * (count(half, 0) + count(queue, 0))
    n45 = w * (count(half, 45) + count(queue, 45))
    n90 = w * (count(half, 90) + count(queue, 90))
    n135 = w * (count(half, -45) + count(queue, -45))
    if sym:
        if mid.size > 0:
            stack = np.hstack((half, mid, np.flip(half, axis=0)))
            n0 = n0 + count(mid, 0)
            n45 = n45 + count(mid, 45)
            n90 = n90 + count(mid, 90)
            n135 = n135 + count(mid, -45)
        else:
            stack = np.hstack((half, np.flip(half, axis=0)))
    else:
        stack = half
    q = list(queue)
    r = is_ten_percent_rule(c, stack=stack, ply_queue=q)
    check(bool(r) == meets(n0, n45, n90, n135, stack.size, R), 'verdict with queued plies')
    check(len(q) == len(queue), 'queue modified')
    return bool(r)


def p_counts(counts, P, kind, angles, total):
    """verdict and penalty on ply counts"""
    assume(np.sum(counts) == total)
    c = mk(kind, P, angles)
    R = required(kind, P)
    s = sorted(angles)
    n0, n45 = counts[s.index(0)], counts[s.index(45)]
    n90, n135 = counts[s.index(90)], counts[s.index(-45)]
    tot = total
    sh = shortfall(n0, n45, n90, n135, tot, R)
    pen = calc_penalty_10_pc(counts, c)
    if tot == 0:
        check(pen == 0, 'penalty without plies')
        return [True, pen]
    ok = meets(n0, n45, n90, n135, tot, R)
    r = is_ten_percent_rule(c, n_plies_per_angle=counts)
    check(bool(r) == ok, 'verdict on ply counts')
    check(close(pen * (100 * tot), sh, 1e-7), 'penalty of ply counts')
    check((pen > 1e-12) == (not ok), 'penalty zero iff the rule is met')
    return [bool(r), pen]


def p_counts_list(counts, P, kind, area, total):
    """penalties of ply counts given as list or as rows of a table"""
    for i in range(counts.shape[0]):
        assume(np.sum(counts[i]) == total)
    c = mk(kind, P)
    R = required(kind, P)
    want = []
    for i in range(counts.shape[0]):
        k = counts[i]
        want.append((shortfall(k[1], k[2], k[3], k[0], total, R), total))
    r = calc_penalty_10_pc(counts, c, area)
    check(len(r) == counts.shape[0], 'one penalty per row')
    for i in range(counts.shape[0]):
        if want[i][1] == 0:
            check(r[i] == 0, 'row without plies')
        else:
            check(close(r[i] * (100 * want[i][1]), want[i][0] * area, 1e-7), 'penalty of a row')
    first = calc_penalty_10_pc([counts[0, 0], counts[0, 1], counts[0, 2], counts[0, 3]], c, area)
    check(first == r[0] or close(first, r[0], 1e-12), 'list and table agree')
    return r


def p_inactive(stack, counts, kind):
    c = cons(kind)
    check(bool(is_ten_percent_rule(c, stack=stack)), 'inactive rule rejects')
    check(bool(is_ten_percent_rule(c, n_plies_per_angle=counts)), 'inactive rule rejects counts')
    check(calc_penalty_10_ss(stack, c) == 0, 'inactive penalty')
    z = calc_penalty_10_ss([stack, stack], c, mp=True)
    check(len(z) == 2 and z[0] == 0 and z[1] == 0, 'inactive penalties')
    check(calc_penalty_10_pc(counts, c) == 0, 'inactive penalty of counts')
    z = calc_penalty_10_pc(np.vstack((counts, counts)), c)
    check(len(z) == 2 and z[0] == 0 and z[1] == 0, 'inactive penalties of counts')
    return 0


class Red:
    pass


def p_ply_counts(a, b, angles, kind):
    """ply counts of the panels of a structure"""
    c = cons(kind, set_of_angles=angles)
    mpanel = Red()
    mpanel.reduced = Red()
    mpanel.reduced.n_panels = 2
    r = calc_ply_counts(mpanel, [a, b], c)
    s = sorted(angles)
    check(r.shape == (2, len(s)), 'shape of ply counts')
    for k in range(len(s)):
        check(r[0, k] == count(a, s[k]), 'ply counts of the first panel')
        check(r[1, k] == count(b, s[k]), 'ply counts of the second panel')
    return r


def p_group_counts(ini, tab, tab2, middle, angles, kind):
    """counts after adding ply groups to laminates; the middle ply of a
    symmetric laminate counts for one half in each half"""
    c = cons(kind, set_of_angles=angles)
    s = sorted(angles)
    before = np.copy(ini)
    if tab2 is None:
        r = calc_n_plies_per_angle(ini, c, middle, tab)
    else:
        r = calc_n_plies_per_angle(ini, c, middle, tab, tab2)
    check(r.shape == (tab.shape[0], len(s)), 'shape')
    for i in range(tab.shape[0]):
        for k in range(len(s)):
            w = ini[k] + count(tab[i], s[k])
            if tab2 is not None:
                w = w + count(tab2[i], s[k])
            if middle != 0 and tab[i, tab.shape[1] - 1] == s[k]:
                w = w - 0.5
            check(r[i, k] == w, 'counts')
    check((ini == before).all(), 'initial counts modified')
    return r
