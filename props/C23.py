"""Repair for disorientation and contiguity"""
import itertools
import numpy as np
from vh import check, assume, raises
from hlib import cons, count, strip_outer, bad_pairs, contig_ok, dam_tol_ok
from src.RELAY.repair_diso_contig import repair_diso_contig, repair_diso_contig_list
from src.RELAY.repair_diso_contig_tools import smallest_row, order_plies_to_test


def mk(kind, sym, rule, diso, delta, n_contig, angles):
    return cons(kind, sym=sym, dam_tol=rule > 0, dam_tol_rule=rule if rule else 1,
                diso=diso, delta_angle=delta, contig=n_contig > 0,
                n_contig=n_contig if n_contig else 4, set_of_angles=angles)


def partial(outer, centre, n, sym):
    """lay-up with undetermined innermost plies; outer lists the determined
    plies from the surface(s) inwards, top then bottom; centre is the middle
    ply of a symmetric laminate with an odd ply count, or None"""
    if sym:
        h = np.hstack((outer, np.array([666] * (n // 2 - outer.size), int)))
        if n % 2:
            return np.hstack((h, np.array([centre]), np.flip(h)))
        return np.hstack((h, np.flip(h)))
    t = (outer.size + 1) // 2
    return np.hstack((outer[:t], np.array([666] * (n - outer.size), int), outer[t:]))


def ok_rules(s, rule, diso, delta, n_contig):
    s = strip_outer(s, rule)
    r = True
    if diso:
        r = r and bad_pairs(s, delta) == 0
    if n_contig:
        r = r and contig_ok(s, n_contig)
    return r


def conserve(ss, queue, n, stack, sym, rule, angles):
    """same plies, symmetry, outer plies"""
    check(stack.size == n, 'ply count')
    w = 2 if sym else 1
    for a in angles:
        check(count(stack, a) == count(ss, a) + w * count(queue, a), 'not the same plies')
    if sym:
        for k in range(n // 2):
            check(stack[k] == stack[n - 1 - k], 'not symmetric')
        if n % 2:
            check(stack[n // 2] == ss[n // 2], 'middle ply of a symmetric laminate changed')
    for k in range({0: 0, 1: 1, 2: 2, 3: 2}[rule]):
        check(stack[k] == ss[k] and stack[n - 1 - k] == ss[n - 1 - k], 'outer ply for damage tolerance changed')


def p_repair(outer, centre, queue, n, sym, rule, diso, delta, n_contig, n_D1, angles, kind):
    """one repair"""
    c = mk(kind, sym, rule, diso, delta, n_contig, angles)
    ss = partial(outer, centre, n, sym)
    assume(dam_tol_ok(ss, rule))
    before = np.copy(ss)
    q = list(queue)
    stack, inward, outward = repair_diso_contig(ss, list(queue), c, n_D1)
    check((ss == before).all(), 'lay-up modified')
    conserve(ss, q, n, stack, sym, rule, angles)
    if inward or outward:
        check(ok_rules(stack, rule, diso, delta, n_contig), 'success reported for a lay-up breaking a rule')
    if len(q) == 0:
        if ok_rules(ss, rule, diso, delta, n_contig):
            check(inward and outward and (stack == ss).all(), 'compliant lay-up changed')
    return 0


def p_list(outers, queues, n, rule, diso, delta, n_contig, n_D1, angles, kind):
    """successive attempts: the first success is reported with its index"""
    c = mk(kind, True, rule, diso, delta, n_contig, angles)
    sss = [partial(o, None, n, True) for o in outers]
    for ss in sss:
        assume(dam_tol_ok(ss, rule))
    stack, inward, outward, ind = repair_diso_contig_list(
        [np.copy(ss) for ss in sss], [list(q) for q in queues], c, n_D1)
    ref = [repair_diso_contig(ss, list(q), c, n_D1) for ss, q in zip(sss, queues)]
    won = inward or outward
    some = False
    for i, r in enumerate(ref):
        s = r[1] or r[2]
        if s and not some:
            check(won and ind == i and (stack == r[0]).all(), 'first success not returned')
        some = some or s
    if not some:
        check(not won and ind == 0 and (stack == ref[0][0]).all(), 'first attempt not returned after failures')
    return 0


def p_smallest(rows):
    """lexicographically smallest row"""
    r = smallest_row([list(x) for x in rows])
    k = len(rows[0])
    found = False
    for x in rows:
        same = True
        less = False
        eq = True
        for j in range(k):
            same = same and r[j] == x[j]
            less = less or (eq and x[j] < r[j])
            eq = eq and x[j] == r[j]
        found = found or same
        check(not less, 'a smaller row exists')
    check(found, 'row made up')
    return 0


def p_order(adj, queue, angles, kind):
    """plies of the queue, closest fibre orientation first"""
    c = mk(kind, True, 0, True, 45, 4, angles)
    r = order_plies_to_test([adj], list(queue), c)
    for a in angles:
        num = 0
        for x in r:
            num = num + (1 if x == a else 0)
        check(num == (1 if count(queue, a) > 0 else 0), 'fibre orientations listed')
    for x, y in zip(r[:-1], r[1:]):
        dx, dy = (x - adj) % 180, (y - adj) % 180
        check(min(dx, 180 - dx) <= min(dy, 180 - dy), 'order of the fibre orientations')
    return 0
