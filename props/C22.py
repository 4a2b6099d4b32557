"""Repair for balance and the 10% rule"""
import math
import numpy as np
from vh import check, assume, raises, close
from hlib import (cons, count, balanced, required, dam_tol_ok, is45, mk10 as mk, needs, half_needs, lay_up, up)
from src.RELAY import repair_10_bal as RB
from src.RELAY.repair_10_bal import (repair_10_bal, calc_mini_10, calc_ind_plies, is_equal,
                                     calc_lampamA_ply_queue)


def room(R, n, bal, sym, rule):
    """the plies required fit in the laminate next to the outer plies fixed
    for damage tolerance"""
    r = half_needs(R, n, bal) if sym else needs(R, n, bal)
    d = {0: 0, 1: 1, 2: 2, 3: 2}[rule] * (1 if sym else 2)
    a, b = max(r[1], d), max(r[3], d)
    if bal:
        a, b = max(a, b), max(a, b)
    return r[0] + r[2] + max(a + b, r[4]) <= (n // 2 if sym else n)


def p_repair(half, mid, P, bal, ten, sym, rule, angles, kind):
    stack = lay_up(half, mid, sym)
    c = mk(P, bal, ten, sym, rule, angles, kind)
    R = required(kind, P)
    n = stack.size
    if not ten:
        R = (0, 0, 0, 0, 0)
    assume(dam_tol_ok(stack, rule))
    before = np.copy(stack)
    mini = calc_mini_10(c, n)
    ss, queue = repair_10_bal(stack, mini, c)
    check((stack == before).all(), 'lay-up modified')
    check(ss.size == n, 'size of the partial lay-up')
    kept = 0
    for k in range(n):
        if ss[k] != 666:
            check(ss[k] == stack[k], 'ply kept with another fibre orientation')
            kept = kept + 1
        if sym:
            check(ss[k] == ss[n - 1 - k], 'partial lay-up not symmetric')
    w = 2 if sym else 1
    check(kept + w * len(queue) == n, 'ply count')
    for k in range({0: 0, 1: 1, 2: 2, 3: 2}[rule]):
        check(ss[k] == stack[k] and ss[n - 1 - k] == stack[n - 1 - k], 'outer ply for damage tolerance')
    tot = [count(ss, a) + w * count(queue, a) for a in angles]
    num = 0
    for t in tot:
        num = num + t
    check(num == n, 'fibre orientation out of the set')
    pos = {}
    for a, t in zip(angles, tot):
        pos[a] = t
    if bal:
        for a in angles:
            if 0 < a and a < 90:
                check(pos[a] == pos[-a], 'not balanced')
    if ten:
        check(100 * pos[0] >= R[0] * n and 100 * pos[90] >= R[2] * n and 100 * pos[45] >= R[1] * n
              and 100 * pos[-45] >= R[3] * n and 100 * (pos[45] + pos[-45]) >= R[4] * n, '10% rule')
    ok = not bal or balanced(stack, angles)
    if ten:
        # plies needed in the half laminates
        r = half_needs(R, n, bal) if sym else needs(R, n, bal)
        h = stack[:n // 2] if sym else stack
        ok = ok and count(h, 0) >= r[0] and count(h, 90) >= r[2] and count(h, 45) >= r[1] \
            and count(h, -45) >= r[3] and count(h, 45) + count(h, -45) >= r[4]
    if ok:
        check((ss == stack).all() and len(queue) == 0, 'compliant lay-up changed')
    check(is_equal(ss, queue, stack, sym) or not ok, 'is_equal on a compliant lay-up')
    return 0


def p_mini(n, P, bal, sym, kind):
    """minimum ply counts"""
    c = mk(P, bal, True, sym, 0, (0, 45, 90, -45), kind)
    R = required(kind, P)
    m = calc_mini_10(c, n)
    r = half_needs(R, n, bal) if sym else needs(R, n, bal)
    check(m.shape == (5,), 'five values')
    q = (0, 2, 1, 3, 4)
    for k in range(4 if bal else 5):
        check(math.ceil(m[k]) == r[q[k]], 'minimum ply count')
    return 0


def p_equal(ss, queue, ini, sym):
    """comparison of a partial lay-up and a queue with a lay-up"""
    n = ss.size
    if sym:
        for k in range(n // 2):
            assume((ss[k] == 666) == (ss[n - 1 - k] == 666))
        if n % 2:
            assume(ss[n // 2] != 666)
    w = 2 if sym else 1
    left = count(ss, 666)
    assume(left == w * len(queue))
    ok = True
    for k in range(n):
        ok = ok and (ss[k] == 666 or ss[k] == ini[k])
    for a in (0, 45, 90, -45):
        num = 0
        for k in range(n):
            num = num + (1 if ss[k] == 666 and ini[k] == a else 0)
        ok = ok and num == w * count(queue, a)
    check(bool(is_equal(ss, list(queue), ini, sym)) == bool(ok), 'comparison with the initial lay-up')
    return 0


def p_ind(ss, queue, sym, rule, p_A, kind):
    """plies which refinements can modify, innermost first"""
    n = ss.size
    c = mk((0, 0, 0, 0, 0), False, False, sym, rule, (0, 45, 90, -45), kind)
    d = {0: 0, 1: 1, 2: 2, 3: 2}[rule]
    ind, per = calc_ind_plies(ss, n, list(queue), c, p_A)
    first = max(d, math.floor((1 - p_A / 100) * n / 2))
    want = [k for k in range(n // 2) if k >= first]
    if not sym:
        want = want + [k for k in range(n // 2, n) if n - 1 - k >= first]
    check(len(ind) == len(want), 'number of plies')
    ind = list(ind)
    for k in want:
        check(k in ind, 'ply left out')
    for a, b in zip(ind[:-1], ind[1:]):
        check(abs(2 * a + 1 - n) <= abs(2 * b + 1 - n), 'order of the plies')
    for a in (0, 45, 90, -45):
        l = per[c.ind_angles_dict[a]]
        nq = count(queue, a)
        num = 0
        for k in want:
            num = num + (1 if ss[k] == a else 0)
        check(len(l) == nq + num, 'plies of a fibre orientation')
        for i, x in enumerate(l):
            check((x == 6666) == (i < nq), 'plies of the queue first')
            if x != 6666:
                check(ss[x] == a and x in ind, 'fibre orientation of a ply')
    return 0


def p_lampam(ss, queue, sym, angles):
    """in-plane lamination parameters of a partial lay-up and a queue"""
    n = ss.size
    c = mk((0, 0, 0, 0, 0), False, False, sym, 0, angles)
    full = ss
    if sym:
        for k in range(n // 2):
            assume(ss[k] == ss[n - 1 - k])
        if n % 2:
            assume(ss[n // 2] != 666)
    w = 2 if sym else 1
    assume(count(ss, 666) == w * len(queue))
    before = np.copy(ss)
    r = calc_lampamA_ply_queue(ss, n, list(queue), c)
    check((ss == before).all(), 'lay-up modified')
    for j, f in enumerate((lambda x: math.cos(2 * x), lambda x: math.cos(4 * x), lambda x: math.sin(2 * x),
                           lambda x: math.sin(4 * x))):
        s = 0
        for a in angles:
            num = count(ss, a) + w * count(queue, a)
            s = s + num * f(math.radians(a))
        check(close(r[j] * n, s, 1e-8), 'in-plane lamination parameter')
    return 0
