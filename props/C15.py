import numpy as np
from vh import check, assume
from hlib import cons
from src.BELLA.ply_order import calc_ply_order as bella_order
from src.LAYLA_V02.ply_order import calc_ply_order as layla_order, calc_levels


class Obj:
    pass


def order_ok(order, n, sym):
    good = True
    if sym:
        half = (n + 1) // 2
        good = good and order.size == half
        for k in range(half):
            good = good and order[k] == k
    else:
        good = good and order.size == n
        for k in range(n):
            good = good and order[k] == (k // 2 if k % 2 == 0 else n - 1 - k // 2)
    return good


def p_bella(counts, sym):
    c = cons('BELLA', sym=sym)
    mp = Obj()
    mp.reduced = Obj()
    mp.reduced.panels = []
    for k in range(len(counts)):
        p = Obj()
        p.n_plies = counts[k]
        mp.reduced.panels.append(p)
    r = bella_order(mp, c)
    check(len(r) == len(counts), 'one order per panel')
    for k in range(len(counts)):
        check(order_ok(r[k], counts[k], sym), 'order of a panel')
        check(mp.reduced.panels[k].n_plies == counts[k], 'panel modified')
    return 0


def p_layla(n, sym):
    c = cons('LAYLA', sym=sym)
    t = Obj()
    t.n_plies = n
    r = layla_order(c, t)
    check(order_ok(r, n, sym), 'order of a laminate')
    return 0


def p_levels(n, sizes, sym):
    """the plies of each group: consecutive positions of the design order"""
    c = cons('LAYLA', sym=sym)
    t = Obj()
    t.n_plies = n
    order = layla_order(c, t)
    s = 0
    for k in range(sizes.size):
        s = s + sizes[k]
    assume(s == order.size)
    before = np.copy(order)
    r = calc_levels(order, sizes, sizes.size)
    check(len(r) == sizes.size, 'one list per group')
    pos = 0
    for g in range(sizes.size):
        check(len(r[g]) == sizes[g], 'size of a group')
        for k in range(len(r[g])):
            check(r[g][k] == before[pos], 'plies of a group')
            pos = pos + 1
    check(pos == before.size, 'plies left out of the groups')
    check((order == before).all(), 'order modified')
    return 0
