import numpy as np
from vh import check, raises, assume
from src.divers.sorting import sortAccording
from src.divers.arrays import max_arrays
from src.divers.subset_sum import (subset_sum_count, subset_sum_find, subset_sum_next, subset_sum_table,
                                   subset_sum_table_to_list, subset_next)


def occurrences(seq, x):
    n = 0
    for y in seq:
        n = n + (1 if x == y else 0)
    return n


def p_sort(items, order, as_array):
    """items rearranged: those of order first, in its order, then the others"""
    for k in range(order.size):
        for j in range(k):
            assume(order[j] != order[k])
    if as_array:
        work = np.copy(items)
        ref = order
    else:
        work = [items[k] for k in range(items.size)]
        ref = [order[k] for k in range(order.size)]
    r = sortAccording(work, ref)
    check(len(work) == items.size, 'length')
    for k in range(items.size):
        check(occurrences(work, items[k]) == occurrences(items, items[k]), 'not a rearrangement')

    def rank(x):
        p = order.size
        for k in range(order.size):
            if p == order.size and order[k] == x:
                p = k
        return p
    for k in range(items.size - 1):
        a, b = rank(work[k]), rank(work[k + 1])
        check(a <= b, 'not in the order of the second list')
        if a == order.size and b == order.size:
            check(work[k] <= work[k + 1], 'other items not in increasing order')
    for k in range(order.size):
        check(ref[k] == order[k], 'second list modified')
    return 0


def p_max(a, b):
    r = max_arrays(a, b)
    n = max(a.size, b.size)
    check(r.size == n, 'size of the maximum')
    for k in range(n):
        x = a[k] if a.size == n else a[0]
        y = b[k] if b.size == n else b[0]
        check((r[k] == x or r[k] == y) and r[k] >= x and r[k] >= y, 'elementwise maximum')
    return r


def p_max_scalar(x, b):
    for r in (max_arrays(x, b), max_arrays(b, x)):
        check(r.size == b.size, 'size of the maximum with a number')
        for k in range(b.size):
            check((r[k] == x or r[k] == b[k]) and r[k] >= x and r[k] >= b[k], 'maximum with a number')
    return 0


def p_max_error(a, b):
    check(raises(max_arrays, a, b) == 'ValueError', 'arrays of different lengths accepted')
    return 0


def total(w, bits):
    s = 0
    for k in range(w.size):
        if bits[k]:
            s = s + w[k]
    return s


def selections(n):
    return [[(m >> k) & 1 == 1 for k in range(n)] for m in range(2 ** n)]


def p_count(w, t):
    n = w.size
    c = 0
    for bits in selections(n):
        c = c + (1 if total(w, bits) == t else 0)
    check(subset_sum_count(n, w, t) == c, 'number of selections')
    s = subset_sum_find(n, w, t)
    check(len(s) == n, 'selection size')
    if c > 0:
        check(total(w, s) == t, 'selection found does not add up')
    else:
        check(not s.any(), 'selection out of nowhere')
    return c


def p_table(w, t):
    n = w.size
    found = False
    for bits in selections(n):
        found = found or total(w, bits) == t
    table = subset_sum_table(t, n, w)
    check((table[t] != 0) == found, 'reachable total')
    m, ls = subset_sum_table_to_list(t, table)
    check(m == len(ls), 'length of the list')
    if found:
        s = 0
        for x in ls:
            s = s + x
            check(occurrences(ls, x) <= occurrences(w, x), 'weight used more often than given')
        check(s == t, 'listed weights do not add up')
    else:
        check(m == 0, 'weights listed for an unreachable total')
    return found


def p_next(w, t):
    """every selection adding up to t is produced once"""
    n = w.size
    for k in range(n - 1):
        assume(w[k] < w[k + 1])
    c = 0
    for bits in selections(n):
        c = c + (1 if total(w, bits) == t else 0)
    more, u, top = False, np.zeros(n), 0
    seen = []
    going = True
    for _ in range(2 ** n + 1):
        if going:
            more, u, top = subset_sum_next(t, n, w, more, u, top)
            if not more:
                going = False
            else:
                key = 0
                s = 0
                for k in range(n):
                    check(u[k] == 0 or u[k] == 1, 'not a selection')
                    if u[k] == 1:
                        key = key + 2 ** k
                        s = s + w[k]
                check(s == t, 'selection does not add up')
                for other in seen:
                    check(other != key, 'selection produced twice')
                seen.append(key)
    check(not going, 'enumeration does not end')
    check(len(seen) == c, 'selections missed')
    return c


def p_subset_next(bits, rank):
    """binary counting"""
    n = bits.size
    before = 0
    for k in range(n):
        before = 2 * before + (1 if bits[k] else 0)
    t, r = subset_next(n, bits, rank)
    after = 0
    for k in range(n):
        after = 2 * after + (1 if t[k] else 0)
    if before == 2 ** n - 1:
        check(after == 0 and r == -1, 'end of the cycle')
    else:
        check(after == before + 1 and r == rank + 1, 'next selection')
    return r
