import numpy as np
from vh import check, close
from hlib import cons, count
from src.guidelines.balance import is_balanced, calc_penalty_bal


def unpaired(stack, angles):
    d = 0
    for a in angles:
        if 0 < a < 90:
            d = d + abs(count(stack, a) - count(stack, -a))
    return d


def p_is_balanced(stack, angles):
    c = cons(set_of_angles=angles)
    before = np.copy(stack)
    r = is_balanced(stack, c)
    check((stack == before).all(), 'lay-up modified')
    check(bool(r) == (unpaired(stack, angles) == 0), 'balance verdict')
    return bool(r)


def ref_penalty(counts, angles):
    """counts: number of plies of each angle of sorted(angles)"""
    s = sorted(angles)
    tot = 0
    d = 0
    for k in range(len(s)):
        tot = tot + counts[k]
        if 0 < s[k] < 90:
            d = d + abs(counts[k] - counts[s.index(-s[k])])
    return d, tot


def p_penalty_one(counts, angles, coeff, kind):
    c = cons(kind, set_of_angles=angles)
    r = calc_penalty_bal(counts, c, coeff)
    d, tot = ref_penalty(counts, angles)
    if tot == 0:
        check(r == 0, 'empty lay-up')
    else:
        check(close(r * tot, d * coeff, 1e-7), 'penalty value')
        check((r == 0) == (d == 0), 'zero iff balanced')
    return r


def p_penalty_many(counts, angles, kind):
    c = cons(kind, set_of_angles=angles)
    before = np.copy(counts)
    r = calc_penalty_bal(counts, c)
    check(r.shape == (counts.shape[0],), 'one penalty per lay-up')
    check((counts == before).all(), 'counts modified')
    for i in range(counts.shape[0]):
        d, tot = ref_penalty(counts[i], angles)
        if tot == 0:
            check(r[i] == 0, 'empty lay-up')
        else:
            check(close(r[i] * tot, d, 1e-7), 'penalty value')
            check((r[i] == 0) == (d == 0), 'zero iff balanced')
    return r


def p_stack_penalty(stack, angles):
    """checker and penalty agree on the counts of a lay-up"""
    c = cons(set_of_angles=angles)
    counts = np.zeros((len(angles),), int)
    s = sorted(angles)
    for k in range(len(s)):
        counts[k] = count(stack, s[k])
    r = calc_penalty_bal(counts, c)
    check(bool(is_balanced(stack, c)) == (r == 0), 'checker and penalty disagree')
    return r
