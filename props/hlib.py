"""Helpers shared by the harnesses: constraint objects and reference
definitions of the design guidelines, written directly from their text."""
import numpy as np
from src.BELLA.constraints import Constraints as BConstraints
from src.LAYLA_V02.constraints import Constraints as LConstraints


def cons(kind='BELLA', **kw):
    """a set of design guidelines"""
    if 'set_of_angles' in kw:
        kw = dict(kw)
        kw['set_of_angles'] = np.array(kw['set_of_angles'], int)
    if kind == 'BELLA':
        return BConstraints(**kw)
    return LConstraints(**kw)


def count(stack, angle):
    n = 0
    for a in stack:
        n = n + (1 if a == angle else 0)
    return n


def count_windows(stack, n):
    """number of windows of n + 1 identical adjacent plies"""
    w = 0
    for i in range(stack.size - n):
        ident = True
        for j in range(n):
            if stack[i + j] != stack[i + j + 1]:
                ident = False
        w = w + (1 if ident else 0)
    return w


def strip_outer(stack, rule):
    """the plies the counters consider: without the outermost ply of each
    surface when two outer plies are fixed for damage tolerance"""
    return stack[1:-1] if rule in (2, 3) else stack


def compliant(a, b, delta):
    """two fibre angles differ by at most delta modulo 180 degrees"""
    d = (a - b) % 180
    return d <= delta or 180 - d <= delta


def bad_pairs(stack, delta):
    """number of adjacent plies breaking the disorientation guideline"""
    k = 0
    for i in range(stack.size - 1):
        if not compliant(stack[i], stack[i + 1], delta):
            k = k + 1
    return k


def contig_ok(stack, n):
    return count_windows(stack, n) == 0


def is45(a):
    return a == 45 or a == -45


def dam_tol_ok(stack, rule):
    """both surfaces of the lay-up"""
    if rule == 0:
        return True
    ok = is45(stack[0]) and is45(stack[-1])
    if rule >= 2:
        ok = ok and is45(stack[1]) and is45(stack[-2])
    if rule == 2:
        ok = ok and stack[0] == -stack[1] and stack[-1] == -stack[-2]
    return ok


def balanced(stack, angles):
    ok = True
    for a in angles:
        if 0 < a and a < 90:
            ok = ok and count(stack, a) == count(stack, -a)
    return ok


def required(kind, P):
    """10% rule: percentages in force for 0, 45, 90, -45, +-45"""
    if kind == 'BELLA':
        if 2 * P[1] > P[4] or 2 * P[3] > P[4]:
            return (P[0], P[1], P[2], P[3], 0)
        return (P[0], 0, P[2], 0, P[4])
    return (P[0], P[1], P[2], P[3], max(P[4], P[1] + P[3]))


def ten_ok(stack, R):
    t = stack.size
    n0, n45, n90, n135 = count(stack, 0), count(stack, 45), count(stack, 90), count(stack, -45)
    return 100 * n0 >= R[0] * t and 100 * n45 >= R[1] * t \
        and 100 * n90 >= R[2] * t and 100 * n135 >= R[3] * t \
        and 100 * (n45 + n135) >= R[4] * t


def mk10(P, bal, ten, sym, rule, angles, kind='BELLA', **kw):
    return cons(kind, sym=sym, bal=bal, ipo=bal, rule_10_percent=ten, dam_tol=rule > 0,
                dam_tol_rule=rule if rule else 1, set_of_angles=angles, percent_0=P[0], percent_45=P[1],
                percent_90=P[2], percent_135=P[3], percent_45_135=P[4], **kw) if kind == 'LAYLA' else \
        cons(kind, sym=sym, bal=bal, rule_10_percent=ten, dam_tol=rule > 0,
             dam_tol_rule=rule if rule else 1, set_of_angles=angles, percent_0=P[0], percent_45=P[1],
             percent_90=P[2], percent_135=P[3], percent_45_135=P[4], **kw)


def up(a, b):
    return -((-a) // b)


def needs(R, n, bal):
    """fewest plies of n at 0, 45, 90, -45 and +-45 degrees"""
    r = [up(x * n, 100) for x in R]
    if bal:
        m = max(r[1], r[3], up(r[4], 2))
        r[1], r[3], r[4] = m, m, 2 * m
    return r


def half_needs(R, n, bal):
    """same thing for one half of a symmetric laminate, without its middle ply"""
    r = [up(up(x * n, 100), 2) for x in R]
    if bal:
        m = max(r[1], r[3], up(r[4], 2))
        r[1], r[3], r[4] = m, m, 2 * m
    return r


def lay_up(half, mid, sym):
    if not sym:
        return half
    if mid is None:
        return np.hstack((half, np.flip(half)))
    return np.hstack((half, np.array([mid]), np.flip(half)))
