"""Refinement for in-plane lamination parameters"""
import math
import numpy as np
from vh import check, assume, raises, close
from hlib import cons, count, required, mk10 as mk, needs, half_needs, lay_up
from src.RELAY.repair_10_bal import calc_mini_10
from src.RELAY.repair_membrane import repair_membrane


class Par:
    def __init__(self, switch, p_A):
        self.repair_membrane_switch = switch
        self.p_A = p_A


def lampam_A(pos, n):
    """in-plane lamination parameters of ply counts"""
    r = []
    for f in (lambda x: math.cos(2 * x), lambda x: math.cos(4 * x), lambda x: math.sin(2 * x),
              lambda x: math.sin(4 * x)):
        s = 0
        for a in pos:
            s = s + pos[a] * f(math.radians(a))
        r.append(s / n)
    return r


def feasible(pos, R, n, bal, ten, angles):
    ok = True
    if bal:
        for a in angles:
            if 0 < a and a < 90:
                ok = ok and pos[a] == pos[-a]
    if ten:
        ok = ok and 100 * pos[0] >= R[0] * n and 100 * pos[90] >= R[2] * n and 100 * pos[45] >= R[1] * n \
            and 100 * pos[-45] >= R[3] * n and 100 * (pos[45] + pos[-45]) >= R[4] * n
    return ok


def p_refine(fixed, outer, mid, queue, n, P, bal, ten, sym, rule, angles, kind, coeffs, target, p_A, switch, multi):
    w = 2 if sym else 1
    outer = np.hstack((np.array(fixed, int), outer))
    if sym:
        half = np.hstack((outer, np.array([666] * (n // 2 - outer.size), int)))
        ss = lay_up(half, mid, True)
    else:
        t = (outer.size + 1) // 2
        ss = np.hstack((outer[:t], np.array([666] * (n - outer.size), int), outer[t:]))
    c = mk(P, bal, ten, sym, rule, angles, kind)
    R = required(kind, P)
    if not ten:
        R = (0, 0, 0, 0, 0)
    mini = calc_mini_10(c, n)
    pos = {}
    for a in angles:
        pos[a] = count(ss, a) + w * count(queue, a)
    ok = feasible(pos, R, n, bal, ten, angles)
    if sym and ten:
        # the limits hold for the halves
        r = half_needs(R, n, bal)
        m = [count(ss[:n // 2], a) + count(queue, a) for a in (0, 45, 90, -45)]
        ok = ok and m[1] >= r[1] and m[3] >= r[3] and m[1] + m[3] >= r[4]
    if not ok:
        return 0
    target = np.array(target + (0.,) * 8)
    coeffs = np.array(coeffs)
    before = np.copy(ss)
    q0 = list(queue)
    sl, ql, ll = repair_membrane(ss, q0, mini, coeffs, c, Par(switch, p_A), multipanel=Par if multi else None,
                                 lampam_target=target)
    check((ss == before).all() and q0 == list(queue), 'arguments modified')
    check(len(sl) == len(ql) and len(sl) == len(ll), 'lists of different lengths')
    check((sl[-1] == before).all() and ql[-1] == list(queue), 'input not last in the list')
    if not switch:
        check(len(sl) == 1, 'refinement done although switched off')
    prev = None
    d = {0: 0, 1: 1, 2: 2, 3: 2}[rule]
    lo = max(d, math.floor((1 - p_A / 100) * n / 2))
    for s, q, l in zip(sl, ql, ll):
        check(s.size == n, 'ply count')
        check(len(q) == len(queue), 'size of the queue')
        for k in range(n):
            check((s[k] == 666) == (before[k] == 666), 'undetermined plies moved')
            if k < lo or n - 1 - k < lo:
                check(s[k] == before[k], 'outer ply modified')
            if sym:
                check(s[k] == s[n - 1 - k], 'not symmetric')
        p = {}
        tot = 0
        for a in angles:
            p[a] = count(s, a) + w * count(q, a)
            tot = tot + p[a]
        check(tot == n, 'fibre orientation out of the set')
        check(feasible(p, R, n, bal, ten, angles), 'balance or 10% rule broken')
        ref = lampam_A(p, n)
        obj = 0
        for i in range(4):
            check(close(l[i], ref[i], 1e-8), 'reported in-plane lamination parameters')
            obj = obj + coeffs[i] * (l[i] - target[i]) * (l[i] - target[i])
        if prev is not None:
            check(prev < obj + 1e-12, 'in-plane objective worse')
        prev = obj
    return 0
