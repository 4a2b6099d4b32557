"""Refinement for out-of-plane lamination parameters"""
import math
import numpy as np
from vh import check, assume, raises, close
from hlib import cons, count, strip_outer, bad_pairs, contig_ok, dam_tol_ok, lay_up
from src.RELAY.repair_flexural import repair_flexural
from src.RELAY.repair_flexural_1 import repair_flexural_1
from src.RELAY.repair_flexural_2 import repair_flexural_2
from src.RELAY.repair_flexural_3 import repair_flexural_3
from src.RELAY.repair_flexural_tools import calc_delta_lampamD_swap_1


class Par:
    def __init__(self, switch, n_D2, n_D3):
        self.repair_flexural_switch = switch
        self.n_D2 = n_D2
        self.n_D3 = n_D3


TRIG = (lambda x: math.cos(2 * x), lambda x: math.cos(4 * x), lambda x: math.sin(2 * x), lambda x: math.sin(4 * x))


def objective_D(s, angles, coeffs, target):
    """weighted sum of squared deviations of the out-of-plane lamination
    parameters, calculated ply by ply"""
    n = s.size
    obj = 0
    for i in range(4):
        if coeffs[i] == 0:
            continue
        x = 0
        for a in angles:
            f = TRIG[i](math.radians(a))
            w = 0
            for k in range(n):
                w = w + ((2 * (k + 1) - n) ** 3 - (2 * k - n) ** 3 if s[k] == a else 0)
            x = x + f * w
        x = x / (2 * n ** 3)
        obj = obj + coeffs[i] * (x - target[8 + i]) * (x - target[8 + i])
    return obj


def rules(s, diso, delta, n_contig):
    r = True
    if diso:
        r = r and bad_pairs(s, delta) == 0
    if n_contig:
        r = r and contig_ok(s, n_contig)
    return r


def build(fixed, plies, sizes, core, mid, sym):
    """lay-up given by its plies, or by its blocks of adjacent plies at the
    same angle when sizes are given (core more plies beside the middle ply at
    its angle); None when adjacent blocks are not different"""
    h = np.hstack((np.array(fixed, int), plies))
    if sizes is None:
        return lay_up(h, mid, sym)
    for k in range(len(sizes) - 1):
        if h[k] == h[k + 1]:
            return None
    if mid is not None:
        if len(sizes) > 0 and h[-1] == mid:
            return None
    r = []
    for k in range(len(sizes)):
        r = r + [h[k]] * sizes[k]
    r = r + [mid] * core
    return lay_up(np.array(r, int), mid, sym)


def p_refine(fixed, plies, sizes, core, mid, sym, rule, diso, delta, n_contig, angles, kind, coeffs, target, n_D2, n_D3, switch, multi):
    ss = build(fixed, plies, sizes, core, mid, sym)
    if ss is None:
        return 0
    n = ss.size
    c = cons(kind, sym=sym, dam_tol=rule > 0, dam_tol_rule=rule if rule else 1, diso=diso, delta_angle=delta,
             contig=n_contig > 0, n_contig=n_contig if n_contig else 4, set_of_angles=angles)
    if not dam_tol_ok(ss, rule):
        return 0
    ok = rules(strip_outer(ss, rule), diso, delta, n_contig)
    if not ok:
        return 0
    tgt = np.array((0.,) * 8 + target)
    cf = np.array(coeffs)
    before = np.copy(ss)
    par = Par(switch, n_D2, n_D3)
    if multi:
        out, calls = repair_flexural(ss, c, cf, par, multipanel=Par, lampam_target=tgt, count_obj=True)
        check(calls >= 0, 'number of objective function calls')
    else:
        out = repair_flexural(ss, c, cf, par, lampam_target=tgt)
    check((ss == before).all(), 'lay-up modified')
    stage(ss, rule, sym, diso, delta, n_contig, angles, out, cf, tgt)
    idle = True
    for x in coeffs:
        idle = idle and x == 0
    if not switch or idle:
        check((out == ss).all(), 'refinement done although switched off')
    return 0


def stage(ss, rule, sym, diso, delta, n_contig, angles, out, cf, tgt):
    check(out.size == ss.size, 'ply count')
    for a in angles:
        check(count(out, a) == count(ss, a), 'not the same plies')
    n = ss.size
    if sym:
        for k in range(n // 2):
            check(out[k] == out[n - 1 - k], 'not symmetric')
        if n % 2:
            check(out[n // 2] == ss[n // 2], 'middle ply changed')
    for k in range({0: 0, 1: 1, 2: 2, 3: 2}[rule]):
        check(out[k] == ss[k] and out[n - 1 - k] == ss[n - 1 - k], 'outer ply for damage tolerance changed')
    check(rules(strip_outer(out, rule), diso, delta, n_contig), 'disorientation or contiguity broken')
    check(objective_D(out, angles, cf, tgt) <= objective_D(ss, angles, cf, tgt) + 1e-9, 'out-of-plane objective worse')


def p_stage(which, fixed, plies, sizes, core, mid, sym, rule, diso, delta, n_contig, angles, kind, coeffs, target, n_D2):
    """one of the steps of the refinement: swapped blocks, changed blocks"""
    ss = build(fixed, plies, sizes, core, mid, sym)
    if ss is None:
        return 0
    c = cons(kind, sym=sym, dam_tol=rule > 0, dam_tol_rule=rule if rule else 1, diso=diso, delta_angle=delta,
             contig=n_contig > 0, n_contig=n_contig if n_contig else 4, set_of_angles=angles)
    ok = dam_tol_ok(ss, rule) and rules(strip_outer(ss, rule), diso, delta, n_contig)
    if not ok:
        return 0
    tgt = np.array((0.,) * 8 + target)
    cf = np.array(coeffs)
    before = np.copy(ss)
    if which == 1:
        out = repair_flexural_1(ss, cf, tgt, c)
    elif which == 2:
        out = repair_flexural_2(ss, cf, tgt, c, Par(True, n_D2, 1))
    else:
        out = repair_flexural_3(ss, cf, tgt, c, Par(True, n_D2, 1))
    check((ss == before).all(), 'lay-up modified')
    stage(ss, rule, sym, diso, delta, n_contig, angles, out, cf, tgt)
    return 0


def p_delta(ss, i, j, n, sym, angles, kind):
    """out-of-plane lamination parameters after exchanging groups of n plies"""
    c = cons(kind, sym=sym, set_of_angles=angles)
    ss = lay_up(ss, None, sym)
    for k in range(n):
        if ss[i + k] != ss[i] or ss[j + k] != ss[j]:
            return 0
    s2 = np.copy(ss)
    for k in range(n):
        s2[i + k] = ss[j]
        s2[j + k] = ss[i]
        if sym:
            s2[ss.size - 1 - i - k] = ss[j]
            s2[ss.size - 1 - j - k] = ss[i]
    d = calc_delta_lampamD_swap_1(ss[i], ss[j], i + 1, j + 1, n, ss.size, c)
    u = np.array([0., 0., 0., 0.])
    for q in range(4):
        x = 0
        for a in angles:
            f = TRIG[q](math.radians(a))
            w = 0
            for k in range(ss.size):
                m = (2 * (k + 1) - ss.size) ** 3 - (2 * k - ss.size) ** 3
                w = w + (m if s2[k] == a else 0) - (m if ss[k] == a else 0)
            x = x + f * w
        check(close(d[q], x / (2 * ss.size ** 3), 1e-9), 'variation of the lamination parameters')
    return 0
