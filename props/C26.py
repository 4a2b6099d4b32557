"""Complete repair of a laminate"""
import numpy as np
from vh import check, assume, raises, close
from hlib import cons, count, strip_outer, bad_pairs, contig_ok, dam_tol_ok, balanced, required, ten_ok, mk10, lay_up
from src.guidelines.one_stack import check_lay_up_rules
from src.CLA.lampam_functions import calc_lampam
from src.RELAY.repair_ss import repair_ss


class Par:
    def __init__(self, p_A, n_D1, n_D2, n_D3, membrane, flexural, coeffs):
        self.p_A = p_A
        self.n_D1 = n_D1
        self.n_D2 = n_D2
        self.n_D3 = n_D3
        self.repair_membrane_switch = membrane
        self.repair_flexural_switch = flexural
        self.weighting_finalA = np.array(coeffs[0:4])
        self.weighting_finalD = np.array(coeffs[8:12])
        self.lampam_weightings_final = np.array(coeffs)
        self.type_obj_func = 2


def objective(lampam, target, coeffs):
    r = 0
    for i in range(12):
        d = lampam[i] - target[i]
        r = r + coeffs[i] * d * d
    return r


def accepted(s, rule, bal, ten, P, kind, diso, delta, n_contig, angles):
    """the rules in force, the outermost plies exempted from disorientation
    and contiguity when two plies are fixed for damage tolerance"""
    r = dam_tol_ok(s, rule)
    if bal:
        r = r and balanced(s, angles)
    if ten:
        r = r and ten_ok(s, required(kind, P))
    t = strip_outer(s, rule)
    if diso:
        r = r and bad_pairs(t, delta) == 0
    if n_contig:
        r = r and contig_ok(t, n_contig)
    return r


def p_repair(fixed, plies, mid, sym, P, bal, ten, rule, diso, delta, n_contig, angles, kind, par, coeffs, target, form):
    ss = lay_up(np.hstack((np.array(fixed, int), plies)), mid, sym)
    if not dam_tol_ok(ss, rule):
        return 0
    n = ss.size
    c = mk10(P, bal, ten, sym, rule, angles, kind, diso=diso, delta_angle=delta, contig=n_contig > 0,
             n_contig=n_contig if n_contig else 4)
    before = np.copy(ss)
    p = Par(*par, coeffs)
    tgt = np.array(target)
    if form == 0:
        out, done = repair_ss(ss, c, p, tgt)
    elif form == 1:
        out, done, calls = repair_ss(ss, c, p, tgt, count_obj=True)
        check(calls >= 0, 'number of objective function calls')
    elif form == 2:
        out, done, obj = repair_ss(ss, c, p, tgt, 0.5)
    else:
        out, done, obj, calls = repair_ss(ss, c, p, tgt, 0.5, True)
        check(calls >= 0, 'number of objective function calls')
    check((ss == before).all(), 'lay-up modified')
    check(done == True or done == False, 'no verdict')
    check(out.size == n, 'ply count')
    if not done:
        check((out == before).all(), 'failure reported with another lay-up')
        return 0
    if sym:
        for k in range(n // 2):
            check(out[k] == out[n - 1 - k], 'not symmetric')
    ok = accepted(out, rule, bal, ten, P, kind, diso, delta, n_contig, angles)
    check(ok, 'success reported for a lay-up breaking a rule')
    check_lay_up_rules(out, c, n_plies=n)
    if form >= 2:
        check(close(obj, objective(calc_lampam(out, c), tgt, p.lampam_weightings_final)), 'objective of the repaired lay-up')
    if rule == 0 and not p.repair_membrane_switch and not p.repair_flexural_switch:
        if accepted(before, rule, bal, ten, P, kind, diso, delta, n_contig, angles) and not sym:
            check((out == before).all(), 'compliant lay-up changed')
    return 0
