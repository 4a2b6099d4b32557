"""Orthotropy penalties"""
import numpy as np
from vh import check, assume, raises, close
from src.BELLA.constraints import Constraints
from src.guidelines.ipo_oopo import (calc_penalty_ipo, calc_penalty_ipo_oopo_mp, calc_penalty_oopo_ss,
                                     calc_penalty_ipo_oopo_ss, ipo_param_1_12, ipo_param_1_6,
                                     ipo_param_7_12, calc_penalty_ipo_param)


class Thing:
    pass


def rules(ipo, oopo):
    c = Constraints(bal=ipo, oopo=oopo)
    c.ipo = ipo
    return c


def p_ipo(lampam, area):
    """in-plane orthotropy of a table of laminates"""
    r = calc_penalty_ipo(lampam, area)
    n = lampam.shape[0]
    check(r.shape == (n,), 'one penalty per panel')
    for k in range(n):
        e = (abs(lampam[k][2]) + abs(lampam[k][3])) / 2
        check(close(r[k], area * e), 'in-plane orthotropy penalty')
        check((r[k] == 0) == (lampam[k][2] == 0 and lampam[k][3] == 0), 'penalty zero exactly without shear-extension coupling')
        one = calc_penalty_ipo(lampam[k], cummul_areas=area)
        check(one == r[k], 'forms for one and several laminates')
        check(close(calc_penalty_ipo(lampam[k]), e), 'default area')
    return 0


def p_mp(ipo, oopo, switch, lampam, area, second, par):
    """panels of a structure"""
    c = rules(ipo, oopo)
    n = lampam.shape[0]
    a, d = calc_penalty_ipo_oopo_mp(lampam, c, penalty_ipo_switch=switch, parameters=Thing() if par else None,
                                    cummul_areas=area, cummul_sec_mom_areas=second)
    check(a.shape == (n,) and d.shape == (n,), 'one penalty per panel')
    for k in range(n):
        ea = area * (abs(lampam[k][2]) + abs(lampam[k][3])) / 2 if ipo and switch else 0
        ed = second * (abs(lampam[k][10]) + abs(lampam[k][11])) / 2 if oopo else 0
        check(close(a[k], ea), 'in-plane orthotropy penalty')
        check(close(d[k], ed), 'out-of-plane orthotropy penalty')
    return 0


def p_ss(ipo, oopo, switch, lampam, area, second):
    """laminates, one by one or in a table (LAYLA)"""
    c = rules(ipo, oopo)
    par = Thing()
    par.penalty_ipo_switch = switch
    n = lampam.shape[0]
    a, d = calc_penalty_ipo_oopo_ss(lampam, constraints=c, parameters=par, cummul_areas=area, cummul_sec_mom_areas=second)
    check(a.shape == (n,) and d.shape == (n,), 'one penalty per laminate')
    for k in range(n):
        ea = area * (abs(lampam[k][2]) + abs(lampam[k][3])) / 2 if ipo and switch else 0
        ed = second * (abs(lampam[k][10]) + abs(lampam[k][11])) / 2 if oopo else 0
        check(close(a[k], ea), 'in-plane orthotropy penalty')
        check(close(d[k], ed), 'out-of-plane orthotropy penalty')
        a1, d1 = calc_penalty_ipo_oopo_ss(lampam[k], constraints=c, parameters=par, cummul_areas=area, cummul_sec_mom_areas=second)
        check(a1 == a[k] and d1 == d[k], 'forms for one and several laminates')
    a1, d1 = calc_penalty_ipo_oopo_ss(lampam[0], constraints=c)
    check(close(a1, (abs(lampam[0][2]) + abs(lampam[0][3])) / 2 if ipo else 0), 'default in-plane orthotropy penalty')
    check(close(d1, (abs(lampam[0][10]) + abs(lampam[0][11])) / 2 if oopo else 0), 'default out-of-plane orthotropy penalty')
    return 0


def p_oopo(oopo, lampam, second, form):
    """out-of-plane orthotropy: table, list or one laminate"""
    c = rules(False, oopo)
    n = lampam.shape[0]
    if form == 'list':
        r = calc_penalty_oopo_ss([lampam[k] for k in range(n)], c, second)
    else:
        r = calc_penalty_oopo_ss(lampam, c, cummul_sec_mom_areas=second)
    check(r.shape == (n,), 'one penalty per laminate')
    for k in range(n):
        e = second * (abs(lampam[k][10]) + abs(lampam[k][11])) / 2 if oopo else 0
        check(close(r[k], e), 'out-of-plane orthotropy penalty')
        check((r[k] == 0) == (not oopo or lampam[k][10] == 0 and lampam[k][11] == 0),
              'penalty zero exactly without bend-twist coupling')
        check(calc_penalty_oopo_ss(lampam[k], c, second) == r[k], 'forms for one and several laminates')
    return 0


def material(u):
    m = Thing()
    m.U1, m.U2, m.U3, m.U4, m.U5 = u
    return m


def stiffness(u, x):
    return [[u[0] + u[1] * x[0] + u[2] * x[1], u[3] - u[2] * x[1], u[1] * x[2] / 2 + u[2] * x[3]],
            [u[3] - u[2] * x[1], u[0] - u[1] * x[0] + u[2] * x[1], u[1] * x[2] / 2 - u[2] * x[3]],
            [u[1] * x[2] / 2 + u[2] * x[3], u[1] * x[2] / 2 - u[2] * x[3], u[4] - u[2] * x[1]]]


def p_param(u, lampam, sym):
    """ratios of coupling to extensional stiffnesses"""
    m = material(u)
    lampam = np.array(lampam)
    A = stiffness(u, lampam[0:4])
    r = ipo_param_1_6(lampam, m, sym)
    check(r.shape == (6,), 'six parameters')
    # parameter times stiffness is the coupling
    den = [A[0][0], A[0][1], A[2][2], A[0][1], A[1][1], A[2][2]]
    for k in range(6):
        num = A[0][2] if k < 3 else A[1][2]
        check(r[k] >= 0, 'negative parameter')
        check(close(r[k] * abs(den[k]), abs(num), 1e-7), 'in-plane orthotropy parameter')
    check((max(r) == 0) == (A[0][2] == 0 and A[1][2] == 0), 'parameters zero exactly without shear-extension coupling')
    check(close(calc_penalty_ipo_param(r, 0.1) * 6, max(r), 1e-7), 'penalty of the parameters')
    return 0


def p_compliance(u, lampam, sym):
    """ratios of the compliances, and both halves together"""
    m = material(u)
    lampam = np.array(lampam)
    A = np.array(stiffness(u, lampam[0:4]))
    if not sym:
        B = np.array(stiffness((0, u[1], u[2], 0, 0), lampam[4:8])) / 4
        D = np.array(stiffness(u, lampam[8:12])) / 12
        A = A - B @ np.linalg.inv(D) @ B
    r = ipo_param_7_12(lampam, m, sym)
    check(r.shape == (6,), 'six parameters')
    # cofactors: compliances up to the determinant
    c11 = A[1, 1] * A[2, 2] - A[1, 2] ** 2
    c22 = A[0, 0] * A[2, 2] - A[0, 2] ** 2
    c66 = A[0, 0] * A[1, 1] - A[0, 1] ** 2
    c12 = A[0, 2] * A[1, 2] - A[0, 1] * A[2, 2]
    c16 = A[0, 1] * A[1, 2] - A[1, 1] * A[0, 2]
    c26 = A[0, 1] * A[0, 2] - A[0, 0] * A[1, 2]
    den = [c11, c12, c66, c12, c22, c66]
    for k in range(6):
        num = c16 if k < 3 else c26
        check(close(r[k] * abs(den[k]), abs(num), 1e-5), 'in-plane orthotropy parameter of the compliances')
    both = ipo_param_1_12(lampam, m, sym)
    one = ipo_param_1_6(lampam, m, sym)
    check(both.shape == (12,), 'twelve parameters')
    for k in range(6):
        check(close(both[k], one[k]) and close(both[6 + k], r[k]), 'the twelve parameters are both halves')
    check(close(calc_penalty_ipo_param(both, 0.1) * 12, max(both), 1e-7), 'penalty of the parameters')
    return 0
