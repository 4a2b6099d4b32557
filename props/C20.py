"""Buckling factors of simply-supported plates"""
import math
import numpy as np
from vh import check, assume, raises, close
from src.BELLA.materials import Material
from src.buckling.buckling import (buckling_margin, buckling_factor_ss, buckling_factor,
                                   buckling_factor_m_n)


class Mat:
    def __init__(self, u, t):
        self.U1, self.U2, self.U3, self.U4, self.U5 = u[0], u[1], u[2], u[3], u[4]
        self.ply_t = t


def formula(D, m, n, a, b, N_x, N_y):
    """closed form, multiplied by its denominator"""
    x, y = (m / a) ** 2, (n / b) ** 2
    num = math.pi ** 2 * (D[0] * x * x + 2 * (D[1] + 2 * D[3]) * x * y + D[2] * y * y)
    return num, x * abs(N_x) + y * abs(N_y)


def bending(u, h, xi1, xi2):
    """D11, D12, D22, D66 of a laminate of thickness h"""
    f = h * h * h / 12
    return [f * (u[0] + u[1] * xi1 + u[2] * xi2), f * (u[3] - u[2] * xi2),
            f * (u[0] - u[1] * xi1 + u[2] * xi2), f * (u[4] - u[2] * xi2)]


def p_mode(d11, d12, d22, d66, m, n, a, b, N_x, N_y):
    r = buckling_factor_m_n(d11, d12, d22, d66, mode_m=m, mode_n=n, N_x=N_x, N_y=N_y, length_x=a, length_y=b)
    num, den = formula([d11, d12, d22, d66], m, n, a, b, N_x, N_y)
    check(close(r * den, num, 1e-6), 'factor of one mode')
    # the sense of the loads does not matter, and they scale the factor
    s = buckling_factor_m_n(d11, d12, d22, d66, mode_m=m, mode_n=n, N_x=-2 * N_x, N_y=2 * N_y, length_x=a, length_y=b)
    check(close(2 * s, r, 1e-6), 'twice the loads')
    # exchanging both directions changes nothing
    t = buckling_factor_m_n(d22, d12, d11, d66, mode_m=n, mode_n=m, N_x=N_y, N_y=N_x, length_x=b, length_y=a)
    check(close(t, r, 1e-6), 'exchanged directions')
    return 0


def p_loads(d, m, n, a, b, N_x, N_y):
    """any loads"""
    r = buckling_factor_m_n(d[0], d[1], d[2], d[3], mode_m=m, mode_n=n, N_x=N_x, N_y=N_y, length_x=a, length_y=b)
    num, den = formula(d, m, n, a, b, N_x, N_y)
    check(close(r * den, num, 1e-6), 'factor of one mode')
    check(r > 0, 'factor not positive')
    return 0


def p_factor(form, u, t, n_plies, xi1, xi2, other, a, b, N_x, N_y, modes):
    mat = Mat(u, t)
    if form == 12:
        lampam = np.array([other[0], other[1], other[2], other[3], other[0], other[1], other[2], other[3],
                           xi1, xi2, other[2], other[3]])
    else:
        lampam = np.array([xi1, xi2, other[2], other[3]])
    if modes:
        r = buckling_factor(lampam, mat, n_plies, N_x=N_x, N_y=N_y, length_x=a, length_y=b, n_modes=modes)
    else:
        r = buckling_factor(lampam, mat, n_plies, N_x, N_y, a, b)
    D = bending(u, n_plies * t, xi1, xi2)
    k = modes or 10
    reached = False
    for m in range(1, k + 1):
        for n in range(1, k + 1):
            num, den = formula(D, m, n, a, b, N_x, N_y)
            v = num / den
            check(r <= v + 1e-6, 'factor above that of a mode examined')
            reached = reached or r >= v - 1e-6
    check(reached, 'factor of no mode examined')
    return 0


def p_laws(xi1, xi2, a, b, N_x, N_y, n_plies, modes):
    mat = Material(E11=130, E22=9, nu12=0.3, G12=4, ply_t=0.125)
    z = np.zeros((12,), float)
    z[8], z[9] = xi1, xi2
    r = buckling_factor(z, mat, n_plies, N_x=N_x, N_y=N_y, length_x=a, length_y=b, n_modes=modes)
    check(r > 0 or xi2 * 1 > 1 or xi1 * xi1 > 1 or 2 * xi1 * xi1 > 1 + xi2, 'factor of a possible laminate not positive')
    check(close(buckling_factor(z[8:12], mat, n_plies, N_x=N_x, N_y=N_y, length_x=a, length_y=b, n_modes=modes), r, 1e-6),
          'out-of-plane lamination parameters alone')
    check(close(buckling_factor(z, mat, n_plies, N_x=-N_x / 2, N_y=-N_y / 2, length_x=a, length_y=b, n_modes=modes), 2 * r, 1e-6),
          'half the loads')
    check(close(buckling_factor(z, mat, 2 * n_plies, N_x=N_x, N_y=N_y, length_x=a, length_y=b, n_modes=modes), 8 * r, 1e-5),
          'twice the plies')
    check(close(buckling_factor(z, mat, n_plies, N_x=N_x, N_y=N_y, length_x=2 * a, length_y=2 * b, n_modes=modes), r / 4, 1e-6),
          'twice the lengths')
    y = np.zeros((12,), float)
    y[8], y[9] = -xi1, xi2
    check(close(buckling_factor(y, mat, n_plies, N_x=N_y, N_y=N_x, length_x=b, length_y=a, n_modes=modes), r, 1e-6),
          'turned by 90 degrees')
    if modes > 1:
        check(buckling_factor(z, mat, n_plies, N_x=N_x, N_y=N_y, length_x=a, length_y=b, n_modes=modes - 1) >= r - 1e-9,
              'fewer modes')
    return 0


def p_margin(f):
    m = buckling_margin(f)
    check((m > 0) == (f > 1), 'sign of the margin')
    check(close(m, 100 * f - 100, 1e-7), 'margin')
    return 0


def p_ss(ss, N_x, N_y, a, b, modes):
    """lay-ups: the bending stiffnesses follow from the plies"""
    mat = Material(E11=130, E22=9, nu12=0.3, G12=4, ply_t=0.125)
    r = buckling_factor_ss(ss, N_x, N_y, a, b, mat, n_modes=modes)
    n = ss.size
    xi1, xi2 = 0, 0
    for k in range(n):
        w = ((2 * (k + 1) / n - 1) ** 3 - (2 * k / n - 1) ** 3) / 2
        xi1 = xi1 + w * np.cos(np.deg2rad(2 * ss[k]))
        xi2 = xi2 + w * np.cos(np.deg2rad(4 * ss[k]))
    u = [mat.U1, mat.U2, mat.U3, mat.U4, mat.U5]
    D = bending(u, n * 0.125, xi1, xi2)
    reached = False
    for m in range(1, modes + 1):
        for q in range(1, modes + 1):
            num, den = formula(D, m, q, a, b, N_x, N_y)
            check(r <= num / den + 1e-6, 'factor above that of a mode examined')
            reached = reached or r >= num / den - 1e-6
    check(reached, 'factor of no mode examined')
    return 0
