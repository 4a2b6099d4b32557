"""Contributions of the plies to the lamination parameters"""
import numpy as np
import numpy.matlib
from vh import check, assume, raises, close
from hlib import cons
from src.BELLA.lampam_matrix import calc_delta_lampams, calc_delta_lampams2
from src.BELLA.moments_of_areas import calc_mom_of_areas as bella_mom, calc_mom_of_areas2
from src.BELLA.ply_order import calc_ply_order as bella_order
from src.LAYLA_V02.moment_of_areas import calc_mom_of_areas as layla_mom
from src.LAYLA_V02.ply_order import calc_ply_order as layla_order
from src.RELAY.repair_10_bal import calc_lampamA_options_1, calc_lampamA_options_3, calc_lampamA_ply_queue
from src.RELAY.repair_flexural_tools import calc_delta_lampamD_swap, calc_delta_lampamD_swap_1


class Obj:
    pass


def structure(counts):
    mp = Obj()
    mp.reduced = Obj()
    mp.reduced.n_panels = len(counts)
    mp.reduced.panels = []
    for k in range(len(counts)):
        p = Obj()
        p.n_plies = counts[k]
        p.middle_ply_index = (counts[k] + 1) // 2 if counts[k] % 2 else 0
        mp.reduced.panels.append(p)
    return mp


def share(k, n, order):
    """contribution of ply k of n to the lamination parameters of an order
    (1: in-plane, 2: coupling, 3: out-of-plane) is this times cos/sin"""
    return ((2 * (k + 1) / n - 1) ** order - (2 * k / n - 1) ** order) / 2


def trig(angle):
    a = np.deg2rad(angle)
    return [np.cos(2 * a), np.cos(4 * a), np.sin(2 * a), np.sin(4 * a)]


def classical(ss, order):
    n = len(ss)
    r = [0, 0, 0, 0]
    for k in range(n):
        t = trig(ss[k])
        for q in range(4):
            r[q] = r[q] + share(k, n, order) * t[q]
    return r


def p_ply(counts, angles, sym, table):
    """contribution of every ply at every angle, whatever cos/sin of the angles"""
    c = cons('BELLA', sym=sym, set_of_angles=angles)
    c.cos_sin = table.reshape(c.cos_sin.shape)
    mp = structure(counts)
    order = bella_order(mp, c)
    plus, mom = bella_mom(mp, c, order)
    d = calc_delta_lampams(mp, c, mom, order)
    check(len(d) == len(counts), 'one table per panel')
    for j in range(len(counts)):
        n = counts[j]
        m = (n + 1) // 2 if sym else n
        check(d[j].shape == (m, len(angles), 12), 'one contribution per ply to design and angle')
        for k in range(m):
            i = order[j][k]
            for a in range(len(c.set_of_angles)):
                for q in range(12):
                    e = share(i, n, q // 4 + 1) * table[a, q % 4]
                    if sym:
                        # both sides of the laminate, the middle ply once
                        e = 0 if q // 4 == 1 else e if 2 * i + 1 == n else 2 * e
                    check(close(d[j][k, a, q], e), 'contribution of a ply')
    return 0


def p_trig(angles, kind, k):
    """the cos/sin of the angles themselves"""
    c = cons(kind, set_of_angles=angles)
    t = trig(c.set_of_angles[k])
    u = c.cos_sin[c.ind_angles_dict[c.set_of_angles[k]]].reshape((4,))
    for q in range(4):
        check(close(u[q], t[q]), 'cosines and sines of an angle')
    return 0


def p_layup(n, ss, sym):
    """every lay-up (half of it when symmetric): the contributions add up"""
    full = list(ss) + list(ss[:n // 2])[::-1] if sym else list(ss)
    for kind in ('BELLA', 'LAYLA'):
        c = cons(kind, sym=sym, set_of_angles=(-45, 0, 45, 90))
        got = np.zeros((12,), float)
        if kind == 'BELLA':
            mp = structure([n])
            order = bella_order(mp, c)
            plus, mom = bella_mom(mp, c, order)
            d = calc_delta_lampams(mp, c, mom, order)[0]
            for k in range(len(order[0])):
                got = got + d[k, c.ind_angles_dict[full[order[0][k]]]]
        else:
            t = Obj()
            t.n_plies = n
            order = layla_order(c, t)
            mom, cum, group = layla_mom(c, t, order, np.array([len(order)]))
            for k in range(len(order)):
                cs = c.cos_sin[c.ind_angles_dict[full[order[k]]]].reshape((4,))
                got[0:4] = got[0:4] + mom[k, 0] * cs
                got[4:8] = got[4:8] + (0 if sym else mom[k, 1]) * cs
                got[8:12] = got[8:12] + mom[k, 2] * cs
        for q in range(3):
            e = classical(full, q + 1)
            for j in range(4):
                check(close(got[4 * q + j], e[j]), 'lamination parameters of the lay-up')
    return 0


def weight(k, n, q):
    """area, first and second moment (absolute values) of ply k of n"""
    bot, top = 2 * k / n - 1, 2 * (k + 1) / n - 1
    if bot * top >= 0:
        return abs(top ** (q + 1) - bot ** (q + 1)) / 2
    return (abs(top ** (q + 1)) + abs(bot ** (q + 1))) / 2


def p_moments(counts, sym):
    c = cons('BELLA', sym=sym)
    mp = structure(counts)
    order = bella_order(mp, c)
    plus, mom = bella_mom(mp, c, order)
    check(len(plus) == len(counts) and len(mom) == len(counts), 'one table per panel')
    for j in range(len(counts)):
        n = counts[j]
        m = len(order[j])
        check(plus[j].shape == (m, 3) and mom[j].shape == (m, 3), 'three moments per ply to design')
        for q in range(3):
            s = 0
            for k in range(m):
                i = order[j][k]
                e = weight(i, n, q) * (2 if sym and 2 * i + 1 != n else 1)
                check(close(plus[j][k, q], e), 'moment of area of a ply')
                check(plus[j][k, q] >= 0, 'negative moment of area')
                s = s + plus[j][k, q]
            check(close(s, 1), 'total of the moments of areas')
    return 0


def p_layla_moments(n, sizes, sym):
    """sizes: plies of each group"""
    c = cons('LAYLA', sym=sym)
    t = Obj()
    t.n_plies = n
    order = layla_order(c, t)
    m = len(order)
    mom, cum, group = layla_mom(c, t, order, sizes)
    check(mom.shape == (m, 3) and cum.shape == (m, 3) and group.shape == (sizes.size, 3), 'sizes')
    for q in range(3):
        s = 0
        for k in range(m):
            i = order[k]
            s = s + weight(i, n, q) * (2 if sym and 2 * i + 1 != n else 1)
            check(close(cum[k, q], s), 'cumulated moment of area')
        check(close(s, 1), 'total of the moments of areas')
        k = 0
        for g in range(sizes.size):
            e = 0
            for a in range(m):
                if k <= a and a < k + sizes[g]:
                    i = order[a]
                    e = e + weight(i, n, q) * (2 if sym and 2 * i + 1 != n else 1)
            k = k + sizes[g]
            check(close(group[g, q], e), 'moment of area of a group')
    return 0


def p_pdl(counts, pdl, sym):
    """plies of a structure with ply drops (-1)"""
    c = cons('BELLA', sym=sym, set_of_angles=(0, 45, -45, 90))
    mp = structure(counts)
    order = bella_order(mp, c)
    m = pdl.shape[1]
    kept = []
    for j in range(len(counts)):
        s = 0
        for k in range(m):
            s = s + (1 if pdl[j, k] != -1 else 0)
        assume(s == len(order[j]))
    plus, mom = bella_mom(mp, c, order)
    d = calc_delta_lampams(mp, c, mom, order)
    mat = calc_delta_lampams2(mp, c, d, pdl, m)
    areas = calc_mom_of_areas2(mp, c, plus, pdl, m)
    check(mat.shape == (len(counts), 4, m, 12), 'one contribution per panel, angle and ply')
    for j in range(len(counts)):
        r = 0
        tot = [0, 0, 0]
        for k in range(m):
            if pdl[j, k] != -1:
                for a in range(4):
                    for q in (0, 1, 2, 5, 8, 9):
                        check(close(mat[j, a, k, q], d[j][r, a, q]), 'contribution of a ply of a panel')
                tot = [tot[q] + plus[j][r, q] for q in range(3)]
                r = r + 1
            else:
                for a in range(4):
                    for q in (0, 1, 2, 5, 8, 9):
                        check(mat[j, a, k, q] == 0, 'contribution of a dropped ply')
            for q in range(3):
                check(close(areas[q][j, k], tot[q]), 'cumulated moment of area of a panel')
    return 0


def p_options(n, angles, sym):
    """changes of in-plane lamination parameters when a ply (a +/- pair) is added"""
    for kind in ('BELLA', 'LAYLA'):
        c = cons(kind, sym=sym, set_of_angles=angles)
        f = 2 / n if sym else 1 / n
        one = calc_lampamA_options_3(n, c)
        check(one.shape == (len(angles), 4), 'one change per angle')
        for k in range(len(c.set_of_angles)):
            t = trig(c.set_of_angles[k])
            for q in range(4):
                check(close(one[k, q], f * t[q]), 'change for a ply')
        two = calc_lampamA_options_1(n, c)
        check(two.shape == (len(c.pos_angles), 4), 'one change per pair of angles')
        for k in range(len(c.pos_angles)):
            t = trig(c.pos_angles[k])
            u = trig(-c.pos_angles[k])
            for q in range(4):
                check(close(two[k, q], f * (t[q] + u[q])), 'change for a pair of plies')
    return 0


def p_queue(n, ss, queue, sym):
    """in-plane lamination parameters of a partial lay-up (666: no ply yet) and
    its queue of plies; ss: half of the lay-up when symmetric"""
    c = cons('LAYLA', sym=sym, set_of_angles=(-45, 0, 45, 90))
    full = np.array(list(ss) + list(ss[:n // 2])[::-1]) if sym else np.array(ss)
    missing = 0
    for k in range(n):
        missing = missing + (1 if full[k] == 666 else 0)
    assume(missing == len(queue) * (2 if sym else 1))
    if sym and n % 2:
        assume(full[n // 2] != 666)
    r = calc_lampamA_ply_queue(full, n, queue, c)
    e = [0, 0, 0, 0]
    for k in range(n):
        if full[k] != 666:
            t = trig(full[k])
            e = [e[q] + t[q] / n for q in range(4)]
    for a in queue:
        t = trig(a)
        e = [e[q] + t[q] / n * (2 if sym else 1) for q in range(4)]
    for q in range(4):
        check(close(r[q], e[q]), 'in-plane lamination parameters')
    return 0


def p_swap(n, a1, a2, p1, p2, size, sym, form):
    """swap of two groups of plies of the same size (positions from 1)"""
    c = cons('LAYLA', sym=sym, set_of_angles=(-60, -45, 0, 45, 60, 90))
    half = n // 2 if sym else n
    assume(p1 + size - 1 <= half and p2 + size - 1 <= half and (p1 + size <= p2 or p2 + size <= p1))
    if form == 'blocks':
        r = calc_delta_lampamD_swap_1(a1, a2, p1, p2, size, n, c)
    else:
        r = calc_delta_lampamD_swap(a1, a2, p1 + np.arange(size), p2 + np.arange(size), n, c)
    e = 0
    for k in range(size):
        e = e + (share(p2 - 1 + k, n, 3) - share(p1 - 1 + k, n, 3)) * (2 if sym else 1)
    t, u = trig(a1), trig(a2)
    check(r.shape == (4,), 'four lamination parameters')
    for q in range(4):
        check(close(r[q], e * (t[q] - u[q])), 'change of the out-of-plane lamination parameters')
    return 0
