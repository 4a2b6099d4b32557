import numpy as np
from vh import check, assume, raises, close
from hlib import cons
from src.BELLA.panels import Panel
from src.BELLA.multipanels import MultiPanel
from src.BELLA.divide_panels import divide_panels, forbidden_ply_counts
from src.LAYLA_V02.divide_laminate_sym import divide_laminate_sym
from src.LAYLA_V02.divide_laminate_asym import divide_laminate_asym


class Obj:
    pass


def divisible(n, gmin, gmax):
    """smallest number of groups of gmin to gmax plies holding n plies"""
    for k in range(1, n + 1):
        if k * gmin <= n and n <= k * gmax:
            return k
    return 0


def positions(sizes, sym, start):
    """first ply of each group: from the surface inwards, alternately from
    both surfaces for laminates that are not symmetric"""
    pos = []
    bottom, top = start, start + sum(sizes)
    for i, s in enumerate(sizes):
        if sym or i % 2 == 0:
            pos.append(bottom)
            bottom = bottom + s
        else:
            top = top - s
            pos.append(top)
    return pos


def p_laminate(n_plies, gmin, extra, step, sym):
    gmax = gmin + extra
    par, tar = Obj(), Obj()
    par.group_size_min = gmin
    par.group_size_max = np.array([gmax, 99]) if step == 0 else np.array([99, gmax])
    tar.n_plies = n_plies
    f = divide_laminate_sym if sym else divide_laminate_asym
    n = n_plies // 2 if sym else n_plies
    k = divisible(n, gmin, gmax)
    e = raises(f, par, tar, step=step)
    check((e == '') == (k > 0), 'partition found')
    assume(k > 0)
    sizes, pos, n_groups = f(par, tar, step=step)
    check(n_groups == k and len(sizes) == k and len(pos) == k, 'number of groups')
    s = [int(x) for x in sizes]
    if sym and n_plies % 2 == 1:
        s[k - 1] = s[k - 1] - 1
    check(sum(s) == n, 'plies lost or added')
    for i in range(k):
        check(gmin <= s[i] and s[i] <= gmax, 'group size')
        if i > 0:
            check(s[i] >= s[i - 1], 'larger groups are the inner ones')
    q = positions(s, sym, 0)
    for i in range(k):
        check(pos[i] == q[i], 'position of a group')
    return n_groups


def p_structure(a, b, gmin, gmax, cov, sym):
    c = cons('BELLA', sym=sym)
    c.n_covering = cov
    assume(a > 2 * cov and b >= 2 * cov and a > b)
    if sym:
        assume(not (a % 2 == 0 and b % 2 == 1))
    panels = [Panel(ID=1, constraints=c, n_plies=a, neighbour_panels=[2]), Panel(ID=2, constraints=c, n_plies=b)]
    mp = MultiPanel(panels)
    mp.from_mp_to_blending_strip(c)
    par = Obj()
    par.group_size_min, par.group_size_max = gmin, gmax
    n = (a - 2 * cov) // 2 if sym else a - 2 * cov
    m = (b - 2 * cov) // 2 if sym else b - 2 * cov
    assume(n >= 1)
    k = divisible(n, gmin, gmax)
    e = raises(divide_panels, mp, par, c)
    check((e == '') == (k > 0), 'partition found')
    assume(k > 0)
    r = mp.reduced
    check(r.n_groups == k and len(r.n_plies_per_group) == k, 'number of groups')
    s = [int(x) for x in r.n_plies_per_group]
    check(sum(s) == n, 'plies lost or added')
    for i in range(k):
        check(gmin <= s[i] and s[i] <= gmax, 'group size')
        if i > 0:
            check(s[i] >= s[i - 1], 'larger groups are the inner ones')
    thin, thick = r.panels[0], r.panels[1]
    t = [int(x) for x in thin.n_plies_per_group]
    check(sum(t) == m, 'plies lost or added in the thinner panel')
    tot = 0
    for i in range(k):
        check(0 <= t[i] and t[i] <= s[i], 'plies dropped in a group')
        check(thin.n_ply_drops[i] == s[i] - t[i], 'number of drops')
        check(thick.n_plies_per_group[i] == s[i] and thick.n_ply_drops[i] == 0, 'thickest panel')
        d = mp.calc_ply_drops(i)
        check(d[0] == s[i] - t[i] and d[1] == 0, 'drops of a group')
    q, w = positions(s, sym, cov), positions(t, sym, cov)
    for i in range(k):
        check(r.n_first_plies[i] == q[i] and thick.n_first_plies[i] == q[i], 'position of a group')
        check(thin.n_first_plies[i] == w[i], 'position of a group of the thinner panel')
    return k


def p_forbidden(gmin, extra, lo, num, cov, sym):
    c = Obj()
    c.n_plies_min, c.n_plies_max, c.sym, c.n_covering = lo, lo + num, sym, cov
    par = Obj()
    par.group_size_min, par.group_size_max = gmin, gmin + extra
    r = [int(x) for x in forbidden_ply_counts(c, par)]
    exp = []
    for n in range(lo, lo + num + 1):
        h = (n - 2 * cov) // 2 if sym else n - 2 * cov
        if divisible(h, gmin, gmin + extra) == 0:
            exp.append(n)
    check(r == exp, 'ply counts that cannot be divided')
    return r
