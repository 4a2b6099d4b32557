"""Ply-drop layouts"""
import numpy as np
import numpy.matlib
from vh import check, assume, raises, set_env
from hlib import cons
from src.BELLA.panels import Panel
from src.BELLA.multipanels import MultiPanel
from src.BELLA.parameters import Parameters
from src.BELLA.divide_panels import divide_panels
from src.BELLA.pdl_group import randomly_pdl_guide
from src.BELLA.pdl_ini import create_initial_pdl, create_initial_pdls, check_pdls_ini
from src.BELLA.pdl_tools import (format_ply_drops, format_ply_drops2, ply_drops_at_each_boundaries,
                                 ply_drops_rules, input_pdl_from_sst)
from src.guidelines.ply_drop_spacing import calc_penalty_spacing


class Obj:
    pass


class World:
    """random draws and clock: no time passes before reading number `expire` of
    the clock, more than the time limits between each of the later ones"""

    def __init__(self, draws, expire):
        self.draws = draws
        self.expire = expire
        self.pos = 0
        self.reads = 0

    def sample(self, population, k):
        pop = list(population)
        k = int(k)
        if k < 0 or k > len(pop):
            raise ValueError('Sample larger than population or is negative')
        assume(self.pos + k <= self.draws.size)
        idx = self.draws[self.pos:self.pos + k]
        self.pos = self.pos + k
        for i in range(k):
            assume(idx[i] < len(pop))
            for j in range(i):
                assume(idx[i] != idx[j])
        return [pop[i] for i in idx]

    def clock(self):
        self.reads = self.reads + 1
        return 1000.0 * max(0, self.reads - self.expire)


class Timed(World):
    """the clock reading number i comes a moment (0), longer than the time limit
    of one group (1) or longer than all time limits (2) after the previous one"""

    def __init__(self, draws, ticks):
        self.draws = draws
        self.ticks = ticks
        self.pos = 0
        self.reads = 0
        self.now = 0.0

    def clock(self):
        i = self.reads
        self.reads = i + 1
        t = 2
        if i < self.ticks.size:
            t = self.ticks[i]
        if t == 1:
            self.now = self.now + 10.0
        elif t == 2:
            self.now = self.now + 1000.0
        return self.now


def start(draws, expire):
    w = World(draws, expire)
    set_env(sample=w.sample, clock=w.clock)
    return w


def strip(n_panels, weights=None):
    mp = Obj()
    mp.reduced = Obj()
    mp.n_panels = n_panels
    mp.reduced.n_panels = n_panels
    mp.reduced.boundaries = np.array([[k, k + 1] for k in range(n_panels - 1)]).reshape((n_panels - 1, 2))
    mp.reduced.boundary_weights = {(k, k + 1): 1 for k in range(n_panels - 1)}
    return mp


def layout_ok(pdl, counts, first):
    """each panel has its ply count, plies numbered from `first`, a thinner
    panel keeps plies of the thicker ones only (panels by increasing counts)"""
    n_panels, n = pdl.shape
    check(n_panels == len(counts), 'number of panels')
    for p in range(n_panels):
        num = first
        for k in range(n):
            if pdl[p, k] != -1:
                check(pdl[p, k] == num, 'ply numbers')
                num = num + 1
        check(num - first == counts[p], 'ply count of a panel')
    for p in range(n_panels - 1):
        for k in range(n):
            check(not (pdl[p, k] != -1 and pdl[p + 1, k] == -1), 'ply of a thin panel missing in a thicker one')


def same(a, b):
    """same plies dropped"""
    return ((a == -1) == (b == -1)).all()


def group_args(drops, n_max, min_drop, spacing, sym, n_pdl_max, top, bottom, last, middle, before, after):
    c = cons('BELLA', sym=sym, pdl_spacing=spacing, min_drop=min_drop)
    par = Parameters(c)
    par.time_limit_group_pdl = 10
    mp = strip(len(drops))
    kw = dict(boundaries=mp.reduced.boundaries, n_ply_drops=np.array(drops, dtype='int16'), n_max=n_max,
              parameters=par, obj_func_param=None, constraints=c, multipanel=mp, n_pdl_max=n_pdl_max,
              last_group=last, covering_top=top, covering_bottom=bottom)
    if before is not None:
        kw['pdl_before'] = np.array(before)
    if after is not None:
        kw['pdl_after'] = np.array(after)
    if middle is not None:
        kw['has_middle_ply'] = True
        kw['middle_ply_indices'] = np.array(middle)
    return c, mp, kw


def p_group(draws, expire, drops, n_max, min_drop, spacing, sym, n_pdl_max, top, bottom, last, middle,
            before, after):
    c, mp, kw = group_args(drops, n_max, min_drop, spacing, sym, n_pdl_max, top, bottom, last, middle,
                           before, after)
    start(draws, expire)
    r = randomly_pdl_guide(**kw)
    set_env()
    check(len(r) >= 1 and len(r) <= n_pdl_max, 'number of layouts')
    has_mid = last and middle is not None
    counts = [n_max - drops[p] + (1 if has_mid and middle[p] != 0 else 0) for p in range(len(drops))]
    for i in range(len(r)):
        x = r[i]
        layout_ok(x, counts, 0)
        for p in range(len(drops)):
            if top:
                check(x[p, 0] != -1, 'top ply dropped')
            if bottom:
                check(x[p, n_max - 1] != -1, 'bottom ply dropped')
            if has_mid:
                check((x[p, n_max] != -1) == (middle[p] != 0), 'middle ply')
        for j in range(i):
            check(not same(x, r[j]), 'layout returned twice')
    return 0


def candidate(draws, pos, drops, n_max):
    """layout made of one round of draws: positions dropped in the thinnest
    panel, then positions (in that list) kept in the next ones"""
    levels = sorted(set(drops))[::-1]
    cur = [draws[pos + i] for i in range(levels[0])]
    pos = pos + levels[0]
    lists = {levels[0]: cur}
    for a, b in zip(levels[:-1], levels[1:]):
        idx = [draws[pos + i] for i in range(a - b)]
        pos = pos + a - b
        gone = [False] * n_max
        for x in idx:
            gone[cur[x]] = True
        # membership by position
        lists[b] = (lists[a], gone)
        cur = [y for k, y in enumerate(cur) if all([k != x for x in idx])]
        lists[b] = cur
    out = np.zeros((len(drops), n_max), int)
    for p in range(len(drops)):
        for k in range(n_max):
            out[p, k] = -1 if any([k == y for y in lists[drops[p]]]) else 0
    for p in range(len(drops)):
        num = 0
        for k in range(n_max):
            if out[p, k] != -1:
                out[p, k] = num
                num = num + 1
    return out


def p_prefer(draws, expire, drops, n_max, min_drop, n_pdl_max):
    """layouts with lower penalties are preferred"""
    c, mp, kw = group_args(drops, n_max, min_drop, True, False, n_pdl_max, False, False, False, None, None, None)
    w = start(draws, expire)
    r = randomly_pdl_guide(**kw)
    set_env()
    per = 2 * max(drops) - min(drops)
    pens = [calc_penalty_spacing(pdl=x, multipanel=mp, constraints=c, on_blending_strip=True) for x in r]
    for i in range(len(r) - 1):
        check(pens[i] <= pens[i + 1], 'worse layout first')
    for t in range(draws.size // per):
        if t * per < w.pos:
            g = candidate(draws, t * per, drops, n_max)
            pen = calc_penalty_spacing(pdl=g, multipanel=mp, constraints=c, on_blending_strip=True)
            inside = False
            for x in r:
                inside = inside or same(x, g)
            check(inside or (len(r) > 0 and pen >= pens[-1]), 'better layout left out')
    return 0


def structure(plies, sym, n_covering, spacing, min_drop, gmin, gmax, n_ini):
    c = cons('BELLA', sym=sym, covering=n_covering > 0, n_covering=n_covering,
             pdl_spacing=spacing, min_drop=min_drop)
    par = Parameters(c, group_size_min=gmin, group_size_max=gmax, n_ini_ply_drops=n_ini)
    par.time_limit_group_pdl = 10
    par.time_limit_all_pdls = 10
    n = len(plies)
    panels = [Panel(ID=i + 1, constraints=c, n_plies=plies[i], neighbour_panels=[i + 2] if i + 1 < n else [])
              for i in range(n)]
    mp = MultiPanel(panels)
    mp.from_mp_to_blending_strip(c)
    divide_panels(mp, par, c)
    return c, par, mp


def whole_ok(pdl, plies, sym, n_covering):
    counts = sorted(set(plies))
    n = pdl.shape[1]
    check(n == max(plies), 'length of the layout')
    if not sym:
        layout_ok(pdl, counts, 1)
    else:
        layout_ok(pdl[:, :(n + 1) // 2], [(x + 1) // 2 for x in counts], 1)
        for p in range(len(counts)):
            for k in range(n // 2):
                check(pdl[p, k] == pdl[p, n - 1 - k], 'layout not symmetric')
            if n % 2 == 1:
                check((pdl[p, n // 2] != -1) == (counts[p] % 2 == 1), 'middle ply')
    for p in range(len(counts)):
        for k in range(n_covering):
            check(pdl[p, k] != -1 and pdl[p, n - 1 - k] != -1, 'covering ply dropped')


def p_create(draws, expire, plies, sym, n_covering, spacing, min_drop, gmin, gmax):
    """one layout of a whole structure"""
    c, par, mp = structure(plies, sym, n_covering, spacing, min_drop, gmin, gmax, 1)
    start(draws, expire)
    pdl = create_initial_pdl(mp, c, par, None)
    set_env()
    whole_ok(pdl, plies, sym, n_covering)
    check(raises(check_pdls_ini, mp, [pdl]) == '', 'layout rejected')
    return 0


def p_create_all(draws, expire, plies, sym, n_covering, spacing, min_drop, gmin, gmax, n_ini):
    """several distinct layouts"""
    c, par, mp = structure(plies, sym, n_covering, spacing, min_drop, gmin, gmax, n_ini)
    start(draws, expire)
    pdls = create_initial_pdls(mp, c, par, None)
    set_env()
    check(len(pdls) >= 1 and len(pdls) <= n_ini, 'number of layouts')
    pens = []
    for i in range(len(pdls)):
        whole_ok(pdls[i], plies, sym, n_covering)
        for j in range(i):
            check(not same(pdls[i], pdls[j]), 'layout returned twice')
        pens.append(calc_penalty_spacing(pdl=pdls[i], multipanel=mp, constraints=c, on_blending_strip=True))
    for i in range(len(pens) - 1):
        check(pens[i] <= pens[i + 1], 'worse layout first')
    return 0


def p_create_timed(draws, ticks, plies, sym, n_covering, min_drop, n_ini):
    """several distinct layouts, the best ones of those drawn, when groups time out on their own"""
    c, par, mp = structure(plies, sym, n_covering, True, min_drop, 1, 12, n_ini)
    par.time_limit_group_pdl = 5
    par.time_limit_all_pdls = 100
    w = Timed(draws, ticks)
    set_env(sample=w.sample, clock=w.clock)
    pdls = create_initial_pdls(mp, c, par, None)
    set_env()
    check(len(pdls) >= 1 and len(pdls) <= n_ini, 'number of layouts')
    pens = []
    for i in range(len(pdls)):
        whole_ok(pdls[i], plies, sym, n_covering)
        for j in range(i):
            check(not same(pdls[i], pdls[j]), 'layout returned twice')
        pens.append(calc_penalty_spacing(pdl=pdls[i], multipanel=mp, constraints=c, on_blending_strip=True))
    for i in range(len(pens) - 1):
        check(pens[i] <= pens[i + 1], 'worse layout first')
    return 0


def p_format(idx, n_max):
    """lists of dropped plies to a layout"""
    lists = [list(row) for row in idx]
    r = format_ply_drops(lists, n_max)
    check(r.shape == (len(lists), n_max), 'shape')
    for p in range(len(lists)):
        for k in range(n_max):
            gone = False
            for x in lists[p]:
                gone = gone or x == k
            check(r[p, k] == (-1 if gone else k), 'layout from lists of drops')
    t = format_ply_drops2(np.copy(r))
    for p in range(len(lists)):
        num = 0
        for k in range(n_max):
            if r[p, k] == -1:
                check(t[p, k] == -1, 'dropped ply')
            else:
                check(t[p, k] == num, 'ply numbers')
                num = num + 1
    return 0


def p_each(pdl, levels, which):
    """one layout per panel from one layout per number of drops"""
    u = np.array(levels)
    d = dict()
    for i, x in enumerate(levels):
        d[x] = i
    drops = u[which]
    r = ply_drops_at_each_boundaries(pdl, u, d, drops)
    check(r.shape == (len(which), pdl.shape[1]), 'shape')
    for p in range(len(which)):
        check((r[p] == pdl[which[p]]).all(), 'layout of a panel')
    return 0


def gaps_ok(row1, row2, min_drop):
    ok = True
    since = 1000
    for k in range(row1.size):
        a, b = row1[k] == -1, row2[k] == -1
        if a and b:
            continue
        if a or b:
            ok = ok and since >= min_drop
            since = 0
        else:
            since = since + 1
    return ok


def p_rules(drop, before, after, n_panels, min_drop, spacing):
    """layouts too close to the spacing rule are removed, the others kept in
    order; drop[i, k]: number of panels, thinnest first, without ply k"""
    n_pdl, n = drop.shape
    pdl = np.zeros((n_pdl, n_panels, n), int)
    for i in range(n_pdl):
        for p in range(n_panels):
            for k in range(n):
                pdl[i, p, k] = k if p >= drop[i, k] else -1
    side = []
    for x in (before, after):
        t = np.zeros((n_panels, len(x)), int)
        for p in range(n_panels):
            for k in range(len(x)):
                t[p, k] = k if p >= x[k] else -1
        side.append(t)
    bnd = [(k, k + 1) for k in range(n_panels - 1)]
    kw = dict()
    if len(before):
        kw['pdl_before'] = side[0]
    if len(after):
        kw['pdl_after'] = side[1]
    r = ply_drops_rules(pdl, min_drop, bnd, pdl_spacing=spacing, **kw)
    num = 0
    for i in range(n_pdl):
        ok = True
        if spacing:
            for a, b in bnd:
                ok = ok and gaps_ok(np.hstack((side[0][a], pdl[i, a], side[1][a])),
                                    np.hstack((side[0][b], pdl[i, b], side[1][b])), min_drop)
        if ok:
            check(num < len(r), 'layout removed')
            check((r[num] == pdl[i]).all(), 'layout removed')
            num = num + 1
    check(num == len(r), 'layout kept')
    return 0


def p_from_table(drop, plies, sym, n_covering):
    """layout recovered from a stacking sequence table (one line per ply count)"""
    c, par, mp = structure(plies, sym, n_covering, False, 2, 1, 12, 1)
    counts = sorted(set(plies))
    n = max(plies)
    m = len(counts)
    half = (n + 1) // 2 if sym else n
    sst = np.zeros((m, n), int)
    for p in range(m):
        num = 0
        for k in range(half):
            gone = p < drop[k]
            sst[p, k] = -1 if gone else 45
            num = num + (0 if gone else 1)
            if k < n_covering or (not sym and k >= n - n_covering):
                assume(not gone)
        if sym:
            for k in range(half, n):
                sst[p, k] = sst[p, n - 1 - k]
            num = 2 * num
            if n % 2 == 1:
                assume((sst[p, n // 2] != -1) == (counts[p] % 2 == 1))
                num = num - (1 if sst[p, n // 2] != -1 else 0)
        assume(num == counts[p])
    before = np.copy(sst)
    r = input_pdl_from_sst(sst, mp, c)
    check((sst == before).all(), 'table modified')
    check(same(r[0], sst), 'layout of a table')
    whole_ok(r[0], plies, sym, n_covering)
    return 0


def p_check_ini(pdl, plies, extra):
    """initial layouts with wrong sizes are rejected"""
    c, par, mp = structure(plies, False, 0, False, 2, 1, 12, 1)
    counts = sorted(set(plies))
    ok = pdl.shape[0] == len(counts)
    if ok:
        for p in range(len(counts)):
            num = 0
            for k in range(pdl.shape[1]):
                num = num + (1 if pdl[p, k] != -1 else 0)
            ok = ok and num == counts[p]
    good = np.array([[1 if k < x else -1 for k in range(max(counts))] for x in counts])
    r = raises(check_pdls_ini, mp, [good, pdl] if extra else [pdl])
    check((r == '') == ok, 'verdict on initial layouts')
    return r
