import numpy as np
from vh import check, assume, raises, close
from hlib import cons
from src.BELLA.panels import Panel
from src.BELLA.multipanels import MultiPanel
from src.guidelines.ply_drop_spacing import calc_penalty_spacing, calc_penalty_spacing_1ss, is_same_pdl


class Obj:
    pass


def missing(drops, present, min_drop):
    """(plies missing between consecutive drops, number of plies) of a
    boundary; drops: this ply is dropped there, present: one of its panels has it"""
    tot, num = 0, 0
    since, any_drop = 0, False
    for d, p in zip(drops, present):
        if not p:
            continue
        num = num + 1
        if d:
            if any_drop and since < min_drop:
                tot = tot + (min_drop - since)
            since = 0
            any_drop = True
        else:
            since = since + 1
    return tot, num


def p_one(ss, min_drop):
    before = np.copy(ss)
    drops = [x == -1 for x in ss]
    tot, num = missing(drops, [True] * ss.size, min_drop)
    p = calc_penalty_spacing_1ss(ss, min_drop)
    check(close(p * ss.size, tot), 'penalty of a boundary')
    check((p == 0) == (tot == 0), 'zero penalty')
    check((ss == before).all(), 'layout modified')
    return p


def layout(drop, sst, n_panels):
    """panel i of increasing thickness drops ply k when i < drop[k]"""
    t = np.zeros((n_panels, drop.size), int)
    for i in range(n_panels):
        for k in range(drop.size):
            t[i, k] = -1 if i < drop[k] else sst[k]
    return t


def expected(t, links, w, min_drop):
    p = 0.0
    for q, (a, b) in enumerate(links):
        da = [x == -1 for x in t[a]]
        db = [x == -1 for x in t[b]]
        # panel a is the thinner one
        tot, num = missing(da, [not x for x in db], min_drop)
        if num > 0:
            p = p + w[q] * tot / num
    return p


def p_strip(drop, sst, nb, na, links, w, min_drop, on):
    n = drop.size
    np_ = 1 + max([b for _, b in links])
    t = layout(drop, sst, np_)
    mp = Obj()
    mp.reduced = Obj()
    mp.reduced.n_panels = np_
    mp.reduced.boundaries = np.array(links)
    mp.reduced.boundary_weights = dict()
    for q, (a, b) in enumerate(links):
        mp.reduced.boundary_weights[(a, b)] = w[q]
    c = cons('BELLA', sym=False, pdl_spacing=True, min_drop=min_drop)
    c.pdl_spacing = on
    # each panel has a ply
    for i in range(np_):
        assume((t[i] != -1).any())
    t0 = np.copy(t)
    exp = expected(t, links, w, min_drop) if on else 0
    if nb == 0 and na == 0:
        p = calc_penalty_spacing(t, mp, c, on_blending_strip=True)
    elif na == 0:
        p = calc_penalty_spacing(t[:, nb:], mp, c, on_blending_strip=True, pdl_before=t[:, :nb])
    elif nb == 0:
        p = calc_penalty_spacing(t[:, :n - na], mp, c, on_blending_strip=True, pdl_after=t[:, n - na:])
    else:
        p = calc_penalty_spacing(t[:, nb:n - na], mp, c, on_blending_strip=True, pdl_before=t[:, :nb],
                                 pdl_after=t[:, n - na:])
    check(close(p, exp), 'penalty of a blending strip')
    check((p == 0) == (exp == 0), 'zero penalty')
    check((t == t0).all(), 'layout modified')
    # layouts not yet known are left out
    if nb == 0 and na == 0:
        part = [None] + [t[i] for i in range(1, np_)]
        p = calc_penalty_spacing(part, mp, c, on_blending_strip=True)
        sub = [q for q in range(len(links)) if links[q][0] != 0]
        exp = expected(t, [links[q] for q in sub], [w[q] for q in sub], min_drop) if on else 0
        check(close(p, exp), 'penalty of a partial layout')
    return p


def p_structure(drop, sst, plies, min_drop, w):
    """panels in any order, some with the same ply count"""
    c = cons('BELLA', sym=False, pdl_spacing=True, min_drop=min_drop)
    n = len(plies)
    panels = []
    d = dict()
    for i in range(n):
        nb = [i + 2] if i + 1 < n else []
        panels.append(Panel(ID=i + 1, constraints=c, n_plies=plies[i], neighbour_panels=nb))
        if nb:
            d[(i + 1, i + 2)] = w[i]
    mp = MultiPanel(panels, boundary_weights=d)
    q = sorted(set(plies))
    t = layout(drop, sst, len(q))
    for i in range(len(q)):
        assume((t[i] != -1).any())
    full = np.zeros((n, drop.size), int)
    for i in range(n):
        full[i] = t[q.index(plies[i])]
    exp = 0.0
    for i in range(n - 1):
        a, b = sorted((q.index(plies[i]), q.index(plies[i + 1])))
        if a != b:
            exp = exp + expected(t, [(a, b)], [w[i]], min_drop)
    full0 = np.copy(full)
    p = calc_penalty_spacing(full, mp, c)
    check(close(p, exp), 'penalty of a structure')
    check((full == full0).all(), 'layout modified')
    return p


def p_same(pdl1, pdl2, known, ref, thin):
    n = len(pdl1)
    a = [pdl1[i] if known[i] else None for i in range(n)]
    b = [pdl2[i] for i in range(n)]
    same = True
    for i in range(n):
        if known[i] and (not thin or i < ref):
            same = same and (pdl1[i] == pdl2[i]).all()
    check(is_same_pdl(a, b, ref, thick_to_thin=thin) == same, 'same layouts')
    return same
